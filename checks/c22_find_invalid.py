"""C22: the validation of CSV files reports all the invalid records"""
import models
from openquake.commonlib import record
from openquake.commonlib.csvmanager import CSVManager
from roundtrip import csv_text, fill_archive, PREFIXES

RULE = ('CSV files of random risk models where random cells are replaced by '
        'invalid values, in one or several groups, in the three kinds of '
        'archive and together with unrelated files; the signature is the '
        'list of the cells')
REQUIRE = ['invalid records', 'invalid cells', 'valid archives',
           'limited searches', 'archives of kind mem', 'archives of kind dir',
           'archives of kind zip', 'unrelated files', 'empty files',
           'big models']

NOT_INT = ['\xc3\xa9', '', 'x', '1.5', '1e3', '--1', '1 2', '0x1']
NOT_FLOAT = ['\xc3\xa9', '', 'abc', '1,5', '1 2', '1.2.3', '--1', '1e', '$5']
NEG = ['-1', '-0.001', '-1e9']
CATEGORY = ['\xc3\xa9', '', 'building', 'Population', 'population ', 'x']
BOOLEAN = ['\xc3\xa9', 'True', 'yes', '2', 'FALSE', ' 0', 't']
IMT = ['\xc3\xa9', '', 'SA', 'PG', 'pga', 'SA(x)', 'PGA ', 'XPGA', 'PGAX', 'SA()',
       'SA(0.1']
NAMES = ['\xc3\xa9', '', ' ', '1st', 'a-b', 'a 2b', 'a, b', 'slight mod!']
POSFLOAT = NOT_FLOAT + NEG + ['nan']
BAD = {  # record type -> column -> invalid values
    'DiscreteVulnerabilitySet': {'assetCategory': CATEGORY, 'IMT': IMT},
    'DiscreteVulnerability': {},
    'DiscreteVulnerabilityData': dict.fromkeys(
        ['IML', 'lossRatio', 'coefficientsVariation'], NOT_FLOAT),
    'FragilityDiscrete': {
        'format': ['', 'continuous', 'Discrete', 'discrete '],
        'limitStates': NAMES},
    'FFLimitStateDiscrete': {},
    'FFSetDiscrete': {
        'ordinal': NOT_INT, 'taxonomy': [''],
        'noDamageLimit': [v for v in POSFLOAT if v], 'IMT': IMT},
    'FFDataDiscrete': {
        'ffs_ordinal': NOT_INT, 'iml': NOT_FLOAT,
        'poe': NOT_FLOAT + NEG + ['1.0001', '2', '1e9', 'nan']},
    'FragilityContinuous': {
        'format': ['', 'discrete', 'CONTINUOUS'], 'limitStates': NAMES},
    'FFLimitStateContinuous': {},
    'FFSetContinuous': {
        'ordinal': NOT_INT, 'taxonomy': [''],
        'noDamageLimit': [v for v in POSFLOAT if v],
        'minIML': NOT_FLOAT, 'maxIML': NOT_FLOAT},
    'FFDataContinuous': {'ffs_ordinal': NOT_INT, 'value': NOT_FLOAT},
    'Location': {
        'id': NOT_INT + ['-1'],
        'lon': NOT_FLOAT + ['180.01', '-180.01', '1e5', '-181', 'nan'],
        'lat': NOT_FLOAT + ['90.01', '-90.01', '180', '-91', 'nan']},
    'Exposure': {
        'id': [''], 'category': CATEGORY,
        'area_type': ['per_area', 'x', 'Aggregated', ' '],
        'deductible_is_absolute': BOOLEAN,
        'insurance_limit_is_absolute': BOOLEAN},
    'CostType': {
        'type': ['', 'per_person', 'Aggregated', 'per_area '],
        'retrofittedType': ['per_person', 'x', ' ']},
    'Asset': {
        'location_id': NOT_INT + ['-1'], 'taxonomy': [''],
        'number': POSFLOAT, 'area': [v for v in POSFLOAT if v]},
    'Occupancy': {'occupants': POSFLOAT},
    'Cost': dict([('value', POSFLOAT)] + [
        (n, [v for v in POSFLOAT if v])
        for n in ('retrofitted', 'deductible', 'insurance_limit')]),
    'GmfCollection': {},
    'GmfSet': {'stochasticEventSetId': NOT_INT,
               'investigationTime': [v for v in NOT_FLOAT if v]},
    'Gmf': {'stochasticEventSetId': NOT_INT, 'imtStr': IMT},
    'GmfData': dict([('stochasticEventSetId', NOT_INT)] + [
        (n, NOT_FLOAT) for n in ('lon', 'lat', 'gmv')])}
UNRELATED = ['readme.txt', 'x.xml', 'plain.csv', 'mod__Unknown.csv',
             'mod__Location.txt', 'mod_Location.csv', 'mod__Location.csv.bak',
             'mod__valid.csv', 'mod__location.csv', 'Location.csv']


def spoil(rnd, tables, p):
    """
    Replace some cells; return the invalid ones as a dictionary
    (record type, row number) -> [(column, name)]
    """
    out = {}
    for name, header, rows in tables:
        for i, row in enumerate(rows):
            for c, col in enumerate(header):
                if col in BAD[name] and rnd.random() < p:
                    row[c] = rnd.choice(BAD[name][col])
                    out.setdefault((name, i), []).append((c, col))
    return out


def group(rnd, obs, prefix, files, bad, big=False):
    "Add to files the CSV files of a model and to bad the invalid records"
    _kind, gen = rnd.choice(models.ALL)
    _elem, _canon, tables = models.big(gen)(rnd) if big else gen(rnd)
    p = rnd.choice([0, 0, .02, .1, .5, 1])
    cells = spoil(rnd, tables, p)
    some = False
    for name, header, rows in tables:
        fname = '%s__%s.csv' % (prefix, name)
        if rows or rnd.random() < .3:
            if not rows and rnd.random() < .5:
                files[fname] = ''
                obs.ev('empty files')
            else:
                files[fname] = csv_text(header, rows, rnd)
            some = True
        for i, row in enumerate(rows):
            if (name, i) in cells:
                bad[fname, i] = (name, row, cells[name, i])
    obs.ev('invalid cells', sum(map(len, cells.values())))
    return some


def check_exc(obs, exc, fname, rowno, expected):
    name, row, cells = expected
    obs.check(isinstance(exc, record.InvalidRecord), 'error-type', exc)
    obs.eq((type(exc.record).__name__, list(exc.record)), (name, row),
           'reported-record', fname, rowno)
    obs.eq([f for f, _msg in exc.errorlist], [col for _c, col in cells],
           'reported-fields', fname, rowno, row)
    text = str(exc)
    rest = text
    for (c, col), (f, msg) in zip(cells, exc.errorlist):
        start = '%s[%s]: %d,%d: %s' % (fname, col, rowno, c, msg)
        obs.check(rest.startswith(start), 'message', text, start)
        rest = rest[len(start) + 1:]
    obs.eq(rest, '', 'message', text)


def key(exc):
    return exc.fname, exc.rowno


def search(rnd, obs, big=False):
    files, bad = {}, {}
    prefixes = rnd.sample(PREFIXES, rnd.choice([1, 1, 1, 2, 3]))
    for prefix in prefixes:
        group(rnd, obs, prefix, files, bad, big)
    for name in rnd.sample(UNRELATED, rnd.choice([0, 0, 1, 3])):
        if name not in files:
            files[name] = rnd.choice(['', 'x', 'a,b\n1,2\n', 'id,lon,lat\n'])
            obs.ev('unrelated files')
    obs.note(sorted(files.items()))
    archive = fill_archive(rnd, obs, files)
    man = CSVManager(archive, rnd.choice(['', prefixes[0], 'other']))
    for _ in range(rnd.choice([1, 2])):  # repeatable
        excs = man.find_invalid()
        keys = map(key, excs)
        obs.eq(sorted(keys), sorted(bad), 'invalid-records')
        by_file = {}
        for fname, rowno in keys:
            by_file.setdefault(fname, []).append(rowno)
        for fname, rownos in by_file.items():
            obs.eq(rownos, sorted(rownos), 'order-of-rows', fname)
        for exc in excs:
            check_exc(obs, exc, exc.fname, exc.rowno, bad[key(exc)])
    obs.ev('invalid records', len(bad))
    if not bad:
        obs.ev('valid archives')
    for limit in set([0, 1, len(bad), len(bad) + 3,
                      rnd.randint(0, len(bad))]):
        got = map(key, man.find_invalid(limit))
        obs.eq(len(got), min(limit, len(bad)), 'limit', limit, len(bad))
        obs.eq(got, keys[:limit], 'limited-records', limit)
        obs.ev('limited searches')
    obs.nontrivial(sorted(files), sorted(bad.items()))
    obs.sample(sorted(bad.items())[:4])


def big(rnd, obs):
    search(rnd, obs, True)
    obs.ev('big models')


FAMILIES = [('big', big, 10, 150),
            ('search', search, 400, 7000)]
