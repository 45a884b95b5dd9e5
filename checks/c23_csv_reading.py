"""C23: what is written in CSV files is read back, mistakes are detected"""
import models
from scale import scale, big as make_big
from openquake.nrmllib import InvalidFile
from openquake.commonlib import record, records
from openquake.commonlib.csvmanager import (
    CSVManager, MemArchive, NotInArchive, MultipleManagerError, create_table,
    mkarchive)
from roundtrip import (
    csv_text, fill_archive, new_archive, contents, parse_csv, check_tables,
    check_node, PREFIXES)

RULE = ('CSV files of random risk models and of records with random texts, '
        'read and written by a manager on the three kinds of archives; then '
        'files with a wrong header, duplicated records, dangling references, '
        'mixed groups; the signature is the content of the files')
REQUIRE = ['written records', 'records', 'wrong headers', 'duplicates',
           'dangling references', 'mixed groups', 'empty archives',
           'wrong number of columns', 'files without records',
           'archives of kind mem', 'archives of kind dir',
           'archives of kind zip', 'big models']
RECTYPES = sorted(
    (rt for rt in vars(records).values()
     if isinstance(rt, record.MetaRecord) and rt.__module__ ==
     'openquake.commonlib.records'), key=lambda rt: rt.__name__)
TEXTS = ['', 'a', ' ', ' padded ', 'a,b', '"', '""', 'say "hi"', "o'hara",
         'two\nlines', '\n', 'tab\there', ';', '#', '0', '-1.5e3', ',',
         'back\\slash', '%s', 'x' * 300,
         'Citt\xc3\xa0', '\xe4\xb8\xad\xe2\x82\xac']


def unique_rows(rnd, rt, n):
    "n rows of random text with different keys"
    rows = []
    while len(rows) < n:
        row = [rnd.choice(TEXTS) for _ in rt.fieldnames]
        for u in rt.get_descriptors(record.Unique):
            row[rt.fieldnames.index(u.names[0])] += str(len(rows))
        rows.append(row)
    if rnd.random() < .15:  # a single row can have an empty key
        rows[rnd.randrange(n)] = [''] * len(row)
    return rows


def written(rnd, obs):
    prefix = rnd.choice(PREFIXES)
    archive = new_archive(rnd, obs, 'out')
    header = rnd.random() < .8
    man = CSVManager(archive, prefix, has_header=header)
    rows = {}
    todo = []
    for rt in rnd.sample(RECTYPES, rnd.choice([1, 2, 4])):
        rows[rt] = unique_rows(rnd, rt, scale(rnd, [1, 1, 2, 10], [150, 700]))
        todo.append([rt(*row) for row in rows[rt]])
    with man as m:
        obs.check(m is man, 'enter')
        while todo:  # interleaved
            lst = rnd.choice(todo)
            man.write(lst.pop(0))
            obs.ev('written records')
            if not lst:
                todo.remove(lst)
    files = contents(archive)
    obs.eq(sorted(files), sorted('%s__%s.csv' % (prefix, rt.__name__)
                                 for rt in rows), 'written-files')
    for rt in rows:
        expected = ([rt.fieldnames] if header else []) + rows[rt]
        text = files['%s__%s.csv' % (prefix, rt.__name__)]
        obs.eq(parse_csv(text), expected, 'written-content', rt.__name__)
    if archive.__class__.__name__ != 'MemArchive' and rnd.random() < .5:
        archive = mkarchive(archive.name, 'r')
    man = CSVManager(archive, prefix, has_header=header)
    for _ in range(2):
        for rt in rows:
            got = list(man.read(rt))
            obs.eq([type(r) for r in got], [rt] * len(rows[rt]),
                   'read-type')
            obs.eq([list(r) for r in got], rows[rt], 'read-rows')
            table = man.readtable(rt)
            obs.eq([list(r) for r in table], rows[rt], 'read-table')
    # two readers at the same time
    rt = rnd.choice(rows.keys())
    pairs = zip(man.read(rt), man.read(rt))
    obs.eq([(list(a), list(b)) for a, b in pairs],
           [(r, r) for r in rows[rt]], 'two-readers')
    missing = [t for t in RECTYPES if t not in rows]
    obs.raises(NotInArchive, lambda: list(man.read(missing[0])),
               'missing-file')
    obs.nontrivial(prefix, header, sorted(files.items()))


def model_files(rnd, prefix, gen=None):
    kind = None
    if gen is None:
        kind, gen = rnd.choice(models.ALL)
    elem, canon, tables = gen(rnd)
    files = {}
    for name, header, rows in tables:
        if rows:
            files['%s__%s.csv' % (prefix, name)] = csv_text(header, rows, rnd)
    return canon, tables, files


def good(rnd, obs):
    prefix = rnd.choice(PREFIXES)
    canon, tables, files = model_files(rnd, prefix)
    for name, header, rows in tables:
        if not rows:
            text = rnd.choice([None, '', csv_text(header, [])])
            if text is not None:
                files['%s__%s.csv' % (prefix, name)] = text
                obs.ev('files without records')
    for name in rnd.sample(['readme.txt', 'x.xml', 'a.csv',
                            'other__Unknown.csv'], rnd.choice([0, 1, 2])):
        files[name] = 'something else'
    archive = fill_archive(rnd, obs, files)
    obs.note(sorted(files.items()))
    man = CSVManager(archive, prefix)
    for _ in range(rnd.choice([1, 2])):
        check_tables(obs, man.get_tableset(), tables, 'read')
        check_node(obs, man.convert_to_node(), canon, 'node')
    if rnd.random() < .3:  # with text instead of an archive
        name, header, rows = rnd.choice([t for t in tables if t[2]])
        table = create_table(getattr(records, name), csv_text(None, rows))
        obs.eq([list(r) for r in table], rows, 'create-table')
    obs.nontrivial(sorted(files.items()))
    obs.sample(sorted(files.items())[:3])


def wrong_header(rnd, header):
    how = rnd.randrange(7)
    new = header[:]
    i = rnd.randrange(len(new))
    if how == 0:
        new[i] = new[i].swapcase()
    elif how == 1:
        new[i] += rnd.choice([' ', '_', 's'])
    elif how == 2:
        new.append(rnd.choice(['', 'extra']))
    elif how == 3:
        del new[i]
    elif how == 4:
        new.insert(i, rnd.choice(['', 'extra']))
    elif how == 5:
        new.reverse()
    else:
        new[i] = ''
    return new if new != header else header + ['x']


def bad_header(rnd, obs):
    prefix = rnd.choice(PREFIXES)
    canon, tables, files = model_files(rnd, prefix)
    name, header, rows = rnd.choice([t for t in tables if t[2]])
    fname = '%s__%s.csv' % (prefix, name)
    if rnd.random() < .2:
        header = None  # missing
    else:
        header = wrong_header(rnd, header)
    files[fname] = csv_text(header, rows, rnd)
    if not files[fname].strip():
        return
    obs.note(fname, files[fname])
    archive = fill_archive(rnd, obs, files)
    man = CSVManager(archive, prefix)
    rt = getattr(records, name)
    for func in (man.convert_to_node, man.get_tableset, man.find_invalid,
                 man.convert_to_nrml, lambda: man.readtable(rt),
                 lambda: list(man.read(rt))):
        exc = obs.raises(InvalidFile, func, 'wrong-header', func)
        obs.check(fname in str(exc), 'file-in-the-message', exc)
        obs.ev('wrong headers')
    obs.nontrivial(fname, files[fname])


def duplicates(rnd, obs):
    prefix = rnd.choice(PREFIXES)
    canon, tables, files = model_files(rnd, prefix)
    name, header, rows = rnd.choice([t for t in tables if t[2]])
    rt = getattr(records, name)
    unique = rnd.choice(rt.get_descriptors(record.Unique))
    row = rnd.choice(rows)[:]
    for i, col in enumerate(header):
        # change what is not in the key
        if col not in unique.names and rnd.random() < .5 and (
                col != 'location_id'):
            row[i] = rnd.choice([row[i], '1', '0'])
    keys = [[r[header.index(c)] for c in unique.names] for r in rows]
    key = [row[header.index(c)] for c in unique.names]
    obs.check(key in keys, 'harness')
    if name.startswith('DiscreteVulnerability'):
        row = rnd.choice(rows)[:]  # keep the references
    rows.insert(rnd.randint(0, len(rows)), row)
    files['%s__%s.csv' % (prefix, name)] = csv_text(header, rows, rnd)
    obs.note(name, files)
    archive = fill_archive(rnd, obs, files)
    man = CSVManager(archive, prefix)
    for func in (man.get_tableset, man.convert_to_node,
                 lambda: man.readtable(rt)):
        exc = obs.raises(KeyError, func, 'duplicate', func)
        obs.check(name in str(exc), 'type-in-the-message', exc)
        obs.ev('duplicates')
    obs.nontrivial(sorted(files.items()))


def dangling(rnd, obs):
    prefix = rnd.choice(PREFIXES)
    canon, tables, files = model_files(rnd, prefix, models.vulnerability)
    k = rnd.choice([1, 2])  # child table
    name, header, rows = tables[k]
    row = rnd.choice(rows)[:]
    cols = ['vulnerabilitySetID', 'vulnerabilityFunctionID'][:k]
    col = header.index(rnd.choice(cols))
    parents = set(tuple(r[:k]) for r in tables[k - 1][2])
    old = row[col]
    while tuple(row[:k]) in parents:
        row[col] = rnd.choice(['', 'missing', old + ' ', old + '0',
                               old.lower() + '_'])
    rows.insert(rnd.randint(0, len(rows)), row)
    files['%s__%s.csv' % (prefix, name)] = csv_text(header, rows, rnd)
    archive = fill_archive(rnd, obs, files)
    man = CSVManager(archive, prefix)
    for func in (man.get_tableset, man.convert_to_node):
        obs.raises(record.ForeignKeyError, func, 'dangling', func, row)
        obs.ev('dangling references')
    if rnd.random() < .5:  # the whole parent table is missing
        rows.remove(row)
        files['%s__%s.csv' % (prefix, name)] = csv_text(header, rows, rnd)
        del files['%s__%s.csv' % (prefix, tables[k - 1][0])]
        man = CSVManager(fill_archive(rnd, obs, files, 'arch2'), prefix)
        obs.raises(record.ForeignKeyError, man.convert_to_node,
                   'missing-parents')
        obs.ev('dangling references')
    obs.nontrivial(sorted(files.items()))


REFERENCES = [  # child, column, parent, column
    ('Asset', 'location_id', 'Location', 'id'),
    ('Occupancy', 'asset_ref', 'Asset', 'asset_ref'),
    ('Cost', 'asset_ref', 'Asset', 'asset_ref'),
    ('Cost', 'type', 'CostType', 'name'),
    ('GmfData', 'stochasticEventSetId', 'GmfSet', 'stochasticEventSetId'),
    ('FFDataDiscrete', 'ffs_ordinal', 'FFSetDiscrete', 'ordinal'),
    ('FFDataDiscrete', 'limitState', 'FFLimitStateDiscrete', 'limitState'),
    ('FFDataContinuous', 'ffs_ordinal', 'FFSetContinuous', 'ordinal'),
    ('FFDataContinuous', 'limitState', 'FFLimitStateContinuous',
     'limitState')]


def lost(rnd, obs):
    "References to what is not there, in the models of any kind"
    prefix = rnd.choice(PREFIXES)
    child, col, parent, pcol = REFERENCES[obs.index % len(REFERENCES)]
    for _ in range(4000):
        canon, tables, files = model_files(rnd, prefix)
        rows = dict((t[0], t[2]) for t in tables)
        if rows.get(child) and rows.get(parent):
            break
    else:
        obs.check(False, 'harness')
    headers = dict((t[0], t[1]) for t in tables)
    c, p = headers[child].index(col), headers[parent].index(pcol)
    known = set(r[p] for r in rows[parent])
    old = rnd.choice(rows[child])
    row = old[:]
    while row[c] in known:
        row[c] = rnd.choice(['77', '0' + old[c], old[c] + '0', old[c] + ' ',
                             'missing', ''])
    if rnd.random() < .5:  # an additional row
        rows[child].insert(rnd.randint(0, len(rows[child])), row)
    else:
        old[:] = row
    files['%s__%s.csv' % (prefix, child)] = csv_text(
        headers[child], rows[child], rnd)
    obs.note(child, col, row, files)
    man = CSVManager(fill_archive(rnd, obs, files), prefix)
    for func in (lambda: models.canon_node(man.convert_to_node()),
                 lambda: man.convert_to_nrml(MemArchive([]))):
        obs.raises(Exception, func, 'dangling', child, col, row)
    obs.ev('references from %s by %s' % (child, col))
    obs.nontrivial(sorted(files.items()))


REQUIRE.extend('references from %s by %s' % ref[:2] for ref in REFERENCES)


def mixed(rnd, obs):
    n = rnd.choice([0, 2, 3])
    prefixes = rnd.sample(PREFIXES, n)
    files = {}
    for p in prefixes:
        files.update(model_files(rnd, p)[2])
    if rnd.random() < .5:
        files['notes.csv'] = 'a,b'
        files['a__b.txt'] = 'a,b'
    archive = fill_archive(rnd, obs, files, kinds=['mem', 'dir'])
    man = CSVManager(archive, (prefixes + ['x'])[0])
    exc = MultipleManagerError if n else NotInArchive
    obs.raises(exc, man.convert_to_node, 'mixed', sorted(files))
    obs.raises(exc, man.get_tableset, 'mixed', sorted(files))
    if n:  # the groups can still be read
        obs.eq(man.find_invalid(), [], 'find-invalid')
        obs.ev('mixed groups')
    else:
        obs.ev('empty archives')
    obs.nontrivial(sorted(files.items()))


def wrong_prefix(rnd, obs):
    "There are files, but not with the given prefix"
    prefix, other = rnd.sample(PREFIXES + [''], 2)
    _canon, _tables, files = model_files(rnd, prefix)
    man = CSVManager(fill_archive(rnd, obs, files), other)
    for func in (man.convert_to_node, man.get_tableset):
        obs.raises(NotInArchive, func, 'wrong-prefix', other, sorted(files))
    obs.ev('wrong prefixes')
    obs.nontrivial(other, sorted(files.items()))


REQUIRE.append('wrong prefixes')


def columns(rnd, obs):
    "The number of columns in a row"
    rt = rnd.choice(RECTYPES)
    [row] = unique_rows(rnd, rt, 1)
    prefix = rnd.choice(PREFIXES)
    name = '%s__%s.csv' % (prefix, rt.__name__)
    long_row = row + [rnd.choice(['', 'x'])]
    man = CSVManager(fill_archive(rnd, obs, {
        name: csv_text(rt.fieldnames, [row, long_row], rnd)}), prefix)
    it = man.read(rt)
    obs.eq(list(it.next()), row, 'first-row')
    obs.raises(Exception, it.next, 'too-many-columns', long_row)
    obs.raises(Exception, man.find_invalid, 'too-many-columns', long_row)
    if len(row) > 1:
        k = rnd.randint(1, len(row) - 1)
        man = CSVManager(fill_archive(rnd, obs, {
            name: csv_text(rt.fieldnames, [row[:k]], rnd)}, 'b'), prefix)
        obs.eq([list(r) for r in man.read(rt)],
               [row[:k] + [f.default for f in rt.fields[k:]]],
               'too-few-columns')
    obs.ev('wrong number of columns')
    obs.nontrivial(row)


def big(rnd, obs):
    "The same, with big models and long files"
    scenario = rnd.choice([written, good, duplicates, dangling])
    make_big(scenario)(rnd, obs)
    obs.ev('big models')


FAMILIES = [('big', big, 12, 150),
            ('written', written, 150, 3000),
            ('good', good, 100, 2000),
            ('bad_header', bad_header, 100, 1500),
            ('duplicates', duplicates, 80, 1500),
            ('dangling', dangling, 80, 1500),
            ('lost', lost, 90, 1500),
            ('wrong_prefix', wrong_prefix, 25, 200),
            ('mixed', mixed, 40, 400),
            ('columns', columns, 60, 800)]
