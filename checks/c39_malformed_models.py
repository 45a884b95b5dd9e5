"""C39: malformed risk and exposure models are rejected"""
import os
import models
from roundtrip import (
    csv_text, fill_archive, new_archive, contents, PREFIXES)
from scale import big as make_big
from openquake.commonlib.converter import Converter
from openquake.commonlib.csvmanager import CSVManager

RULE = ('a random vulnerability, fragility, exposure or gmf model is damaged in one place, '
        'as a document or as CSV files, and each of the conversions must '
        'fail; the undamaged model is converted too; the signature is the '
        'damaged content')
GENERATORS = [models.vulnerability, models.fragility_discrete,
              models.fragility_continuous, models.exposure, models.gmf]
REQUIRE = ['good models', 'big models', 'documents kept',
           'documents not created']
XML, CSV = [], []


def damage(where, *kinds):
    def add(func):
        where.append((func, kinds))
        REQUIRE.append(func.__name__.replace('_', ' '))
        return func
    return add


class Skip(Exception):
    "The damage is not possible in this model"


def pick(rnd, items):
    items = list(items)
    if not items:
        raise Skip
    return rnd.choice(items)


def walk(elem, *tags):
    for child in elem.children:
        if child.tag in tags:
            yield child
        for e in walk(child, *tags):
            yield e


# ------------------------- damages in a document ------------------------- #

@damage(XML, 0, 1)
def missing_number(rnd, elem):
    "A list has one number less than the others"
    lst = pick(rnd, (e for e in walk(
        elem, 'IML', 'lossRatio', 'coefficientsVariation', 'poEs')
        if e.text is not None))
    nums = lst.text.split()
    if len(nums) == 1:  # an empty list
        raise Skip
    del nums[rnd.choice([0, -1, rnd.randrange(len(nums))])]
    lst.text = ' '.join(nums)


@damage(XML, 0, 1)
def additional_number(rnd, elem):
    lst = pick(rnd, (e for e in walk(
        elem, 'IML', 'lossRatio', 'coefficientsVariation', 'poEs')
        if e.text is not None))
    if lst.tag == 'IML':
        lst.text += ' ' + rnd.choice(['99', '1E3'])
    else:
        lst.text += rnd.choice([' 0', ' 1', ' .5', ' 0 0'])


def functions(elem):
    "The ffs elements with their functions"
    for ffs in walk(elem, 'ffs'):
        yield ffs, [e for e in ffs.children if e.tag in ('ffd', 'ffc')]


@damage(XML, 1, 2)
def missing_function(rnd, elem):
    "A limit state has no function"
    ffs, funs = pick(rnd, functions(elem))
    ffs.children.remove(rnd.choice([funs[0], funs[-1], rnd.choice(funs)]))


@damage(XML, 1, 2)
def additional_function(rnd, elem):
    "There are more functions than limit states"
    ffs, funs = pick(rnd, functions(elem))
    old = rnd.choice(funs)
    name = rnd.choice([old.attrs[0][1], 'another', 'LS99'])
    ffs.children.append(models.E(old.tag, [('ls', name)], *old.children))


@damage(XML, 1, 2)
def swapped_functions(rnd, elem):
    ffs, funs = pick(rnd, functions(elem))
    if len(funs) == 1:
        raise Skip
    i, j = sorted(rnd.sample([ffs.children.index(f) for f in funs], 2))
    ffs.children[i], ffs.children[j] = ffs.children[j], ffs.children[i]


@damage(XML, 1, 2)
def misnamed_function(rnd, elem):
    "The limit state of a function is not in the list"
    ffs, funs = pick(rnd, functions(elem))
    fun = rnd.choice(funs)
    name = fun.attrs[0][1]
    fun.attrs = [('ls', rnd.choice([name + '_', name.swapcase(), 'another',
                                    name + name, name[:-1]]))]


@damage(XML, 0)
def repeated_function_id(rnd, elem):
    vset = pick(rnd, walk(elem, 'discreteVulnerabilitySet'))
    funs = [e for e in vset.children if e.tag == 'discreteVulnerability']
    vset.children.append(rnd.choice(funs))


def attr(elem, name, value=None):
    "Read or change an attribute"
    if value is None:
        return dict(elem.attrs).get(name)
    elem.attrs = [(k, value if k == name else v) for k, v in elem.attrs]


def copy_of(elem):
    return models.E(elem.tag, elem.attrs, *map(copy_of, elem.children),
                    text=elem.text)


def similar(rnd, elem, **others):
    "The same element, possibly with other values of the given attributes"
    new = copy_of(elem)
    for name, values in others.items():
        if rnd.random() < .5 and attr(new, name) is not None:
            attr(new, name, rnd.choice(values))
    return new


@damage(XML, 3)
def repeated_asset(rnd, elem):
    [assets] = walk(elem, 'assets')
    asset = similar(rnd, pick(rnd, assets.children), taxonomy=['another'],
                    number=['17'], area=['1234'])
    if rnd.random() < .5:
        asset.children[1:] = []  # without costs and occupancies
    assets.children.insert(rnd.randint(0, len(assets.children)), asset)


@damage(XML, 3)
def unknown_cost_type(rnd, elem):
    cost = pick(rnd, walk(elem, 'cost'))
    attr(cost, 'type', rnd.choice(['unknown', attr(cost, 'type') + '_']))


@damage(XML, 3)
def repeated_cost(rnd, elem):
    costs = pick(rnd, walk(elem, 'costs'))
    costs.children.append(similar(
        rnd, rnd.choice(costs.children), value=['123', '0'],
        retrofitted=['4'], deductible=['.5'], insuranceLimit=['1E2']))


@damage(XML, 3)
def repeated_period(rnd, elem):
    occupancies = pick(rnd, walk(elem, 'occupancies'))
    new = similar(rnd, rnd.choice(occupancies.children), occupants=['99'])
    occupancies.children.append(new)


@damage(XML, 3)
def repeated_cost_type(rnd, elem):
    costtypes = pick(rnd, walk(elem, 'costTypes'))
    costtypes.children.append(similar(
        rnd, rnd.choice(costtypes.children), type=models.KIND, unit=['XYZ']))


@damage(XML, 4)
def repeated_field(rnd, elem):
    sets = [elem] if elem.tag == 'gmfSet' else walk(elem, 'gmfSet')
    gmfset = pick(rnd, sets)
    new = copy_of(rnd.choice(gmfset.children))
    if rnd.random() < .5:
        attr(new.children[0], 'lon', '77.5')
        del new.children[1:]
    gmfset.children.append(new)


@damage(XML, 4)
def repeated_site(rnd, elem):
    gmf_ = pick(rnd, walk(elem, 'gmf'))
    new = similar(rnd, rnd.choice(gmf_.children), gmv=['0.123'])
    gmf_.children.append(new)


@damage(XML, 4)
def repeated_set(rnd, elem):
    if elem.tag == 'gmfSet':
        raise Skip
    new = similar(rnd, rnd.choice(elem.children), investigationTime=['77'])
    if rnd.random() < .5:
        attr(new.children[0], 'ruptureId', 'another rupture')
        del new.children[1:]
    elem.children.append(new)


@damage(XML, 4)
def other_damping(rnd, elem):
    "The records have no place for it"
    fields = [gmf_ for gmf_ in walk(elem, 'gmf') if attr(gmf_, 'IMT') == 'SA']
    attr(pick(rnd, fields), 'saDamping', rnd.choice(
        ['10', '2', '0', '5.5', '4.999', '50', '-5']))


# -------------------------- damages in CSV files ------------------------- #

def table(tables, name):
    [rows] = [t[2] for t in tables if t[0] == name]
    return rows


def shared_rows(rows):
    "The indices of the data rows of sets with more than one function"
    funs = {}
    for row in rows:
        funs.setdefault(row[0], set()).add(row[1])
    return [i for i, row in enumerate(rows) if len(funs[row[0]]) > 1]


def vf_groups(rows):
    out = {}
    for i, row in enumerate(rows):
        out.setdefault((row[0], row[1]), []).append(i)
    return out


@damage(CSV, 0)
def missing_level(rnd, tables):
    "A function has not one of the levels of the others"
    rows = table(tables, 'DiscreteVulnerabilityData')
    groups = vf_groups(rows)
    i = pick(rnd, [i for i in shared_rows(rows)
                   if len(groups[tuple(rows[i][:2])]) > 1])
    del rows[i]


@damage(CSV, 0)
def different_level(rnd, tables):
    rows = table(tables, 'DiscreteVulnerabilityData')
    i = pick(rnd, shared_rows(rows))
    old = float(rows[i][2])
    rows[i][2] = '%r' % (old + rnd.choice([1e-6, -1e-6, .001]) * old)


@damage(CSV, 0)
def unsorted_levels(rnd, tables):
    rows = table(tables, 'DiscreteVulnerabilityData')
    group = pick(rnd, [g for g in vf_groups(rows).values() if len(g) > 1])
    set_id = rows[group[0]][0]
    i, j = sorted(rnd.sample(range(len(group)), 2))
    for (sid, _fid), g in vf_groups(rows).items():
        if sid == set_id:
            rows[g[i]], rows[g[j]] = rows[g[j]], rows[g[i]]


@damage(CSV, 0)
def refused_numbers(rnd, tables):
    "Numbers which are not accepted by risklib"
    row = rnd.choice(table(tables, 'DiscreteVulnerabilityData'))
    how = rnd.randrange(3)
    if how == 0:
        row[3] = rnd.choice(models.ZEROS)
        row[4] = rnd.choice(['0.1', '1', '1e-9'])
    elif how == 1:
        row[4] = rnd.choice(['-0.1', '-1', '-1e-9'])
    else:  # the first levels
        row[:] = row[:2] + ['-1', '0.5', '0.5']


@damage(CSV, 1)
def missing_probability(rnd, tables):
    "A level is missing for one of the limit states"
    if len(table(tables, 'FFLimitStateDiscrete')) == 1:
        raise Skip
    rows = table(tables, 'FFDataDiscrete')
    del rows[rnd.randrange(len(rows))]


@damage(CSV, 1)
def different_level_of_a_state(rnd, tables):
    if len(table(tables, 'FFLimitStateDiscrete')) == 1:
        raise Skip
    row = rnd.choice(table(tables, 'FFDataDiscrete'))
    old = float(row[2])
    row[2] = '%r' % (old + rnd.choice([1e-6, -1e-6, .001]) * old)


@damage(CSV, 1)
def not_a_probability(rnd, tables):
    row = rnd.choice(table(tables, 'FFDataDiscrete'))
    row[3] = rnd.choice(['1.01', '-0.01', '2', '', 'x', 'nan'])


def state_rows(tables):
    "Rows by set and limit state; the state is in the first column"
    rows = table(tables, [t[0] for t in tables if 'FFData' in t[0]][0])
    groups = {}
    for row in rows:
        groups.setdefault((row[1], row[0]), []).append(row)
    return rows, groups


@damage(CSV, 1, 2)
def missing_state(rnd, tables):
    "All the rows of a limit state are missing"
    rows, groups = state_rows(tables)
    group = groups[rnd.choice(sorted(groups))]
    rows[:] = [r for r in rows if not any(r is x for x in group)]


@damage(CSV, 1, 2)
def unknown_state(rnd, tables):
    rows, groups = state_rows(tables)
    key = rnd.choice(sorted(groups))
    new = rnd.choice(['another', key[1] + '_', key[1].swapcase(), ''])
    for row in groups[key]:
        row[0] = new


@damage(CSV, 1, 2)
def exchanged_states(rnd, tables):
    rows, groups = state_rows(tables)
    n = rnd.choice(sorted(groups))[0]
    keys = [k for k in groups if k[0] == n]
    if len(keys) == 1:
        raise Skip
    a, b = rnd.sample(sorted(keys), 2)
    for row in groups[a]:
        row[0] = b[1]
    for row in groups[b]:
        row[0] = a[1]


@damage(CSV, 2)
def missing_parameter(rnd, tables):
    rows = table(tables, 'FFDataContinuous')
    del rows[rnd.randrange(len(rows))]


@damage(CSV, 2)
def wrong_parameter(rnd, tables):
    row = rnd.choice(table(tables, 'FFDataContinuous'))
    if rnd.random() < .5:
        row[2] = rnd.choice(['median', 'Mean', ''])
    else:
        row[3] = rnd.choice(['-1', '-0.5', 'x', '', '0', '0.0', '-0', 'nan'])


def remove_group(rnd, rows, key):
    "Remove all the rows with the same key as one of them"
    groups = sorted(set(key(r) for r in rows))
    if len(groups) == 1:
        raise Skip
    lost = rnd.choice([groups[0], groups[-1], rnd.choice(groups)])
    rows[:] = [r for r in rows if key(r) != lost]


@damage(CSV, 0)
def function_without_data(rnd, tables):
    remove_group(rnd, table(tables, 'DiscreteVulnerabilityData'),
                 lambda r: tuple(r[:2]))


@damage(CSV, 0)
def set_without_functions(rnd, tables):
    if rnd.random() < .5:
        rows = table(tables, 'DiscreteVulnerabilitySet')
        new = rnd.choice(rows)[:]
        new[0] += rnd.choice(['x', '_', '1'])
        if new[0] in [r[0] for r in rows]:
            raise Skip
        rows.insert(rnd.randint(0, len(rows)), new)
    else:
        rows = table(tables, 'DiscreteVulnerability')
        remove_group(rnd, rows, lambda r: r[0])
        left = set(r[0] for r in rows)
        data = table(tables, 'DiscreteVulnerabilityData')
        data[:] = [r for r in data if r[0] in left]


@damage(CSV, 4)
def field_without_data(rnd, tables):
    remove_group(rnd, table(tables, 'GmfData'), lambda r: tuple(r[:3]))


@damage(CSV, 4)
def interleaved_fields(rnd, tables):
    "The rows of a field are not together"
    rows = table(tables, 'GmfData')
    keys = [tuple(r[:3]) for r in rows]
    long_ = [k for k in set(keys) if keys.count(k) > 1]
    if not long_ or len(set(keys)) == 1:
        raise Skip
    row = rows[keys.index(rnd.choice(sorted(long_)))]
    rows.remove(row)
    rows.insert(rnd.choice([0, len(rows)]), row)
    keys = [tuple(r[:3]) for r in rows]
    if sum(1 for a, b in zip(keys, keys[1:]) if a != b) < len(set(keys)):
        raise Skip


@damage(CSV, 4)
def set_without_fields(rnd, tables):
    rows = table(tables, 'GmfSet')
    new = rnd.choice(rows)[:]
    new[0] = '999'
    rows.insert(rnd.randint(0, len(rows)), new)


@damage(CSV, 4)
def sets_without_collection(rnd, tables):
    rows = table(tables, 'GmfCollection')
    if not rows or len(table(tables, 'GmfSet')) == 1:
        raise Skip
    del rows[:]


@damage(CSV, 1, 2, 3, 4)
def several_models(rnd, tables):
    "More than one record describing the whole model"
    name = pick(rnd, [t[0] for t in tables if t[0] in (
        'FragilityDiscrete', 'FragilityContinuous', 'Exposure',
        'GmfCollection') and t[2]])
    rows = table(tables, name)
    new = rows[0][:]
    if rnd.random() < .7:
        new[0] += '_'
    rows.insert(rnd.randint(0, 1), new)


# -------------------------------- the checks ----------------------------- #

def generate(rnd, kinds, func, pos, gen=lambda g: g):
    "A model with the given damage; some of them are not possible"
    for _ in range(40):
        content = gen(GENERATORS[rnd.choice(kinds)])(rnd)
        try:
            func(rnd, content[pos])
            return content
        except Skip:
            pass
    raise RuntimeError('no model for ' + func.__name__)


def save(obs, elem, rnd):
    fname = os.path.join(obs.scratch, 'model.xml')
    with open(fname, 'w') as f:
        f.write(models.document(elem, rnd))
    return fname


def documents(rnd, obs, gen=lambda g: g):
    func, kinds = XML[obs.index % len(XML)]
    elem, _canon, _tables = generate(rnd, kinds, func, 0, gen)
    fname = save(obs, elem, rnd)
    obs.note(func.__name__, models.document(elem, rnd))
    man = CSVManager(new_archive(rnd, obs, 'csv'), 'x')
    for convert in (Converter.from_nrml, man.convert_from_nrml):
        obs.raises(Exception, lambda: convert(fname), 'not-rejected',
                   func.__name__, convert)
        if convert == Converter.from_nrml:
            obs.ev(func.__name__.replace('_', ' '))
    obs.nontrivial(func.__name__, models.canon_elem(elem))
    obs.sample((func.__name__, models.canon_elem(elem)))


def csv_files(prefix, tables, rnd):
    return dict(('%s__%s.csv' % (prefix, name), csv_text(header, rows, rnd))
                for name, header, rows in tables if rows)


def tables_(rnd, obs, gen=lambda g: g):
    func, kinds = CSV[obs.index % len(CSV)]
    _elem, _canon, tables = generate(rnd, kinds, func, 2, gen)
    prefix = rnd.choice(PREFIXES)
    files = csv_files(prefix, tables, rnd)
    obs.note(func.__name__, sorted(files.items()))
    archive = fill_archive(rnd, obs, files)
    previous = {}
    if rnd.random() < .5:
        out, other = archive, ()
    else:
        out = new_archive(rnd, obs, 'out')
        other = (out,)
    if rnd.random() < .7:  # there is a document already
        previous[prefix + '.xml'] = 'the previous document'
        with out.open(prefix + '.xml', 'w') as f:
            f.write(previous[prefix + '.xml'])
        out.close()

    def to_node():
        models.canon_node(CSVManager(archive, prefix).convert_to_node())

    def to_nrml():
        CSVManager(archive, prefix).convert_to_nrml(*other)
    for convert in (to_node, to_nrml):
        obs.raises(Exception, convert, 'not-rejected', func.__name__,
                   convert.__name__)
    docs = dict((n, t) for n, t in contents(out).items()
                if n.endswith('.xml'))
    obs.eq(docs, previous, 'document-after-failure', func.__name__)
    obs.ev('documents kept' if previous else 'documents not created')
    obs.ev(func.__name__.replace('_', ' '))
    obs.nontrivial(func.__name__, sorted(files.items()))
    obs.sample((func.__name__, sorted(files.items())))


def good(rnd, obs):
    "Nothing is wrong"
    elem, canon, tables = rnd.choice(GENERATORS)(rnd)
    Converter.from_nrml(save(obs, elem, rnd))
    prefix = rnd.choice(PREFIXES)
    files = csv_files(prefix, tables, rnd)
    node = CSVManager(fill_archive(rnd, obs, files), prefix).convert_to_node()
    got = models.canon_node(node)
    obs.check(got == canon, 'good-model', models.diff(got, canon)
              if got != canon else '')
    obs.ev('good models')
    obs.nontrivial(canon)


def big(rnd, obs):
    "Damages in big models"
    rnd.choice([documents, tables_])(rnd, obs, models.big)
    obs.ev('big models')


FAMILIES = [('big', big, 10, 150),
            ('documents', documents, 300, 5000),
            ('tables', tables_, 400, 7000),
            ('good', good, 40, 500)]
