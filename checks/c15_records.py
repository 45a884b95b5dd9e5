"""C15: records: casting, validity, errors, equality"""
from openquake.commonlib import record, records
import rectypes as rt

RULE = ('random record types (and the ones shipped) with good and bad values '
        'in each column, judged by independent recognizers of each kind of '
        'field; the signature is (kinds, row)')
REQUIRE = ['records', 'valid records', 'invalid records', 'bad fields',
           'rejected assignments', 'accepted assignments', 'defaults used',
           'shipped records', 'constraints', 'records converted to nodes',
           'declarations: good', 'declarations: reserved',
           'declarations: no-key', 'declarations: repeated-key', 'many fields']


def same_value(a, b):
    if isinstance(b, tuple):
        return tuple(a) == b
    if isinstance(b, list):
        return list(a) == b
    return a == b and (type(a) is type(b) or isinstance(a, (int, long)))


def judge(obs, rec, cols, row, where='Rec', check_all=True):
    "Compare everything which is known about a record with the expectations"
    n = len(cols)
    obs.note([(c[0], c[1].name) for c in cols], row)
    obs.eq(len(rec), n, 'length')
    obs.eq(list(rec), row, 'content')
    obs.eq(str(rec), ','.join(row), 'str')
    good = [kind.ok(text) for (nam, kind, d), text in zip(cols, row)]
    for i, (nam, kind, d) in enumerate(cols):
        obs.eq(rec[i], row[i], 'getitem-index', i)
        obs.eq(rec[nam], row[i], 'getitem-name', nam)
        obs.check(rec.is_valid(i) is good[i], 'field-validity', nam,
                  kind.name, repr(row[i]), rec.is_valid(i))
        obs.check(rec.is_valid(nam) is good[i], 'field-validity', nam)
        if good[i]:
            obs.check(same_value(getattr(rec, nam), kind.value(row[i])),
                      'attribute', nam, getattr(rec, nam))
            obs.check(same_value(getattr(type(rec), nam)(rec),
                                 kind.value(row[i])), 'class-attribute', nam)
        else:
            obs.raises(ValueError, lambda: getattr(rec, nam),
                       'bad-attribute', nam)
    if check_all:
        obs.check(rec.is_valid() is all(good), 'record-validity', row, good)
    tup, exc = rec.cast()
    bad = [(i, c[0]) for i, c in enumerate(cols) if not good[i]]
    obs.ev('records')
    obs.ev('bad fields', len(bad))
    if bad:
        obs.check(tup is None and isinstance(exc, record.InvalidRecord),
                  'cast-invalid', tup, exc)
        obs.check(exc.record is rec, 'invalid-record')
        obs.eq([e[0] for e in exc.errorlist], [b[1] for b in bad],
               'errorlist')
        lines = ['%s[%s]: 0,%d: ' % (type(rec).__name__, nam, i)
                 for i, nam in bad]
        check_message(obs, str(exc), lines)
        exc.fname, exc.rowno = 'some.csv', 7
        lines = ['some.csv[%s]: 7,%d: ' % (nam, i) for i, nam in bad]
        check_message(obs, str(exc), lines)
        e = obs.raises(record.InvalidRecord, rec.to_tuple, 'to-tuple')
        obs.check(e.record is rec, 'to-tuple-record')
        obs.ev('invalid records')
    else:
        obs.check(exc is None and tup is not None, 'cast-valid', exc)
        obs.eq(tup._fields, tuple(c[0] for c in cols), 'tuple-fields')
        for got, text, (nam, kind, d) in zip(tup, row, cols):
            obs.check(same_value(got, kind.value(text)), 'cast-value', nam,
                      got, repr(text))
        obs.eq(rec.to_tuple(), tup, 'to-tuple')
        obs.ev('valid records')
    return bad


def check_message(obs, text, starts):
    pos = 0
    for start in starts:
        pos = text.find(start, pos)
        obs.check(pos >= 0, 'error-message', text, starts)
        pos += len(start)


def random_types(rnd, obs):
    n = None
    if rnd.random() < .01:
        n = rnd.choice([20, 70, 270])
        obs.ev('many fields')
    rectype, cols = rt.make_type(rnd, n=n)
    obs.eq(rectype.fieldnames, [c[0] for c in cols], 'fieldnames')
    obs.eq(len(rectype), len(cols), 'type-length')
    pbad = rnd.choice([0, .1, .5])
    for _ in range(2):
        row = [kind.gen(rnd, pbad) for nam, kind, d in cols]
        full = row[:]
        n = len(cols)
        how = rnd.randrange(4)
        if how == 0:
            rec = rectype(*row)
        elif how == 1:
            rec = rectype(**dict(zip([c[0] for c in cols], row)))
        else:  # some fields take the default
            k = rnd.randrange(n + 1)
            given = sorted(rnd.sample(range(n), k))
            if how == 2:
                given = range(k)
                rec = rectype(*row[:k])
            else:
                rec = rectype(**dict((cols[i][0], row[i]) for i in given))
            full = [row[i] if i in given else cols[i][2] for i in range(n)]
            obs.ev('defaults used', n - k)
        judge(obs, rec, cols, full)
        assignments(rnd, obs, rec, cols, full)
        equality(rnd, obs, rectype, rec, full)
        obs.nontrivial([c[1].name for c in cols], full)
    obs.sample(([(c[0], c[1].name) for c in cols], full))


def assignments(rnd, obs, rec, cols, row):
    "An assignment either stores a valid value or changes nothing"
    for _ in range(4):
        i = rnd.randrange(len(cols))
        nam, kind, d = cols[i]
        text = kind.gen(rnd, .5)
        key = rnd.choice([i, nam])

        def assign():
            rec[key] = text
        if kind.ok(text):
            assign()
            row[i] = text
            obs.ev('accepted assignments')
        else:
            obs.raises(ValueError, assign, 'invalid-assignment', nam,
                       kind.name, repr(text))
            obs.ev('rejected assignments')
        obs.eq(list(rec), row, 'content-after-assignment', nam, repr(text))


OTHERS = [None, 0, 1.5, True, object(), len, int, {}, NotImplemented]


def equality(rnd, obs, rectype, rec, row):
    twin = rectype(*row)
    obs.check(rec == twin and not (rec != twin), 'equal-records', row)
    obs.check(rec == row and not (rec != row), 'equal-list', row)
    i = rnd.randrange(len(row))
    other = row[:]
    other[i] = row[i] + 'x'
    obs.check(rec != rectype(*other) and not (rec == rectype(*other)),
              'different-records', row, other)
    for sep in [',', '', ';', '|', '\n', ' '] if len(row) > 1 else []:
        # the same text is distributed differently over the fields
        i = rnd.randrange(len(row) - 1)
        a, b, c = rnd.choice([('x', 'y', 'z'), ('', '', ''), ('1', '1', '1'),
                              (row[i], row[i + 1], 'x')])
        left, right = row[:], row[:]
        left[i:i + 2] = [a + sep + b, c]
        right[i:i + 2] = [a, b + sep + c]
        same = left == right
        obs.check((rectype(*left) == rectype(*right)) is same and
                  (rectype(*left) != rectype(*right)) is (not same),
                  'same-text-records', left, right)
    longer = row + ['']
    obs.check(rec != longer and not (rec == longer), 'longer-list', row)
    for thing in OTHERS + [dict((t, t) for t in row), set(row)]:
        # the things which are not sequences are different from any record
        obs.check((rec == thing) is False and (rec != thing) is True,
                  'not-a-sequence', row, repr(thing))
        obs.check(thing not in [rec] and rec not in [thing],
                  'not-a-sequence-in', row, repr(thing))
    obs.ev('comparisons with other objects')
    shorter = row[:-1]
    obs.check(rec != shorter and not (rec == shorter), 'shorter-list', row)


def constraints(rnd, obs):
    "Constraints of the record type are part of the validity of the record"
    rectype, cols = rt.make_type(rnd, [rt.STR, rt.INT], n=3)
    other, _ = rt.make_type(rnd, [rt.STR], n=2)
    row = [kind.gen(rnd, .2) for nam, kind, d in cols]
    rec = rectype(*row)
    good = all(kind.ok(t) for (nam, kind, d), t in zip(cols, row))
    obs.check(rec.is_valid() is good, 'without-constraints', row)
    flags = [rnd.random() < .7 for _ in range(rnd.choice([1, 2, 3]))]
    for flag in flags:
        rectype.add_check(lambda r, flag=flag: flag)
    obs.check(rec.is_valid() is (good and all(flags)), 'constraints', row,
              flags)
    obs.check(other('', '').is_valid(), 'constraints-of-another-type')
    obs.ev('constraints', len(flags))
    obs.nontrivial(row, flags)


TYPES = rt.choice('aggregated', 'per_asset')
COST_TYPES = rt.choice('aggregated', 'per_asset', 'per_area')
opt = rt.optional
SHIPPED = {
    'DiscreteVulnerabilitySet': [
        ('vulnerabilitySetID', rt.STR), ('assetCategory', rt.CATEGORY),
        ('lossCategory', rt.STR), ('IMT', rt.IMT)],
    'DiscreteVulnerability': [
        ('vulnerabilitySetID', rt.STR), ('vulnerabilityFunctionID', rt.STR),
        ('probabilisticDistribution', rt.STR)],
    'DiscreteVulnerabilityData': [
        ('vulnerabilitySetID', rt.STR), ('vulnerabilityFunctionID', rt.STR),
        ('IML', rt.FLOAT), ('lossRatio', rt.FLOAT),
        ('coefficientsVariation', rt.FLOAT)],
    'FragilityDiscrete': [
        ('format', rt.choice('discrete')), ('description', rt.STR),
        ('limitStates', rt.NAMELIST)],
    'FFSetDiscrete': [
        ('ordinal', rt.INT), ('taxonomy', rt.NOTEMPTY),
        ('noDamageLimit', opt(rt.POSFLOAT)), ('IMT', rt.IMT),
        ('imlUnit', rt.STR)],
    'FFDataDiscrete': [
        ('limitState', rt.STR), ('ffs_ordinal', rt.INT), ('iml', rt.FLOAT),
        ('poe', rt.PROB)],
    'FragilityContinuous': [
        ('format', rt.choice('continuous')), ('description', rt.STR),
        ('limitStates', rt.NAMELIST)],
    'FFSetContinuous': [
        ('ordinal', rt.INT), ('taxonomy', rt.NOTEMPTY),
        ('noDamageLimit', opt(rt.POSFLOAT)), ('type', rt.STR),
        ('IMT', rt.STR), ('imlUnit', rt.STR), ('minIML', rt.FLOAT),
        ('maxIML', rt.FLOAT)],
    'FFDataContinuous': [
        ('limitState', rt.STR), ('ffs_ordinal', rt.INT), ('param', rt.STR),
        ('value', rt.FLOAT)],
    'Location': [('id', rt.POSINT), ('lon', rt.LON), ('lat', rt.LAT)],
    'Exposure': [
        ('id', rt.NOTEMPTY), ('category', rt.CATEGORY),
        ('taxonomySource', rt.STR), ('description', rt.STR),
        ('area_type', opt(TYPES)), ('area_unit', opt(rt.STR)),
        ('deductible_is_absolute', opt(rt.BOOLEAN)),
        ('insurance_limit_is_absolute', opt(rt.BOOLEAN))],
    'CostType': [
        ('name', rt.STR), ('type', COST_TYPES), ('unit', rt.STR),
        ('retrofittedType', opt(COST_TYPES)), ('retrofittedUnit', rt.STR)],
    'Asset': [
        ('location_id', rt.POSINT), ('asset_ref', rt.STR),
        ('taxonomy', rt.NOTEMPTY), ('number', rt.POSFLOAT),
        ('area', opt(rt.POSFLOAT))],
    'Occupancy': [('asset_ref', rt.STR), ('period', rt.STR),
                  ('occupants', rt.POSFLOAT)],
    'Cost': [
        ('asset_ref', rt.STR), ('type', rt.STR), ('value', rt.POSFLOAT),
        ('retrofitted', opt(rt.POSFLOAT)), ('deductible', opt(rt.POSFLOAT)),
        ('insurance_limit', opt(rt.POSFLOAT))],
    'GmfCollection': [('sourceModelTreePath', rt.STR),
                      ('gsimTreePath', rt.STR)],
    'GmfSet': [('stochasticEventSetId', rt.INT),
               ('investigationTime', opt(rt.FLOAT))],
    'Gmf': [('stochasticEventSetId', rt.INT), ('imtStr', rt.IMT),
            ('ruptureId', rt.STR)],
    'GmfData': [('stochasticEventSetId', rt.INT), ('imtStr', rt.STR),
                ('ruptureId', rt.STR), ('lon', rt.FLOAT), ('lat', rt.FLOAT),
                ('gmv', rt.FLOAT)],
}


def shipped(rnd, obs):
    name = rnd.choice(sorted(SHIPPED))
    rectype = getattr(records, name)
    cols = [(nam, kind, '') for nam, kind in SHIPPED[name]]
    obs.eq(rectype.fieldnames, [c[0] for c in cols], 'fieldnames', name)
    row = [kind.gen(rnd, rnd.choice([0, .15])) for nam, kind, d in cols]
    rec = rectype(*row)
    bad = judge(obs, rec, cols, row, check_all=name != 'Exposure')
    if name == 'Exposure':
        # both the attributes of the area or none of them
        ok = not bad and bool(row[4]) == bool(row[5])
        if not bad:
            obs.check(rec.is_valid() is ok, 'area-constraint', row)
            obs.ev('constraints')
        else:
            obs.check(rec.is_valid() is False, 'record-validity', row)
    assignments(rnd, obs, rec, cols, row)
    obs.ev('shipped records')
    obs.nontrivial(name, row)


def leaf(tag, *names, **renamed):
    """
    Expected node of a record: the given fields become attributes, if they
    are not empty or if their name ends with an exclamation mark
    """
    def expected(row):
        attrs = {}
        for name in names:
            field = name.rstrip('!')
            if row[field] or name.endswith('!'):
                attrs[renamed.get(field, field)] = row[field]
        return (tag, attrs, None, [])
    return expected


def text_node(tag, text):
    return (tag, {}, text, [])


def with_children(head, *children):
    def expected(row):
        tag, attrs, text, _ = head(row)
        return (tag, attrs, text, [c(row) for c in children])
    return expected


def text_of(name):
    return lambda row: text_node(name, row[name])


def empty(name):
    return lambda row: (name, {}, None, [])


def exposure_node(row):
    nodes = [text_node('description', row['description'])]
    if row['category'] == 'buildings':
        conv = []
        if row['area_type'] and row['area_unit']:
            conv.append(('area', {'type': row['area_type'],
                                  'unit': row['area_unit']}, None, []))
        conv += [('costTypes', {}, None, []),
                 ('deductible', {'isAbsolute': row['deductible_is_absolute']},
                  None, []),
                 ('insuranceLimit',
                  {'isAbsolute': row['insurance_limit_is_absolute']},
                  None, [])]
        nodes.append(('conversions', {}, None, conv))
    nodes.append(('assets', {}, None, []))
    return ('exposureModel', dict(
        id=row['id'], category=row['category'],
        taxonomySource=row['taxonomySource']), None, nodes)


def gmf_set_node(row):
    attrs = {}
    if row['stochasticEventSetId'] != '0':  # scenario
        attrs['stochasticEventSetId'] = row['stochasticEventSetId']
    if row['investigationTime']:
        attrs['investigationTime'] = row['investigationTime']
    return ('gmfSet', attrs, None, [])


def gmf_node(row):
    attrs = {'IMT': row['imtStr']}
    if row['imtStr'].startswith('SA'):
        attrs = dict(IMT='SA', saPeriod=row['imtStr'][3:-1], saDamping=5.)
    if row['ruptureId']:
        attrs['ruptureId'] = row['ruptureId']
    return ('gmf', attrs, None, [])


NODES = {
    'DiscreteVulnerabilitySet': with_children(
        leaf('discreteVulnerabilitySet', 'vulnerabilitySetID!',
             'assetCategory!', 'lossCategory!'), leaf('IML', 'IMT!')),
    'DiscreteVulnerability': with_children(
        leaf('discreteVulnerability', 'vulnerabilityFunctionID!',
             'probabilisticDistribution!'),
        empty('lossRatio'), empty('coefficientsVariation')),
    'FragilityDiscrete': with_children(
        leaf('fragilityModel', 'format!'), text_of('description'),
        text_of('limitStates')),
    'FragilityContinuous': with_children(
        leaf('fragilityModel', 'format!'), text_of('description'),
        text_of('limitStates')),
    'FFSetDiscrete': with_children(
        leaf('ffs', 'noDamageLimit'), text_of('taxonomy'),
        leaf('IML', 'IMT!', 'imlUnit!')),
    'FFSetContinuous': with_children(
        leaf('ffs', 'noDamageLimit', 'type'), text_of('taxonomy'),
        leaf('IML', 'IMT!', 'imlUnit!', 'minIML!', 'maxIML!')),
    'Location': leaf('location', 'lon!', 'lat!'),
    'Exposure': exposure_node,
    'CostType': leaf('costType', 'name!', 'type!', 'unit!',
                     'retrofittedType', 'retrofittedUnit'),
    'Asset': leaf('asset', 'asset_ref!', 'taxonomy!', 'number!', 'area',
                  asset_ref='id'),
    'Occupancy': leaf('occupancy', 'period!', 'occupants!'),
    'Cost': leaf('cost', 'type!', 'value!', 'retrofitted', 'deductible',
                 'insurance_limit', insurance_limit='insuranceLimit'),
    'GmfCollection': leaf('gmfCollection', 'sourceModelTreePath!',
                          'gsimTreePath!'),
    'GmfSet': gmf_set_node,
    'Gmf': gmf_node,
    'GmfData': leaf('node', 'lon!', 'lat!', 'gmv!'),
}


def canon(node):
    attrs = dict(node.attrib)
    if 'saDamping' in attrs:
        attrs['saDamping'] = float(attrs['saDamping'])
    return (node.tag, attrs, node.text, [canon(n) for n in node.nodes])


def nodes(rnd, obs):
    """
    The node of a valid record contains all of its texts, unchanged, apart
    from the optional ones which are empty and from the keys which only
    relate the records to each other.
    """
    name = rnd.choice(sorted(NODES))
    rectype = getattr(records, name)
    cols = SHIPPED[name]
    row = [kind.gen(rnd) for nam, kind in cols]
    rec = rectype(*row)
    if not rec.is_valid():  # constraint on the exposure
        return
    obs.note(name, row)
    expected = NODES[name](dict(zip([c[0] for c in cols], row)))
    node = rec.to_node()
    obs.eq(canon(node), expected, 'node', name, row)
    obs.eq(list(rec), row, 'row-after-conversion', name)
    # independent nodes
    node.attrib['changed'] = '1'
    for child in node.nodes:
        child.attrib['changed'] = '1'
    obs.eq(canon(rec.to_node()), expected, 'second-node', name, row)
    # keys
    obs.eq(rec.pkey, tuple(rec[n] for n in rectype.pkey.names), 'key', name)
    dic = record.nodedict([rec])
    obs.eq([(k, canon(n)) for k, n in dic.items()], [(rec.pkey, expected)],
           'nodedict', name)
    obs.ev('records converted to nodes')
    obs.nontrivial(name, row)


def declarations(rnd, obs):
    "Wrong declarations of record types are refused, good ones are kept"
    names = rnd.sample(rt.FIELDNAMES, 3)
    dic = dict((n, record.Field(str)) for n in names)
    how = rnd.choice(['good', 'reserved', 'no-key', 'repeated-key'])
    if how == 'reserved':
        word = rnd.choice(['fields', 'fieldnames', '_name2index', '_ntuple',
                           '_ordinal'])
        dic[word] = rnd.choice([record.Field(str), [], None])
        dic['pkey'] = record.Unique(names[0])
        obs.raises(NameError,
                   lambda: record.MetaRecord('R', (record.Record,), dic),
                   'reserved-name', word)
    elif how == 'no-key':
        obs.raises(AttributeError,
                   lambda: record.MetaRecord('R', (record.Record,), dic),
                   'missing-key')
    elif how == 'repeated-key':
        obs.raises(AssertionError,
                   lambda: record.Unique(names[0], names[1], names[0]),
                   'repeated-key')
    else:
        keys = rnd.sample(names, rnd.choice([1, 2, 3]))
        uniq = rnd.sample(names, rnd.choice([1, 2]))
        dic['pkey'] = record.Unique(*keys)
        dic['uniq'] = record.Unique(*uniq)
        R = record.MetaRecord('R', (record.Record,), dic)
        row = [rnd.choice(['', 'a', 'b']) for _ in names]
        rec = R(**dict(zip(names, row)))
        value = dict(zip(names, row))
        obs.eq(rec.pkey, tuple(value[k] for k in keys), 'key')
        obs.eq(rec.uniq, tuple(value[k] for k in uniq), 'unique')
        obs.eq(sorted(u.name for u in R.get_descriptors(record.Unique)),
               ['pkey', 'uniq'], 'descriptors')
        rec[keys[0]] = 'new'
        value[keys[0]] = 'new'
        obs.eq(rec.pkey, tuple(value[k] for k in keys), 'key-after')
    obs.ev('declarations: ' + how)
    obs.nontrivial(how, names)


FAMILIES = [('nodes', nodes, 500, 6000),
            ('declarations', declarations, 150, 1500),
            ('random_types', random_types, 900, 12000),
            ('constraints', constraints, 200, 2000),
            ('shipped', shipped, 1200, 20000)]
