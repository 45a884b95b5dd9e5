"""
Random risk models as plain data, with their XML form, the CSV rows they
must be flattened to and the canonical content that must come back.
"""
from xml.sax.saxutils import escape, quoteattr
from scale import scale, big

HEAD = '<?xml version="1.0" encoding="utf-8"?>\n'
NRML = ('<nrml xmlns="http://openquake.org/xmlns/nrml/0.4" '
        'xmlns:gml="http://www.opengis.net/gml">\n%s</nrml>\n')


class E(object):
    "A minimal XML element"
    def __init__(self, tag, attrs=(), *children, **kw):
        self.tag = tag
        self.attrs = [(k, v) for k, v in attrs if v is not None]
        self.children = [c for c in children if c is not None]
        self.text = kw.get('text')

    def xml(self, rnd, indent=0):
        pad = '  ' * indent
        attrs = self.attrs[:]
        rnd.shuffle(attrs)
        sep = rnd.choice([' ', ' ', '\n' + pad + '    '])
        start = pad + '<' + self.tag + ''.join(
            sep + '%s=%s' % (k, quoteattr(v)) for k, v in attrs)
        if self.text is not None:
            lead, trail = rnd.choice(
                [('', ''), ('', ''), ('\n' + pad + '  ', '\n' + pad)])
            return '%s>%s%s%s</%s>\n' % (start, lead, escape(self.text),
                                         trail, self.tag)
        if not self.children:
            return start + rnd.choice(['/>', '></%s>' % self.tag]) + '\n'
        return start + '>\n' + ''.join(
            c.xml(rnd, indent + 1) for c in self.children
        ) + pad + '</%s>\n' % self.tag


def document(elem, rnd):
    return HEAD + NRML % elem.xml(rnd)


def canon_elem(e):
    return (e.tag, tuple(sorted(e.attrs)), ' '.join((e.text or '').split()),
            tuple(canon_elem(c) for c in e.children))


def utf8(value):
    return (value if isinstance(value, basestring)
            else str(value)).encode('utf-8') if not isinstance(
                value, str) else value


def canon_node(node, numeric=()):
    "Canonical content of a Node object (possibly with lazy subnodes)"
    text = node.text
    if text is None:
        text = ''
    if not isinstance(text, basestring):
        text = ' '.join(map(str, text))
    return (str(node.tag),
            tuple(sorted((str(k), utf8(v)) for k, v in node.attrib.items()
                         if not str(k).startswith('xmlns'))),
            ' '.join(utf8(text).split()),
            tuple(canon_node(n) for n in node.nodes))


def diff(a, b, path=''):
    "First difference between two canonical trees"
    path += '/' + str(a[0])
    if a[0] != b[0]:
        return '%s: tag %s != %s' % (path, a[0], b[0])
    if a[1] != b[1]:
        return '%s: attributes %s != %s' % (path, a[1], b[1])
    if a[2] != b[2]:
        return '%s: text %r != %r' % (path, a[2], b[2])
    if len(a[3]) != len(b[3]):
        return '%s: children %s != %s' % (
            path, [c[0] for c in a[3]], [c[0] for c in b[3]])
    for i, (x, y) in enumerate(zip(a[3], b[3])):
        d = diff(x, y, path + '[%d]' % i)
        if d:
            return d
    return ''


# ------------------------------- generators ------------------------------ #


IMTS = ['PGA', 'PGV', 'MMI', 'IA', 'RSD', 'PGD', 'SA(0.1)', 'SA(1)',
        'SA(2.50)']
TEXTS = ['a model', 'x', 'with <angles> & "quotes"', 'commas, and; more',
         "it's", 'two  words', '100%', 'a__b', 'Citt\xc3\xa0 & \xe4\xb8\xad',
         '\xc3\x9fx']  # UTF8-encoded
TAXONOMIES = ['RC', 'W/LM', 'RC/DMRF-D/LR', 'IT-PV', 'A,B', 'M "x"', "O'k",
              'S1', 'UFB1', '1', 'rc', 'RC/LM', '007', '1.0', 'RC,', 'b\xc3\xa9ton']


def taxonomies(rnd, n):
    "n different taxonomies, sometimes with some similar ones"
    # what the loaders give for the other texts is not specified
    pool = [t for t in TAXONOMIES if max(t) < '\x7f'] + ['RC/H:%d' % i for i in range(max(n - 7, 0))]
    out = rnd.sample(pool, n)
    if rnd.random() < .3:
        tax = rnd.choice(out)
        for t in (tax + '+', tax + '-', '+' + tax, tax.lower(), tax + tax,
                  tax[:-1], tax + '/1', tax.replace('/', '_'), '0' + tax):
            if t and t not in out:
                out.append(t)
        rnd.shuffle(out)
    return out


ZEROS = ['0', '0.0', '0.00', '0e0']


def number(rnd, lo=0., hi=1.):
    x = rnd.uniform(lo, hi)
    return rnd.choice(['%.3f', '%.1f', '%.6f', '%.4e', '%r', '%.17g',
                       '%+.2f', '%09.4f']) % x


def points(rnd, n):
    "n distinct points, possibly very near or with a coordinate in common"
    out, seen, known = [], set(), 0
    while len(out) < n:
        lon, lat = '%r' % rnd.uniform(-180, 180), '%r' % rnd.uniform(-90, 90)
        how = rnd.random()
        if how < .5:
            lon, lat = number(rnd, -180, 180), number(rnd, -90, 90)
        elif out and how < .7:  # 1E-7 degrees from another point
            lon = '%.7f' % (float(out[-1][0]) * .99 + 1e-7)
            lat = '%.7f' % (float(out[-1][1]) * .99)
            out.append(('%.7f' % (float(lon) + 1e-7), lat))
        elif out and how < .8:
            lon = out[-1][0]
        elif out and how < .9:
            lat = out[-1][1]
        elif out and abs(float(out[-1][0])) < 90:
            lat, lon = out[-1]
        for x, y in out[known:]:
            seen.add((float(x), float(y)))
        known = len(out)
        if (float(lon), float(lat)) not in seen:
            out.append((lon, lat))
    return out[-n:]


def ascending(rnd, n, lo=.01, hi=10.):
    "n texts of increasing numbers"
    xs = sorted(rnd.sample(range(1, 10000), n))
    scale = (hi - lo) / 10000
    fmt = rnd.choice(['%.6f', '%.5f', '%.8e'])
    out = [fmt % (lo + x * scale) for x in xs]
    if n and rnd.random() < .3:  # other ways of writing the numbers
        i = rnd.randrange(n)
        out[i] = rnd.choice(['+' + out[i], '0' + out[i],
                             '%r' % float(out[i])])
    return out


def ids(rnd, n, prefix):
    pool = [prefix + s for s in ('1', '2', '03', '_x', ' b', '-c', '.d',
                                 '&e', ',f', '\xc3\xa9', '10', '3', '1.0', ' 1')]
    pool += [prefix + str(i) for i in range(20, 20 + n if n > 8 else 20)]
    return rnd.sample(pool, n)


def vulnerability(rnd):
    sets, rows_s, rows_f, rows_d = [], [], [], []
    n_funs = scale(rnd, [1, 1, 2, 4], [20, 60])
    fun_pool = ids(rnd, max(n_funs, 6), 'VF')
    for sid in ids(rnd, scale(rnd, [1, 1, 2, 4], [11, 50]), 'VS'):
        imt = rnd.choice(IMTS)
        cat = rnd.choice(['population', 'buildings'])
        loss = rnd.choice(['structural', 'fatalities', 'contents', 'x y', 'd\xc3\xa9gats'])
        imls = ascending(rnd, scale(rnd, [1, 2, 3, 8], [30, 150]))
        rows_s.append([sid, cat, loss, imt])
        funs = []
        for fid in rnd.sample(fun_pool, n_funs if n_funs > 4
                              else rnd.choice([1, 1, 2, 4])):
            dist = rnd.choice(['LN', 'BT', 'PM'])
            ratios, coeffs = [], []
            for _ in imls:
                zero = rnd.random() < .2
                ratios.append(rnd.choice(ZEROS) if zero
                              else '%.4f' % rnd.uniform(.001, 1))
                coeffs.append(rnd.choice(ZEROS) if zero or
                              rnd.random() < .3 else number(rnd))
            rows_f.append([sid, fid, dist])
            for t in zip(imls, ratios, coeffs):
                rows_d.append([sid, fid] + list(t))
            funs.append(E('discreteVulnerability', [
                ('vulnerabilityFunctionID', fid),
                ('probabilisticDistribution', dist)],
                E('lossRatio', text=' '.join(ratios)),
                E('coefficientsVariation', text=' '.join(coeffs))))
        sets.append(E('discreteVulnerabilitySet', [
            ('vulnerabilitySetID', sid), ('assetCategory', cat),
            ('lossCategory', loss)],
            E('IML', [('IMT', imt)], text=' '.join(imls)), *funs))
    elem = E('vulnerabilityModel', [], *sets)
    return elem, canon_elem(elem), [
        ('DiscreteVulnerabilitySet',
         ['vulnerabilitySetID', 'assetCategory', 'lossCategory', 'IMT'],
         rows_s),
        ('DiscreteVulnerability',
         ['vulnerabilitySetID', 'vulnerabilityFunctionID',
          'probabilisticDistribution'], rows_f),
        ('DiscreteVulnerabilityData',
         ['vulnerabilitySetID', 'vulnerabilityFunctionID', 'IML',
          'lossRatio', 'coefficientsVariation'], rows_d)]


def limit_states(rnd):
    return rnd.sample(['slight', 'moderate', 'LS1', 'complete', 'LS2',
                       'extensive', 'x_1'] + ['L%d' % i for i in range(50)],
                      scale(rnd, [1, 2, 3, 5], [15, 50]))


def fragility_discrete(rnd):
    states = limit_states(rnd)
    desc = rnd.choice(TEXTS)
    rows_set, rows_d, ffss = [], [], []
    for n in range(1, scale(rnd, [1, 1, 2, 4], [11, 40]) + 1):
        taxo = rnd.choice(TAXONOMIES)
        imt = rnd.choice(IMTS)
        unit = rnd.choice(['g', 'm', 'cm/s', ''])
        ndl = rnd.choice([None, None, '0.05', '1', '7.0', '0', '0.0'])
        imls = ascending(rnd, scale(rnd, [1, 2, 4, 9], [30, 150]))
        rows_set.append([str(n), taxo, ndl or '', imt, unit])
        ffds = []
        for ls in states:
            poes = [rnd.choice(['0', '1', '0.0', '1.00', number(rnd)])
                    for _ in imls]
            for iml, poe in zip(imls, poes):
                rows_d.append([ls, str(n), iml, poe])
            ffds.append(E('ffd', [('ls', ls)],
                          E('poEs', text=' '.join(poes))))
        ffss.append(E('ffs', [('noDamageLimit', ndl)],
                      E('taxonomy', text=taxo),
                      E('IML', [('IMT', imt), ('imlUnit', unit)],
                        text=' '.join(imls)), *ffds))
    elem = E('fragilityModel', [('format', 'discrete')],
             E('description', text=desc),
             E('limitStates', text=' '.join(states)), *ffss)
    return elem, canon_elem(elem), [
        ('FragilityDiscrete', ['format', 'description', 'limitStates'],
         [['discrete', desc, ' '.join(states)]]),
        ('FFLimitStateDiscrete', ['limitState'], [[s] for s in states]),
        ('FFSetDiscrete', ['ordinal', 'taxonomy', 'noDamageLimit', 'IMT',
                           'imlUnit'], rows_set),
        ('FFDataDiscrete', ['limitState', 'ffs_ordinal', 'iml', 'poe'],
         rows_d)]


def fragility_continuous(rnd):
    states = limit_states(rnd)
    desc = rnd.choice(TEXTS)
    rows_set, rows_d, ffss = [], [], []
    for n in range(1, scale(rnd, [1, 1, 2, 4], [11, 40]) + 1):
        taxo = rnd.choice(TAXONOMIES)
        imt = rnd.choice(IMTS)
        unit = rnd.choice(['g', 'm', 'cm/s'])
        ndl = rnd.choice([None, None, '0.05', '1', '0', '0.0'])
        typ = rnd.choice([None, 'lognormal', 'normal'])
        lo, hi = ascending(rnd, 2)
        rows_set.append([str(n), taxo, ndl or '', typ or '', imt, unit,
                         lo, hi])
        ffcs = []
        for ls in states:
            mean, std = number(rnd, .1, 20), number(rnd, .1, 2)
            rows_d.append([ls, str(n), 'mean', mean])
            rows_d.append([ls, str(n), 'stddev', std])
            ffcs.append(E('ffc', [('ls', ls)],
                          E('params', [('mean', mean), ('stddev', std)])))
        ffss.append(E('ffs', [('noDamageLimit', ndl), ('type', typ)],
                      E('taxonomy', text=taxo),
                      E('IML', [('IMT', imt), ('imlUnit', unit),
                                ('minIML', lo), ('maxIML', hi)]), *ffcs))
    elem = E('fragilityModel', [('format', 'continuous')],
             E('description', text=desc),
             E('limitStates', text=' '.join(states)), *ffss)
    return elem, canon_elem(elem), [
        ('FragilityContinuous', ['format', 'description', 'limitStates'],
         [['continuous', desc, ' '.join(states)]]),
        ('FFLimitStateContinuous', ['limitState'], [[s] for s in states]),
        ('FFSetContinuous', ['ordinal', 'taxonomy', 'noDamageLimit', 'type',
                             'IMT', 'imlUnit', 'minIML', 'maxIML'],
         rows_set),
        ('FFDataContinuous', ['limitState', 'ffs_ordinal', 'param', 'value'],
         rows_d)]


KIND = ['aggregated', 'per_asset']


def exposure(rnd, category=None, n_assets=None):
    cat = category or rnd.choice(['population', 'buildings', 'buildings'])
    buildings = cat == 'buildings'
    eid = rnd.choice(['my_exposure', 'ep1', 'e x', 'A&B'])
    src = rnd.choice([None, 'some source', 'Pavia taxonomy', 'UNKNOWN'])
    desc = rnd.choice(TEXTS)
    area = (rnd.choice(KIND), rnd.choice(['square meters', 'sqm', 'm2'])
            ) if rnd.random() < .5 else None
    costtypes, rows_ct = [], []
    dedu, insu = None, None
    if buildings:
        for name in rnd.sample(['structural', 'contents', 'business',
                                'non_structural'], rnd.choice([1, 2, 4])):
            typ = rnd.choice(KIND + ['per_area'])
            unit = rnd.choice(['EUR', 'USD', 'EUR/month'])
            rtyp = rnd.choice([None, 'per_asset', 'per_area', 'aggregated'])
            runit = rnd.choice([None, 'EUR']) if rtyp is None else 'EUR'
            rows_ct.append([name, typ, unit, rtyp or '', runit or ''])
            costtypes.append(E('costType', [
                ('name', name), ('type', typ), ('unit', unit),
                ('retrofittedType', rtyp), ('retrofittedUnit', runit)]))
        dedu, insu = (rnd.choice(['true', 'false', '0', '1'])
                      for _ in range(2))
    periods = rnd.sample(['day', 'night', 'transit', 'weekend', 'Zeta'],
                         rnd.choice([0, 0, 1, 2, 4]))
    pool = points(rnd, n_assets or scale(rnd, [1, 2, 5], [60]))
    locs, rows_l, rows_a, rows_o, rows_c = {}, [], [], [], []
    given, expected = [], []
    few = n_assets is None
    if few:
        n_assets = scale(rnd, [0, 1, 2, 5, 12], [60, 250])
    for i in range(n_assets):
        ref = rnd.choice(['a%d', 'asset_%02d', '%d', 'x,%d']) % i
        taxo = rnd.choice(TAXONOMIES)
        num = rnd.choice(['1', '7', '0.5', '0', number(rnd, 0, 100)])
        ar = rnd.choice([None, '100', '0', number(rnd, 1, 1000)])
        loc = rnd.choice(pool) if few else pool[i]
        costs = []
        for ct in rows_ct:
            if rnd.random() < (.6 if few else .05):
                ret, ded, lim = (rnd.choice([None, rnd.choice(ZEROS),
                                              number(rnd, 0, 99)])
                                 for _ in range(3))
                value = number(rnd, 0, 1e5)
                if rnd.random() < .15:
                    value = rnd.choice(ZEROS)
                costs.append((ct[0], value, ret, ded, lim))
        occs = [(p, rnd.choice(['0', '0.0', '10', number(rnd, 0, 50)]))
                for p in periods if rnd.random() < (.6 if few else .05)]

        def asset(costs, occs):
            return E('asset', [('id', ref), ('taxonomy', taxo),
                               ('number', num), ('area', ar)],
                     E('location', [('lon', loc[0]), ('lat', loc[1])]),
                     E('costs', [], *[E('cost', [
                         ('type', c[0]), ('value', c[1]),
                         ('retrofitted', c[2]), ('deductible', c[3]),
                         ('insuranceLimit', c[4])]) for c in costs])
                     if costs else None,
                     E('occupancies', [], *[E('occupancy', [
                         ('period', o[0]), ('occupants', o[1])])
                         for o in occs]) if occs else None)
        mixed_costs = sorted(costs, key=lambda c: rnd.random())
        mixed_occs = sorted(occs, key=lambda c: rnd.random())
        given.append(asset(mixed_costs, mixed_occs))
        # normalized: costs in the order of the cost types, sorted periods
        expected.append(asset(costs, sorted(occs)))
        if loc not in locs:
            locs[loc] = str(len(locs) + 1)
            rows_l.append([locs[loc], loc[0], loc[1]])
        rows_o.extend([ref, o[0], o[1]] for o in mixed_occs)
        rows_c.extend([ref] + [x or '' for x in c] for c in mixed_costs)
        rows_a.append([locs[loc], ref, taxo, num, ar or ''])
    area_e = E('area', [('type', area[0]), ('unit', area[1])]
               ) if area else None
    if buildings:
        def conv():
            children = [area_e, E('costTypes', [], *costtypes),
                        E('deductible', [('isAbsolute', dedu)]),
                        E('insuranceLimit', [('isAbsolute', insu)])]
            return E('conversions', [], *children)
    else:
        def conv():
            return E('conversions', [], area_e) if area else None

    def model(taxosource, assets):
        return E('exposureModel', [('id', eid), ('category', cat),
                                   ('taxonomySource', taxosource)],
                 E('description', text=desc), conv(),
                 E('assets', [], *assets))
    row = [eid, cat, src or 'UNKNOWN', desc, area[0] if area else '',
           area[1] if area else '', dedu or '', insu or '']
    tables = [
        ('Location', ['id', 'lon', 'lat'], rows_l),
        ('Exposure', ['id', 'category', 'taxonomySource', 'description',
                      'area_type', 'area_unit', 'deductible_is_absolute',
                      'insurance_limit_is_absolute'], [row]),
        ('CostType', ['name', 'type', 'unit', 'retrofittedType',
                      'retrofittedUnit'], rows_ct),
        ('Asset', ['location_id', 'asset_ref', 'taxonomy', 'number', 'area'],
         rows_a),
        ('Occupancy', ['asset_ref', 'period', 'occupants'], rows_o),
        ('Cost', ['asset_ref', 'type', 'value', 'retrofitted', 'deductible',
                  'insurance_limit'], rows_c)]
    return (model(src, given), canon_elem(model(src or 'UNKNOWN', expected)),
            tables)


def gmf_values(rnd):
    n = scale(rnd, [1, 2, 5], [40, 300])
    return [(lon, lat, rnd.choice([number(rnd), number(rnd), '0', '0.0']))
            for lon, lat in points(rnd, n)]


def gmf(rnd, kind=None):
    kind = kind or rnd.choice(['scenario', 'event'])

    def gmf_elem(imt, rup, values):
        if imt.startswith('SA'):
            attrs = [('IMT', 'SA'), ('saPeriod', imt[3:-1]),
                     ('saDamping', '5')]
        else:
            attrs = [('IMT', imt)]
        return E('gmf', attrs + [('ruptureId', rup)],
                 *[E('node', [('lon', lon), ('lat', lat), ('gmv', v)])
                   for lon, lat, v in values])
    rows_s, rows_g, rows_d = [], [], []
    if kind == 'scenario':
        rows_s.append(['0', ''])
        gmfs = []
        imts = IMTS + ['SA(%d.%d)' % divmod(i, 7) for i in range(14, 80)]
        for imt in rnd.sample(imts, scale(rnd, [1, 1, 2, 4], [12, 50])):
            values = gmf_values(rnd)
            rows_g.append(['0', imt, ''])
            rows_d.extend(['0', imt, '', lon, lat, v]
                          for lon, lat, v in values)
            gmfs.append(gmf_elem(imt, None, values))
        elem = E('gmfSet', [], *gmfs)
        coll = []
    else:
        sets = []
        for ses in rnd.sample(['1', '2', '3', '10', '007', '7', '02'] +
                              map(str, range(11, 60)),
                              scale(rnd, [1, 2, 3], [12, 40])):
            time = rnd.choice(['50', '50.0', '1e3'])
            rows_s.append([ses, time])
            gmfs, seen = [], set()
            for _ in range(scale(rnd, [1, 2, 4], [50])):
                imt = rnd.choice(IMTS)
                rup = rnd.choice(['1', 'rup|2', 'col=00|ses=0001', '3,4', '01',
                                  '1.0', 'RUP|2', 'rup|20', 'scenario-%d' %
                                  rnd.randrange(1000)])
                if (imt, rup) in seen:
                    continue
                seen.add((imt, rup))
                values = gmf_values(rnd)
                rows_g.append([ses, imt, rup])
                rows_d.extend([ses, imt, rup, lon, lat, v]
                              for lon, lat, v in values)
                gmfs.append(gmf_elem(imt, rup, values))
            sets.append(E('gmfSet', [('stochasticEventSetId', ses),
                                     ('investigationTime', time)], *gmfs))
        path = rnd.choice(['b1', 'b1_b2', ''])
        gsim = rnd.choice(['b1', 'gb2_gb3'])
        coll = [[path, gsim]]
        elem = E('gmfCollection', [('sourceModelTreePath', path),
                                   ('gsimTreePath', gsim)], *sets)
    tables = [
        ('GmfCollection', ['sourceModelTreePath', 'gsimTreePath'], coll),
        ('GmfSet', ['stochasticEventSetId', 'investigationTime'], rows_s),
        ('Gmf', ['stochasticEventSetId', 'imtStr', 'ruptureId'], rows_g),
        ('GmfData', ['stochasticEventSetId', 'imtStr', 'ruptureId', 'lon',
                     'lat', 'gmv'], rows_d)]
    return elem, canon_elem(elem), tables


ALL = [('vulnerability', vulnerability),
       ('fragility discrete', fragility_discrete),
       ('fragility continuous', fragility_continuous),
       ('exposure', exposure),
       ('gmf', gmf)]
