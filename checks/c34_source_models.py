"""C34: a source model is parsed and grouped by tectonic region type"""
import copy
import os
from sources import (Params, gen_source, expected, same, snap, difference,
                     document, TRTS)
from scale import scale, big as make_big
from openquake.hazardlib import mfd
from openquake.commonlib.source import (
    parse_source_model, NrmlHazardlibConverter, DuplicateID, SourceCollector)

RULE = ('random source models of up to 12 sources of all kinds are written '
        'as NRML documents and parsed, with and without a function which '
        'records the sources and modifies their distributions; the groups '
        'are compared with an independent grouping; models with duplicated '
        'identifiers must be rejected; the signature is the model')
REQUIRE = ['groups compared', 'models with many groups', 'uncertainties',
           'duplicates rejected', 'ties in the order', 'empty models',
           'collectors built by hand', 'wrong region rejected',
           'conversion errors', 'big models']


def gen_model(rnd, n=None):
    if n is None:
        n = scale(rnd, [0, 1, 2, 3, 5, 8, 12], [40, 70])
    trts = rnd.sample(TRTS, rnd.randint(1, len(TRTS)))
    if rnd.random() < .2:
        trts.append(u'R\xe9gion')
    ids = ['s%d' % i for i in range(n)]
    rnd.shuffle(ids)
    if rnd.random() < .2 and n:
        ids[0] = u'\xe9'
    return [gen_source(rnd, sid, trt=rnd.choice(trts)) for sid in ids]


def write(obs, specs):
    fname = os.path.join(obs.scratch, 'model_%d.xml' % obs.index)
    with open(fname, 'w') as f:
        f.write(document(specs))
    return fname


def change(src):
    "Deterministic change of the distribution of the source"
    if isinstance(src.mfd, mfd.TruncatedGRMFD):
        if len(src.source_id) == 2 and src.source_id[1] in '02468':
            src.mfd.modify('increment_max_mag', {'value': 1.})
        elif src.source_id == 's1':
            src.mfd.min_mag -= 1


def judge(obs, collectors, sources):
    "Compare the collectors with the expected sources"
    groups = {}
    for src in sources:
        groups.setdefault(src.tectonic_region_type, []).append(src)
    order = sorted(groups, key=lambda trt: (len(groups[trt]), trt))
    if len(set(len(g) for g in groups.values())) < len(groups):
        obs.ev('ties in the order')
    if len(groups) > 1:
        obs.ev('models with many groups')
    obs.eq([c.trt for c in collectors], order, 'order-of-groups')
    for coll in collectors:
        exp = groups[coll.trt]
        obs.check(isinstance(coll, SourceCollector), 'collector', coll)
        obs.eq([s.source_id for s in coll.sources],
               [s.source_id for s in exp], 'sources-of-group', coll.trt)
        for got, src in zip(coll.sources, exp):
            same(obs, got, src, 'source', src.source_id)
        ranges = [src.mfd.get_min_max_mag() for src in exp]
        obs.eq(coll.min_mag, min(r[0] for r in ranges), 'min-mag', ranges)
        obs.eq(coll.max_mag, max(r[1] for r in ranges), 'max-mag', ranges)
        obs.ev('groups compared')


def parse(rnd, obs):
    par = Params(rnd)
    conv = NrmlHazardlibConverter(*par.args())
    specs = gen_model(rnd)
    fname = write(obs, specs)
    obs.note(par, specs)
    sources = [expected(spec, par) for spec in specs]
    if not specs:
        obs.ev('empty models')
    if rnd.random() < .4:
        judge(obs, parse_source_model(fname, conv), sources)
    else:
        obs.ev('uncertainties')
        seen = []

        def apply_uncertainties(src):
            seen.append((src, snap(src)))
            change(src)
        collectors = parse_source_model(fname, conv, apply_uncertainties)
        obs.eq(len(seen), len(sources), 'uncertainties-applied')
        for (_src, before), src in zip(seen, sources):
            diff = difference(before, snap(src))
            obs.check(diff is None, 'uncertainties-argument', diff)
            change(src)
        judge(obs, collectors, sources)
        obs.eq(sorted(id(s) for c in collectors for s in c.sources),
               sorted(id(s) for s, _ in seen), 'uncertainties-on-copies')
    # nothing is shared between two readings of the same file
    if rnd.random() < .3:
        sources2 = [expected(spec, par) for spec in specs]
        judge(obs, parse_source_model(fname, conv), sources2)
    if len(specs) > 1:
        obs.nontrivial(specs, par)
        obs.sample([(s.id, s.kind, s.trt) for s in specs])


def duplicates(rnd, obs):
    par = Params(rnd)
    conv = NrmlHazardlibConverter(*par.args())
    specs = gen_model(rnd, scale(rnd, [2, 3, 6, 9], [50]))
    i, j = sorted(rnd.sample(range(len(specs)), 2))
    specs[j].id = specs[i].id
    fname = write(obs, specs)
    if rnd.random() < .3:  # the check is on the identifiers only
        specs[j].trt = rnd.choice(TRTS)
    calls = []
    exc = obs.raises(DuplicateID, lambda: parse_source_model(
        fname, conv, calls.append), 'duplicate-accepted', specs)
    text = exc.args[0]
    obs.check(specs[i].id in text, 'id-not-in-message', text)
    obs.ev('duplicates rejected')
    obs.nontrivial(i, j, specs)
    # similar identifiers are not duplicates
    base = specs[i].id
    for k, spec in enumerate(specs):
        spec.id = base + rnd.choice(['', ' ', '-', '.']) * k
        spec.id = spec.id if k == 0 else '%s%d' % (
            base.encode('ascii', 'ignore') or 'x', k)
    specs[0].id = 'S1'
    specs[1].id = 's1'
    for k, spec in enumerate(specs[2:]):
        spec.id = 's%d' % (k + 10)
    judge(obs, parse_source_model(write(obs, specs), conv),
          [expected(spec, par) for spec in specs])


def errors(rnd, obs):
    "The error of a single source is not hidden"
    par = Params(rnd)
    conv = NrmlHazardlibConverter(*par.args())
    specs = gen_model(rnd, rnd.choice([1, 3, 6]))
    bad = rnd.choice(specs)
    bad.id = 'bad'
    bad.name = 'wrong source'
    bad.mfd = ('inc', 5., .1, [.1, -.1])
    exc = obs.raises(ValueError, lambda: parse_source_model(
        write(obs, specs), conv), 'error-hidden')
    obs.check("id='bad', name='wrong source'" in exc.args[0],
              'source-not-in-message', exc.args)
    obs.ev('conversion errors')
    obs.nontrivial(specs)


def collectors(rnd, obs):
    "Collectors built by hand"
    par = Params(rnd)
    trt = rnd.choice(TRTS)
    sources = [expected(gen_source(rnd, 's%d' % i, trt=trt), par)
               for i in range(rnd.choice([0, 1, 3, 6]))]
    n = rnd.randint(0, len(sources))
    orig = list(sources[:n])
    how = rnd.randrange(3)
    first = [list, tuple, iter][how](orig)
    coll = SourceCollector(trt, first)
    for src in sources[n:]:
        coll.update(src)
    obs.eq(coll.trt, trt, 'trt')
    if sources:
        judge(obs, [coll], sources)
    else:
        obs.check(coll.min_mag is None and coll.max_mag is None,
                  'range-of-nothing')
        obs.eq(list(coll.sources), [], 'sources')
    if how == 0:
        obs.eq(len(orig), n, 'argument-changed')
    other = expected(gen_source(
        rnd, 'other', trt=rnd.choice([t for t in TRTS if t != trt])), par)
    obs.raises(AssertionError, lambda: coll.update(other), 'wrong-region')
    obs.raises(AssertionError, lambda: SourceCollector(trt, [other]),
               'wrong-region')
    obs.eq([s.source_id for s in coll.sources],
           [s.source_id for s in sources], 'wrong-region-added')
    obs.ev('wrong region rejected')
    obs.ev('collectors built by hand')
    # explicit limits are extended, never reduced
    if sources:
        lim = SourceCollector(trt, sources, min_mag=1., max_mag=20.)
        obs.eq((lim.min_mag, lim.max_mag), (1., 20.), 'explicit-limits')
        lim = SourceCollector(trt, sources, min_mag=20., max_mag=1.)
        ranges = [src.mfd.get_min_max_mag() for src in sources]
        obs.eq((lim.min_mag, lim.max_mag),
               (min(r[0] for r in ranges), max(r[1] for r in ranges)),
               'explicit-limits')
    # ordering of many collectors
    colls = [SourceCollector(t, [copy.copy(s) for s in sources if 0] or [
        expected(gen_source(rnd, 'x%d' % i, trt=t), par)
        for i in range(rnd.choice([0, 1, 2]))]) for t in TRTS]
    rnd.shuffle(colls)
    obs.eq([c.trt for c in sorted(colls)],
           [c.trt for c in sorted(
               colls, key=lambda c: (len(c.sources), c.trt))],
           'order-of-groups')
    obs.nontrivial([s.source_id for s in sources], n, how, trt,
                   [snap(s.mfd) for s in sources])


def big(rnd, obs):
    "Many sources, or sources with many points or magnitudes"
    make_big(rnd.choice([parse, parse, duplicates]))(rnd, obs)
    obs.ev('big models')


FAMILIES = [('big', big, 20, 400),
            ('parse', parse, 200, 6000),
            ('duplicates', duplicates, 80, 2000),
            ('errors', errors, 40, 600),
            ('collectors', collectors, 120, 3000)]
