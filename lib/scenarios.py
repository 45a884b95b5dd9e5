"""
Workloads divided in steps, to be interleaved in a single thread.

Each scenario is a generator function of (rnd, k, obs): the instances of a
group get the same random stream, hence equal or nearly equal inputs (k, the
number of the instance, is where they differ), they have their own objects
and judge them with their own oracle, which knows nothing of the others.
"""
import copy
import csv
import itertools
import os
import StringIO
from openquake.hazardlib import mfd
from openquake.commonlib import logictree, parallel, record, valid
from openquake.commonlib.converter import Converter
from openquake.commonlib.csvmanager import CSVManager, MemArchive, mkarchive
from openquake.commonlib.general import (
    WeightedSequence, block_splitter, split_in_blocks)
from openquake.commonlib.record import Table, TableSet, ForeignKeyError
from openquake.commonlib.source import (
    NrmlHazardlibConverter, SourceCollector, parse_source_model, split_source)
from openquake.nrmllib.node import node_from_nrml
import models
import rectypes as rt
import sources
import trees
import vlib
from roundtrip import csv_text, check_tables, check_node
import c17_tableset as c17
import c23_csv_reading as c23
import c25_tree_paths as c25
import c27_uncertainties as c27
import c29_gmpe_tree as c29
import c30_gsim_tree as c30

ALL = {}


def scenario(func):
    ALL[func.__name__] = func
    return func


def own_random(rnd, k):
    "What is different from one instance to the other"
    return vlib.new_random(rnd.random(), k)


def open_archive(kind, obs, name):
    if kind == 'mem':
        return MemArchive([])
    return mkarchive(os.path.join(obs.scratch, name) +
                     ('.zip' if kind == 'zip' else ''), 'w')


@scenario
def archives(rnd, k, obs):
    kind = rnd.choice(['mem', 'dir', 'zip'])
    names = rnd.sample(['a', 'b.csv', 'm__Rec.csv', 'x.xml'], rnd.choice(
        [1, 2, 3]))
    size = rnd.choice([2, 3, 6])
    own = own_random(rnd, k)
    arch = open_archive(kind, obs, 'arch')
    content = {}
    yield
    for turn in range(rnd.choice([1, 2])):
        writers = []
        for name in names:
            writers.append((name, arch.open(name, 'w')))
            content[name] = ''
        for _ in range(size):
            yield
            name, f = rnd.choice(writers)
            line = 'line %d of %s %d\n' % (own.randrange(10 ** 6), name, k)
            f.write(line)
            content[name] += line
        yield
        if rnd.random() < .5:
            for _name, f in writers:
                f.close()
                yield
        arch.close()
        yield
        readers = [[name, arch.open(name), ''] for name in names * 2]
        for _ in range(size * 4):
            yield
            ent = rnd.choice(readers)
            ent[2] += rnd.choice([lambda: ent[1].read(7),
                                  lambda: ent[1].readline()])()
        for ent in readers:
            yield
            obs.eq(ent[2] + ent[1].read(), content[ent[0]],
                   'content-of-archive', kind, ent[0])
        obs.eq(sorted(arch.extract_filenames()), sorted(names),
               'names-in-archive')
        if rnd.random() < .5:
            for ent in readers:
                ent[1].close()
    for name in names + ['y']:
        yield
        obs.eq(name in arch, name in content, 'membership')


@scenario
def managers(rnd, k, obs):
    "Files written and read by a manager, also out of a with block"
    kind = rnd.choice(['mem', 'dir', 'zip'])
    prefix = rnd.choice(['model', 'm'])
    header = rnd.random() < .8
    recordtypes = rnd.sample(c23.RECTYPES, rnd.choice([1, 2, 3]))
    n = rnd.choice([1, 3, 6])
    inside = rnd.random() < .3
    own = own_random(rnd, k)
    rows = dict((t, c23.unique_rows(own, t, n)) for t in recordtypes)
    yield
    arch = open_archive(kind, obs, 'csv')
    man = CSVManager(arch, prefix, has_header=header)
    yield
    if inside:
        man.__enter__()
    for i in range(n):
        for t in recordtypes:
            man.write(t(*rows[t][i]))
            yield
    if inside:
        man.__exit__(None, None, None)
    else:
        arch.close()
    yield
    files = dict((name, arch.open(name).read())
                 for name in arch.extract_filenames())
    obs.eq(sorted(files), sorted('%s__%s.csv' % (prefix, t.__name__)
                                 for t in recordtypes), 'written-files')
    for t in recordtypes:
        exp = StringIO.StringIO()
        writer = csv.writer(exp)
        if header:
            writer.writerow(t.fieldnames)
        writer.writerows(rows[t])
        obs.eq(files['%s__%s.csv' % (prefix, t.__name__)], exp.getvalue(),
               'written-content')
    yield
    readers = [(t, man.read(t), []) for t in recordtypes]
    for _i in range(n):
        for t, it, got in readers:
            got.append(list(it.next()))
            yield
    for t, it, got in readers:
        obs.eq(got, rows[t], 'read-rows', t.__name__)
        obs.eq(list(it), [], 'read-rows', t.__name__)
        yield


@scenario
def record_types(rnd, k, obs):
    "Equal record types with different constraints"
    rectype, cols = rt.make_type(rnd, inherit=False)
    n = rnd.choice([1, 2, 4])
    recs = []
    own = own_random(rnd, k)
    flags = []
    yield
    for _ in range(n):
        row = [kind.gen(own, .15) for nam, kind, d in cols]
        recs.append((rectype(*row), row))
        yield
        if own.random() < .5:
            flag = own.random() < .5
            flags.append(flag)
            rectype.add_check(lambda r, flag=flag: flag)
        yield
        for rec, row in recs:
            good = [kind.ok(t) for (nam, kind, d), t in zip(cols, row)]
            obs.eq(list(rec), row, 'content-of-record')
            obs.eq(rec.is_valid(), all(good) and all(flags),
                   'validity-of-record', row, flags)
            obs.eq([rec.is_valid(i) for i in range(len(cols))], good,
                   'validity-of-fields', row)
            obs.check((rec.cast()[1] is None) is all(good), 'cast', row)
            yield
    obs.eq(rectype.fieldnames, [c[0] for c in cols], 'fieldnames')


@scenario
def tables(rnd, k, obs):
    "Tables of the same record type with nearly the same records"
    rectype = rnd.choice([t for t in c23.RECTYPES if len(t) > 1])
    rows = c23.unique_rows(rnd, rectype, rnd.choice([2, 4, 7]))
    own = own_random(rnd, k)
    own.shuffle(rows)
    table = Table(rectype, [])
    there = []
    yield
    for row in rows:
        table.append(rectype(*row))
        there.append(row)
        yield
        obs.raises(KeyError, lambda: table.append(rectype(*own.choice(
            there))), 'duplicate')
        if own.random() < .3:
            i = own.randrange(len(there))
            del table[i]
            del there[i]
        yield
        obs.eq([list(r) for r in table], there, 'content-of-table')
        obs.eq(len(table), len(there), 'length-of-table')
        if there:
            row = own.choice(there)
            i = rectype.pkey.names
            key = [row[rectype.fieldnames.index(nam)] for nam in i]
            obs.eq(list(table.getrecord(*key)), row, 'record-of-table')
        yield


@scenario
def table_sets(rnd, k, obs):
    schema = c17.vulnerability()
    [(S, s_, _, _), (F, f_, _, _), (D, d_, _, _)] = schema.tables
    tset = TableSet(schema.convertertype)
    own = own_random(rnd, k)
    there = set()
    yield
    for i in range(rnd.choice([4, 9])):
        key = own.choice('ab')
        if own.random() < .5:
            def insert():
                tset.insert(S(key, 'buildings', 'x', 'PGA'))
            if (key,) in there:
                obs.raises(KeyError, insert, 'duplicate')
            else:
                insert()
                there.add((key,))
        else:
            fun = own.choice('xy')

            def insert():
                tset.insert(F(key, fun, 'LN'))
            if (key,) not in there:
                obs.raises(ForeignKeyError, insert, 'dangling-reference')
            elif (key, fun) in there:
                obs.raises(KeyError, insert, 'duplicate')
            else:
                insert()
                there.add((key, fun))
        yield
        got = set((r[0],) for r in tset.tableDiscreteVulnerabilitySet) | set(
            (r[0], r[1]) for r in tset.tableDiscreteVulnerability)
        obs.eq(got, there, 'content-of-set')
        yield


@scenario
def tree_paths(rnd, k, obs):
    "The functions of some paths of a tree are all made before being used"
    tree, infos = trees.smlt(rnd, obs.scratch)
    text = tree.xml(rnd)
    obs.note(text)
    yield
    _how, lt = c25.build(rnd, obs, logictree.SourceModelLogicTree, text,
                         obs.scratch)
    yield
    paths = tree.paths()
    own = own_random(rnd, k)
    some = own.sample(paths, min(len(paths), own.choice([1, 2, 4])))
    functions = []
    for path in some:
        ids = [b.id for b in path]
        functions.append((ids, lt.make_apply_uncertainties(ids)))
        yield
    changed = []
    for _ in range(rnd.choice([2, 6])):
        ids, func = own.choice(functions)
        info = own.choice(infos)
        src = c27.make_source(own, *info)
        orig = copy.deepcopy(src.mfd)
        func(src)
        yield
        exp = c27.state(orig)
        if isinstance(orig, mfd.TruncatedGRMFD):
            exp, _n = c27.expected_params(obs, c27.follow(tree, ids), *(
                info + (orig,)))
        changed.append((src, exp, info, ids))
        for src, exp, info, ids in changed:
            obs.eq(c27.state(src.mfd), exp, 'parameters', info, ids)
    # the realizations are not consumed by other iterators
    expected = [(p[0].value, trees.product(b.weight for b in p),
                 tuple(b.id for b in p)) for p in paths]
    its = [(iter(lt), []) for _ in range(2)]
    for _ in expected[:15]:
        for it, got in its:
            got.append(tuple(it.next()))
            yield
    for it, got in its:
        obs.eq(got + map(tuple, it), expected, 'realizations')
        yield


@scenario
def sampled_paths(rnd, k, obs):
    "The samples depend only on the seed of the tree"
    tree, infos = trees.smlt(rnd, obs.scratch)
    text = tree.xml(rnd)
    seed = rnd.randrange(5)
    n = rnd.choice([3, 10])

    def new():
        return logictree.SourceModelLogicTree(
            text, obs.scratch, 'x.xml', num_samples=n, seed=seed)
    yield
    lt = new()
    expected = map(tuple, new())
    yield
    it = iter(lt)
    got = []
    for i in range(n):
        got.append(tuple(it.next()))
        yield
    obs.eq(got, expected, 'samples')
    obs.eq(map(tuple, lt), expected, 'samples-again')


@scenario
def gmpe_trees(rnd, k, obs):
    trts = rnd.sample(trees.TRTS, rnd.choice([1, 2, 3]))
    tree = c29.gmpe_tree(rnd, trts)
    text = tree.xml(rnd)
    yield
    own = own_random(rnd, k)
    lt = c29.make(own, obs, text, trts, 0)
    yield
    paths = tree.paths(c29.relevant_root(tree, trts))
    expected = [(trees.product(b.weight for b in p),
                 tuple(b.id for b in p)) for p in paths]
    got = []
    for rlz in lt:
        got.append((rlz.weight, rlz.lt_path))
        if len(got) < 15:
            yield
    obs.eq(got, expected, 'realizations')
    models_of = []
    for path in own.sample(paths, min(3, len(paths))):
        models_of.append((lt.make_trt_to_gsim([b.id for b in path]), path))
        yield
    for dic, path in models_of:
        exp = {}
        for [bs] in tree.levels:
            for b in bs.branches:
                if b in path:
                    exp[bs.filters['applyToTectonicRegionType']] = c29.GSIMS[
                        b.value.strip()]
        obs.eq(dic, exp, 'models')
        dic.clear()  # the dictionary is of the caller
        obs.eq(lt.make_trt_to_gsim([b.id for b in path]), exp, 'models')
        yield


@scenario
def gsim_trees(rnd, k, obs):
    tree, trts, _shared = c30.gsim_tree(rnd)
    fname = c30.save(obs, tree.xml(rnd))
    own = own_random(rnd, k)
    keys = own.sample(trts, own.randint(1, len(trts)))
    yield
    lt = logictree.GsimLogicTree(fname, 'applyToTectonicRegionType', keys)
    yield
    used = [bs for [bs] in tree.levels
            if bs.filters['applyToTectonicRegionType'] in keys]
    used.sort(key=lambda bs: bs.id)
    expected = [(dict((bs.filters['applyToTectonicRegionType'],
                       br.value.strip()) for bs, br in zip(used, branches)),
                 trees.product(br.weight for br in branches),
                 tuple(br.id for br in branches))
                for branches in itertools.product(
                    *[bs.branches for bs in used])]
    its = [(iter(lt), []) for _ in range(2)]
    for _ in expected[:15]:
        for it, got in its:
            value, weight, path = it.next()
            got.append((dict(value), weight, path))
            value.clear()
            yield
    for it, got in its:
        obs.eq(got + map(tuple, it), expected, 'realizations')
    obs.eq(dict(lt.values), dict(
        (bs.filters['applyToTectonicRegionType'],
         [b.value.strip() for b in bs.branches]) for bs in used), 'values')
    obs.eq(lt.get_num_paths(), len(expected), 'number-of-paths')


def near(par, own):
    "Nearly the same parameters"
    if own.random() < .4 and par.time is not None:
        par.time += own.choice([.25, .5, 1., .001])
    if own.random() < .2:
        par.time = None if own.random() < .3 else own.choice([50, 50., 50.25])
    if own.random() < .3:
        par.width += own.choice([.01, .05])
    if own.random() < .3:
        par.spacing += own.choice([.1, .25, .01])
    if own.random() < .3:
        par.discr += own.choice([.5, 1, .01])


def modify(own, src):
    "Modify a source as the user may do"
    m = src.mfd
    how = own.randrange(4)
    if how == 0:
        src.mfd = mfd.EvenlyDiscretizedMFD(5., .1, [.1])
    elif how == 1:
        src.source_id += '_changed'
    elif isinstance(m, mfd.TruncatedGRMFD):
        logictree.BranchSet('maxMagGRRelative', {}).apply_uncertainty(
            own.choice([.1, .2]), src)
        logictree.BranchSet('bGRRelative', {}).apply_uncertainty(.05, src)
    else:
        m.occurrence_rates[0] += .5


@scenario
def conversions(rnd, k, obs):
    "Sources with the same parts, some of which are then modified"
    par = sources.Params(rnd)
    specs = [sources.gen_source(rnd, 's%d' % i)
             if rnd.random() < .9 else sources.gen_rupture(rnd)
             for i in range(rnd.choice([1, 2, 3]))]
    for spec in list(specs):
        if not spec.kind.endswith('rupture'):
            twin = copy.copy(spec)
            twin.id += 't'
            specs.append(twin)
    own = own_random(rnd, k)
    near(par, own)
    yield
    conv = NrmlHazardlibConverter(*par.args())
    yield
    there, touched = [], []
    for spec in specs + own.sample(specs, 1):
        obj = conv(sources.to_nrml(spec))
        there.append((spec, obj))
        yield
        if own.random() < .3 and not spec.kind.endswith('rupture'):
            modify(own, obj)
            touched.append(obj)
        for spec, obj in there:
            if not any(obj is t for t in touched):
                sources.same(obs, obj, sources.expected(spec, par),
                             'conversion', spec, par)
        yield


@scenario
def source_models(rnd, k, obs):
    "The same model read more than once, with different uncertainties"
    par = sources.Params(rnd)
    specs = [sources.gen_source(rnd, 's%d' % i, names=['a name'])
             for i in range(rnd.choice([1, 2, 4]))]
    for spec in specs[1:]:
        if rnd.random() < .5:
            spec.mfd = specs[0].mfd
    fname = os.path.join(obs.scratch, 'model.xml')
    with open(fname, 'w') as f:
        f.write(sources.document(specs))
    own = own_random(rnd, k)
    near(par, own)
    conv = NrmlHazardlibConverter(*par.args())
    yield
    reads = []
    for _ in range(rnd.choice([1, 2, 3])):
        delta = own.choice([0, .1, .2])
        wanted = set(s.id for s in specs if own.random() < .6)

        def apply_uncertainties(src):
            if src.source_id in wanted and delta and isinstance(
                    src.mfd, mfd.TruncatedGRMFD):
                src.mfd.modify('increment_max_mag', dict(value=delta))
        reads.append((delta, wanted, parse_source_model(
            fname, conv, apply_uncertainties)))
        yield
        for delta_, wanted_, colls in reads:
            got = [src for coll in colls for src in coll.sources]
            obs.eq(sorted(s.source_id for s in got),
                   sorted(s.id for s in specs), 'sources')
            for src in got:
                [spec] = [s for s in specs if s.id == src.source_id]
                exp = sources.expected(spec, par)
                if src.source_id in wanted_ and delta_ and isinstance(
                        exp.mfd, mfd.TruncatedGRMFD):
                    exp.mfd.modify('increment_max_mag', dict(value=delta_))
                sources.same(obs, src, exp, 'source', spec, par)
        yield


@scenario
def splittings(rnd, k, obs):
    par = sources.Params(rnd)
    spec = sources.gen_source(rnd, 's', kind=rnd.choice(
        ['area', 'area', 'simple', 'complex', 'point']))
    discr = rnd.choice([15., 30., 60.])
    own = own_random(rnd, k)
    near(par, own)
    if own.random() < .3:
        spec.mfd = sources.gen_mfd(own)
    if own.random() < .3:
        discr += own.choice([.5, 5])
    yield
    gens = [(split_source(sources.expected(spec, par), discr), [])
            for _ in range(2)]
    yield
    expected = map(sources.snap, split_source(
        sources.expected(spec, par), discr))
    for _ in expected[:10]:
        for gen, got in gens:
            got.append(gen.next())
            yield
    for gen, got in gens:
        got.extend(gen)
        obs.eq(len(got), len(expected), 'number-of-pieces')
        for g, e in zip(got, expected):
            diff = sources.difference(sources.snap(g), e)
            obs.check(diff is None, 'pieces', diff)
        yield


@scenario
def blocks_of_sources(rnd, k, obs):
    par = sources.Params(rnd)
    specs = [sources.gen_source(rnd, 's%d' % i, trt='Volcanic', kind=rnd.
                                choice([None, 'simple', 'area']))
             for i in range(rnd.choice([2, 4]))]
    limit = rnd.choice([7, 50, 300, 1000])
    own = own_random(rnd, k)
    keep = [own.random() < .8 for _ in specs]
    if own.random() < .5:
        limit += own.choice([1, 5, .5])
    yield

    def new():
        coll = SourceCollector('Volcanic', [
            sources.expected(spec, par) for spec in specs])
        first = list(coll.sources)
        return coll, coll.gen_blocks(
            lambda src: [x for x, s in zip(keep, first) if s is src][0]
            or None, limit, 30.)

    def summary(blocks):
        return [[s.source_id for s in block] for block in blocks]
    coll, gen = new()
    yield
    coll1, gen1 = new()
    expected = summary(gen1)
    got = []
    for block in gen:
        got.append(block)
        if len(got) < 15:
            yield
    obs.eq(summary(got), expected, 'blocks')
    obs.eq((coll.num_ruptures, coll.filtered_sources, len(coll.sources),
            coll.min_mag, coll.max_mag),
           (coll1.num_ruptures, coll1.filtered_sources, len(coll1.sources),
            coll1.min_mag, coll1.max_mag), 'collector')


@scenario
def blocks(rnd, k, obs):
    items = [rnd.randint(0, 9) for _ in range(rnd.choice([3, 10, 30]))]
    limit = rnd.choice([5, 10, 20])
    hint = rnd.choice([1, 3, 7])
    own = own_random(rnd, k)
    if own.random() < .5:
        items[own.randrange(len(items))] += 1
    limit += own.choice([0, 0, 1])

    def weight(x):
        return x

    def kind(x):
        return x % 2
    calls = [lambda: block_splitter(items, limit, weight),
             lambda: block_splitter(items, limit, weight, kind),
             lambda: block_splitter(iter(items), limit),
             lambda: split_in_blocks(items, hint, weight, kind)]
    if not any(items):
        return
    expected = [map(list, call()) for call in calls]
    counts = [False, False, True, False]  # the items have weight one
    yield
    gens = [(iter(call()), []) for call in calls]
    while gens:
        i = rnd.randrange(len(gens))
        gen, got = gens[i]
        try:
            got.append(gen.next())
        except StopIteration:
            obs.eq(map(list, got), expected[i], 'blocks')
            obs.eq([x for block in got for x in block],
                   [x for x in items if x or counts[i]], 'items')
            del gens[i], expected[i], counts[i]
        yield


@scenario
def weighted_sequences(rnd, k, obs):
    pairs = [(rnd.choice('abc'), rnd.randint(1, 5))
             for _ in range(rnd.choice([0, 2, 4]))]
    own = own_random(rnd, k)
    seqs = []  # [sequence, items, weight]
    yield
    for _ in range(rnd.choice([3, 8])):
        how = own.randrange(4)
        if how == 0 or not seqs:
            seqs.append([WeightedSequence(pairs) if pairs or
                         own.random() < .5 else WeightedSequence(),
                         [p[0] for p in pairs], sum(p[1] for p in pairs)])
        elif how == 1:
            ent = own.choice(seqs)
            w = own.randint(1, 9)
            ent[0].append((str(k), w))
            ent[1].append(str(k))
            ent[2] += w
        elif how == 2:
            a, b = own.choice(seqs), own.choice(seqs)
            seqs.append([a[0] + b[0], a[1] + b[1], a[2] + b[2]])
        else:
            a, b = own.choice(seqs), own.choice(seqs)
            seqs.append([WeightedSequence.merge([a[0], b[0], a[0]]),
                         a[1] + b[1] + a[1], a[2] * 2 + b[2]])
        yield
        for ws, items, weight in seqs:
            obs.eq((list(ws), ws.weight, len(ws)),
                   (items, weight, len(items)), 'weighted-sequence')
        yield


def task(x, y=0):
    if x == 'wrong':
        raise ValueError('task %s' % y)
    return x, y


@scenario
def task_managers(rnd, k, obs):
    n = rnd.choice([1, 5, 30, 120])
    name = 'tasks' + rnd.choice(['', str(k)])
    own = own_random(rnd, k)
    wrong = own.randrange(n) if own.random() < .2 else None
    messages = []
    yield
    tm = parallel.TaskManager(
        task, lambda *args: messages.append(args[0] % args[1:]), name)
    yield
    for turn in range(rnd.choice([1, 2])):
        del messages[:]
        sent = []
        for i in range(n):
            args = ('wrong' if i == wrong and turn == 0 else i, own.random())
            tm.submit(*args)
            sent.append(args)
            if i < 15:
                yield
        if wrong is not None and turn == 0:
            err = obs.raises(RuntimeError, lambda: tm.aggregate_results(
                lambda acc, r: acc + [r], []), 'failure')
            obs.check('ValueError: task %s' % sent[wrong][1] in str(err),
                      'failure', err)
            return
        res = tm.aggregate_results(lambda acc, r: acc + [r], [])
        obs.eq(res, sent, 'results')
        obs.eq(messages[0], 'spawned %d tasks of kind %s' % (n, name),
               'progress')
        obs.eq(messages[-1], '%s 100%%' % name, 'progress')
        obs.eq(len([m for m in messages if '100%' in m]), 1, 'progress')
        yield


@scenario
def progress(rnd, k, obs):
    todo = rnd.choice([1, 2, 5, 30, 150]) + rnd.choice([0, k])
    messages = []
    gen = parallel.log_percent_gen(
        't%d' % k, todo, lambda *args: messages.append(args[0] % args[1:]))
    for i in range(todo + 1):
        obs.eq(gen.next(), i, 'number-of-calls')
        if i < 40:
            yield
    expected = ['spawned %d tasks of kind t%d' % (todo, k)]
    last = 0
    for i in range(1, todo):
        if i * 100 // todo > last:
            last = i * 100 // todo
            expected.append('t%d %3d%%' % (k, last))
    obs.eq(messages, expected + ['t%d 100%%' % k], 'messages')


@scenario
def monitors(rnd, k, obs):
    class Monitor(parallel.PerformanceMonitor):
        exits = 0

        def on_exit(self):
            self.exits += 1
    mons = [Monitor() for _ in range(rnd.choice([1, 2]))]
    own = own_random(rnd, k)
    yield
    state = [0] * len(mons)
    times = [0] * len(mons)
    starts = [None] * len(mons)
    excs = [None] * len(mons)
    for _ in range(rnd.choice([4, 9])):
        i = own.randrange(len(mons))
        mon = mons[i]
        if state[i]:
            exc = own.choice([None, ValueError('v%d' % k)])
            mon.__exit__(exc and ValueError, exc, None)
            obs.check(mon.exc is exc, 'exception')
            obs.check(mon.duration >= 0 and mon.start_time == starts[i],
                      'start-time')
            times[i] += 1
            excs[i] = exc
        else:
            obs.check(mon.__enter__() is mon, 'enter')
            starts[i] = mon.start_time
            excs[i] = None
        state[i] = not state[i]
        yield
        obs.eq([m.exits for m in mons], times, 'exits')
        obs.check(all(m.exc is e for m, e in zip(mons, excs)), 'exception')
        obs.eq([m.start_time for m in mons], starts, 'start-time')
        yield


@scenario
def pickles(rnd, k, obs):
    "What is pickled is the current state of the objects"
    objs = [[i] for i in range(rnd.choice([1, 3]))]
    own = own_random(rnd, k)
    old = []
    yield
    for _ in range(rnd.choice([2, 5])):
        own.choice(objs).append(own.choice(['x', k, None, .5]))
        seq = [own.choice(objs) for _ in range(own.choice([1, 4]))]
        pik = parallel.pickle_sequence(seq)
        old.append((pik, copy.deepcopy(seq)))
        yield
        for pik, seq in old:
            obs.eq([p.unpickle() for p in pik], seq, 'pickled')
        one = parallel.Pickled(own.choice(objs))
        exp = one.unpickle()
        exp.append('changed')
        obs.check(one.unpickle() != exp and exp[:-1] == one.unpickle(),
                  'unpickled-again')
        yield


@scenario
def validators(rnd, k, obs):
    words = ['w%d' % i for i in range(6)]
    rnd.shuffle(words)
    lo, hi = rnd.choice([(0, 1), (-10, 10), (5, 5.5)])
    own = own_random(rnd, k)
    mine = own.sample(words, own.choice([1, 2, 4]))
    hi += own.choice([0, .1, .5, 1])
    n = own.randint(1, 3)
    yield
    choice = valid.Choice(*mine)
    yield
    rng = valid.FloatRange(lo, hi)
    yield
    rgx = valid.Regex('^a{%d}$' % n)
    yield
    opt = valid.NoneOr(rng)
    opt2 = valid.NoneOr(choice)
    for _ in range(6):
        yield
        w = own.choice(words)
        for check in (choice, opt2):
            if w in mine:
                obs.eq(check(w), w, 'choice')
            else:
                obs.raises(ValueError, lambda: check(w), 'choice', w, mine)
        x = own.choice([lo, hi, hi + .05, lo - .05, (lo + hi) / 2.])
        for check in (rng, opt):
            if lo <= x <= hi:
                obs.eq(check(repr(x)), x, 'range')
            else:
                obs.raises(ValueError, lambda: check(repr(x)), 'range', x,
                           lo, hi)
        m = own.randint(1, 3)
        if m == n:
            obs.eq(rgx('a' * m), 'a' * m, 'regex')
        else:
            obs.raises(ValueError, lambda: rgx('a' * m), 'regex', m, n)
        obs.eq(opt(''), None, 'none')


@scenario
def risk_models(rnd, k, obs):
    "Models with the same identifiers and different values"
    kind, gen = rnd.choice(models.ALL)
    own = own_random(rnd, k)
    elem, canon, tabs = gen(own if own.random() < .6 else rnd)
    prefix = 'model'
    fname = os.path.join(obs.scratch, prefix + '.xml')
    with open(fname, 'w') as f:
        f.write(models.document(elem, own))
    yield
    conv = Converter.from_node(node_from_nrml(fname)[0])
    yield
    check_tables(obs, conv.tableset, tabs, 'extracted')
    yield
    arch = open_archive(own.choice(['mem', 'dir', 'zip']), obs, 'risk')
    man = CSVManager(arch).convert_from_nrml(fname)
    yield
    check_node(obs, conv.to_node(), canon, 'node-from-tables')
    yield
    check_tables(obs, man.get_tableset(), tabs, 'read')
    yield
    check_node(obs, man.convert_to_node(), canon, 'node-from-csv')
    obs.eq(man.find_invalid(), [], 'invalid')
