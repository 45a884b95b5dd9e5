"""C02: weighted sequences keep the sum of the weights of what was added"""
import itertools
from openquake.commonlib.general import WeightedSequence

RULE = ('histories of additions (construction, append, insert, extend, +=, +, '
        'merge) over several sequences, compared after each step with a list '
        'model; the signature is the history')
REQUIRE = ['appends', 'inserts', 'extends', 'sums', 'merges', 'orderings',
           'equalities', 'differences', 'large sequences']


class Sub(WeightedSequence):
    pass


WEIGHTS = [0, 1, 2, 3, 5, .5, .25, 10, 1024.125, 100000]


def pairs(rnd, n):
    return [(rnd.choice(['a', 'b', 0, None, 'c', 1.5, (), 'd']),
             rnd.choice(WEIGHTS)) for _ in range(n)]


def same(obs, ws, items, weight, clause, *detail):
    obs.check(len(ws) == len(items), clause + '-length', len(ws), items,
              *detail)
    obs.check(list(ws) == items, clause + '-items', list(ws), items, *detail)
    obs.check([ws[i] for i in range(len(items))] == items,
              clause + '-getitem', *detail)
    obs.check(ws.weight == weight, clause + '-weight', ws.weight, weight,
              *detail)
    obs.check(bool(ws) == bool(items), clause + '-truth', *detail)


def histories(rnd, obs):
    cls = rnd.choice([WeightedSequence, WeightedSequence, Sub])
    store = []  # list of [ws, items, weight]
    hist = []

    def new(ps):
        how = rnd.randrange(3)
        seq = ps if how == 0 else iter(ps) if how == 1 else tuple(ps)
        ws = cls(seq) if ps or rnd.random() < .5 else cls()
        store.append([ws, [p[0] for p in ps], sum(p[1] for p in ps)])
    new(pairs(rnd, rnd.choice([0, 1, 3])))
    for step in range(rnd.choice([3, 8, 20])):
        op = rnd.choice(['new', 'append', 'append', 'insert', 'insert',
                         'extend', 'iadd', 'add', 'merge'])
        ent = rnd.choice(store)
        ws, items, weight = ent
        if op == 'new':
            ps = pairs(rnd, rnd.choice([0, 1, 2, 5]))
            hist.append((op, ps))
            new(ps)
        elif op == 'append':
            p, = pairs(rnd, 1)
            hist.append((op, p))
            ws.append(p)
            ent[1] = items + [p[0]]
            ent[2] = weight + p[1]
            obs.ev('appends')
        elif op == 'insert':
            p, = pairs(rnd, 1)
            i = rnd.randint(-len(items) - 2, len(items) + 2)
            hist.append((op, i, p))
            ws.insert(i, p)
            ent[1] = items[:]
            ent[1].insert(i, p[0])
            ent[2] = weight + p[1]
            obs.ev('inserts')
        elif op in ('extend', 'iadd'):
            ps = pairs(rnd, rnd.choice([0, 1, 2, 4]))
            hist.append((op, ps))
            seq = ps if rnd.random() < .5 else iter(ps)
            if op == 'extend':
                ws.extend(seq)
            else:
                same_ws = ws
                ws += seq
                obs.check(ws is same_ws, 'iadd-identity')
            ent[1] = items + [p[0] for p in ps]
            ent[2] = weight + sum(p[1] for p in ps)
            obs.ev('extends')
        elif op == 'add':
            j = rnd.randrange(len(store))
            ws2, items2, weight2 = store[j]
            hist.append((op, store.index(ent), j))
            tot = ws + ws2
            obs.check(isinstance(tot, cls), 'sum-class', type(tot))
            store.append([tot, items + items2, weight + weight2])
            obs.ev('sums')
        else:
            idx = [rnd.randrange(len(store))
                   for _ in range(rnd.choice([0, 1, 2, 3]))]
            hist.append((op, idx))
            lst = [store[i][0] for i in idx]
            if rnd.random() < .3:
                lst = iter(lst)
            tot = cls.merge(lst)
            obs.check(isinstance(tot, cls), 'merge-class', type(tot))
            store.append([
                tot,
                list(itertools.chain(*[store[i][1] for i in idx])),
                sum(store[i][2] for i in idx)])
            obs.ev('merges')
        obs.note('history', hist)
        # after every step *all* the sequences are as in the model: the
        # operands of + and merge are not touched, nothing is shared
        for n, (w, its, wgt) in enumerate(store):
            same(obs, w, its, wgt, 'state', 'sequence', n, 'history', hist)
    obs.nontrivial(hist)
    obs.sample(hist)


def compare(rnd, obs):
    sets = [WeightedSequence(pairs(rnd, rnd.choice([0, 1, 1, 2, 3])))
            for _ in range(rnd.choice([2, 3, 6]))]
    for a in sets:
        for b in sets:
            obs.check((a < b) == (a.weight < b.weight), 'less-than', a, b)
            obs.check((a > b) == (a.weight > b.weight), 'greater-than', a, b)
            obs.ev('orderings')
            exp = list(a) == list(b)
            obs.check((a == b) == exp, 'equality', a, b)
            obs.check((a != b) == (not exp), 'inequality', a, b)
            obs.ev('equalities' if exp else 'differences')
    weights = [ws.weight for ws in sets]
    obs.eq([w.weight for w in sorted(sets)], sorted(weights), 'sorted')
    obs.eq(max(sets).weight, max(weights), 'max')
    obs.eq(min(sets).weight, min(weights), 'min')
    a = rnd.choice(sets)
    items = list(a)
    # the weights do not matter for the equality, the items and length do
    twin = WeightedSequence((x, rnd.choice(WEIGHTS)) for x in items)
    obs.check(a == twin and not (a != twin), 'equal-items', a, twin)
    obs.check(a == items and not (a != items), 'equal-list', a, items)
    longer = WeightedSequence([(x, 1) for x in items] + [('new', 0)])
    obs.check(not (a == longer) and a != longer and not (longer == a)
              and longer != a, 'prefix-not-equal', a, longer)
    for other in (None, 1, object()):
        obs.check(not (a == other) and a != other, 'not-a-sequence', a, other)
    if items:
        i = rnd.randrange(len(items))
        changed = items[:]
        changed[i] = 'changed'
        obs.check(a != changed and not (a == changed), 'changed-item', a)
    obs.check(repr(a.weight) in repr(a) or str(a.weight) in repr(a),
              'repr-weight', repr(a))
    obs.nontrivial([(list(s), s.weight) for s in sets])


def large(rnd, obs):
    "Many items and many sequences"
    ps = pairs(rnd, 1500)
    ws = WeightedSequence(iter(ps))
    same(obs, ws, [p[0] for p in ps], sum(p[1] for p in ps), 'state')
    more = pairs(rnd, 600)
    for p in more:
        ws.append(p)
    ps += more
    same(obs, ws, [p[0] for p in ps], sum(p[1] for p in ps), 'state')
    parts = [pairs(rnd, rnd.choice([0, 1, 10])) for _ in range(80)]
    seqs = map(WeightedSequence, parts)
    tot = WeightedSequence.merge(seqs)
    flat = list(itertools.chain(*parts))
    same(obs, tot, [p[0] for p in flat], sum(p[1] for p in flat), 'merge')
    for part, seq in zip(parts, seqs):
        same(obs, seq, [p[0] for p in part], sum(p[1] for p in part),
             'operands')
    twin = WeightedSequence(ps)
    obs.check(twin == ws and not (twin != ws), 'equal-items')
    i = rnd.randrange(len(ps))
    ps[i] = ('changed', ps[i][1])
    twin = WeightedSequence(ps)
    obs.check(twin != ws and not (twin == ws), 'changed-item', i)
    obs.ev('large sequences')
    obs.nontrivial(ps)


FAMILIES = [('large', large, 5, 100),
            ('histories', histories, 1200, 25000),
            ('compare', compare, 800, 15000)]
