"""C16: tables keep their unique constraints through any history"""
from openquake.commonlib import record
from openquake.commonlib.record import Table
import rectypes as rt

RULE = ('histories of operations (append, insert, extend, replace, delete, '
        'pop, remove, reverse, search) on tables with one or two unique '
        'constraints over small key domains, compared after each operation '
        'with a list model; the signature is the history')
REQUIRE = ['accepted insertions', 'rejected insertions', 'accepted '
           'replacements', 'rejected replacements', 'deletions', 'searches',
           'failed searches', 'reversals', 'comparisons', 'big tables']


# different texts which could be confused
SIMILAR = ['a', 'A', ' a', 'a ', 'a\n', 'ab', '1', '01', '1.0', ' ', '']


def variants(rnd, key):
    "Other keys, similar to the given one"
    out = list(key)
    i = rnd.randrange(len(out))
    v = out[i]
    out[i] = rnd.choice([v.upper(), v.lower(), v + ' ', ' ' + v, v.strip(),
                         '0' + v, v + '.0', v[:-1], v + v])
    return tuple(out)


def make(rnd):
    names = rnd.sample(['id', 'lon', 'lat', 'code', 'note'], 4)
    dic = dict((n, record.Field(str)) for n in names)
    # the order of the fields is the one of creation: make it explicit
    dic = {}
    for n in names:
        dic[n] = record.Field(str)
    pk = names[:rnd.choice([1, 1, 2, 3])]
    dic['pkey'] = record.Unique(*pk)
    constraints = [('pkey', pk)]
    if rnd.random() < .6:
        un = rnd.sample(names, rnd.choice([1, 2, 3]))
        dic['unique'] = record.Unique(*un)
        constraints.append(('unique', un))
    base = record.Record
    if rnd.random() < .25:  # some fields and constraints are inherited
        k = rnd.randint(len(pk), len(names))
        inherited = dict((n, dic.pop(n)) for n in names[:k])
        if rnd.random() < .8:
            inherited['pkey'] = dic.pop('pkey')
        else:  # overridden
            inherited['pkey'] = record.Unique(names[0])
        if 'unique' in dic and rnd.random() < .7 and set(un) <= set(
                names[:k]):
            inherited['unique'] = dic.pop('unique')
        base = record.MetaRecord('Base', (record.Record,), inherited)
        if rnd.random() < .3:  # two levels
            base = record.MetaRecord('Middle', (base,), {})
    return record.MetaRecord('Rec', (base,), dic), names, constraints


class Model(object):
    def __init__(self, names, constraints):
        self.names = names
        self.constraints = constraints
        self.rows = []

    def key(self, fields, row):
        return tuple(row[self.names.index(f)] for f in fields)

    def clashes(self, row, ignore=None):
        "The violated constraints"
        out = []
        for cname, fields in self.constraints:
            for i, r in enumerate(self.rows):
                if i != ignore and self.key(fields, r) == self.key(
                        fields, row):
                    out.append((fields, self.key(fields, row)))
        return out


def check_state(rnd, obs, table, model, dead, hist):
    rows = model.rows
    obs.eq(len(table), len(rows), 'length', hist)
    obs.eq([list(r) for r in table], rows, 'content', hist)
    obs.eq(str(table), '\n'.join(','.join(r) for r in rows), 'str', hist)
    pk = dict(model.constraints)['pkey']
    for i, row in enumerate(rows):
        obs.check(table[i] == row, 'getitem', i, hist)
        got = table.getrecord(*model.key(pk, row))
        obs.check(got is table[i], 'search', row, got, hist)
        obs.ev('searches')
    alive = set(model.key(pk, row) for row in rows)
    similar = [variants(rnd, key) for key in sorted(alive)]
    if len(rows) > 1:  # mix the keys of two records
        similar += [tuple(rnd.choice(p) for p in zip(*rnd.sample(
            sorted(alive), 2)))]
    for key in sorted(dead) + similar:
        if key not in alive:
            obs.raises(KeyError, lambda: table.getrecord(*key),
                       'search-missing', key, hist)
            obs.ev('failed searches')


def check_message(obs, err, clashes, hist):
    "The message tells the duplicated values"
    text = str(err.args[0])  # str(KeyError) is a representation
    obs.check(any(all('%s=%s' % fv in text for fv in zip(f, k))
                  for f, k in clashes), 'message', text, clashes)
    obs.check('Duplicated record' in text and 'Rec' in text, 'message', text)


def histories(rnd, obs):
    rectype, names, constraints = make(rnd)
    model = Model(names, constraints)
    domain = rnd.choice([
        [str(i) for i in range(rnd.choice([2, 3, 5]))] + [''],
        SIMILAR, rnd.sample(SIMILAR, 4)])

    def gen():
        return [rnd.choice(domain) for _ in names]
    hist = []
    dead = set()
    pk = constraints[0][1]
    initial = []
    for _ in range(rnd.choice([0, 0, 2, 4])):
        row = gen()
        if not model.clashes(row):
            model.rows.append(row)
            initial.append(row)
    table = Table(rectype, [rectype(*r) for r in initial])
    hist.append(('init', initial))
    check_state(rnd, obs, table, model, dead, hist)
    for step in range(rnd.choice([3, 8, 15, 30])):
        op = rnd.choice(['append', 'append', 'insert', 'insert', 'set',
                         'set', 'del', 'pop', 'remove', 'extend', 'reverse',
                         'contains'])
        row = gen()
        rec = rectype(*row)
        dead.add(model.key(pk, row))
        n = len(model.rows)
        if op in ('append', 'insert'):
            pos = n if op == 'append' else rnd.randint(-n - 1, n + 1)
            hist.append((op, pos, row))
            clashes = model.clashes(row)

            def insert():
                if op == 'append':
                    table.append(rec)
                else:
                    table.insert(pos, rec)
            if clashes:
                e = obs.raises(KeyError, insert, 'duplicate-accepted', hist)
                check_message(obs, e, clashes, hist)
                obs.ev('rejected insertions')
            else:
                insert()
                model.rows.insert(pos, row)
                obs.ev('accepted insertions')
        elif op == 'set' and n:
            i = rnd.randrange(-n, n)
            if rnd.random() < .4:  # keep some of the old values
                old = model.rows[i]
                row = [rnd.choice(p) for p in zip(old, row)]
                rec = rectype(*row)
                dead.add(model.key(pk, row))
            hist.append((op, i, row))
            clashes = model.clashes(row, ignore=i % n)

            def replace():
                table[i] = rec
            if clashes:
                e = obs.raises(KeyError, replace, 'duplicate-accepted', hist)
                check_message(obs, e, clashes, hist)
                obs.ev('rejected replacements')
            else:
                replace()
                model.rows[i] = row
                obs.ev('accepted replacements')
        elif op in ('del', 'pop', 'remove') and n:
            i = rnd.randrange(-n, n)
            hist.append((op, i))
            old = model.rows[i]
            if op == 'del':
                del table[i]
                del model.rows[i]
            elif op == 'pop':
                if rnd.random() < .3:
                    i = -1
                    old = model.rows[-1]
                    got = table.pop()
                else:
                    got = table.pop(i)
                obs.check(got == old, 'popped', got, old)
                model.rows.pop(i)
            else:
                table.remove(rectype(*old))
                model.rows.remove(old)
            dead.add(model.key(pk, old))
            obs.ev('deletions')
        elif op == 'extend':
            rows = [gen() for _ in range(rnd.choice([0, 1, 2, 3]))]
            hist.append((op, rows))

            def extend():
                table.extend([rectype(*r) for r in rows])
            before = len(model.rows)
            clash = None
            for r in rows:
                dead.add(model.key(pk, r))
                if model.clashes(r):
                    clash = r
                    break
                model.rows.append(r)
            if clash:
                obs.raises(KeyError, extend, 'duplicate-accepted', hist)
                obs.ev('rejected insertions')
            else:
                extend()
                obs.ev('accepted insertions', len(model.rows) - before)
        elif op == 'reverse':
            hist.append((op,))
            table.reverse()
            model.rows.reverse()
            obs.ev('reversals')
        elif op == 'contains':
            hist.append((op, row))
            obs.check((rec in table) == (row in model.rows), 'contains',
                      hist)
            obs.eq(table.count(rec), model.rows.count(row), 'count', hist)
        if op in ('del', 'pop', 'set') and rnd.random() < .1:
            out = rnd.choice([n + 5, -n - 6])
            if op == 'set':
                def bad():
                    table[out] = rec
            elif op == 'pop':
                def bad():
                    table.pop(out)
            else:
                def bad():
                    del table[out]
            obs.raises(IndexError, bad, 'index-out-of-range', hist)
        obs.note(names, constraints, hist[-12:])
        check_state(rnd, obs, table, model, dead, hist)
    obs.nontrivial(constraints, hist)
    obs.sample((constraints, hist[:6]))
    compare(rnd, obs, rectype, table, model)


def compare(rnd, obs, rectype, table, model):
    rows = model.rows
    twin = Table(rectype, [rectype(*r) for r in rows])
    obs.check(table == twin and not (table != twin), 'equal-tables', rows)
    obs.check(table == rows and not (table != rows), 'equal-lists', rows)
    more = rows + [['x', 'y', 'z', 't']]
    big = Table(rectype, [rectype(*r) for r in more])
    obs.check(not (table == big) and table != big and big != table,
              'longer-table', rows)
    if rows:
        less = Table(rectype, [rectype(*r) for r in rows[:-1]])
        obs.check(not (table == less) and table != less, 'shorter-table')
        other = [r[:] for r in rows]
        other[rnd.randrange(len(rows))] = ['x', 'y', 'z', 't']
        obs.check(table != other and not (table == other),
                  'different-table', rows, other)
    for thing in (None, 0, 1.5, True, object(), len, int, {},
                  dict(enumerate(rows)), set(map(tuple, rows))):
        obs.check((table == thing) is False and (table != thing) is True,
                  'not-a-sequence', rows, repr(thing))
        obs.check(thing not in table and table.count(thing) == 0,
                  'not-a-record', rows, repr(thing))
        obs.raises(ValueError, lambda: table.index(thing), 'index', rows)
    obs.ev('comparisons')


def validity(rnd, obs):
    rectype, cols = rt.make_type(rnd, defaults=False)
    rows = []
    pbad = rnd.choice([0, 0, .1])
    for i in range(rnd.choice([0, 1, 3, 6])):
        row = [kind.gen(rnd, pbad) for nam, kind, d in cols]
        if row[0] not in [r[0] for r in rows]:
            rows.append(row)
    table = Table(rectype, (rectype(*r) for r in rows))
    exp = all(kind.ok(t) for r in rows
              for (nam, kind, d), t in zip(cols, r))
    obs.check(table.is_valid() is exp, 'table-validity', rows)
    dups = rows + [rnd.choice(rows)] if rows else []
    if dups:
        obs.raises(KeyError, lambda: Table(
            rectype, [rectype(*r) for r in dups]), 'duplicates-at-creation')
    obs.ev('comparisons')
    obs.nontrivial(rows)


def big(rnd, obs):
    """
    A table with hundreds of records, with insertions and deletions in any
    place
    """
    A, B = record.Field(str), record.Field(str)
    rectype = record.MetaRecord('Rec', (record.Record,), dict(
        a=A, b=B, pkey=record.Unique('a'), unique=record.Unique('a', 'b')))
    names = rectype.fieldnames
    n = rnd.choice([150, 400, 700])

    def row(i, b='x'):
        d = dict(a=str(i), b=b)
        return [d[nam] for nam in names]
    order = range(n)
    rnd.shuffle(order)
    rows = [row(i) for i in order]
    table = Table(rectype, [rectype(*r) for r in rows])
    dead = []
    for _ in range(60):
        op = rnd.choice(['del', 'pop', 'append', 'insert', 'set', 'dup',
                         'setdup', 'back'])
        i = rnd.randrange(len(rows))
        if op == 'del':
            dead.append(rows[i])
            del table[i], rows[i]
        elif op == 'pop':
            dead.append(rows[i])
            obs.eq(list(table.pop(i)), rows.pop(i), 'popped', i)
        elif op == 'append':
            n += 1
            rows.append(row(n))
            table.append(rectype(*rows[-1]))
        elif op == 'insert':
            n += 1
            rows.insert(i, row(n))
            table.insert(i, rectype(*rows[i]))
        elif op == 'set':
            n += 1
            dead.append(rows[i])
            rows[i] = row(n)
            table[i] = rectype(*rows[i])
        elif op == 'back' and dead:  # insert again a deleted record
            rows.insert(i, dead.pop(rnd.randrange(len(dead))))
            table.insert(i, rectype(*rows[i]))
        elif op in ('dup', 'setdup'):
            j = rnd.randrange(len(rows))
            if i == j:
                continue
            new = dict(zip(names, rows[j]))
            new['b'] = rnd.choice('xy')
            rec = rectype(*[new[nam] for nam in names])

            def duplicate():
                if op == 'dup':
                    table.insert(i, rec)
                else:
                    table[i] = rec
            obs.raises(KeyError, duplicate, 'duplicate-accepted', op, i, j)
    obs.note(n, len(rows))
    obs.eq(len(table), len(rows), 'length')
    obs.check([list(r) for r in table] == rows, 'content')
    for i, r in enumerate(rows):
        key = dict(zip(names, r))['a']
        got = table.getrecord(key)
        obs.check(got is table[i], 'search', key, i, got)
    alive = set(dict(zip(names, r))['a'] for r in rows)
    for i in range(n + 3):
        if str(i) not in alive:
            obs.raises(KeyError, lambda: table.getrecord(str(i)),
                       'search-missing', i)
    twin = Table(rectype, [rectype(*r) for r in rows])
    obs.check(table == twin and not (table != twin), 'equal-tables')
    i = rnd.randrange(len(rows))
    twin[i] = rectype(*row('other'))
    obs.check(table != twin and not (table == twin), 'different-tables', i)
    obs.ev('big tables')
    obs.nontrivial(rows)


FAMILIES = [('histories', histories, 500, 9000),
            ('big', big, 12, 200),
            ('validity', validity, 300, 4000)]
