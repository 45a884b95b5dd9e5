"""C17: referential integrity inside a set of tables"""
from openquake.commonlib import record, records, converter
from openquake.commonlib.record import TableSet, ForeignKeyError

RULE = ('histories of insertions (one or many records), with and without '
        'companion records and duplicates, also through slices of the set, '
        'of replacements and of deletions in tables related '
        'by foreign keys, on the vulnerability tables and on random schemas; '
        'the signature is (schema, history)')
REQUIRE = ['accepted records', 'missing companions', 'duplicates',
           'deletions', 'replacements', 'slices', 'bulk insertions', 'stopped bulk insertions',
           'shipped schema', 'many records']


class Schema(object):
    """
    tables: list of (record type, field names, list of unique keys,
    [(index of target table, target names, names)])
    """
    def __init__(self, convertertype, tables):
        self.convertertype = convertertype
        self.tables = tables


def vulnerability():
    S, F, D = (records.DiscreteVulnerabilitySet,
               records.DiscreteVulnerability,
               records.DiscreteVulnerabilityData)
    sid, fid = 'vulnerabilitySetID', 'vulnerabilityFunctionID'
    return Schema(converter.Vulnerability, [
        (S, S.fieldnames, [[sid]], []),
        (F, F.fieldnames, [[sid, fid]], [(0, [sid], [sid])]),
        (D, D.fieldnames, [[sid, fid, 'IML']],
         [(1, [sid, fid], [sid, fid])])])


def random_schema(rnd):
    tables = []
    for t in range(rnd.choice([2, 3, 4])):
        names = ['f%d%s' % (t, c) for c in rnd.sample('abcde', 4)]
        dic = {}
        for n in names:
            dic[n] = record.Field(str)
        pk = names[:rnd.choice([1, 2, 3])]
        dic['pkey'] = record.Unique(*pk)
        uniques = [pk]
        if rnd.random() < .3:
            uniques.append(rnd.sample(names, rnd.choice([1, 2])))
            dic['other'] = record.Unique(*uniques[1])
        fkeys = []
        for k in range(rnd.choice([0, 1, 1, 2]) if t else 0):
            target = rnd.randrange(t)
            which = rnd.randrange(len(tables[target][2]))
            tpk = tables[target][2][which]
            mine = rnd.sample(names, len(tpk))
            dic['fkey%d' % k] = record.ForeignKey(
                getattr(tables[target][0], ['pkey', 'other'][which]), *mine)
            fkeys.append((target, tpk, mine))
        base = record.Record
        if rnd.random() < .2:  # the keys and some references are inherited
            inherited = dict((n, dic.pop(n)) for n in sorted(dic)
                             if not n.startswith('fkey')
                             or rnd.random() < .7)
            for n in names[rnd.randrange(len(pk), len(names) + 1):]:
                dic[n] = inherited.pop(n)
            base = record.MetaRecord('Base%d' % t, (record.Record,),
                                     inherited)
        rectype = record.MetaRecord('Tab%d' % t, (base,), dic)
        tables.append((rectype, names, uniques, fkeys))

    class Conv(object):
        @classmethod
        def recordtypes(cls):
            return [t[0] for t in tables]

        def __init__(self, tableset):
            self.tableset = tableset

        def to_node(self):
            return ['node', self.tableset]
    return Schema(Conv, tables)


class Model(object):
    def __init__(self, schema):
        self.schema = schema
        self.rows = [[] for _ in schema.tables]

    def values(self, t, names, row):
        fields = self.schema.tables[t][1]
        return tuple(row[fields.index(n)] for n in names)

    def missing(self, t, row):
        out = []
        for target, tnames, names in self.schema.tables[t][3]:
            keys = self.values(t, names, row)
            if keys not in [self.values(target, tnames, r)
                            for r in self.rows[target]]:
                out.append((target, keys))
        return out

    def duplicate(self, t, row, ignore=None):
        return any(self.values(t, key, row) in [
            self.values(t, key, r) for i, r in enumerate(self.rows[t])
            if i != ignore] for key in self.schema.tables[t][2])


def check_state(obs, tset, model, hist):
    tables = model.schema.tables
    obs.eq(len(tset), len(tables), 'number-of-tables')
    for t, rows in enumerate(model.rows):
        tbl = getattr(tset, 'table' + tables[t][0].__name__)
        obs.eq(tbl.name, 'table' + tables[t][0].__name__, 'table-name')
        obs.eq([list(r) for r in tbl], rows, 'table-content', hist)
    obs.eq([tbl.recordtype.__name__ for tbl in tset],
           [tables[t][0].__name__ for t, rows in enumerate(model.rows)
            if rows], 'nonempty-tables', hist)


def histories(rnd, obs):
    if rnd.random() < .4:
        schema = vulnerability()
        obs.ev('shipped schema')
    else:
        schema = random_schema(rnd)
    tset = TableSet(schema.convertertype)
    other = TableSet(schema.convertertype)  # must not be touched
    model = Model(schema)
    domain = rnd.choice(['ab', 'abc', ['', 'x'],
                         ['a', 'A', ' a', 'a '], ['1', '01', '1.0']])
    n_tables = len(schema.tables)

    def gen(t):
        return [rnd.choice(domain) for _ in schema.tables[t][1]]

    def fix(t, row):
        "Make the record refer to existing records"
        fields = schema.tables[t][1]
        for target, tnames, names in schema.tables[t][3]:
            if model.rows[target]:
                keys = model.values(target, tnames,
                                    rnd.choice(model.rows[target]))
                for n, k in zip(names, keys):
                    row[fields.index(n)] = k
                if rnd.random() < .3:  # almost a reference
                    row[fields.index(rnd.choice(names))] = rnd.choice(domain)
        return row
    hist = []
    for step in range(rnd.choice([5, 12, 25])):
        op = rnd.choice(['insert', 'insert', 'insert', 'insert_all', 'del',
                         'set', 'slice'])
        target = tset
        if op == 'slice':  # the first tables, which are shared
            n = rnd.randint(1, n_tables)
            target = tset[:n]
            obs.check(type(target) is TableSet and len(target) == n and
                      target.convertertype is tset.convertertype, 'slice', n)
            obs.check(all(a is b for a, b in zip(target.tables, tset.tables)),
                      'slice-tables', n)
            obs.ev('slices')
            op = 'insert'
        if op == 'insert':
            t = rnd.randrange(len(target))
            row = gen(t)
            if rnd.random() < .6:
                row = fix(t, row)
            rec = schema.tables[t][0](*row)
            hist.append((op, t, row))
            missing, dup = model.missing(t, row), model.duplicate(t, row)

            def insert():
                target.insert(rec)
            if missing:
                e = obs.raises((ForeignKeyError, KeyError) if dup
                               else ForeignKeyError, insert,
                               'missing-companion-accepted', hist)
                if isinstance(e, ForeignKeyError):
                    obs.check(any(schema.tables[tg][0].__name__ in str(e) and
                                  all(repr(k) in str(e) for k in keys)
                                  for tg, keys in missing), 'message',
                              str(e), missing)
                obs.ev('missing companions')
            elif dup:
                obs.raises(KeyError, insert, 'duplicate-accepted', hist)
                obs.ev('duplicates')
            else:
                insert()
                model.rows[t].append(row)
                obs.ev('accepted records')
        elif op == 'insert_all':
            recs, stop = [], None
            todo = [rnd.randrange(n_tables)
                    for _ in range(rnd.choice([0, 1, 3, 6]))]
            todo.sort()
            rows = []
            for t in todo:
                row = fix(t, gen(t)) if rnd.random() < .9 else gen(t)
                rows.append((t, row))
                recs.append(schema.tables[t][0](*row))
                if stop is None:
                    if model.missing(t, row):
                        stop = ForeignKeyError
                        if model.duplicate(t, row):
                            stop = (ForeignKeyError, KeyError)
                    elif model.duplicate(t, row):
                        stop = KeyError
                    else:
                        model.rows[t].append(row)
            hist.append((op, rows))
            arg = rnd.choice([list, iter])(recs)
            if stop:
                obs.raises(stop, lambda: tset.insert_all(arg),
                           'bulk-insertion', hist)
                obs.ev('stopped bulk insertions')
            else:
                tset.insert_all(arg)
                obs.ev('bulk insertions')
        elif op == 'set':
            t = rnd.randrange(n_tables)
            if model.rows[t]:
                i = rnd.randrange(len(model.rows[t]))
                tbl = getattr(tset, 'table' + schema.tables[t][0].__name__)
                row = fix(t, gen(t))
                if rnd.random() < .3:  # change a single field
                    j = rnd.randrange(len(row))
                    old = model.rows[t][i][:]
                    old[j], row = row[j], old
                hist.append((op, t, i, row))
                rec = schema.tables[t][0](*row)
                if model.duplicate(t, row, i):
                    def replace():
                        tbl[i] = rec
                    obs.raises(KeyError, replace, 'duplicate-accepted', hist)
                else:
                    tbl[i] = rec
                    model.rows[t][i] = row
                    obs.ev('replacements')
        else:
            t = rnd.randrange(n_tables)
            if model.rows[t]:
                i = rnd.randrange(len(model.rows[t]))
                hist.append((op, t, i))
                tbl = getattr(tset, 'table' + schema.tables[t][0].__name__)
                del tbl[i]
                del model.rows[t][i]
                obs.ev('deletions')
        obs.note([(t[0].__name__, t[1:]) for t in schema.tables], hist[-8:])
        check_state(obs, tset, model, hist)
    obs.eq([len(t) for t in other.tables], [0] * n_tables, 'shared-state')
    obs.nontrivial([t[1:] for t in schema.tables], hist)
    obs.sample(hist[:6])


def many(rnd, obs):
    "Hundreds of records, one of which can be wrong"
    S, F, D = (records.DiscreteVulnerabilitySet,
               records.DiscreteVulnerability,
               records.DiscreteVulnerabilityData)
    rows = []
    nf = rnd.choice([10, 40])
    for s in range(nf / 5):
        rows.append((S, ['set%d' % s, 'buildings', 'x', 'PGA']))
    for f in range(nf):
        rows.append((F, ['set%d' % (f / 5), 'fun%d' % f, 'LN']))
    levels = rnd.choice([3, 8])
    for f in range(nf):
        for i in range(levels):
            rows.append((D, ['set%d' % (f / 5), 'fun%d' % f, '0.%d' % i,
                             '0.5', '0']))
    rnd.shuffle(rows)
    rows.sort(key=lambda row: [S, F, D].index(row[0]))
    good = rows[:]
    how = rnd.choice(['good', 'missing', 'duplicate'])
    where = len(rows)
    if how == 'missing':  # a reference to another existing set
        candidates = [i for i, (t, r) in enumerate(rows) if t is not S]
        where = rnd.choice(candidates)
        t, r = rows[where]
        r = r[:]
        if t is F:
            r[0] = 'set%d' % nf
        else:
            k = int(r[1][3:])
            r[1] = 'fun%d' % ((k + 5) % nf)
        rows.insert(where, (t, r))
    elif how == 'duplicate':
        where = rnd.randrange(1, len(rows))
        t, r = rows[rnd.randrange(where)]
        rows.insert(where, (t, r[:]))
    tset = TableSet(converter.Vulnerability)
    recs = [t(*r) for t, r in rows]
    if how == 'good':
        tset.insert_all(iter(recs))
    else:
        obs.raises(ForeignKeyError if how == 'missing' else KeyError,
                   lambda: tset.insert_all(recs), 'bulk-insertion', how,
                   where, len(rows), rows[where])
        if rnd.random() < .5:  # continue
            tset.insert_all(recs[where + 1:])
            where = len(rows)
            rows = good
    obs.note(how, where, len(rows))
    for t in (S, F, D):
        tbl = getattr(tset, 'table' + t.__name__)
        obs.check([list(r) for r in tbl] ==
                  [r for ty, r in rows[:where] if ty is t],
                  'table-content', t.__name__, how, where)
    obs.ev('many records')
    obs.nontrivial(how, where, rows)


FAMILIES = [('histories', histories, 500, 9000),
            ('many', many, 12, 150)]
