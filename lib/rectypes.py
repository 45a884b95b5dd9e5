"""Record types made on the fly, with an independent description of them"""
from openquake.commonlib import record, valid

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
DIGITS = '0123456789'
BAD_NUMBERS = ['abc', '\xc3\xa9', '\xe4\xb8\xad', '', '1 2', '--1', '1.2.3', 'x1', '1,5', 'nan ?']


def is_int(t):
    s = t.strip()
    if s[:1] in ('+', '-'):
        s = s[1:]
    return s.isdigit()


def is_float(t):
    s = t.strip().lower()
    if s[:1] in ('+', '-'):
        s = s[1:]
    mant, e, exp = s.partition('e')
    if e and not is_int(exp):
        return False
    left, dot, right = mant.partition('.')
    return (left + right).isdigit()


def in_range(lo, hi):
    return lambda t: is_float(t) and lo <= float(t) <= hi


def is_name(t):
    return len(t) > 0 and t[0] in LETTERS and all(
        c in LETTERS + DIGITS for c in t)


IMTS = ['PGA', 'PGV', 'PGD', 'IA', 'RSD', 'MMI', 'SA(0.1)', 'SA(1)',
        'SA(2.)']


class Kind(object):
    """
    A kind of field: name, cast function given to the repository, independent
    recognizer and value function, good and bad texts
    """
    def __init__(self, name, cast, ok, value, good, bad):
        self.name, self.cast, self.ok, self.value = name, cast, ok, value
        self.good, self.bad = good, bad

    def gen(self, rnd, pbad=.25):
        if self.bad and rnd.random() < pbad:
            return rnd.choice(self.bad)
        return rnd.choice(self.good)


def optional(kind):
    return Kind('opt_' + kind.name, valid.NoneOr(kind.cast),
                lambda t: t == '' or kind.ok(t),
                lambda t: None if t == '' else kind.value(t),
                [''] + kind.good, [b for b in kind.bad if b != ''])


def choice(*words):
    return Kind('choice', valid.Choice(*words), lambda t: t in words, str,
                list(words), ['xxx', words[0] + ' ', words[0].upper(), ''])


BOOL = {'0': False, '1': True, 'true': True, 'false': False}

STR = Kind('str', str, lambda t: True, str,
           ['', 'a', 'text with blanks', 'a,b', '"q"', '1', "o'hara",
            'x\ny', '%s', '  pad ', 'long text ' * 500], [])
INT = Kind('int', int, is_int, int, ['0', '1', '-5', '12', ' 7', '007'],
           BAD_NUMBERS + ['1.5', '1e3', '1.0'])
FLOAT = Kind('float', float, is_float, float,
             ['0', '1', '-5', '.5', '1.25', '1e-3', ' 2.5 ', '-0.0'],
             BAD_NUMBERS)
POSFLOAT = Kind('positivefloat', valid.positivefloat,
                lambda t: is_float(t) and float(t) >= 0, float,
                ['0', '0.5', '1e10', '7', '-0'],
                BAD_NUMBERS + ['-1', '-1e-9', 'nan'])
POSINT = Kind('positiveint', valid.positiveint,
              lambda t: is_int(t) and int(t) >= 0, int, ['0', '1', '33'],
              BAD_NUMBERS + ['-1', '1.5', '2.0'])
LON = Kind('longitude', valid.longitude, in_range(-180, 180), float,
           ['0', '180', '-180', '10.5', '-91'],
           BAD_NUMBERS + ['180.1', '-181', '1e5', 'nan'])
LAT = Kind('latitude', valid.latitude, in_range(-90, 90), float,
           ['0', '90', '-90', '10.5'],
           BAD_NUMBERS + ['90.1', '-91', '180', 'nan'])
PROB = Kind('probability', valid.probability, in_range(0, 1), float,
            ['0', '1', '0.5', '1e-5'],
            BAD_NUMBERS + ['1.1', '-0.1', '2', 'nan'])
NAME = Kind('name', valid.name, is_name, str, ['a', 'x1', '_y', 'Abc'],
            ['', '1a', 'a b', 'a-b', 'a\n', 'a.b'])
BOOLEAN = Kind('boolean', valid.boolean, lambda t: t in BOOL,
               lambda t: BOOL[t], ['0', '1', 'true', 'false'],
               ['', 'True', 'FALSE', 'yes', '2', ' 1'])
NOTEMPTY = Kind('not_empty', valid.not_empty, lambda t: t != '', str,
                ['a', 'b c', ' ', '0'], [''])
IMT = Kind('imt', valid.IMTstr, lambda t: t in IMTS,
           lambda t: ((t, None, None) if t[:2] != 'SA' else
                      ('SA', float(t[3:-1]), 5)), IMTS,
           ['', 'SA', 'PGX', 'SA(x)', 'PGAx', 'pga', 'SA(0.1', 'XPGA'])
NAMELIST = Kind('namelist', valid.namelist,
                lambda t: len(t.split()) > 0 and all(map(is_name, t.split())),
                lambda t: t.split(), ['a', 'a b', 'slight  complete', ' x '],
                ['', ' ', '1', 'a 2b', 'a,b'])
CATEGORY = choice('population', 'buildings')
CATEGORY.cast = valid.category
KINDS = [STR, INT, FLOAT, POSFLOAT, POSINT, LON, LAT, PROB, NAME, BOOLEAN,
         NOTEMPTY, IMT, NAMELIST, CATEGORY, choice('a', 'bb'), optional(INT),
         optional(POSFLOAT), optional(BOOLEAN), optional(choice('u', 'v'))]

FIELDNAMES = ['zeta', 'alpha', 'id', 'lon', 'lat', 'value', 'm1', 'Beta',
              'x', 'name', 'kind', 'omega']


def make_type(rnd, kinds=KINDS, n=None, name='Rec', npkey=1, defaults=True,
              inherit=True):
    """
    Build a random record type; return it with the list of its columns
    (name, kind, default)
    """
    n = n or rnd.choice([1, 2, 3, 5, 8])
    names = rnd.sample(FIELDNAMES + ['col%d' % i for i in range(
        n if n > len(FIELDNAMES) else 0)], n)
    cols = []
    dic = {}
    inherit = inherit and n > 2 and rnd.random() < .2
    for nam in names:  # the order of the definition is the order of columns
        kind = rnd.choice(kinds)
        default = ''
        if defaults and rnd.random() < .3:
            default = kind.gen(rnd)
            dic[nam] = record.Field(kind.cast, default=default)
        else:
            dic[nam] = record.Field(kind.cast)
        cols.append((nam, kind, default))
    dic['pkey'] = record.Unique(*names[:npkey])
    if inherit:
        k = rnd.randint(1, n - 1)
        base = dict((nam, dic.pop(nam)) for nam in names[:k])
        base['pkey'] = record.Unique(*names[:1])
        dic.pop('pkey')
        Base = record.MetaRecord('Base', (record.Record,), base)
        rectype = record.MetaRecord(name, (Base,), dic)
    else:
        rectype = record.MetaRecord(name, (record.Record,), dic)
    return rectype, cols
