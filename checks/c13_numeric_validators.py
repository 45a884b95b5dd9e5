"""C13: the numeric validators"""
import math
from decimal import Decimal
from openquake.commonlib import valid

RULE = ('numeric texts around and far from the limits, in many notations, '
        'not-a-numbers, infinities and non numeric texts, judged against '
        'exact decimal arithmetic; the signature is (validator, text)')
REQUIRE = ['accepted', 'out of range', 'not a number', 'not numeric',
           'boundary values', 'infinities']

LIMITS = dict(longitude=(-180, 180), latitude=(-90, 90),
              positivefloat=(0, None), probability=(0, 1))
BAD = ['', ' ', 'abc', '1,0', '1.2.3', '--1', '1 2', '+', '-', '.', 'e5',
       '1e', '0x', 'None', 'one', '1..', '(1)', '1%', 'true']
NANS = ['nan', 'NaN', '-nan', '+nan', 'NAN', ' nan ']
INFS = ['inf', '-inf', 'Infinity', '-Infinity', '+inf', '1e400', '-1e400']


def gen_number(rnd, lo, hi):
    "A numeric text"
    ends = [e for e in (lo, hi) if e is not None] + [0]
    how = rnd.randrange(7)
    if rnd.random() < .03:  # many digits
        n = rnd.choice([30, 310, 900])
        d = Decimal(rnd.choice(['0.' + '3' * n, '0' * n + '1', '9' * n,
                                '-' + '7' * n, '1.' + '0' * n,
                                '1.' + '0' * (n / 30) + '1',
                                '179.' + '9' * 20, '0.' + '9' * 10]))
        text = '%s' % d
        return text, d
    if how <= 1:
        base = Decimal(rnd.choice(ends))
        delta = Decimal(rnd.choice(['0', '0', '1e-9', '-1e-9', '0.5',
                                    '-0.5', '1', '-1', '1e-12', '-1e-12']))
        d = base + delta
    elif how == 2:
        d = Decimal(rnd.randint(-400, 400))
    elif how == 3:
        d = Decimal(rnd.randint(-10 ** 6, 10 ** 6)) / 1000
    elif how == 4:
        d = Decimal(rnd.randint(0, 1000)) / 1000
    elif how == 5:
        d = Decimal(rnd.choice(['-0', '-0.0', '0', '1', '-1', '1e-300',
                                '-1e-300', '1e300', '-1e300']))
    else:
        a, b = lo if lo is not None else -5, hi if hi is not None else 500
        d = Decimal(a) + Decimal(b - a) * rnd.randint(0, 10 ** 6) / 10 ** 6
    text = rnd.choice(['%s', '%s', '%s', ' %s', '%s ', '\t%s\n']) % d
    if d == d.to_integral() and not set('E.') & set(text) and rnd.random() < .3:
        text = text.strip() + rnd.choice(['.', '.0', 'e0', 'E+0', '.00'])
    if d > 0 and rnd.random() < .1:
        text = '+' + text.strip()
    if rnd.random() < .1:
        text = unicode(text)
    return text, d


def judge(obs, name, validator, text, lo, hi):
    obs.note(name, repr(text))
    low = text.strip().lower()
    if low.lstrip('+-') == 'nan':
        kind = 'not a number'
        ok = False
    elif text in INFS:
        kind = 'infinities'
        ok = None if hi is None and not low.startswith('-') else False
    elif text in BAD:
        kind = 'not numeric'
        ok = False
    else:
        kind = 'accepted'
        f = float(text)
        ok = (lo is None or f >= lo) and (hi is None or f <= hi)
        if not ok:
            kind = 'out of range'
        elif f in (lo, hi):
            obs.ev('boundary values')
    if ok is None:  # +infinity without an upper limit: not specified
        return
    if ok:
        try:
            got = validator(text)
        except ValueError as e:
            obs.fail('valid-rejected', name, repr(text), e)
        obs.check(isinstance(got, float), 'float', name, repr(text), got)
        obs.check(got == float(text), 'value', name, repr(text), got)
    else:
        obs.raises(ValueError, lambda: validator(text), 'invalid-accepted',
                   name, repr(text))
    obs.ev(kind)
    obs.nontrivial(name, text)
    obs.sample((name, text, ok))


def floats(rnd, obs):
    name = rnd.choice(sorted(LIMITS))
    lo, hi = LIMITS[name]
    validator = getattr(valid, name)
    how = rnd.randrange(10)
    if how == 0:
        text = rnd.choice(BAD)
    elif how == 1:
        text = rnd.choice(NANS)
    elif how == 2:
        text = rnd.choice(INFS)
    else:
        text, d = gen_number(rnd, lo, hi)
    judge(obs, name, validator, text, lo, hi)


def ranges(rnd, obs):
    "Ranges with arbitrary limits"
    lo = rnd.choice([-5, 0, 1, 2.5, -.5, -1e6, 7])
    hi = lo + rnd.choice([0, 1, 2.5, 1e6])
    rng = valid.FloatRange(lo, hi)
    for _ in range(3):
        how = rnd.randrange(8)
        text = (rnd.choice(BAD) if how == 0 else rnd.choice(NANS)
                if how == 1 else rnd.choice(INFS) if how == 2
                else gen_number(rnd, lo, hi)[0])
        judge(obs, 'FloatRange(%s, %s)' % (lo, hi), rng, text, lo, hi)


def ints(rnd, obs):
    n = rnd.choice([0, 1, -1, 2, 10 ** 9, -10 ** 9, 2 ** 70, -2 ** 70,
                    rnd.randint(-1000, 1000), rnd.randint(0, 100),
                    2 ** 53 + 1, 2 ** 31, 2 ** 63 - 1,
                    rnd.choice([1, -1]) * rnd.getrandbits(
                        rnd.choice([33, 54, 60, 64, 65, 200]))])
    text = rnd.choice(['%d', '%d', ' %d', '%d\n', '%05d']) % n
    if rnd.random() < .3:
        text = rnd.choice(BAD + NANS + INFS + ['1.5', '1.0', '0.', '1e3',
                                               '-1.5'])
        obs.raises(ValueError, lambda: valid.positiveint(text),
                   'invalid-accepted', 'positiveint', repr(text))
        obs.ev('not numeric')
    elif n < 0:
        obs.raises(ValueError, lambda: valid.positiveint(text),
                   'invalid-accepted', 'positiveint', repr(text))
        obs.ev('out of range')
    else:
        got = valid.positiveint(text)
        obs.check(isinstance(got, (int, long)) and got == n, 'value',
                  'positiveint', repr(text), got)
        obs.ev('accepted')
    obs.nontrivial('positiveint', text)


FAMILIES = [('floats', floats, 4000, 60000),
            ('ranges', ranges, 800, 15000),
            ('ints', ints, 800, 10000)]
