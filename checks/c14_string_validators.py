"""C14: the validators of names, words and intensity measure types"""
from openquake.commonlib import valid

RULE = ('words built by mutating valid ones (characters added, removed, '
        'replaced, changed case, white space around) judged by small explicit '
        'recognizers; the signature is (validator, text)')
REQUIRE = ['IMT accepted', 'IMT rejected', 'SA accepted', 'name accepted',
           'name rejected', 'namelist accepted', 'namelist rejected',
           'boolean accepted', 'boolean rejected', 'choice accepted',
           'choice rejected', 'optional empty', 'optional given',
           'long texts']

LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
DIGITS = '0123456789'
JUNK = ['x', ' ', '\n', '1', '_', '-', '(', ')', '.', '\t', '%', ',', 'A',
        '0', '#', '\r', ';', '"']


def mutate(rnd, text):
    for _ in range(rnd.choice([0, 0, 1, 1, 2])):
        how = rnd.randrange(5)
        i = rnd.randrange(len(text) + 1)
        if how == 0:
            text = text[:i] + rnd.choice(JUNK) + text[i:]
        elif how == 1:
            text = text[:i] + text[i + 1:]
        elif how == 2:
            text = text + rnd.choice(JUNK)
        elif how == 3:
            text = rnd.choice(JUNK) + text
        else:
            text = rnd.choice([text.lower(), text.upper(), text.swapcase()])
    return text


def is_name(text):
    return (len(text) > 0 and text[0] in LETTERS and
            all(c in LETTERS + DIGITS for c in text[1:]))


def is_imt(text):
    "Return None, or the triple"
    if text in ('PGA', 'PGV', 'PGD', 'IA', 'RSD', 'MMI'):
        return (text, None, None)
    if not (text.startswith('SA(') and text.endswith(')')):
        return None
    period = text[3:-1]
    left, dot, right = period.partition('.')
    if left and all(c in DIGITS for c in left + right):
        return ('SA', float(period), 5)
    return None


def unspecified_imt(text):
    "A period like .5, 1e-1 or with a sign could be accepted"
    try:
        float(text[3:-1])
    except ValueError:
        return False
    return text.startswith('SA(') and is_imt(text) is None


def imts(rnd, obs):
    text = rnd.choice(['PGA', 'PGV', 'PGD', 'IA', 'RSD', 'MMI', 'SA', 'S(1)',
                       'SA(1)', 'SA(0.1)', 'SA(1.)', 'SA(0.05)', 'SA(10.25)',
                       'SA()', 'SA(x)', 'SA(.)', 'SA(0.1.2)', 'SA(0,1)', '',
                       'SA(%d.%d)' % (rnd.randint(0, 20),
                                      rnd.randint(0, 999)), 'CAV'])
    text = mutate(rnd, text)
    expected = is_imt(text)
    if expected is None:
        if unspecified_imt(text):
            return
        obs.raises(ValueError, lambda: valid.IMTstr(text),
                   'invalid-imt-accepted', repr(text))
        obs.ev('IMT rejected')
    else:
        try:
            got = valid.IMTstr(text)
        except ValueError as e:
            obs.fail('valid-imt-rejected', repr(text), e)
        obs.eq(tuple(got), expected, 'imt-value', repr(text))
        obs.eq((got.imt, got.saPeriod, got.saDamping), expected,
               'imt-fields')
        obs.ev('IMT accepted')
        if expected[0] == 'SA':
            obs.ev('SA accepted')
    obs.nontrivial('imt', text)
    obs.sample((text, expected))


def names(rnd, obs):
    text = mutate(rnd, rnd.choice(['a', 'name', 'x1', '_y', 'Some_Name_2',
                                   'A', 'structural', '_']))
    if rnd.random() < .05:
        n = rnd.choice([40, 70, 300, 5000])
        text = mutate(rnd, 'Name_%s' % (rnd.choice('x0_Z') * n))
        obs.ev('long texts')
    if is_name(text):
        obs.eq(valid.name(text), text, 'name-value')
        obs.ev('name accepted')
    else:
        obs.raises(ValueError, lambda: valid.name(text),
                   'invalid-name-accepted', repr(text))
        obs.ev('name rejected')
    obs.nontrivial('name', text)


def namelists(rnd, obs):
    words = [rnd.choice(['a', 'b', 'slight', 'complete', 'x1', '_', 'LS1'])
             for _ in range(rnd.choice([0, 1, 2, 5]))]
    if rnd.random() < .05:
        words = ['limit_state_%d' % i
                 for i in range(rnd.choice([20, 70, 800]))]
        obs.ev('long texts')
    text = rnd.choice([' ', '  ', '\n', '\t', ' \n ']).join(words)
    text = mutate(rnd, text)
    if rnd.random() < .3:
        text = '\n  ' + text + ' \n'
    expected = text.split()
    if expected and all(is_name(w) for w in expected):
        obs.eq(list(valid.namelist(text)), expected, 'namelist-value')
        obs.ev('namelist accepted')
    else:
        obs.raises(ValueError, lambda: valid.namelist(text),
                   'invalid-namelist-accepted', repr(text))
        obs.ev('namelist rejected')
    obs.nontrivial('namelist', text)


def booleans(rnd, obs):
    text = mutate(rnd, rnd.choice(['0', '1', 'true', 'false', 'yes', 'no',
                                   'TRUE', 'False', 't', '2', '']))
    expected = {'0': False, 'false': False, '1': True, 'true': True}
    if text in expected:
        obs.check(valid.boolean(text) is expected[text], 'boolean-value',
                  text)
        obs.ev('boolean accepted')
    else:
        obs.raises(ValueError, lambda: valid.boolean(text),
                   'invalid-boolean-accepted', repr(text))
        obs.ev('boolean rejected')
    # optional values
    optional = valid.NoneOr(valid.boolean)
    if text == '':
        obs.check(optional(text) is None, 'optional-empty')
        obs.ev('optional empty')
    elif text in expected:
        obs.check(optional(text) is expected[text], 'optional-given', text)
        obs.ev('optional given')
    else:
        obs.raises(ValueError, lambda: optional(text), 'optional-invalid',
                   repr(text))
    obs.nontrivial('boolean', text)


def choices(rnd, obs):
    options = rnd.sample(['aggregated', 'per_asset', 'per_area', 'a', 'b',
                          'lognormal', 'beta', '', 'population',
                          'buildings'], rnd.choice([1, 2, 4]))
    text = mutate(rnd, rnd.choice(options + ['aggregated', 'zzz']))
    if rnd.random() < .05:
        n = rnd.choice([20, 70, 800])
        options = ['option%d' % i for i in range(n)]
        text = mutate(rnd, 'option%d' % rnd.randrange(n + 2))
        obs.ev('long texts')
    choice = valid.Choice(*options)
    if text in options:
        obs.eq(choice(text), text, 'choice-value')
        obs.ev('choice accepted')
    else:
        obs.raises(ValueError, lambda: choice(text), 'invalid-choice',
                   options, repr(text))
        obs.ev('choice rejected')
    if text in ('population', 'buildings'):
        obs.eq(valid.category(text), text, 'category')
    else:
        obs.raises(ValueError, lambda: valid.category(text),
                   'invalid-category', repr(text))
    if text:
        obs.eq(valid.not_empty(text), text, 'not-empty')
    else:
        obs.raises(ValueError, lambda: valid.not_empty(text), 'empty')
    obs.nontrivial('choice', options, text)


FAMILIES = [('imts', imts, 1500, 20000),
            ('names', names, 800, 8000),
            ('namelists', namelists, 800, 8000),
            ('booleans', booleans, 800, 5000),
            ('choices', choices, 800, 8000)]
