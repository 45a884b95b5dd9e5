"""C37: the fragility functions are loaded by taxonomy and limit state"""
import os
import StringIO
from models import (E, document, ascending, number, limit_states, IMTS,
                    taxonomies, TEXTS)
from scale import scale, big as make_big
from openquake.risklib import scientific, workflows
from openquake.commonlib import riskloaders

RULE = ('random discrete and continuous fragility models, with and without '
        'limits of no damage, are loaded from files and from streams; the '
        'damage states and the functions of each taxonomy are compared '
        'number by number with the generated data; the signature is the '
        'content')
REQUIRE = ['discrete', 'continuous', 'with no damage limit',
           'without no damage limit', 'functions compared', 'risk models',
           'models with many taxonomies', 'from file', 'from stream',
           'mixed limits', 'big models']


def gen_model(rnd):
    fmt = rnd.choice(['discrete', 'continuous'])
    states = limit_states(rnd)
    sets = []
    ndl_kind = rnd.choice([0, 0, 1, .5])
    for tax in taxonomies(rnd, scale(rnd, [1, 1, 2, 4, 7], [30, 60])):
        imls = ascending(rnd, scale(rnd, [1, 2, 4, 9], [30, 90]), lo=.1)
        ndl = (rnd.choice(['0.05', '0', '1e-3', '0.099', imls[0]])
               if rnd.random() < ndl_kind else None)
        if fmt == 'discrete':
            params = [[rnd.choice(['0', '1', '0.0', number(rnd)])
                       for _ in imls] for _ in states]
        else:
            params = [(number(rnd, .1, 5), number(rnd, .1, 3))
                      for _ in states]
        sets.append((tax, rnd.choice(IMTS), imls, ndl, params))
    return fmt, states, sets


def to_xml(rnd, (fmt, states, sets)):
    ffss = []
    for tax, imt, imls, ndl, params in sets:
        if fmt == 'discrete':
            iml = E('IML', [('IMT', imt), ('imlUnit', 'g')],
                    text=' '.join(imls))
            funs = [E('ffd', [('ls', ls)], E('poEs', text=' '.join(poes)))
                    for ls, poes in zip(states, params)]
        else:
            iml = E('IML', [('IMT', imt), ('imlUnit', 'g'),
                            ('minIML', '0.1'), ('maxIML', '9.9')])
            funs = [E('ffc', [('ls', ls)], E('params', [
                ('mean', mean), ('stddev', stddev)]))
                for ls, (mean, stddev) in zip(states, params)]
        ffss.append(E('ffs', [('noDamageLimit', ndl)],
                      E('taxonomy', text=tax), iml, *funs))
    return document(E('fragilityModel', [('format', fmt)],
                      E('description', text=rnd.choice(TEXTS)),
                      E('limitStates', text=' '.join(states)), *ffss), rnd)


def expected_function(fmt, imls, ndl, par):
    if fmt == 'continuous':
        return tuple(map(float, par))
    imls, poes = map(float, imls), map(float, par)
    if ndl is None:
        return imls, poes, imls[0]
    return [float(ndl)] + imls, [0.] + poes, float(ndl)


def contents(obs, fmt, func):
    if fmt == 'continuous':
        obs.check(isinstance(func, scientific.FragilityFunctionContinuous),
                  'kind-of-function', func)
        return func.mean, func.stddev
    obs.check(isinstance(func, scientific.FragilityFunctionDiscrete),
              'kind-of-function', func)
    return list(func.imls), list(func.poes), func.no_damage_limit


def load(rnd, obs):
    model = fmt, states, sets = gen_model(rnd)
    text = to_xml(rnd, model)
    obs.note(text)
    obs.ev(fmt)
    if rnd.random() < .5:
        obs.ev('from file')
        content = os.path.join(obs.scratch, 'fragility_%d.xml' % obs.index)
        with open(content, 'w') as f:
            f.write(text)
    else:
        obs.ev('from stream')
        content = StringIO.StringIO(text)
    damage_states, models = riskloaders.get_damage_states_and_risk_models(
        content)
    obs.eq(list(damage_states), ['no_damage'] + states, 'damage-states')
    obs.eq(sorted(models), sorted(s[0] for s in sets), 'taxonomies')
    limits = set()
    for tax, imt, imls, ndl, params in sets:
        rm = models[tax]
        obs.check(isinstance(rm, workflows.RiskModel), 'risk-model', rm)
        obs.eq(rm.taxonomy, tax, 'taxonomy-of-model')
        obs.check(isinstance(rm.workflow, workflows.Damage), 'workflow',
                  rm.workflow)
        ffs = rm.workflow.fragility_functions
        obs.eq(list(ffs), ['damage'], 'loss-types')
        obs.eq(ffs['damage'].imt, imt, 'imt', tax)
        got = [contents(obs, fmt, f) for f in ffs['damage']]
        obs.eq(got, [expected_function(fmt, imls, ndl, p) for p in params],
               'functions', tax, states)
        obs.ev('functions compared', len(got))
        obs.ev('risk models')
        if fmt == 'discrete':
            obs.ev('without no damage limit' if ndl is None
                   else 'with no damage limit')
            limits.add(ndl is None)
    if len(limits) > 1:
        obs.ev('mixed limits')
    if len(sets) > 1:
        obs.ev('models with many taxonomies')
    obs.nontrivial(text)
    obs.sample(text)


def big(rnd, obs):
    "Many taxonomies, limit states or levels"
    make_big(load)(rnd, obs)
    obs.ev('big models')


FAMILIES = [('big', big, 20, 400),
            ('load', load, 400, 12000)]
