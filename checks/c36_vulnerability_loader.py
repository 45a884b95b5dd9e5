"""C36: the vulnerability functions are loaded by taxonomy and loss type"""
import os
from models import E, document, ascending, number, IMTS, taxonomies
from scale import scale, big as make_big
from openquake.risklib import scientific, workflows
from openquake.commonlib import riskloaders

RULE = ('random vulnerability files, one per cost type, with and without a '
        'retrofitted version, are loaded with random loss types; for each '
        'taxonomy the functions by loss type are compared number by number '
        'with the generated data; the calls with duplicated taxonomies or '
        'invalid functions must be rejected; the signature is the content of '
        'the files and the arguments')
REQUIRE = ['functions compared', 'risk models', 'taxonomies with many types',
           'files without loss type', 'loss types without file',
           'fatalities', 'retrofitted', 'insured losses',
           'duplicates rejected', 'invalid functions rejected',
           'several sets', 'big models']

LOSS_TYPES = ['structural', 'nonstructural', 'contents',
              'business_interruption', 'fatalities']


def gen_file(rnd, taxos=None):
    "Sets of functions with different taxonomies"
    rest = taxos or taxonomies(rnd, scale(rnd, [1, 2, 4, 7], [30, 80]))
    sets = []
    while rest:
        n = rnd.randint(1, len(rest))
        head, rest = rest[:n], rest[n:]
        imls = ascending(rnd, scale(rnd, [1, 2, 4, 8], [30, 90]))
        funs = []
        for tax in head:
            ratios, covs = [], []
            for _ in imls:
                zero = rnd.random() < .2
                ratios.append('0.0' if zero else '%.4f' % rnd.uniform(
                    .001, 1))
                covs.append('0' if zero or rnd.random() < .3
                            else number(rnd))
            funs.append([tax, rnd.choice(['LN', 'BT']), ratios, covs])
        sets.append([rnd.choice(IMTS), imls, funs])
    return sets


def write(rnd, obs, sets, name):
    elems = []
    for i, (imt, imls, funs) in enumerate(sets):
        elems.append(E('discreteVulnerabilitySet', [
            ('vulnerabilitySetID', 'VS%d' % i),
            ('assetCategory', 'buildings'), ('lossCategory', 'x')],
            E('IML', [('IMT', imt)], text=' '.join(imls)),
            *[E('discreteVulnerability', [
                ('vulnerabilityFunctionID', tax),
                ('probabilisticDistribution', dist)],
                E('lossRatio', text=' '.join(ratios)),
                E('coefficientsVariation', text=' '.join(covs)))
              for tax, dist, ratios, covs in funs]))
    fname = os.path.join(obs.scratch, '%s_%d.xml' % (name, obs.index))
    with open(fname, 'w') as f:
        f.write(document(E('vulnerabilityModel', [], *elems), rnd))
    return fname


def expected_functions(sets):
    out = {}
    for imt, imls, funs in sets:
        for tax, dist, ratios, covs in funs:
            out[tax] = (imt, map(float, imls), map(float, ratios),
                        map(float, covs), dist)
    return out


def contents(obs, vf):
    obs.check(isinstance(vf, scientific.VulnerabilityFunction), 'function',
              vf)
    return (vf.imt, list(vf.imls), list(vf.mean_loss_ratios), list(vf.covs),
            vf.distribution_name)


def gen_inputs(rnd, obs):
    "Returns {key: pathname} and {key: sets}"
    inputs, data = {}, {}
    # sometimes all the loss types for the same taxonomies
    taxos = taxonomies(rnd, 3) if rnd.random() < .2 else None
    for lt in LOSS_TYPES:
        ct = 'occupants' if lt == 'fatalities' else lt
        for retro in ('', '_retrofitted'):
            if taxos or rnd.random() < .55:
                key = '%s_vulnerability%s' % (ct, retro)
                data[key] = gen_file(rnd, taxos)
                inputs[key] = write(rnd, obs, data[key], key)
                if len(data[key]) > 1:
                    obs.ev('several sets')
    # files which must not be read
    for key in ('exposure', 'fatalities_vulnerability', 'fragility',
                'fatalities_vulnerability_retrofitted', 'source',
                'structural', 'structural__vulnerability'):
        if rnd.random() < .3:
            inputs[key] = os.path.join(obs.scratch, 'does_not_exist.xml')
    return inputs, data


def expected_models(data, loss_types, retrofitted):
    exp = {}
    for lt in loss_types:
        ct = 'occupants' if lt == 'fatalities' else lt
        key = ct + '_vulnerability' + ('_retrofitted' if retrofitted else '')
        for tax, func in expected_functions(data.get(key, [])).items():
            exp.setdefault(tax, {})[lt] = func
    return exp


def load(rnd, obs):
    inputs, data = gen_inputs(rnd, obs)
    loss_types = rnd.sample(LOSS_TYPES, rnd.randint(0, len(LOSS_TYPES)))
    retrofitted = rnd.random() < .4
    insured = rnd.random() < .5
    if rnd.random() < .3:
        loss_types = tuple(loss_types)
    obs.note(inputs, loss_types, retrofitted, data)
    exp = expected_models(data, loss_types, retrofitted)
    before = dict(inputs)
    pairs = list(riskloaders.get_taxonomy_vfs(
        inputs, loss_types, retrofitted=retrofitted)
        if retrofitted or rnd.random() < .5 else
        riskloaders.get_taxonomy_vfs(inputs, loss_types))
    obs.eq(sorted(t for t, _ in pairs), sorted(exp), 'taxonomies')
    kwargs = {}
    if retrofitted:
        kwargs['retrofitted'] = True
    if insured or rnd.random() < .5:
        kwargs['insured_losses'] = insured
    models = riskloaders.get_risk_models(inputs, loss_types, **kwargs)
    obs.eq(sorted(models), sorted(exp), 'risk-models')
    for tax, vfs in pairs:
        obs.eq(sorted(vfs), sorted(exp[tax]), 'loss-types', tax)
        for lt, vf in vfs.items():
            obs.eq(contents(obs, vf), exp[tax][lt], 'function', tax, lt)
            obs.ev('functions compared')
        model = models[tax]
        obs.check(isinstance(model, workflows.RiskModel), 'model', model)
        obs.eq(model.taxonomy, tax, 'taxonomy-of-model')
        wf = model.workflow
        obs.check(isinstance(wf, workflows.Scenario), 'workflow', wf)
        obs.eq(wf.insured_losses, insured, 'insured-losses')
        obs.eq(dict((lt, contents(obs, vf)) for lt, vf in
                    wf.vulnerability_functions.items()), exp[tax],
               'functions-of-model', tax)
        obs.ev('risk models')
        if len(vfs) > 1:
            obs.ev('taxonomies with many types')
        if 'fatalities' in vfs:
            obs.ev('fatalities')
        if retrofitted:
            obs.ev('retrofitted')
        if insured:
            obs.ev('insured losses')
    obs.eq(inputs, before, 'inputs-changed')
    for lt in LOSS_TYPES:
        ct = 'occupants' if lt == 'fatalities' else lt
        key = ct + '_vulnerability' + ('_retrofitted' if retrofitted else '')
        if lt in loss_types and key not in data:
            obs.ev('loss types without file')
        elif lt not in loss_types and key in data:
            obs.ev('files without loss type')
    if exp:
        obs.nontrivial(sorted(data.items()), loss_types, retrofitted, insured)
        obs.sample((sorted(data), loss_types, retrofitted))


def errors(rnd, obs):
    inputs, data = {}, {}
    sets = gen_file(rnd)
    lt = rnd.choice(LOSS_TYPES)
    ct = 'occupants' if lt == 'fatalities' else lt
    retrofitted = rnd.random() < .3
    key = ct + '_vulnerability' + ('_retrofitted' if retrofitted else '')
    bset = rnd.choice(sets)
    bad = rnd.choice(bset[2])
    duplicated = rnd.random() < .5
    if duplicated:
        pos = rnd.randrange(len(sets) + 1)
        other = sets[pos] if pos < len(sets) else None
        if other is None or rnd.random() < .3:
            imls = ascending(rnd, len(bset[1]))
            sets.insert(pos, [rnd.choice(IMTS), imls, [list(bad)]])
        else:  # in the same set or in another one
            n = len(other[1])
            other[2].append([bad[0], rnd.choice(['LN', 'BT']), ['0.5'] * n,
                             ['0.1'] * n])
    else:
        i = rnd.randrange(len(bset[1]))
        bad[2][i] = rnd.choice(['0', '0.0'])
        bad[3][i] = rnd.choice(['0.1', '1', '1e-9'])
    inputs[key] = write(rnd, obs, sets, key)
    for other in LOSS_TYPES:  # some good files
        k = ('occupants' if other == 'fatalities' else other) + \
            '_vulnerability' + ('_retrofitted' if retrofitted else '')
        if k not in inputs and rnd.random() < .3:
            data[k] = gen_file(rnd)
            inputs[k] = write(rnd, obs, data[k], k)
    loss_types = list(LOSS_TYPES)
    rnd.shuffle(loss_types)
    obs.note(sets, bad)
    func = rnd.choice([riskloaders.get_risk_models,
                       lambda *a, **k: list(riskloaders.get_taxonomy_vfs(
                           *a, **k))])
    exc = obs.raises(ValueError, lambda: func(
        inputs, loss_types, retrofitted=retrofitted), 'error-not-raised')
    msg = exc.args[0]
    if duplicated:
        obs.check(('taxonomy %s' % bad[0]) in msg, 'taxonomy-not-in-message',
                  msg)
        obs.ev('duplicates rejected')
    else:
        obs.check(("'%s'" % bad[0]) in msg and 'loss ratio' in msg,
                  'function-not-in-message', msg)
        obs.ev('invalid functions rejected')
    # without the bad file all is fine
    good = [t for t in loss_types if t != lt]
    models = riskloaders.get_risk_models(inputs, good,
                                         retrofitted=retrofitted)
    obs.eq(sorted(models), sorted(expected_models(data, good, retrofitted)),
           'risk-models')
    obs.nontrivial(sets, key)


def names(rnd, obs):
    "The names of the loss types and of the cost types"
    word = ''.join(rnd.choice('abcdefo_cupantsil') for _ in range(8))
    for name in LOSS_TYPES[:-1] + [word]:
        obs.eq(riskloaders.loss_type_to_cost_type(name), name, 'cost-type')
        obs.eq(riskloaders.cost_type_to_loss_type(name), name, 'loss-type')
    obs.eq(riskloaders.loss_type_to_cost_type('fatalities'), 'occupants',
           'cost-type')
    obs.eq(riskloaders.cost_type_to_loss_type('occupants'), 'fatalities',
           'loss-type')


def big(rnd, obs):
    "Many taxonomies or levels"
    make_big(rnd.choice([load, load, errors]))(rnd, obs)
    obs.ev('big models')


FAMILIES = [('big', big, 20, 400),
            ('load', load, 200, 5000),
            ('errors', errors, 150, 3000),
            ('names', names, 20, 200)]
