"""C12: the files linked from a job configuration (source models, sites)"""
import os
from openquake.commonlib.readini import parse_config

RULE = ('random source model logic trees (several levels, other uncertainty '
        'types, repeated and blank padded paths) and site files; the '
        'signature is the content')
REQUIRE = ['linked models', 'repeated models', 'padded paths',
           'other uncertainty types', 'sites', 'bad site rows',
           'repeated sites']
NS = 'xmlns="http://openquake.org/xmlns/nrml/0.4"'


def gen_tree(rnd):
    "Return the XML of a source model logic tree and the linked paths"
    pool = ['source_model.xml', 'b.xml', 'a.xml', 'sub/c.xml', '../up.xml',
            '/abs/olute.xml', 'Z.xml', 'sm 1.xml', './d.xml', 'sub/a.xml']
    paths, padded, other = [], 0, 0
    n_bs = 0
    levels = []
    for lev in range(rnd.choice([1, 1, 2, 3])):
        sets = []
        for _ in range(rnd.choice([1, 1, 2])):
            n_bs += 1
            kind = ('sourceModel' if n_bs == 1 or rnd.random() < .3 else
                    rnd.choice(['maxMagGRRelative', 'bGRRelative',
                                'maxMagGRAbsolute', 'sourceModelX']))
            branches = []
            for b in range(rnd.choice([1, 2, 4, 4, 4, 40])):
                if kind == 'sourceModel':
                    p = rnd.choice(pool + ['m%d.xml' % b])
                    paths.append(p)
                    if rnd.random() < .3:
                        padded += 1
                        p = rnd.choice(['\n   %s\n ', ' %s', '%s\n',
                                        '\t%s ']) % p
                else:
                    other += 1
                    p = rnd.choice(['0.1', 'x.xml', '-1.5'])
                branches.append(
                    '<logicTreeBranch branchID="b%d_%d">'
                    '<uncertaintyModel>%s</uncertaintyModel>'
                    '<uncertaintyWeight>%s</uncertaintyWeight>'
                    '</logicTreeBranch>' % (n_bs, b, p, 1))
            sets.append(
                '<logicTreeBranchSet uncertaintyType="%s" '
                'branchSetID="bs%d">%s</logicTreeBranchSet>' % (
                    kind, n_bs, '\n'.join(branches)))
        levels.append('<logicTreeBranchingLevel branchingLevelID="bl%d">'
                      '%s</logicTreeBranchingLevel>' % (lev, ''.join(sets)))
    xml = ("<?xml version='1.0' encoding='utf-8'?>\n<nrml %s>"
           '<logicTree logicTreeID="lt">%s</logicTree></nrml>' % (
               NS, '\n'.join(levels)))
    return xml, paths, padded, other


def models(rnd, obs):
    xml, paths, padded, other = gen_tree(rnd)
    base = os.path.join(obs.scratch, rnd.choice(['job', 'job/deep']))
    sub = rnd.choice(['', 'trees', '../trees'])
    smlt_dir = os.path.normpath(os.path.join(base, sub))
    os.makedirs(base)
    if not os.path.exists(smlt_dir):
        os.makedirs(smlt_dir)
    smlt = os.path.join(smlt_dir, 'smlt.xml')
    with open(smlt, 'w') as f:
        f.write(xml)
    shown = smlt if rnd.random() < .3 else os.path.join(sub, 'smlt.xml')
    job = os.path.join(base, 'job.ini')
    with open(job, 'w') as f:
        f.write('[general]\nsource_model_logic_tree_file = %s\n'
                'exposure_file = e.xml\n' % shown)
    os.chdir(rnd.choice([obs.scratch, base]))
    name = job if rnd.random() < .5 else os.path.relpath(
        job, os.getcwd())
    obs.note(name, xml)
    with open(name) as f:
        params = parse_config(f)
    inputs = params['inputs']
    obs.eq(sorted(inputs), ['exposure', 'source', 'source_model_logic_tree'],
           'inputs')
    obs.eq(os.path.normpath(inputs['source_model_logic_tree']), smlt,
           'logic-tree-path')
    got = inputs['source']
    obs.check(isinstance(got, list), 'list', got)
    obs.check(all(os.path.isabs(p) for p in got), 'absolute', got)
    distinct = sorted(set(paths))
    obs.eq(sorted(map(os.path.normpath, got)), sorted(
        os.path.normpath(os.path.join(base, p)) for p in distinct),
        'linked-models')
    if not [p for p in distinct if os.path.isabs(p) or p.startswith('.')]:
        obs.eq(map(os.path.normpath, got),
               [os.path.join(base, p) for p in distinct], 'sorted')
    obs.ev('linked models', len(distinct))
    obs.ev('repeated models', len(paths) - len(distinct))
    obs.ev('padded paths', padded)
    obs.ev('other uncertainty types', other)
    obs.nontrivial(xml, sub, shown)
    obs.sample(got)


def no_tree(rnd, obs):
    "Without a source model logic tree there are no linked models"
    job = os.path.join(obs.scratch, 'job.ini')
    key = rnd.choice(['gsim_logic_tree_file', 'source_model_file',
                      'logic_tree_file'])
    with open(job, 'w') as f:
        f.write('[a]\n%s = missing.xml\n' % key)
    with open(job) as f:
        params = parse_config(f)
    obs.eq(params['inputs'], {key[:-5]: os.path.join(
        obs.scratch, 'missing.xml')}, 'no-links')
    obs.nontrivial(key)


def num(rnd):
    return rnd.choice(['%d', '%.1f', '%.3f', '%e']) % (
        rnd.uniform(-180, 180))


def sites(rnd, obs):
    n = rnd.choice([1, 1, 2, 5, 30])
    if rnd.random() < .02:
        n = 3000
    coords = [(num(rnd), num(rnd)) for _ in range(n)]
    if rnd.random() < .3:  # repeated sites, consecutive or not
        for _ in range(rnd.choice([1, 2, 5])):
            i = rnd.randrange(n)
            coords.insert(rnd.choice([i, i + 1, rnd.randrange(n + 1)]),
                          coords[i])
            n += 1
        obs.ev('repeated sites')
    bad = rnd.random() < .2
    rows = []
    for lon, lat in coords:
        rows.append(rnd.choice(['%s,%s', '"%s","%s"', '%s,"%s"']) % (
            lon, lat) if rnd.random() < .3 else '%s,%s' % (lon, lat))
    if bad:
        rows.insert(rnd.randrange(n + 1),
                    rnd.choice(['1', '1,2,3', '1;2', '1 2', ',,,']))
    eol = rnd.choice(['\n', '\n', '\r\n'])
    path = os.path.join(obs.scratch, 'sites.csv')
    with open(path, 'wb') as f:
        f.write(eol.join(rows) + rnd.choice(['', eol]))
    job = os.path.join(obs.scratch, 'job.ini')
    with open(job, 'w') as f:
        f.write('[general]\nx=1\n[geometry]\nsites_csv = %s\n' %
                rnd.choice(['sites.csv', path]))
    obs.note(rows)
    with open(job) as f:
        if bad:
            obs.raises(ValueError, lambda: parse_config(f), 'bad-row', rows)
            obs.ev('bad site rows')
        else:
            params = parse_config(f)
            obs.eq(params['sites'], 'MULTIPOINT(%s)' % ', '.join(
                '%s %s' % c for c in coords), 'sites')
            obs.eq(params['inputs'], {}, 'sites-are-not-an-input')
            obs.eq(params['x'], '1', 'other-parameters')
            obs.ev('sites', n)
    obs.nontrivial(rows)


FAMILIES = [('models', models, 400, 8000),
            ('no_tree', no_tree, 20, 100),
            ('sites', sites, 400, 6000)]
