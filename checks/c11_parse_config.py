"""C11: reading the parameters of a job configuration file"""
import os
import StringIO
from openquake.commonlib.readini import parse_config

RULE = ('random job.ini files (sections, key cases, separators, comments, '
        'relative and absolute file names) read through different paths and '
        'from different working directories; the signature is the content '
        'and the way it was opened')
REQUIRE = ['plain parameters', 'relative files', 'absolute files',
           'files on disk', 'file like objects', 'site files']

KEYS = ['calculation_mode', 'region', 'Region_Grid_Spacing', 'IMT_level',
        'random_seed', 'x', 'y1', 'DESCRIPTION', 'profile', 'files',
        'my_files', 'file', 'sites_csv_name', 'csv', 'truncation_level',
        'maximum_Distance', 'k_file_x', 'sites_csv2']
FILE_KEYS = ['exposure', 'Site_Model', 'gsim_logic_tree', 'a', 'x_file',
             'hazard_curves', 'VULNERABILITY', 'b_c_d', 'my_file_name',
             '_file_a', 'file']
VALUES = ['1', '0.1 0.2', 'classical', 'a=b', 'a:b', 'MixedCase', '-1',
          '"quoted"', '1 1 2 2 3 3', 'x.xml', '/abs/path', '{1: 2}', '10,20',
          'hash#inside', 'two  blanks', '[list]', "it's", '10% in 50 years',
          '', '0', 'None', 'Citt\xc3\xa0', '\xe4\xb8\xad \xc3\x9f', '~', '$HOME', '100%', 'a % b %', 'PGA\n  PGV\n\tSA(0.1)',
          '{"PGA": [1,\n    2]}', 'long ' * 999 + 'text', '1\n 2' * 200 + '\n 3']
PATHS = ['~/e.xml', '~x', '$HOME/e.xml', '%d.xml', 'e.xml', './e.xml', 'sub/dir/e.xml', '../e.xml', 'e x.csv',
         'UPPER.Xml', 'a_file', '../../up/x.nrml', 'sites_csv']
SECTIONS = ['general', 'site params', 'Geometry', 'x', 'output', 'logic_tree']


def norm(path):
    return os.path.normpath(path)


def gen(rnd, root):
    """
    Return text of the file, expected parameters, expected input files
    (relative to the directory of the file, if not absolute)
    """
    keys = rnd.sample(KEYS, rnd.choice([0, 1, 3, 6]))
    fkeys = rnd.sample(FILE_KEYS, rnd.choice([0, 1, 2, 4]))
    if rnd.random() < .02:  # many
        keys += ['parameter_%d' % i for i in range(300)]
        fkeys += ['model_%d' % i for i in range(150)]
    entries, params, files = [], {}, {}
    for k in keys:
        v = rnd.choice(VALUES)
        entries.append((k, v))
        # continuation lines are stripped and joined
        params[k.lower()] = '\n'.join(
            line.strip() for line in v.split('\n'))
    for k in fkeys:
        if rnd.random() < .3:
            v = os.path.join(rnd.choice([root, '/some/where']),
                             rnd.choice(PATHS))
        else:
            v = rnd.choice(PATHS)
        entries.append((k + rnd.choice(['_file', '_file', '_FILE']), v))
        files[k.lower()] = v
    rnd.shuffle(entries)
    sections = rnd.sample(SECTIONS, rnd.choice([1, 1, 2, 4]))
    lines = {}
    for k, v in entries:
        sep = rnd.choice([' = ', '=', ': ', ' : ', '= '])
        end = rnd.choice(['', '', '  '])
        lines.setdefault(rnd.choice(sections), []).append(k + sep + v + end)
    out = []
    for sect in sections:
        out.append('[%s]' % sect)
        for line in lines.get(sect, []):
            out.append(line)
            if rnd.random() < .2:
                out.append(rnd.choice(['', '# comment = 1', '; other']))
    text = '\n'.join(out) + rnd.choice(['', '\n', '\n\n'])
    if rnd.random() < .1:
        text = text.replace('\n', '\r\n')
    return text, params, files


def check_params(obs, got, params, files, base, extra_inputs=(), sites=None):
    expected = dict(params)
    if sites is not None:
        expected['sites'] = sites
    rest = dict((k, v) for k, v in got.items()
                if k not in ('base_path', 'inputs'))
    obs.eq(rest, expected, 'parameters')
    obs.check(os.path.isabs(got['base_path']), 'base-path-absolute', got)
    obs.eq(norm(got['base_path']), norm(base), 'base-path')
    inputs = dict(got['inputs'])
    for k in extra_inputs:
        inputs.pop(k, None)
    obs.eq(sorted(inputs), sorted(files), 'input-names')
    for k, v in files.items():
        obs.check(os.path.isabs(inputs[k]), 'input-absolute', k, inputs[k])
        obs.eq(norm(inputs[k]), norm(os.path.join(base, v)), 'input-path', k)
        obs.ev('absolute files' if os.path.isabs(v) else 'relative files')
    obs.ev('plain parameters', len(params))


def configs(rnd, obs):
    root = obs.scratch
    dirs = ['.', 'jobs', 'jobs/deep/er', 'other place']
    for d in dirs[1:]:
        os.makedirs(os.path.join(root, d))
    where = os.path.normpath(os.path.join(root, rnd.choice(dirs)))
    cwd = os.path.normpath(os.path.join(root, rnd.choice(dirs)))
    text, params, files = gen(rnd, root)
    sites = None
    if rnd.random() < .25:
        n = rnd.randint(1, 4)
        coords = [(rnd.choice(['1', '0.1', '-10.25', '1e1']),
                   rnd.choice(['2', '0.2', '-45.5'])) for _ in range(n)]
        csv = os.path.join(where, 'the sites.csv')
        with open(csv, 'w') as f:
            f.write('\n'.join('%s,%s' % c for c in coords))
        sites = 'MULTIPOINT(%s)' % ', '.join('%s %s' % c for c in coords)
        text += '\n[sitessection]\nsites_csv = %s\n' % (
            csv if rnd.random() < .3 else 'the sites.csv')
        obs.ev('site files')
    path = os.path.join(where, 'job.ini')
    how = rnd.choice(['absolute', 'relative', 'string'])
    os.chdir(cwd)
    name = path if how == 'absolute' else os.path.relpath(path, cwd)
    obs.note(how, name, text)
    if how == 'string':
        src = StringIO.StringIO(text)
        src.name = name
        obs.ev('file like objects')
    else:
        with open(path, 'w') as f:
            f.write(text)
        src = open(name)
        obs.ev('files on disk')
    try:
        got = parse_config(src)
    finally:
        src.close()
    check_params(obs, got, params, files, where, sites=sites)
    if params or files:
        obs.nontrivial(text, how, where, cwd)
        obs.sample((how, text))


FAMILIES = [('configs', configs, 1000, 15000)]
