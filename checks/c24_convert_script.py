"""C24: the conversion script, end to end"""
import imp
import os
import StringIO
import sys
import zipfile
import models
from c22_find_invalid import spoil
from openquake.nrmllib.node import node_from_nrml
from roundtrip import (
    fill_disk, csv_text, check_csv, check_node, PREFIXES)
import openquake.commonlib

RULE = ('the main function of the script is called with random NRML files, '
        'directories and zip archives as input, and with directories, zip '
        'archives or nothing as output; the files on the disk and what is '
        'printed are then examined; the signature is the content')
REQUIRE = ['xml -> dir', 'xml -> zip', 'dir -> same', 'zip -> same',
           'dir -> dir', 'dir -> zip', 'zip -> zip', 'zip -> dir',
           'other files', 'replaced files', 'invalid archives', 'invalid records', 'missing output',
           'big models']

REPO = os.path.abspath(os.path.join(
    os.path.dirname(openquake.commonlib.__file__), '..', '..'))
script = imp.load_source(
    'NRMLconvert', os.path.join(REPO, 'bin', 'NRMLconvert.py'))


OTHERS = ['other.txt', 'README', 'other__notes.txt', 'another.xml', 'old.csv']


def call(*args):
    "Returns the output and the exit code or message"
    stdout = sys.stdout
    sys.stdout = out = StringIO.StringIO()
    try:
        script.main(*args)
        code = None
    except SystemExit as e:
        code = e.code
    finally:
        sys.stdout = stdout
    return out.getvalue(), code


def files_of(path):
    if not os.path.exists(path):
        return {}
    out = {}
    if path.endswith('.zip'):
        z = zipfile.ZipFile(path)
        for name in z.namelist():
            out[name] = z.read(name)
        z.close()
    else:
        for name in os.listdir(path):
            with open(os.path.join(path, name), 'rb') as f:
                out[name] = f.read()
    return out


def check_document(obs, text, canon):
    fname = os.path.join(obs.scratch, 'check.xml')
    with open(fname, 'wb') as f:
        f.write(text)
    root = node_from_nrml(fname)  # valid nrml
    obs.eq(len(root), 1, 'root')
    check_node(obs, root[0], canon, 'document')
    os.remove(fname)


def existing(rnd, obs, path, *names):
    "Put something in a directory or in a zip file; returns the content"
    others = {}
    if rnd.random() < .4:
        for name in rnd.sample(OTHERS, rnd.choice([1, 2])):
            others[name] = rnd.choice(['', 'precious', 'x,y\r\n' * 50])
        obs.ev('other files')
    old = dict((n, 'old content\n' * 5000) for n in names
               if rnd.random() < .3)
    if old:
        obs.ev('replaced files')
    if path.endswith('.zip'):
        if others or old:
            fill_disk(rnd, 'zip', path[:-4], dict(others, **old))
    else:
        fill_disk(rnd, 'dir', path, dict(others, **old))
    return others


def there_and_back(rnd, obs):
    _kind, gen = rnd.choice(models.ALL)
    elem, canon, tables = gen(rnd)
    prefix = rnd.choice(PREFIXES)
    xml = os.path.join(obs.scratch, prefix + '.xml')
    with open(xml, 'w') as f:
        f.write(models.document(elem, rnd))
    inp = rnd.choice(['dir', 'zip'])
    path = os.path.join(obs.scratch, 'csv' + rnd.choice(['', '.d']))
    path += '.zip' if inp == 'zip' else ''
    others = {}
    if inp == 'dir' and rnd.random() < .5:
        others = existing(rnd, obs, path, '%s__%s.csv' % (
            prefix, tables[-1][0])) if tables[-1][2] else existing(
                rnd, obs, path)
    obs.note(prefix, path, sorted(others.items()))
    limit = rnd.choice([(), (None,), ('10',)])
    text, code = call(xml, path, *limit)
    obs.eq(code, None, 'exit-code', text)
    obs.check('Created' in text, 'printed', text)
    before = files_of(path)
    check_csv(obs, dict(i for i in before.items() if i[0] not in others),
              prefix, tables)
    obs.eq(dict((n, before.get(n)) for n in others), others, 'other-files')
    obs.ev('xml -> ' + inp)

    out = rnd.choice(['same', 'dir', 'zip'])
    outpath = os.path.join(obs.scratch, 'out')
    if out == 'same':
        text, code = call(path)
        outpath = path
    else:
        outpath += '.zip' if out == 'zip' else ''
        others = existing(rnd, obs, outpath, prefix + '.xml')
        obs.note(sorted(others.items()))
        text, code = call(path, outpath, *limit)
    obs.eq(code, None, 'exit-code-back', text)
    obs.check('Created' in text, 'printed', text)
    after = files_of(outpath)
    obs.check(prefix + '.xml' in after, 'missing-document', sorted(after))
    check_document(obs, after.pop(prefix + '.xml'), canon)
    if out == 'same':
        obs.eq(after, before, 'csv-changed')
    else:
        obs.eq(after, others, 'other-files')
        obs.eq(files_of(path), before, 'csv-changed')
    obs.ev('%s -> %s' % (inp, out))
    obs.nontrivial(inp, out, canon)
    obs.sample((prefix, inp, out, sorted(before)))


def invalid(rnd, obs):
    _kind, gen = rnd.choice(models.ALL)
    elem, canon, tables = gen(rnd)
    cells = {}
    while not cells:
        cells = spoil(rnd, tables, rnd.choice([.05, .2, 1]))
    prefix = rnd.choice(PREFIXES)
    files = dict(('%s__%s.csv' % (prefix, name), csv_text(header, rows, rnd))
                 for name, header, rows in tables if rows)
    kind = rnd.choice(['dir', 'zip'])
    path = fill_disk(rnd, kind, os.path.join(obs.scratch, 'csv'), files)
    limit = rnd.choice([None, None, 1, len(cells), len(cells) + 5])
    out = os.path.join(obs.scratch, rnd.choice(['out', 'out.zip']))
    if not out.endswith('.zip'):
        os.mkdir(out)
    args = [path]
    if limit is not None:
        args += [rnd.choice([out, None]), str(limit)]
    elif rnd.random() < .5:
        args.append(out)
    obs.note(args, sorted(files.items()))
    text, code = call(*args)
    n = min(len(cells), limit or len(cells))
    obs.eq(code, 'Found %d invalid records' % n, 'exit-message', text)
    lines = []
    for (name, i), cols in cells.items():
        for c, col in cols:
            lines.append('%s__%s.csv[%s]: %d,%d: ' % (
                prefix, name, col, i, c))
    if limit is None or limit >= len(cells):
        for line in lines:
            obs.check(line in text, 'printed-error', line, text)
        obs.eq(sum(text.count(line) for line in set(lines)), len(lines),
               'printed-errors', text)
    else:
        obs.eq(sum(line in text for line in lines) >= n, True,
               'printed-errors', text)
    obs.eq(files_of(path), files, 'archive-changed')
    obs.eq(files_of(out), {}, 'unexpected-output')
    obs.ev('invalid archives')
    obs.ev('invalid records', n)
    obs.nontrivial(prefix, sorted(cells.items()))


def wrong(rnd, obs):
    _kind, gen = rnd.choice(models.ALL)
    elem, canon, tables = gen(rnd)
    xml = os.path.join(obs.scratch, 'm.xml')
    with open(xml, 'w') as f:
        f.write(models.document(elem, rnd))
    text, code = call(*rnd.choice([[xml], [xml, ''], [xml, None]]))
    obs.check(code not in (0, None), 'missing-output', text)
    obs.eq(os.listdir(obs.scratch), ['m.xml'], 'files')
    # a broken document
    with open(xml) as f:
        text = f.read()
    with open(xml, 'w') as f:
        f.write(text[:rnd.randint(0, len(text) - 10)])
    out = os.path.join(obs.scratch, 'out')
    obs.raises((Exception, SystemExit), lambda: script.main(xml, out),
               'broken-document')
    obs.eq(files_of(out), {}, 'files-from-a-broken-document')
    # a directory without models
    empty = os.path.join(obs.scratch, 'nothing')
    os.mkdir(empty)
    stdout = sys.stdout
    sys.stdout = StringIO.StringIO()
    try:
        try:
            script.main(empty)
        except Exception:
            pass
    finally:
        sys.stdout = stdout
    obs.eq(os.listdir(empty), [], 'files-from-nothing')
    obs.ev('missing output')
    obs.nontrivial(text)


def big(rnd, obs):
    models.big(rnd.choice([there_and_back, invalid]))(rnd, obs)
    obs.ev('big models')


FAMILIES = [('big', big, 10, 150),
            ('there_and_back', there_and_back, 250, 5000),
            ('invalid', invalid, 120, 2500),
            ('wrong', wrong, 25, 300)]
