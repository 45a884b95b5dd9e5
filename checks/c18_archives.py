"""C18: archives behave as a mapping from names to contents"""
import os
import tempfile
import zipfile
from openquake.commonlib.csvmanager import (
    MemArchive, DirArchive, ZipArchive, mkarchive, NotInArchive, CSVManager)
from openquake.commonlib import records

RULE = ('histories of writes (line by line, closed explicitly, with a context '
        'manager or by closing the archive), overwrites, reads (in one go, in '
        'chunks, by line), membership tests and listings on the three kinds '
        'of archives, with re-opening from the disk; the signature is the '
        'history')
REQUIRE = ['archives of kind mem', 'archives of kind dir',
           'archives of kind zip', 'writes', 'overwrites', 'reads',
           'missing names', 'closings', 're-openings', 'simultaneous reads',
           'reads while writing', 'big archives',
           'files open around the block of a manager']

NAMES = ['a', 'b.csv', 'model__Rec.csv', 'model__Other.csv', 'mod.xml',
         'with blank.txt', 'A']
LINES = ['', 'x', '1,2,3', 'a "quoted" text', '\x00\xff', 'y' * 9000,
         ' padded ', 'tab\t']


def gen_content(rnd):
    lines = [rnd.choice(LINES) for _ in range(rnd.choice([0, 1, 2, 6]))]
    eol = rnd.choice(['\n', '\n', '\r\n'])
    return eol.join(lines) + (eol if lines and rnd.random() < .7 else '')


def chunks(rnd, content):
    out = []
    while content:
        k = rnd.randint(1, len(content))
        out.append(content[:k])
        content = content[k:]
    return out


def read(rnd, archive, name):
    f = archive.open(name, 'r') if rnd.random() < .5 else archive.open(name)
    how = rnd.randrange(5)
    close = rnd.random() < .7  # otherwise left open
    try:
        if how == 0:
            return f.read()
        elif how == 1:
            return ''.join(f)
        elif how == 2:
            out = []
            while True:
                line = f.readline()
                if not line:
                    return ''.join(out)
                out.append(line)
        elif how == 3:
            out = []
            while True:
                data = f.read(7000)
                if not data:
                    return ''.join(out)
                out.append(data)
        with f:
            return f.read()
    finally:
        if close:
            f.close()


def read_two(rnd, archive, name1, name2):
    "Two readers at the same time, also of the same file"
    f1, f2 = archive.open(name1), archive.open(name2)
    out1, out2, left = [], [], [1, 2]
    while left:
        which = rnd.choice(left)
        data = (f1, f2)[which - 1].read(rnd.choice([1, 5, 100, 9000]))
        (out1, out2)[which - 1].append(data)
        if not data:
            left.remove(which)
            if rnd.random() < .7:
                (f1, f2)[which - 1].close()
    return ''.join(out1), ''.join(out2)


def descriptors(path):
    "The files under the path opened by this process"
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            name = os.readlink('/proc/self/fd/' + fd)
        except (OSError, IOError):
            continue
        if name.startswith(path + os.sep):
            out.append(os.path.basename(name))
    return sorted(out)


def temporary():
    return sorted(n for n in os.listdir(tempfile.gettempdir())
                  if n.startswith('tmp'))


def similar(rnd, name):
    "Another name"
    return rnd.choice([name[:-1], name[1:], name.upper(), name.lower(),
                       name + 'x', os.path.splitext(name)[0], name[:3],
                       name + '.csv', name.replace('_', '')])


def check_state(rnd, obs, archive, content, hist):
    obs.eq(sorted(archive.extract_filenames()), sorted(content), 'names',
           hist)
    prefix = rnd.choice(['mod', 'model__', 'zzz', 'a', ''])
    obs.eq(sorted(archive.extract_filenames(prefix)),
           sorted(n for n in content if n.startswith(prefix)),
           'names-with-prefix', prefix, hist)
    others = set(similar(rnd, name) for name in NAMES) - set(NAMES) - set([''])
    for name in NAMES + sorted(others):
        obs.check((name in archive) == (name in content), 'membership', name,
                  hist)
        if name in content:
            for _ in range(rnd.choice([1, 2])):
                got = read(rnd, archive, name)
                obs.check(got == content[name], 'content', name, repr(got),
                          repr(content[name]), hist)
                obs.ev('reads')
        elif rnd.random() < .5:
            obs.raises(NotInArchive, lambda: archive.open(name, 'r'),
                       'missing-name', name, hist)
            obs.ev('missing names')
    if content and rnd.random() < .4:
        a, b = rnd.choice(sorted(content)), rnd.choice(sorted(content))
        got = read_two(rnd, archive, a, b)
        obs.check(got == (content[a], content[b]), 'two-readers', a, b, got,
                  content[a], content[b], hist)
        obs.ev('simultaneous reads')


def check_disk(obs, kind, path, content, hist):
    "What is really on the disk"
    if kind == 'dir':
        obs.eq(sorted(os.listdir(path)), sorted(content), 'disk-names', hist)
        for name in content:
            with open(os.path.join(path, name), 'rb') as f:
                obs.check(f.read() == content[name], 'disk-content', name,
                          hist)
    elif kind == 'zip':
        z = zipfile.ZipFile(path)
        try:
            obs.check(z.testzip() is None, 'corrupted-zip', hist)
            obs.eq(sorted(set(z.namelist())), sorted(content), 'disk-names',
                   hist)
            for name in content:
                obs.check(z.read(name) == content[name], 'disk-content',
                          name, hist)
        finally:
            z.close()


def histories(rnd, obs):
    kind = rnd.choice(['mem', 'dir', 'zip'])
    obs.ev('archives of kind ' + kind)
    path = os.path.join(obs.scratch, 'arch' + (
        '.zip' if kind == 'zip' else ''))
    content = {}
    hist = [kind]
    before = temporary()
    if kind == 'mem':
        for name in rnd.sample(NAMES, rnd.choice([0, 1, 3])):
            content[name] = gen_content(rnd)
        archive = MemArchive(content.items())
    else:
        mode = rnd.choice(['w', 'w+'])
        hist.append(mode)
        archive = mkarchive(path, mode)
        obs.check(isinstance(archive, dict(
            dir=DirArchive, zip=ZipArchive)[kind]), 'archive-kind', archive)
    for step in range(rnd.choice([2, 5, 10])):
        op = rnd.choice(['write', 'write', 'write', 'check', 'close',
                         'reopen'])
        if kind == 'zip' and not content:
            # Jython (not CPython) cannot open again a zip file without files
            op = 'write'
        if op == 'write':
            pending = set()
            for name in rnd.sample(NAMES, rnd.choice([1, 1, 2])):
                mode = rnd.choice(['w', 'w', 'w+'])
                data = gen_content(rnd)
                how = rnd.choice(['close', 'with', 'archive', 'twice'])
                hist.append((op, name, mode, len(data), how))
                f = archive.open(name, mode)
                obs.check(os.path.basename(f.name) == name, 'file-name',
                          f.name)
                if how == 'with':
                    with f:
                        for c in chunks(rnd, data):
                            f.write(c)
                else:
                    for c in chunks(rnd, data):
                        f.write(c)
                        if rnd.random() < .2:
                            f.flush()
                        if rnd.random() < .1 and set(content) - set([name]):
                            # another file is read in the meantime
                            other = rnd.choice(sorted(
                                set(content) - set([name])))
                            if other not in pending:
                                got = read(rnd, archive, other)
                                obs.eq(got, content[other],
                                       'content-while-writing', hist)
                                obs.ev('reads while writing')
                    if how == 'archive':
                        pending.add(name)
                    else:
                        f.close()
                        if how == 'twice':
                            f.close()
                obs.ev('overwrites' if name in content else 'writes')
                content[name] = data
            if pending:  # closing the archive closes the files
                archive.close()
        elif op == 'close':
            hist.append((op,))
            if rnd.random() < .3:
                with archive as a:
                    obs.check(a is archive, 'enter')
            else:
                archive.close()
            check_disk(obs, kind, path, content, hist)
            obs.ev('closings')
        elif op == 'reopen' and kind != 'mem':
            archive.close()
            mode = rnd.choice(['r', 'a', 'r+'])
            hist.append((op, mode))
            if kind == 'dir' and mode == 'a':
                mode = 'r+'
            if rnd.random() < .2:  # without a mode
                archive = (ZipArchive if kind == 'zip' else DirArchive)(path)
                hist.append('default mode')
                mode = 'default'
            else:
                archive = mkarchive(path, mode)
            check_state(rnd, obs, archive, content, hist)
            if mode == 'r' or (mode == 'default' and kind == 'dir' and
                               rnd.random() < .5):
                archive.close()
                archive = mkarchive(path, 'r+')
            obs.ev('re-openings')
        obs.note(hist[-8:])
        check_state(rnd, obs, archive, content, hist)
    archive.close()
    check_disk(obs, kind, path, content, hist)
    check_state(rnd, obs, archive, content, hist)
    archive.close()
    obs.eq(descriptors(path), [], 'files-left-open', hist)
    obs.eq(temporary(), before, 'temporary-files-left', hist)
    obs.nontrivial(hist, sorted(content.items()))
    obs.sample(hist)


def contexts(rnd, obs):
    "An archive used as a context manager persists everything at exit"
    kind = rnd.choice(['dir', 'zip'])
    path = os.path.join(obs.scratch, 'arch' + (
        '.zip' if kind == 'zip' else ''))
    content = {}
    fail = rnd.random() < .3
    try:
        with mkarchive(path, 'w') as archive:
            for name in rnd.sample(NAMES, rnd.choice([1, 2, 4])):
                content[name] = gen_content(rnd)
                f = archive.open(name, 'w')
                for c in chunks(rnd, content[name]):
                    f.write(c)
                if rnd.random() < .5:
                    f.close()
            if fail:
                raise ZeroDivisionError
    except ZeroDivisionError:
        pass
    check_disk(obs, kind, path, content, sorted(content))
    # the existing content is kept when adding to an archive
    archive = mkarchive(path, 'a')
    new = rnd.choice(['new.csv', 'model__New.csv'])
    content[new] = gen_content(rnd)
    with archive.open(new, 'w') as f:
        f.write(content[new])
    archive.close()
    check_disk(obs, kind, path, content, sorted(content))
    obs.ev('closings', 2)
    obs.nontrivial(kind, sorted(content.items()), fail)


def missing(rnd, obs):
    "A directory is not created when it should be there"
    path = os.path.join(obs.scratch, 'not there')
    obs.raises(Exception, lambda: mkarchive(path, rnd.choice(['r', 'a'])),
               'missing-directory')
    obs.check(not os.path.exists(path), 'directory-created')
    obs.raises(Exception, lambda: mkarchive(path + '.zip', 'r'),
               'missing-zip')
    archive = mkarchive(path, rnd.choice(['w', 'w+', 'r+']))
    obs.check(os.path.isdir(path), 'directory-not-created')
    obs.eq(list(archive.extract_filenames()), [], 'empty-directory')
    obs.nontrivial(path)


def big(rnd, obs):
    "Many files, some of which are long, open at the same time"
    kind = rnd.choice(['mem', 'dir', 'zip'])
    path = os.path.join(obs.scratch, 'arch' + (
        '.zip' if kind == 'zip' else ''))
    archive = MemArchive([]) if kind == 'mem' else mkarchive(path, 'w')
    content, files = {}, []
    for i in range(rnd.choice([5, 40, 120])):
        name = 'model%d__Rec%d.csv' % (i % 7, i)
        content[name] = '\n'.join('%d,%d' % (i, j)
                                  for j in range(rnd.choice([0, 1, 30])))
    long_name = rnd.choice(sorted(content))
    content[long_name] = ''.join(
        'line %d,%s\r\n' % (i, 'x' * (i % 150))
        for i in range(rnd.choice([1000, 4000])))
    for name in content:
        f = archive.open(name, 'w')
        files.append((name, f))
        half = len(content[name]) / 2
        f.write(content[name][:half])
    for name, f in files:
        half = len(content[name]) / 2
        for c in chunks(rnd, content[name][half:])[:]:
            f.write(c)
        if rnd.random() < .5:
            f.close()
    archive.close()
    check_disk(obs, kind, path, content, kind)
    if kind != 'mem':
        archive = mkarchive(path, 'r')
    for name in content:
        got = read(rnd, archive, name)
        obs.check(got == content[name], 'content', name, len(got),
                  len(content[name]))
    obs.eq(sorted(archive.extract_filenames()), sorted(content), 'names')
    prefix = 'model%d__' % rnd.randrange(8)
    obs.eq(sorted(archive.extract_filenames(prefix)),
           sorted(n for n in content if n.startswith(prefix)),
           'names-with-prefix', prefix)
    archive.close()
    obs.ev('big archives')
    obs.nontrivial(kind, len(content), long_name)


ROWS = [['PAE', 'buildings', 'economic_loss', 'PGA'],
        ['P', 'population', 'fatalities', 'MMI']]
HEADER = 'vulnerabilitySetID,assetCategory,lossCategory,IMT'


def with_managers(rnd, obs):
    """
    An archive also used by managers of CSV files: the files opened before the
    blocks of the managers, in them or between them, and closed or not, are
    all there when the archive is closed
    """
    kind = rnd.choice(['mem', 'dir', 'zip'])
    path = os.path.join(obs.scratch, 'arch' + (
        '.zip' if kind == 'zip' else ''))
    archive = MemArchive([]) if kind == 'mem' else mkarchive(path, 'w')
    content, files, hist = {'first': 'x'}, [], [kind]
    before = temporary()
    with archive.open('first', 'w') as f:
        f.write('x')

    def some_files():
        for _ in range(rnd.choice([0, 1, 2])):
            name = 'f%d.%s' % (len(files), rnd.choice(['csv', 'txt', 'xml']))
            f = archive.open(name, rnd.choice(['w', 'w+']))
            data = gen_content(rnd)
            f.write(data)
            content[name] = data
            files.append((name, f))
            how = rnd.choice(['close', 'open', 'open', 'read'])
            if how == 'close':
                f.close()
                if rnd.random() < .5:
                    obs.eq(read(rnd, archive, name), data,
                           'content-while-writing', hist)
            elif how == 'read':
                f = archive.open('first')  # left open
                obs.eq(f.read(), 'x', 'content-while-writing', hist)
            hist.append((name, how))

    some_files()
    for i in range(rnd.choice([1, 1, 2, 3])):
        man = CSVManager(archive, 'm%d' % i)
        rows = rnd.sample(ROWS, rnd.choice([1, 2]))
        eol = '\r\n'
        name = 'm%d__DiscreteVulnerabilitySet.csv' % i
        outside = rnd.random() < .3
        fail = rnd.random() < .2
        nested = rnd.random() < .3
        hist.append((name, outside, fail, nested))
        obs.note(hist)
        if not outside:
            try:
                with man:
                    if nested:
                        other = CSVManager(archive, 'n%d' % i)
                        with other:
                            some_files()
                    for row in rows:
                        man.write(records.DiscreteVulnerabilitySet(*row))
                    some_files()
                    if fail:
                        raise ZeroDivisionError
            except ZeroDivisionError:
                pass
        else:  # closed with the archive
            for row in rows:
                man.write(records.DiscreteVulnerabilitySet(*row))
            some_files()
        content[name] = eol.join(
            [HEADER] + [','.join(row) for row in rows]) + eol
        if not outside:
            obs.eq(read(rnd, archive, name), content[name],
                   'content-after-block', hist)
        if rnd.random() < .3 and not outside:
            CSVManager(archive, 'm%d' % i).find_invalid()
            got = [list(r) for r in CSVManager(archive, 'm%d' % i).readtable(
                records.DiscreteVulnerabilitySet)]
            obs.eq(got, rows, 'records', hist)
        some_files()
    archive.close()
    check_disk(obs, kind, path, content, hist)
    for name in content:
        obs.eq(read(rnd, archive, name), content[name], 'content', hist)
    archive.close()
    obs.eq(descriptors(path), [], 'files-left-open', hist)
    obs.eq(temporary(), before, 'temporary-files-left', hist)
    obs.ev('files open around the block of a manager', len(files))
    obs.nontrivial(hist, sorted(content.items()))


FAMILIES = [('with managers', with_managers, 100, 2000),
            ('histories', histories, 500, 9000),
            ('big', big, 16, 200),
            ('contexts', contexts, 150, 2500),
            ('missing', missing, 20, 60)]
