"""
Drive a model through XML -> records -> CSV -> XML and watch each stage
"""
import csv
import os
import StringIO
import zipfile
from openquake.nrmllib.node import node_from_nrml, node_from_elem
from openquake.commonlib.converter import Converter
from openquake.commonlib.csvmanager import (
    CSVManager, MemArchive, mkarchive)
from lxml import etree
import models


def parse_csv(text):
    return list(csv.reader(StringIO.StringIO(text)))


def check_tables(obs, tset, tables, clause):
    "The records in a table set are the expected rows, in order"
    got = dict((t.recordtype.__name__, t) for t in tset.tables)
    obs.eq(sorted(got), sorted(t[0] for t in tables), clause + '-types')
    for name, header, rows in tables:
        obs.eq([list(r) for r in got[name]], rows, clause + '-rows', name)
        obs.ev('records', len(rows))


def check_csv(obs, content, prefix, tables):
    "content: filename -> text"
    expected = dict(('%s__%s.csv' % (prefix, name), [header] + rows)
                    for name, header, rows in tables if rows)
    got = dict((n, parse_csv(t)) for n, t in content.items())
    obs.eq(sorted(got), sorted(expected), 'csv-files')
    for fname in expected:
        obs.eq(got[fname], expected[fname], 'csv-content', fname)
        obs.ev('csv files')


def check_node(obs, node, canon, clause):
    got = models.canon_node(node)
    if got != canon:
        obs.fail(clause, models.diff(got, canon) or 'different')
    obs.ev('oracle judgements')


def lazy(node):
    "A copy of the node where the branches with many nodes are generators"
    nodes = [lazy(n) for n in node.nodes]
    new = node.__class__(node.tag, dict(node.attrib), node.text,
                         nodes=nodes, lineno=node.lineno)
    if node.tag == 'assets':
        new.nodes = iter(nodes)
    return new


def new_archive(rnd, obs, where):
    kind = rnd.choice(['mem', 'mem', 'dir', 'zip'])
    path = os.path.join(obs.scratch, where)
    obs.ev('archives of kind ' + kind)
    if kind == 'mem':
        return MemArchive([])
    elif kind == 'dir':
        return mkarchive(path, 'w')
    return mkarchive(path + '.zip', 'w')


def contents(archive):
    out = {}
    for name in archive.extract_filenames():
        f = archive.open(name, 'r')
        out[name] = f.read()
        f.close()
    return out


PREFIXES = ['model', 'my-model', 'a.b', 'x y', 'my__model', 'a_', '_b', 'm']


def csv_text(header, rows, rnd=None):
    "CSV file with the given content"
    eol = rnd.choice(['\r\n', '\n']) if rnd else '\r\n'
    out = StringIO.StringIO()
    writer = csv.writer(out, lineterminator=eol)
    if header is not None:
        writer.writerow(header)
    writer.writerows(rows)
    return out.getvalue()


def fill_archive(rnd, obs, files, where='arch', kinds=('mem', 'dir', 'zip')):
    "An archive with the given files (name -> text)"
    kind = rnd.choice(kinds)
    obs.ev('archives of kind ' + kind)
    if kind == 'mem':
        items = files.items()
        rnd.shuffle(items)
        return MemArchive(items)
    path = os.path.join(obs.scratch, where)
    return mkarchive(fill_disk(rnd, kind, path, files), 'r+')


def fill_disk(rnd, kind, path, files):
    "Write the files in a directory or a zip file and return the path"
    names = sorted(files)
    rnd.shuffle(names)
    if kind == 'dir':
        os.mkdir(path)
        for name in names:
            with open(os.path.join(path, name), 'wb') as f:
                f.write(files[name])
    else:
        path += '.zip'
        z = zipfile.ZipFile(path, 'w', rnd.choice(
            [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]))
        for name in names:
            z.writestr(name, files[name])
        z.close()
    return path


def drive(rnd, obs, gen):
    elem, canon, tables = gen(rnd)
    xml = models.document(elem, rnd)
    prefix = rnd.choice(PREFIXES)
    fname = os.path.join(obs.scratch, prefix + '.xml')
    with open(fname, 'w') as f:
        f.write(xml)
    obs.note(xml)

    # stage 1: node -> table set -> node
    node = node_from_nrml(fname)[0]
    conv = Converter.from_node(node)
    check_tables(obs, conv.tableset, tables, 'extracted')
    check_node(obs, conv.to_node(), canon, 'node-from-tables')
    check_tables(obs, Converter.from_nrml(fname).tableset, tables,
                 'extracted-from-file')
    # nothing is consumed: it can be done again
    check_node(obs, conv.to_node(), canon, 'node-from-tables-again')
    for table in conv.tableset:
        obs.check(table.is_valid(), 'extracted-records-valid', str(table))

    # stage 2: nrml -> csv
    archive = new_archive(rnd, obs, 'csv')
    how = rnd.randrange(5)
    if how == 0:
        source = lazy(node_from_nrml(fname)[0])
        man = CSVManager(archive, 'zz').convert_from_node(source, prefix)
    elif how == 1:  # with the prefix of the manager
        source = lazy(node_from_nrml(fname)[0])
        first = CSVManager(archive, prefix)
        man = first.convert_from_node(source)
        obs.check(man is first, 'same-manager')
    else:
        man = CSVManager(archive, prefix).convert_from_nrml(fname)
    check_csv(obs, contents(archive), prefix, tables)
    obs.eq(man.prefix, prefix, 'prefix')
    obs.eq(man.find_invalid(), [], 'no-invalid-records')

    # stage 3: csv -> node, more than once and from new managers
    check_node(obs, man.convert_to_node(), canon, 'node-from-csv')
    check_node(obs, CSVManager(archive, prefix).convert_to_node(), canon,
               'node-from-csv-again')
    check_tables(obs, man.get_tableset(), tables, 'read')

    # stage 4: csv -> nrml, in the same archive or in another one
    if rnd.random() < .5:
        out = archive
        fnames = man.convert_to_nrml()
    else:
        out = new_archive(rnd, obs, 'out')
        fnames = man.convert_to_nrml(out)
    obs.eq(len(fnames), 1, 'one-document', fnames)
    obs.eq(os.path.basename(fnames[0]), prefix + '.xml', 'document-name')
    text = contents(out)[prefix + '.xml']
    root = node_from_elem(etree.parse(StringIO.StringIO(text)).getroot())
    obs.eq((root.tag, len(root)), ('nrml', 1), 'root', text[:300])
    check_node(obs, root[0], canon, 'document')
    obs.ev('documents')

    # stage 5: the same csv again from the new document
    mem = MemArchive([])
    copy = os.path.join(obs.scratch, 'copy', prefix + '.xml')
    os.mkdir(os.path.dirname(copy))
    with open(copy, 'w') as f:
        f.write(text)
    CSVManager(mem, '').convert_from_nrml(copy)
    second = [(n, h, r) for n, h, r in tables]
    if tables[0][0] == 'Location':
        second = None  # costs and occupancies may come in another order
    if second is not None:
        check_csv(obs, contents(mem), prefix, second)
    obs.nontrivial(canon, tables)
    obs.sample(xml)
    return xml, canon, tables
