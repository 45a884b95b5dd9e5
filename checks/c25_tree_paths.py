# -*- coding: utf-8 -*-
"""C25: full enumeration of a source model logic tree"""
import os
from decimal import Decimal
import trees
from scale import big as make_big
from openquake.commonlib import logictree

RULE = ('random source model logic trees (up to five levels, several '
        'branchsets per level applied to selected branches, branches left '
        'without children, zero weights), with their source model files; '
        'the realizations are compared with an independent enumeration; the '
        'signature is the shape of the tree with its weights')
REQUIRE = ['realizations', 'trees', 'selective branchsets',
           'trees without validation', 'trees from a calculation',
           'trees with early leaves', 'big trees', 'deep trees',
           'unicode trees', 'encoded trees']
ENCODINGS = [('utf-8', u'\xe8\u4e2d\U0001f30b'), ('iso-8859-1', u'\xe8\xdf'),
             ('UTF-8', u'\u0416'), ('ISO-8859-1', u'\xfc'), (None, u'\u03b1'),
             (None, u'\xe8')]


class HC(object):
    "What is used of a HazardCalculation"
    def __init__(self, base_path, fname, num_samples=0, seed=0):
        self.base_path = base_path
        self.inputs = dict(source_model_logic_tree=fname,
                           gsim_logic_tree=fname)
        self.number_of_logic_tree_samples = num_samples
        self.random_seed = seed


def build(rnd, obs, cls, text, dirname, *first, **kw):
    "Instantiate a tree in one of the possible ways"
    fname = 'tree.xml'
    how = rnd.choice(['validate', 'validate', 'novalidate', 'unicode', 'hc'])
    if how == 'hc':
        path = os.path.join(dirname, fname)
        with open(path, 'w') as f:
            f.write(text)
        obs.ev('trees from a calculation')
        return how, cls.from_hc(HC(dirname, path, kw.get('num_samples', 0),
                                   kw.get('seed', 0)), *first)
    elif how == 'novalidate':
        obs.ev('trees without validation')
        kw['validate'] = False
    elif how == 'unicode':
        text = unicode(text)
    return how, cls(*(first + (text, dirname, fname)), **kw)


def enumeration(rnd, obs):
    tree, infos = trees.smlt(rnd, obs.scratch)
    text = tree.xml(rnd)
    obs.note(text)
    how, lt = build(rnd, obs, logictree.SourceModelLogicTree, text,
                    obs.scratch)
    paths = tree.paths()
    expected = [(p[0].value, trees.product(b.weight for b in p),
                 tuple(b.id for b in p)) for p in paths]
    for _ in range(2):  # the tree is not consumed
        rlzs = list(lt)
        obs.eq([tuple(r) for r in rlzs], expected, 'realizations')
        obs.eq([(r.value, r.weight, r.lt_path) for r in rlzs], expected,
               'realization-attributes')
    total = sum(r.weight for r in rlzs)
    obs.check(total == 1 and isinstance(total, Decimal), 'total-weight',
              total)
    obs.eq(len(set(r.lt_path for r in rlzs)), len(rlzs), 'duplicated-paths')
    got = [(w, [(b.branch_id, b.weight) for b in p])
           for w, p in lt.root_branchset.enumerate_paths()]
    obs.eq(got, [(trees.product(b.weight for b in p),
                  [(b.id, b.weight) for b in p]) for p in paths], 'paths')
    for bset in tree.bsets():
        for br in bset.branches:
            obs.eq(lt.branches[br.id].weight, br.weight, 'branch', br.id)
    if how in ('validate', 'unicode'):
        obs.eq((set(lt.source_ids), set(lt.tectonic_region_types),
                set(lt.source_types)), tuple(map(set, zip(*infos))),
               'source-model-data')
    obs.ev('realizations', len(rlzs))
    obs.ev('trees')
    if any(bs.apply_to for bs in tree.bsets()):
        obs.ev('selective branchsets')
    if len(set(map(len, paths))) > 1:
        obs.ev('trees with early leaves')
    if len(tree.levels) > 5:
        obs.ev('deep trees')
    obs.nontrivial(how, expected)
    obs.sample(text)


def encodings(rnd, obs):
    "The names may contain any character, in bytes and in unicode documents"
    tree, _infos = trees.smlt(rnd, obs.scratch)
    encoding, chars = rnd.choice(ENCODINGS)
    names = {}
    for br in tree.root.branches:
        if br.value not in names:
            names[br.value] = br.value[:-4] + ''.join(
                rnd.choice(chars) for _ in range(rnd.choice([0, 1, 3]))
            ) + '.xml'
        br.value = names[br.value]
    text = tree.xml(rnd)
    declared = '' if encoding is None else rnd.choice([
        ' encoding="%s"', " encoding='%s'", ' encoding = "%s"']) % encoding
    if declared and rnd.random() < .2:
        declared += ' standalone="yes"'
    obs.check(' encoding="utf-8"' in text, 'harness')
    text = text.replace(' encoding="utf-8"', declared, 1)
    expected = [(p[0].value, trees.product(b.weight for b in p),
                 tuple(b.id for b in p)) for p in tree.paths()]
    obs.note(text)
    for content in (unicode(text), text.encode(encoding or 'utf-8')):
        lt = logictree.SourceModelLogicTree(
            content, obs.scratch, 'tree.xml', validate=False)
        obs.eq([tuple(r) for r in lt], expected, 'encoding', type(content))
        obs.ev('unicode trees' if isinstance(content, unicode)
               else 'encoded trees')
    obs.nontrivial(encoding, expected)


def big(rnd, obs):
    "Many source models, branches or levels"
    make_big(enumeration)(rnd, obs)
    obs.ev('big trees')


FAMILIES = [('big', big, 30, 500),
            ('encodings', encodings, 100, 1500),
            ('enumeration', enumeration, 400, 8000)]
