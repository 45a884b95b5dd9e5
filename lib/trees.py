"""Random logic trees as plain data, their XML form, an independent model"""
import os
from decimal import Decimal
from scale import scale

NRML = ('<?xml version="1.0" encoding="utf-8"?>\n'
        '<nrml xmlns="http://openquake.org/xmlns/nrml/0.4"\n'
        '      xmlns:gml="http://www.opengis.net/gml">\n')
REGIONS = ['Region %d' % i for i in range(20)]
TRTS = ['Active Shallow Crust', 'Stable Continental Crust', 'Volcanic',
        'Subduction Interface', 'Subduction IntraSlab']
KINDS = ['point', 'area', 'simpleFault', 'complexFault',
         'characteristicFault']


class Branch(object):
    def __init__(self, id, weight, wtext, value):
        self.id, self.weight, self.wtext = id, weight, wtext
        self.value = value
        self.child = None  # child branchset
        self.line = self.value_line = None


class BranchSet(object):
    def __init__(self, id, type, filters, branches, apply_to=None):
        self.id, self.type, self.filters = id, type, filters
        self.branches, self.apply_to = branches, apply_to
        self.line = None


class Tree(object):
    "A list of levels which are lists of branchsets"
    def __init__(self, levels):
        self.levels = levels
        self.line = None

    @property
    def root(self):
        return self.levels[0][0]

    def bsets(self):
        return [bs for level in self.levels for bs in level]

    def paths(self, bset=None):
        "All the paths in document order, as lists of branches"
        out = []
        for br in (bset or self.root).branches:
            if br.child is None:
                out.append([br])
            else:
                out.extend([br] + p for p in self.paths(br.child))
        return out

    def xml(self, rnd=None):
        "The document; the line numbers are stored in the objects"
        lines = NRML.splitlines()

        def add(indent, text):
            lines.extend(('  ' * indent + text).split('\n'))
            if rnd and rnd.random() < .05:
                lines.append(rnd.choice(['', '  ']))
            if rnd and rnd.random() < .03:
                lines.append('<!-- a comment -->')
                lines.append('')
        i0 = len(lines)
        add(1, '<logicTree logicTreeID="lt1">')
        self.line = i0 + 1
        for n, level in enumerate(self.levels, 1):
            add(2, '<logicTreeBranchingLevel branchingLevelID="bl%d">' % n)
            for bs in level:
                attrs = ['branchSetID="%s"' % bs.id,
                         'uncertaintyType="%s"' % bs.type]
                attrs += ['%s="%s"' % kv for kv in sorted(bs.filters.items())]
                if bs.apply_to is not None:
                    attrs.append('applyToBranches="%s"' % bs.apply_to)
                if rnd:
                    rnd.shuffle(attrs)
                bs.line = len(lines) + 1
                add(3, '<logicTreeBranchSet %s>' % ' '.join(attrs))
                for br in bs.branches:
                    br.line = len(lines) + 1
                    add(4, '<logicTreeBranch branchID="%s">' % br.id)
                    br.value_line = len(lines) + 1
                    add(5, '<uncertaintyModel>%s</uncertaintyModel>' %
                        br.value)
                    add(5, '<uncertaintyWeight>%s</uncertaintyWeight>' %
                        br.wtext)
                    add(4, '</logicTreeBranch>')
                add(3, '</logicTreeBranchSet>')
            add(2, '</logicTreeBranchingLevel>')
        add(1, '</logicTree>')
        lines.append('</nrml>')
        return '\n'.join(lines) + '\n'


def weights(rnd, n, zeros=True, total=None):
    "n pairs (Decimal, text) summing up to one"
    total = total or rnd.choice([10, 100, 1000])
    if n > 10:
        total = max(total, 1000)
    if n == 1:
        nums = [total]
    else:
        lo = 0 if zeros and rnd.random() < .15 else 1
        cuts = set()
        while len(cuts) < n - 1:
            cuts.add(rnd.randint(1, total - 1))
        cuts = sorted(cuts)
        nums = [b - a for a, b in zip([0] + cuts, cuts + [total])]
        if lo == 0:
            i = rnd.randrange(n)
            nums[(i + 1) % n] += nums[i]
            nums[i] = 0
    out = []
    for num in nums:
        dec = Decimal(num) / Decimal(total)
        text = rnd.choice(['%s' % dec, '%s' % dec,
                           '%.3f' % dec if total <= 1000 else '%.8f' % dec,
                           ' %s ' % dec, '\n%s' % dec, '+%s' % dec])
        out.append((dec, text))
    return out


def number_text(rnd, lo, hi):
    x = rnd.uniform(lo, hi)
    text = rnd.choice(['%.1f', '%.2f', '%.4f']) % x
    if text.startswith('0.') and rnd.random() < .3:
        text = text[1:]
    if not text.startswith('-') and rnd.random() < .1:
        text = '+' + text
    return text


class Ids(object):
    "Generates similar but different branch ids"
    def __init__(self, rnd):
        self.rnd = rnd
        self.used = set()

    def __call__(self, prefix='b'):
        while True:
            new = prefix + self.rnd.choice(
                ['%d', '0%d', '_%d', '%d.1', '-%d', '%dx', '%dX']
            ) % self.rnd.choice([1, 2, self.rnd.randint(1, 60)])
            if self.rnd.random() < .2:
                new = new.swapcase()
            if new not in self.used:
                self.used.add(new)
                return new


def source_models(rnd, dirname, n):
    """
    Write n small source models; return a list of file names and the
    corresponding lists of triples (id, tectonic region type, source type)
    """
    names, ids, infos = [], [], []
    for i in range(n):
        name = rnd.choice(['sm%d.xml', 'models/sm_%d.xml', 'a b %d.xml']) % i
        path = os.path.join(dirname, name)
        if not os.path.exists(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        lines = [NRML + '<sourceModel name="x">']
        info = []
        for _ in range(scale(rnd, [1, 2, 4], [50])):
            sid = 's%d' % rnd.choice([len(ids), len(ids), len(ids) + 10])
            while sid in ids:
                sid += '0'
            trt, kind = rnd.choice(TRTS), rnd.choice(KINDS)
            ids.append(sid)
            info.append((sid, trt, kind))
            lines.append('<%sSource id="%s" name="x" tectonicRegion="%s">'
                         '<rake>3</rake></%sSource>' % (kind, sid, trt, kind))
        lines.append('</sourceModel></nrml>\n')
        with open(path, 'w') as f:
            f.write('\n'.join(lines))
        names.append(name)
        infos.append(info)
    return names, infos


def many_digits(rnd, depth):
    "Possibly, the total of weights with many digits"
    # the product of the weights must fit in the precision of the decimals
    if rnd.random() < .3:
        return 10 ** (8 if depth <= 3 else 5)


def add_branches(rnd, ids, values, zeros=True, total=None):
    return [Branch(ids(), w, wtext, value) for (w, wtext), value in zip(
        weights(rnd, len(values), zeros, total), values)]


def uncertainty(rnd, source_ids, trts, kinds):
    "Random type, filters and value generator"
    typ = rnd.choice(['maxMagGRRelative', 'bGRRelative', 'abGRAbsolute',
                      'maxMagGRAbsolute'])
    filters = {}
    if 'Absolute' in typ:
        filters['applyToSources'] = rnd.choice(source_ids)
    else:
        name = rnd.choice([None, 'applyToSources', 'applyToSourceType',
                           'applyToTectonicRegionType'])
        if name == 'applyToSources':
            filters[name] = rnd.choice([' ', '  ']).join(
                rnd.sample(source_ids, rnd.randint(1, len(source_ids))))
        elif name == 'applyToSourceType':
            filters[name] = rnd.choice(kinds)
        elif name:
            filters[name] = rnd.choice(trts)

    def value():
        if typ == 'abGRAbsolute':
            return rnd.choice([' ', '  ', '\t']).join(
                [number_text(rnd, -5, 5), number_text(rnd, .5, 2)])
        elif typ == 'maxMagGRAbsolute':
            return rnd.choice(['7', number_text(rnd, 6.5, 9)])
        elif typ == 'maxMagGRRelative':
            return rnd.choice(['0', '+1', number_text(rnd, -.2, .5)])
        return rnd.choice(['0', '1', number_text(rnd, -.1, .5)])
    return typ, filters, value


def smlt(rnd, dirname, zeros=True, max_paths=400, sources=None):
    "A random source model logic tree and what is in the source models"
    ids = Ids(rnd)
    names, infos = sources or source_models(
        rnd, dirname, scale(rnd, [1, 1, 2, 3], [11, 25]))
    values = [rnd.choice(names)
              for _ in range(scale(rnd, [1, 2, 3, 5], [12, 60]))]
    infos = [t for n, info in zip(names, infos) if n in values for t in info]
    source_ids, trts, kinds = [sorted(set(col)) for col in zip(*infos)]
    max_depth = scale(rnd, [0, 1, 2, 3, 4], [7, 10])
    deep = max_depth > 4
    total = 10 if deep else many_digits(rnd, max_depth + 1)
    root = BranchSet('bs1', 'sourceModel', {}, add_branches(
        rnd, ids, values, zeros, total))
    levels = [[root]]
    open_ends = root.branches
    for depth in range(max_depth):
        nsets = min(rnd.choice([1, 1, 2, 3]), len(open_ends))
        free = open_ends[:]
        rnd.shuffle(free)
        level, new = [], []
        for i in range(nsets):
            typ, filters, value = uncertainty(rnd, source_ids, trts, kinds)
            nbr = rnd.choice([1, 1, 2]) if deep else scale(
                rnd, [1, 2, 2, 3], [11, 30])
            bset = BranchSet(
                'bs%d_%d' % (depth + 2, i + 1), typ, filters,
                add_branches(rnd, ids, [value() for _ in range(nbr)], zeros,
                             total))
            if nsets == 1 and rnd.random() < .6:
                parents = open_ends
            else:
                k = rnd.randint(1, len(free) - (nsets - i - 1))
                parents, free = free[:k], free[k:]
                bset.apply_to = rnd.choice([' ', '  ']).join(
                    br.id for br in parents)
            for br in parents:
                br.child = bset
            level.append(bset)
            new.extend(bset.branches)
        levels.append(level)
        open_ends = new
        if count(root) > max_paths:
            for br in parents_of(levels, levels[-1]):
                br.child = None
            levels.pop()
            break
    return Tree(levels), infos


def parents_of(levels, level):
    return [br for lev in levels for bs in lev for br in bs.branches
            if br.child in level]


def count(bset):
    return sum(1 if br.child is None else count(br.child)
               for br in bset.branches)


def product(weights):
    w = Decimal(1)
    for x in weights:
        w *= x
    return w
