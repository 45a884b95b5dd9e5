"""C33: splitting a fault source conserves the seismicity"""
from sources import Params, gen_source, expected, same, snap
from scale import big as make_big
from openquake.commonlib.source import split_fault_source, split_source

RULE = ('random simple and complex fault sources with both kinds of magnitude '
        'distribution, with and without empty bins, are split; every piece '
        'is compared with the original source and the rates are compared '
        'magnitude by magnitude; points and characteristic sources must not '
        'be split; the signature is the source')
REQUIRE = ['mfd inc', 'mfd tgr', 'kind simple', 'kind complex',
           'kind point', 'kind char_simple', 'kind char_complex',
           'kind char_planar', 'empty bins', 'pieces compared',
           'sources without seismicity', 'interleaved splits',
           'big sources']


def judge(obs, src, before, pieces):
    rates = src.mfd.get_annual_occurrence_rates()
    nonzero = [(mag, rate) for mag, rate in rates if rate]
    obs.ev('empty bins', len(rates) - len(nonzero))
    if not nonzero:
        obs.ev('sources without seismicity')
    obs.eq([p.source_id for p in pieces],
           ['%s-%d' % (src.source_id, i) for i in range(len(nonzero))],
           'source-ids')
    for piece, (mag, rate) in zip(pieces, nonzero):
        obs.check(piece is not src, 'not-a-copy')
        obs.check(type(piece) is type(src), 'kind-of-piece', piece)
        got = [(m, r) for m, r in piece.mfd.get_annual_occurrence_rates()
               if r]
        obs.check(len(got) == 1 and abs(got[0][0] - mag) < 1e-9 and
                  abs(got[0][1] - rate) <= 1e-12 * rate, 'rate-of-piece',
                  got, (mag, rate))
        obs.check(all(abs(m - mag) < 1e-9
                      for m in piece.mfd.get_min_max_mag()),
                  'magnitude-range', piece.mfd.get_min_max_mag(), mag)
        obs.eq(piece.mfd.bin_width, src.mfd.bin_width, 'bin-width')
        for attr in sorted(set(vars(src)) | set(vars(piece))):
            if attr not in ('source_id', 'mfd'):
                same(obs, getattr(piece, attr, None),
                     getattr(src, attr, None), 'attribute-' + attr)
        obs.ev('pieces compared')
    same(obs, src, before, 'source-changed')


def split(rnd, obs):
    par = Params(rnd)
    spec = gen_source(rnd, rnd.choice(['f', '1', u'z\xe9', '%s', 'a-0']),
                      rnd.choice(['simple', 'complex']),
                      zeros=rnd.choice([0, .2, .6, .9]))
    src = expected(spec, par)
    before = snap(src)
    obs.note(spec, par)
    obs.ev('kind ' + spec.kind)
    obs.ev('mfd ' + spec.mfd[0])
    if rnd.random() < .5:
        pieces = list(split_fault_source(src))
    else:
        pieces = list(split_source(src, rnd.choice([10., None, -1])))
    judge(obs, src, before, pieces)
    if rnd.random() < .3:  # two iterations at the same time
        obs.ev('interleaved splits')
        g1, g2 = split_fault_source(src), split_fault_source(src)
        p1 = [next(g1)] if pieces else []
        p2 = list(g2)
        p1.extend(g1)
        judge(obs, src, before, p1)
        judge(obs, src, before, p2)
    for piece in pieces[:2]:  # a piece is a source which can be split again
        judge(obs, piece, snap(piece), list(split_source(piece, 10.)))
    obs.nontrivial(spec, par)
    obs.sample((spec, [p.source_id for p in pieces]))


def untouched(rnd, obs):
    par = Params(rnd)
    spec = gen_source(rnd, 's', rnd.choice(
        ['point', 'char_simple', 'char_complex', 'char_planar']))
    src = expected(spec, par)
    before = snap(src)
    got = list(split_source(src, rnd.choice([5., 10., 100.])))
    obs.eq(len(got), 1, 'split', spec)
    same(obs, got[0], before, 'source-changed', spec)
    same(obs, src, before, 'source-changed', spec)
    obs.ev('kind ' + spec.kind)
    obs.nontrivial(spec)


def big(rnd, obs):
    "Many magnitudes or points"
    make_big(split)(rnd, obs)
    obs.ev('big sources')


FAMILIES = [('big', big, 20, 400),
            ('split', split, 500, 12000),
            ('untouched', untouched, 150, 2000)]
