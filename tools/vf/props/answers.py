"""P26: what a test is told of each measurement."""
import itertools, os, random
from . import prop
from .. import build
from ..runs import Op, Place, Run, ImageRun, conform, document, ops
from .lifecycle import LETTERS, NUMS, THROWS, RETS, WORDS, Maker, edited, expecting, models, named, some
from .composites import DIMS, NAMES, Recorded, changed, composite, entries, other as other_component, shaped
from .images import gallery_run

CHECKS = 'AnswerRight'


def ending(rnd):
    """how a test may end after what it has measured"""
    return rnd.choice(([], [], [], [('ret', '', 3)], [('throw', '', rnd.choice(THROWS))], [('exit', '', 1)], [('kill', '', 9)]))


def plain_runs(c, rnd):
    m = Maker(c)
    all = NUMS + LETTERS + [('P', 'a', 'x y'), ('S', 'n', '5'), ('FT', 'a', 'f1'), ('FT', 'a', 'f2'), ('FG', 'a', 'f1'), ('FJ', 'a', 'f1')]
    files = (('f1', 'x'), ('f2', 'y'))
    # every pair of types, at the first place and after others; and when there is nothing to compare with
    for a, b in itertools.product(all, repeat=2):
        m.add([a], [b], files=files)
    for a in all:
        m.add([], [a, a], files=files)
        m.add(None, [a, a], files=files)
        m.add([a] * 4, [a] * 6, files=files)
        for tol, t in itertools.product((0, 1), repeat=2):
            if a[0] in 'IFDB':
                m.add([a, a], [Op(*a, tol), Op(a[0], a[1], a[2] if t else 1 - a[2], tol)])
    # text
    for t, u in itertools.product(WORDS, repeat=2):
        if c.thorough or rnd.random() < .3:
            m.add([('P', 'a', t), ('S', 'a', t)], [('P', 'a', u), ('S', 'a', u)])
    # tests which do not come to their end, and those which do
    for i in range(2000 if c.thorough else 450):
        base = named(rnd, rnd.randrange(0, 12)) if i % 3 else [some(rnd) for _ in range(rnd.randrange(0, 12))]
        r, e = rnd.choice(RETS)
        t = edited(rnd, base, rnd.choice((0, 1, 2, 3, 8))) + (ending(rnd) or [('ret', '', r)])
        m.add(None if rnd.random() < .12 else base, t, expecting(e) + rnd.choice(([], [], ['-O', 'o'])))
    for n in (127, 256, 300, 1000):
        base = named(rnd, n)
        m.add(base, base + base[:5])
        m.add(base, edited(rnd, base, 20))
        m.add(base, base[1:] + base[:1])
    # tolerances which are changed in the course of the test
    vals = (0, 1, 2, 1.5, 1.0000001, 1e-3, 0.99999, 100, 101, 110, -1)
    for i in range(500 if c.thorough else 120):
        base, t = [], []
        for j in range(rnd.choice((2, 4, 8))):
            k = rnd.choice('FDI')
            v = rnd.choice(vals)
            w = rnd.choice((v, v, v * rnd.choice((1.0000001, 1.01, 2, .999)), rnd.choice(vals)))
            if k == 'I':
                v, w = int(v), int(w)
            if rnd.random() < .4:
                t.append(('tol', '', rnd.choice(('0', '0.5', '0.01', '1e-6', '-0.5', '2'))))
            base.append((k, 'n%d' % j, v))
            t.append(Op(k, 'n%d' % j, w, rnd.choice((None, 0, 1))))
        m.add(base, t)
    # files which are there, or not, or only for some time
    for i in range(80 if c.thorough else 30):
        t = [('FT', 'f%d' % j, rnd.choice(('f1', 'f2', 'd/f1', 'none', 'd'))) for j in range(5)]
        w = rnd.choice([('rm', 'f1'), ('put', 'f1', 'other'), ('rm', 'd/f1'), ('put', 'none', 'x')])
        at = rnd.randrange(len(t))
        p = m.add([(k, n, rnd.choice(('f1', 'f2', 'd/f1', 'none'))) for k, n, _ in t], t[:at] + [w] + t[at:], files=files, before=rnd.choice(([], ['-P', 'd'])))
        p.dir('d').file('d/f1', rnd.choice(('x', 'y')))
    return m.runs


@prop('P26')
def p26(c):
    rnd = random.Random(c.seed)
    exe, itk = build.tf(), os.path.join(build.itk(), 'itkdrv')
    models(c)
    c.model('ComponentsMC')
    runs = plain_runs(c, rnd)
    conform(c, exe, runs, CHECKS, 'answers')
    # of several components at once: each of them may be the one which is different
    R = Recorded(c, itk)
    for kind in DIMS:
        for dims in DIMS[kind]:
            op = composite(rnd, rnd.choice(NAMES), kind, dims, rnd.choice((None, 0, 1)))
            n = len(op.value[2])
            at = range(n) if c.thorough else sorted(rnd.sample(range(n), min(n, 2)))
            all = op
            for j in range(n):
                all = changed(all, j, other_component(rnd, op, j))
            R.add([op], [[op], [all], [op, op], [shaped(op, rnd)]] + [[changed(op, j, other_component(rnd, op, j))] for j in at])
    for i in range(150 if c.thorough else 30):
        script = [composite(rnd, 'c%d' % j) for j in range(rnd.choice((2, 3, 5)))]
        rep = [changed(o, rnd.randrange(len(o.value[2])), 77) if rnd.random() < .3 else o for o in script]
        R.add(script, [rep + ending(rnd), script[1:], script + script[:1]])
    records = R.records()
    conform(c, itk, records, CHECKS + ' RecordRight', 'answers while recording')
    conform(c, itk, R.compares(records), CHECKS, 'answers of several components')
    conform(c, itk, [gallery_run(c, rnd, i) for i in range(300 if c.thorough else 70)], CHECKS, 'answers of images')
