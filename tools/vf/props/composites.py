"""P23: measurements with several components, generated names."""
import os, random
from . import prop
from .. import build
from ..engine import drive, ints
from .sessions import One, Session
from ..runs import Op, Place, ImageRun, INTEGRAL, as_float, b, conform, document, ops, UNIT

DIMS = {'size': (1, 2, 3, 4, 6, 11), 'index': (1, 2, 3, 4, 6, 11), 'region': (1, 2, 3, 4, 6, 11)}
for _k in ('point', 'vector', 'array'):
    DIMS[_k] = DIMS['f' + _k] = (1, 2, 3, 4, 6, 12)
DIMS['matrix'] = DIMS['fmatrix'] = ('1x1', '2x2', '2x3', '3x2', '3x3', '1x4', '4x1', '4x4', '2x12')
NAMES = ('a', 'the region', 'a_0', 'x<y>&"z"', 'n\tm', "it's", 'Index', 'v_1_2', '')


def entries(kind, dims):
    if kind.endswith('matrix'):
        x, y = str(dims).split('x')
        return int(x) * int(y)
    return int(dims) * (2 if kind == 'region' else 1)


def whole(rnd, kind):
    v = rnd.choice((0, 1, 2, 7, 100, 255, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 40 + 1, rnd.randrange(1000)))
    return -v if kind == 'index' and rnd.random() < .5 else v


def real(rnd, kind):
    v = rnd.choice((0.0, 1.0, 0.5, 0.1, -2.25, 1e-3, 1e10, 123456.789, 1 / 3.0, 1e-20, 1e30, rnd.uniform(-10, 10)))
    v = -v if rnd.random() < .3 else v
    return as_float(v) if kind[0] == 'f' else v


def values(rnd, kind, n):
    if kind in INTEGRAL:
        l = [whole(rnd, 'index' if kind == 'index' or kind == 'region' and j < n // 2 else 'size') for j in range(n)]
    else:
        l = [real(rnd, kind) for _ in range(n)]
    return l


def composite(rnd, name, kind=None, dims=None, tol='?'):
    kind = kind or rnd.choice(list(DIMS))
    dims = dims or rnd.choice(DIMS[kind])
    tol = rnd.choice((None, None, 0, 1)) if tol == '?' else tol
    return Op('C', name, (kind, dims, values(rnd, kind, entries(kind, dims))), tol)


def changed(op, at, v):
    kind, dims, l = op.value
    l = list(l)
    l[at] = v
    return Op('C', op.name, (kind, dims, l), op.tol)


def other(rnd, op, at):
    """another value of the component"""
    kind, dims, l = op.value
    x = l[at]
    if kind in INTEGRAL:
        return rnd.choice((x + 1, x + 1, abs(x) * 2 + 3, x - 1 if x > 0 else x + 1))
    y = rnd.choice((x * 1.5 + 1, -x - 1, x * (1 + 1e-7), x * (1 + 1e-4), x + 1e-12, 0.0 if x else 1.0))
    return as_float(y) if kind[0] == 'f' else y


def shaped(op, rnd):
    """the same as something else: other kind, other dimension, other name"""
    kind, dims, l = op.value
    k = rnd.randrange(3)
    if k == 0:
        return Op('C', op.name + 'x', op.value, op.tol)
    same = [(o, d) for o in DIMS for d in DIMS[o] if (o, d) != (kind, dims) and (o in INTEGRAL) == (kind in INTEGRAL)
            and (k == 1 or entries(o, d) == len(l))]
    o, d = rnd.choice(same or [(op.value[0], op.value[1])])
    n = entries(o, d)
    l2 = [abs(x) if o in ('size', 'region') else x for x in (list(l) * 24)[:n]]
    return Op('C', op.name, (o, d, l2), op.tol)


class Recorded:
    """runs which record, and others which compare with what was recorded"""
    def __init__(self, c, exe):
        self.c, self.exe, self.jobs = c, exe, []

    def add(self, script, replays):
        self.jobs.append((script, replays))

    def records(self):
        out = []
        for script, _ in self.jobs:
            out.append(ImageRun(Place(self.c), ['-O', 'o.xml'], script, timeout=30))
        return out

    def compares(self, records):
        out = []
        for (script, replays), r in zip(self.jobs, records):
            with open(r.place.abs('o.xml'), 'rb') as f:
                d = f.read()
            for s in replays:
                p = Place(self.c)
                p.file('b.xml', d)
                x = ImageRun(p, ['-I', 'b.xml'] + (['-O', 'o'] if len(out) % 3 == 0 else []), s, timeout=30)
                x.orig = ops(script)
                out.append(x)
        return out


def written(c, exe, rnd, n):
    """images which the test writes itself; the recorded ones are then the baseline"""
    first, scripts = [], []
    for i in range(n):
        script = []
        for j in range(rnd.randrange(1, 5)):
            size = rnd.choice(((1, 1), (2, 1), (2, 2), (3, 2), (4, 4)))
            script.append(Op('II', 'image %d' % j, (size, [rnd.randrange(-50, 300) for _ in range(size[0] * size[1])])))
            if rnd.random() < .3:
                script.append(Op('gen', value=(rnd.choice(('mha', 'png', 'txt')),)))
            if rnd.random() < .3:
                script.append(composite(rnd, 'c%d' % j))
        scripts.append(script)
        first.append(ImageRun(Place(c), ['-O', 'o.xml', 'arg %d' % (i % 3)], script, timeout=30))
    conform(c, exe, first, 'Ended RetRight RecordRight WrittenRight', 'recorded images')
    again = []
    for script, r in zip(scripts, first):
        # the images as they are there now
        o = r.more({}, {})
        for v in range(2):
            p = Place(c)
            p.dir('data')
            for f in o['files']:
                if 'img' in f:
                    n = bytes(f['n']).decode()
                    with open(r.place.abs(n), 'rb') as fh:
                        p.file('data/' + n, fh.read())
                    p.tree[-1].update(c=[], img=f['img'])
            with open(r.place.abs('o.xml'), 'rb') as fh:
                p.file('b.xml', fh.read())
            s = []
            for x in script:
                if x.kind == 'II' and v and rnd.random() < .5:
                    size, pix = x.value
                    pix = list(pix)
                    pix[rnd.randrange(len(pix))] += rnd.choice((1, -1, 100))
                    x = Op('II', x.name, (size, pix))
                s.append(x)
            again.append(ImageRun(p, ['-I', 'b.xml', 'arg'], s, timeout=30))
    conform(c, exe, again, 'Ended CountRight VerdictRight ImageReportRight', 'compared images')


def names(c, exe, rnd, n):
    """generated names"""
    cases = []
    exts = ('mha', 'png', 'txt', 'tar.gz', 'x', '1', '')
    dirs = (None, None, None, '', 'd', 'd/', '/tmp/x', './d', 'a/b', 'd e', '/')
    progs = ('prog', 'prog', 'a.out', 'bin/prog', 'p_1', '/abs/prog', 'x y', 'prog_0_1')
    for i in range(n):
        reqs = []
        for _ in range(rnd.choice((1, 2, 3, 8, 30))):
            r = (rnd.choice(exts if i % 2 else exts[:2]),)
            d = rnd.choice(dirs if i % 3 else dirs[:2])
            reqs.append(r if d is None else r + (d,))
        prog = rnd.choice(progs)
        args = [rnd.choice(('a', 'b', '', 'arg', 'x' * 300, '\xe9\xff', '-x', '1')) for _ in range(rnd.randrange(0, 4))]
        vary = []
        if args and i % 2:
            at = rnd.randrange(len(args))
            vary = [args[:at] + [v] + args[at + 1:] for v in ('v1', 'w2', 'zz', 'b', 'longer argument') if v != args[at]]
        cases.append((prog, args, reqs, vary))
    # many of them
    for m in (300, 1100) + ((66000,) if c.thorough else ()):
        cases.append(('prog', ['a'], [('mha',)] * m, []))
        cases.append(('prog', [], [(e, d) for k in range(m // 2) for e, d in (('x', 'd'), ('png', ''))], []))

    def run(prog, args, reqs):
        return ImageRun(Place(c), args, [Op('gen', value=r) for r in reqs], prog=prog, timeout=30)

    def observe(ks):
        runs, at = [], []
        for k in ks:
            prog, args, reqs, vary = cases[k]
            at.append((len(runs), len(vary)))
            runs += [run(prog, args, reqs), run(prog, args, reqs)] + [run(prog, v, reqs) for v in vary]
        for r in runs:
            r.reset()
        a = drive(exe, [(j, r.block(j)) for j, r in enumerate(runs)])
        got = [[g['n'] for g in a[j].get('gs', [])] for j in range(len(runs))]
        out = []
        for k, (j, v) in zip(ks, at):
            prog, args, reqs, vary = cases[k]
            crash = max(a[j + i].get('crash', 0) for i in range(2 + v))
            out.append({'crash': crash, 'program': ints(b(prog)), 'args': [ints(b(x)) for x in args],
                        'reqs': [{'ext': ints(b(r[0])), 'dir': ints(b(r[1])) if len(r) > 1 else []} for r in reqs],
                        'names': got[j], 'again': got[j + 1], 'others': got[j + 2:j + 2 + v]})
        return out
    c.conform('NamesTrace', observe(range(len(cases))), lambda k: observe([k]), label='generated names')
    # the next run may be one of the same object, or of another one in the same process
    few = [i for i in range(len(cases)) if len(cases[i][2]) < 100]

    def within(ks):
        ss = []
        for k in ks:
            prog, args, reqs, vary = cases[few[k]]
            l, r = [], random.Random(k)
            for o, a in [('x', args)] + [(r.choice('xy'), v) for v in vary[:r.randrange(3)]] + [(r.choice('xxy'), args)]:
                l.append(One(o, a, [Op('gen', value=q) for q in reqs]))
                l[-1].args[0] = prog
            ss.append(Session(Place(c), l, 30))
        a = drive(exe, [(j, s.block(j)) for j, s in enumerate(ss)])
        out = []
        for j, k in enumerate(ks):
            prog, args, reqs, vary = cases[few[k]]
            got = [[g['n'] for g in r['gs']] for r in a[j].get('runs', [])] or [[], []]
            out.append({'crash': a[j].get('crash', 0), 'program': ints(b(prog)), 'args': [ints(b(x)) for x in args],
                        'reqs': [{'ext': ints(b(r[0])), 'dir': ints(b(r[1])) if len(r) > 1 else []} for r in reqs],
                        'names': got[0], 'again': got[-1], 'others': got[1:-1]})
        return out
    c.conform('NamesTrace', within(range(len(few))), lambda k: within([k]), label='names generated by several runs in a process', cfg='NamesTraceRuns.cfg')


@prop('P23')
def p23(c):
    rnd = random.Random(c.seed)
    exe = os.path.join(build.itk(), 'itkdrv')
    c.models_parallel([('NamesMC', None), ('ComponentsMC', None)])
    R = Recorded(c, exe)
    # every kind, dimension and name; every single component changed
    for kind in DIMS:
        for dims in DIMS[kind]:
            for tol in (None, 0, 1):
                op = composite(rnd, rnd.choice(NAMES), kind, dims, tol)
                n = len(op.value[2])
                at = range(n) if c.thorough else sorted(rnd.sample(range(n), min(n, 3)))
                R.add([op], [[op]] + [[changed(op, j, other(rnd, op, j))] for j in at] + ([[shaped(op, rnd)]] if tol is None else []))
    # sequences
    for i in range(200 if c.thorough else 50):
        script = [composite(rnd, 'c%d' % j) for j in range(rnd.choice((2, 3, 5)))]
        if i % 3 == 0:
            script.insert(rnd.randrange(len(script)), Op('P', 'text', 'some text\n'))
        k = rnd.randrange(len(script))
        rep = list(script)
        if rep[k].kind == 'C':
            j = rnd.randrange(len(rep[k].value[2]))
            rep[k] = changed(rep[k], j, other(rnd, rep[k], j))
        R.add(script, [rep, script[::-1]])
    records = R.records()
    conform(c, exe, records, 'Ended RetRight RecordRight StartedOnce', 'recorded components')
    conform(c, exe, R.compares(records), 'Ended StartedOnce VerdictRight', 'compared components')
    written(c, exe, rnd, 60 if c.thorough else 20)
    names(c, exe, rnd, 300 if c.thorough else 80)
