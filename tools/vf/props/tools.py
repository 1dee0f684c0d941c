"""P24 and P25: the programs."""
import json, os, random, resource, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import prop
from .. import build
from ..engine import ints, CPUS
from ..runs import Op, Place, ImageRun, b, document, element, esc, UNIT, INVARIANTS
from .images import Gallery, TOLS

CHILD = os.path.join(build.HARNESS, 'child.py')
STATUS = 'NoCrash StatusRight VerdictRight'


class ToolRun(ImageRun):
    """of a program; child: what the command does, as (writes, end, code)"""
    hung = 0

    def __init__(self, place, exe, args, tool, child=None, timeout=60, **kw):
        ImageRun.__init__(self, place, args, (), prog=exe, timeout=timeout, **kw)
        self.tool, self.child = tool, child
        if tool == 'pipe':
            self.paths = ()

    def go(self):
        d = self.place.abs(self.cwd)
        with open(os.path.join(d, '.stdout'), 'wb') as o, open(os.path.join(d, '.stderr'), 'wb') as e:
            p = subprocess.Popen([os.fsencode(b(a)) for a in self.args], cwd=d, stdin=subprocess.DEVNULL, stdout=o, stderr=e, start_new_session=True,
                                 preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20)))
            try:
                p.wait(self.timeout if ToolRun.hung < 4 else 5)
            except subprocess.TimeoutExpired:
                ToolRun.hung += 1
                os.killpg(p.pid, 9)
                p.wait()
                return {'crash': 1}
        sig, code = (-p.returncode, -1) if p.returncode < 0 else (0, p.returncode)
        return {'crash': 0, 'sig': sig, 'code': code, 'ntest': 0, 'ms': [], 'res': {'v': code, 'in': [], 'out': [], 'exp': 0}}

    def observed(self, a):
        o = ImageRun.observed(self, a)
        o['tool'] = self.tool
        if self.child is not None:
            writes, end, code = self.child
            o['child'] = {'writes': [{'k': k, 'text': ints(v)} for k, v in writes if k == 'o'], 'end': end, 'code': code}
        return o


def conform_tools(c, runs, invariants, label):
    cfg = 'SPECIFICATION Spec\nVIEW View\nALIAS Short\nINVARIANTS NoCrash %s\nCHECK_DEADLOCK FALSE\n' % invariants

    def observe(ks):
        for k in ks:
            runs[k].reset()
        with ThreadPoolExecutor(CPUS) as ex:
            a = list(ex.map(lambda k: runs[k].go(), ks))
        return [runs[k].observed(x) for k, x in zip(ks, a)]
    c.conform('RegressionTrace', observe(range(len(runs))), lambda k: observe([k]), cfgtext=cfg, label=label)


# ------------------------------------------------------------------ P24

CHARS = 'abcXYZ 0123456789<>&"\'\n\n\t-]/=;:.'


def some(rnd, n, chars=CHARS):
    return ''.join(rnd.choice(chars) for _ in range(n))


def scripted(place, name, actions):
    """a command which does that: its words, and what it does"""
    with open(place.abs(name), 'w') as f:
        json.dump(actions, f)
    end, code, writes = 'exit', 0, []
    closed = False
    for k, *v in actions:
        if k == 'c' and v[0] == 1:
            closed = True
        elif k == 'o' and not closed:
            writes.append(('o', v[0]))
        elif k == 'x':
            end, code = 'exit', v[0]
            break
        elif k == 's':
            end, code = 'signal', v[0]
            break
    return [sys.executable, '-S', CHILD, name], (writes, end, code)


def actions(rnd, big):
    out = []
    for _ in range(rnd.choice((0, 1, 2, 5, 9))):
        k = rnd.random()
        n = rnd.choice((1, 3, 20, 200, 1023, 1024, 1025)) if not big else rnd.choice((10, 4096, 8191, 30000, 65536, 65537))
        step = rnd.choice((1, 7, n, n, n)) if n < 300 else rnd.choice((n, n, 4096, 1000, 509))
        if k < .55:
            out.append(['o', some(rnd, n) if n < 3000 else some(rnd, 500) * (n // 500) + some(rnd, n % 500), step])
        elif k < .8:
            m = rnd.choice((1, 50, 4096, 100000, 200000))
            out.append(['e', 'E' * m, rnd.choice((m, 4096))])
        else:
            out.append(['p', rnd.choice((1, 5, 30))])
    if rnd.random() < .12:
        out.append(['c', 1])
        if rnd.random() < .5:
            out.append(['e', 'late' * 30, 50])
        out.append(['p', 20])
    if rnd.random() < .1:
        out.append(['c', 2])
        if not any(x[0] == 'c' and x[1] == 1 for x in out):
            out += [['p', 5], ['o', some(rnd, 30), 30]]
    k = rnd.random()
    if k < .35:
        out.append(['x', rnd.choice((0, 1, 2, 3, 5, 77, 126, 127, 128, 254, 255))])
    elif k < .5:
        out.append(['s', rnd.choice((9, 15, 6, 11, 1, 8))])
    return out


def piped(c, exe, rnd, acts, i, baseline=None, extra=()):
    p = Place(c)
    words, child = scripted(p, '.script', acts)
    text = ''.join(t for k, t in child[0])
    args = list(extra)
    if baseline is not None:
        w = baseline(text)
        p.file('base.xml', document([('P', 'stdout', w)] if isinstance(w, str) else w))
        args += ['-I', 'base.xml']
    if i % 3:
        args += ['-O', 'o.xml']
    return ToolRun(p, exe, args + words, 'pipe', child)


def plainly(c, exe, words, text, code, args=(), end='exit'):
    return ToolRun(Place(c), exe, list(args) + words, 'pipe', ([('o', text)], end, code))


@prop('P24')
def p24(c):
    rnd = random.Random(c.seed)
    exe = os.path.join(build.itk(), 'tfPipeToXML')
    c.models_parallel([('PipeMC', 'PipeMCMore.cfg' if c.thorough else None)])
    rec, cmp = [], []
    n = 500 if c.thorough else 110
    for i in range(n):
        a = actions(rnd, False)
        extra = rnd.choice(((), (), (), ('-R', '3'), ('-R', '0'), ('-R', '77')))
        if a and a[-1][0] == 'x' and rnd.random() < .4:
            extra = ('-R', str(a[-1][1]))
        rec.append(piped(c, exe, rnd, a, i, extra=extra))
        bases = [lambda t: t, lambda t: t + 'x', lambda t: t[:-1], lambda t: t.replace('a', 'b', 1), lambda t: [], lambda t: [('S', 'stdout', t)], lambda t: [('P', 'out', t)],
                 lambda t: [('P', 'stdout', t), ('P', 'more', 'x')], lambda t: t + '\n', lambda t: t.lstrip()]
        a = actions(rnd, False)
        cmp.append(piped(c, exe, rnd, a, i, rnd.choice(bases + bases[:1] * 5), extra=extra if not (a and a[-1][0] == 's') else ()))
    # the whole alphabet, byte by byte; no final newline; nothing at all; blanks only
    for t in (''.join(map(chr, range(32, 127))), '\n', '\n\n', ' ', '\t', 'x', '', ']]>', '<!-- -->', '</DartMeasurement>', '&amp;', 'no newline\nat the end', '\r', 'one\r\ntwo\r\n'):
        rec.append(piped(c, exe, rnd, [['o', t, 1]] if t else [], 1))
        cmp.append(piped(c, exe, rnd, [['o', t, 1]] if t else [], 1, lambda t: t))
        rec.append(plainly(c, exe, ['printf', '%s', t], t, 0, ['-O', 'o']))
        rec.append(plainly(c, exe, ['echo', t], t + '\n', 0) if not t.startswith('-') else rec[-1])
    # the arguments reach the command
    show = 'for a; do printf "[%s]" "$a"; done; exit $#'
    words = ['', '', 'a', 'a b', ' ', '"', "'", '-O', '-I', '-R', '-P', '--', '*', '$HOME', '\\', 'x' * 200, ';', '|', '>f', '&', '#', '\t', 'a=b', '~', '%s']
    for i in range(120 if c.thorough else 40):
        a = [rnd.choice(words) for _ in range(rnd.choice((0, 1, 1, 2, 3, 5, 9)))]
        n = len(a)
        rec.append(plainly(c, exe, ['sh', '-c', show, 'sh'] + a, ''.join('[%s]' % x for x in a), n, ('-R', str(rnd.choice((n, 0, n + 1)))) if i % 3 else ()))
    # many of them, and one with as much as an argument can have
    for n in (127, 128, 255, 256, 257, 1000, 4096, 20000):
        a = ['%d' % i for i in range(n)]
        rec.append(plainly(c, exe, ['sh', '-c', 'echo $#; eval "echo \\${$#} \\${$(($# / 2))}"; exit 3', 'sh'] + a, '%d\n%d %d\n' % (n, n - 1, n // 2 - 1), 3, ('-R', '3')))
    for n in (255, 256, 1023, 1024, 4095, 4096, 65536, 131000):
        rec.append(plainly(c, exe, ['sh', '-c', 'echo ${#1}; exit 3', 'sh', 'y' * n, 'z'], '%d\n' % n, 3, ('-R', '3')))
    # commands which cannot be started, or do not end by themselves
    for w in (['./none'], ['/'], ['no such command'], ['.'], [''], ['./.script']):
        for e in ((), ('-O', 'o'), ('-R', '0'), ('-R', '1'), ('-R', '127')):
            rec.append(plainly(c, exe, w, '', 0, e, 'none'))
    rec.append(plainly(c, exe, [], '', 0, (), 'none'))
    for s in (1, 2, 3, 6, 8, 9, 11, 13, 14, 15):
        for e in ((), ('-R', '1'), ('-R', '0'), ('-R', str(s)), ('-R', str(128 + s))):
            rec.append(piped(c, exe, rnd, [['o', 'before', 6], ['s', s]], s, extra=e))
            cmp.append(piped(c, exe, rnd, [['o', 'before', 6], ['s', s]], s, lambda t: t, extra=e))
    for x in range(256):
        rec.append(plainly(c, exe, ['sh', '-c', 'echo text; exit %d' % x], 'text\n', x, rnd.choice(((), ('-R', '0'), ('-R', str(x)), ('-R', str(255 - x)), ('-R', '-1'), ('-R', str(x - 256)), ('-R', str(x + 256))))))
    for x in range(0, 256, 1 if c.thorough else 15):
        rec.append(piped(c, exe, rnd, [['o', 'text', 4], ['x', x]], x, extra=('-R', str(rnd.choice((x, 0, 255 - x))))))
        cmp.append(piped(c, exe, rnd, [['o', 'text', 4], ['x', x]], x, lambda t: t, extra=('-R', str(rnd.choice((x, 0))))))
        cmp.append(piped(c, exe, rnd, [['o', 'text', 4], ['x', x]], x, lambda t: 'other', extra=('-R', str(x))))
    # arguments which are not there
    for e in (['-O'], ['-I', 'none'], ['-O', 'no/such/o', 'echo', 'x'], ['-P', 'none', 'echo'], ['-R']):
        rec.append(plainly(c, exe, e, '', 0, (), 'none'))
    conform_tools(c, rec, 'StatusRight RecordRight LeftoverRight OthersStay', 'recorded commands')
    conform_tools(c, cmp, 'StatusRight VerdictRight ReportsRight', 'compared commands')
    # more than a pipe has room for, on one stream or on both
    big = []
    for i in range(30 if c.thorough else 8):
        big.append(piped(c, exe, rnd, actions(rnd, True), 1))
    for n in (65535, 65536, 65537, 131072) + ((400000,) if c.thorough else ()):
        t = some(rnd, 997)
        t = (t * (n // 997 + 1))[:n]
        big.append(piped(c, exe, rnd, [['o', t, n]], 1))
        big.append(piped(c, exe, rnd, [['e', 'e' * n * 2, n], ['o', t, 4096], ['e', 'e' * n, n]], 1))
        big.append(piped(c, exe, rnd, [['o', t, 4096]], 1, lambda t: t))
    conform_tools(c, big, 'StatusRight RecordRight VerdictRight', 'large outputs')


# ------------------------------------------------------------------ P25

OPTIONS = ('--intensityTolerance', '--numberOfPixelTolerance', '--radiusTolerance')


def value(rnd, o):
    k = rnd.random()
    if k < .1:
        return rnd.choice(('', 'x', '-', 'five', '.', '--', '--radiusTolerance', ' ', '+'))
    if o == OPTIONS[0]:
        return rnd.choice(TOLS + ('.5', '5.', '+1', '1e-3', '2.5e1', ' 1', '-0.5', '100000', '1e300'))
    # (a large radius takes more memory than there is)
    return rnd.choice(('0', '0', '1', '1', '2', '3', '4', '10', '007', ' 1', '1000000' if o == OPTIONS[1] else '6'))


def tool_run(c, exe, rnd, i):
    g = Gallery(c, rnd)
    p = g.place
    args, base = [], []
    j = 0
    for _ in range(rnd.choice((0, 1, 3, 5, 8))):
        k = rnd.random()
        if k < .45:
            o = rnd.choice(OPTIONS)
            args += [o, value(rnd, o)]
        elif k < .47:
            args.append(rnd.choice(('--unknown', '-x', '-', '-I', '-R', '--intensityTolerance=1', '-O')))
        else:
            img = g.base()
            n = 'none.mha' if rnd.random() < .05 else g.save(rnd.choice(('data', 'data', 'more')), img)
            if rnd.random() < .1:
                n = 'sub/' + n
            base.append(Op('FI', 'ImageFile%d' % j, n))
            args.append('gone.mha' if rnd.random() < .05 else rnd.choice(('', '', './')) + g.save('', g.variant(img)))
            j += 1
    if rnd.random() < .05:
        args.append(rnd.choice(OPTIONS))
    if rnd.random() < .1 and base:
        base.pop()
    if rnd.random() < .05:
        base.insert(0, Op('FI', 'ImageFile0', 'x.mha'))
    lead = []
    mode = rnd.random()
    if mode < .75:
        p.file('base.xml', document(base))
        lead += ['-I', 'base.xml']
    if rnd.random() < .5:
        lead += ['-P', 'more']
    if rnd.random() < .4:
        lead += ['-O', 'o.xml']
    if rnd.random() < .1:
        lead += ['-R', rnd.choice(('0', '1', '5'))]
    return ToolRun(p, exe, lead + args, 'images', timeout=60)


def tolerance_runs(c, exe, rnd):
    """one pair of images and all ways to give tolerances before, between and after them"""
    out = []
    for k in range(120 if c.thorough else 36):
        g = Gallery(c, rnd)
        img = dict(size=(3, 2), pix=[4 * UNIT * x for x in (1, 2, 3, 4, 5, 6)], ty='double')
        a = g.save('data', img)
        pix = list(img['pix'])
        for _ in range(rnd.randrange(1, 3)):
            pix[rnd.randrange(6)] += rnd.choice((2, 4, 6, 16))
        t = g.save('', dict(img, pix=pix))
        base, args = [], []
        for j in range(4):
            for _ in range(rnd.randrange(3)):
                o = rnd.choice(OPTIONS)
                args += [o, rnd.choice(('0', '0.5', '1', '1.5', '4') if o == OPTIONS[0] else ('0', '1', '2'))]
            args.append(t)
            base.append(Op('FI', 'ImageFile%d' % j, a))
        if k % 4 == 0:
            args += [rnd.choice(OPTIONS), '1']
        g.place.file('base.xml', document(base))
        out.append(ToolRun(g.place, exe, ['-I', 'base.xml'] + args, 'images'))
    return out


@prop('P25')
def p25(c):
    rnd = random.Random(c.seed)
    exe = os.path.join(build.itk(), 'itktfImageCompare')
    c.models_parallel([('ToolsMC', None)])
    runs = tolerance_runs(c, exe, rnd) + [tool_run(c, exe, rnd, i) for i in range(700 if c.thorough else 170)]
    # many images: the names go on
    g = Gallery(c, rnd)
    img = dict(size=(1, 1), pix=[4], ty='short')
    n, t = g.save('data', img), g.save('', dict(img, pix=[8]))
    s = g.save('', img)
    names = [s if j % 3 else t for j in range(112)]
    g.place.file('base.xml', document([Op('FI', 'ImageFile%d' % j, n) for j in range(112)]))
    runs.append(ToolRun(g.place, exe, ['-I', 'base.xml'] + names, 'images'))
    conform_tools(c, runs, 'StatusRight VerdictRight ImageReportRight RecordRight OthersStay', 'runs of the program')
