"""P11, P12, P13: the comparison of two measurements."""
import base64, random, struct
from . import prop
from .. import build
from ..engine import drive, hexs
from ..runs import Place, Run, Op, ops, conform, document, element, esc, number, TYPES
from .lifecycle import Maker, WORDS, NAMES
from .recording import text, NASTY, LENGTHS, MARKUP
from .objects import History, KINDS

DEFTOL = 2.0 ** -17
EPSF, EPSD = 2.0 ** -23, 2.0 ** -52
MAXF, MAXD, MAXL = 3.4028234663852886e38, 1.7976931348623157e308, 2 ** 63 - 1


class Pairs:
    """many comparisons in one run: names of their own, each both ways round when that is possible"""
    def __init__(self, c):
        self.c, self.runs = c, []
        self.clear()

    def clear(self):
        self.base, self.test, self.n = [], [], 0

    def add(self, kind, u, v, tol=True, exact=False, swap=True):
        """u, v: values; u may be a text, of the baseline"""
        self.n += 1
        self.base.append((kind, 'n%d' % self.n, u if isinstance(u, str) else number(kind, u)))
        self.test.append(Op(kind, 'n%d' % self.n, v, tol, exact))
        if swap and self.n % 2 == 1:
            if isinstance(u, str):
                self.add(kind, v, v, tol, exact, False)
            else:
                self.add(kind, v, u, tol, exact, False)

    def flush(self, tol=None, opt=0, at=None):
        """tol: None the default; opt: set before the run or in the test"""
        if not self.base:
            return
        p = Place(self.c)
        p.file('b.xml', '<output>\n' + ''.join(element(Op(k, n, t), t) for k, n, t in self.base) + '</output>\n')
        script = list(self.test)
        sets = {}
        if tol is not None and opt == 0:
            sets['tol'] = repr(tol)
        elif tol is not None:
            script = [Op('tol', '', repr(tol))] + script
        self.runs.append(Run(p, ['-I', 'b.xml'], script, sets=sets))
        self.clear()


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


TOLS = [None, 0.0, 1e-6, 1e-3, 0.1, 0.5, 1.0, 2.0, -0.5, -1e-3, DEFTOL, 1e-12, 3.0, 1e10]


@prop('P11')
def p11(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.models_parallel([('DecimalMC', None), ('ToleranceMC', None)])
    P = Pairs(c)
    # numbers of the machine which are exact in their text, and tolerances which are
    for kind, bits in (('I', 40), ('F', 10), ('D', 30)):
        for k in range(0, 9):
            e = 2.0 ** -k
            for _ in range(30 if c.thorough else 9):
                m = rnd.randrange(1, 2 ** (bits - 9) if kind != 'F' else 64)
                u = m * 2 ** k
                for d in (0, m, m + 1, m - 1, -m, -m - 1, -m + 1, 2 * m, -2 * m, -u, -2 * u, u):
                    P.add(kind, u, u + d, True, True)
                    if d in (m, m + 1, -m - 1):
                        P.add(kind, -u, -(u + d), True, True)
                    if kind != 'I' and rnd.random() < .3:
                        P.add(kind, u / 4., (u + d) / 4., True, True)
            P.flush(rnd.choice((e, e, -e)), k % 2)
    # near the border on both sides, over the whole range
    for i in range(90 if c.thorough else 26):
        tol = rnd.choice([None, None, 1e-6, 1e-3, 0.1, 0.5, 1e-2, 1e-5, 2e-16, 1e-9, DEFTOL, -1e-3, 1.5])
        e = abs(DEFTOL if tol is None else tol)
        for _ in range(14):
            kind = rnd.choice('IFD')
            if kind == 'I':
                u = rnd.choice((rnd.randrange(-MAXL - 1, MAXL), rnd.randrange(-10 ** 6, 10 ** 6), rnd.choice((1, -1)) * rnd.randrange(1, 10) * 10 ** rnd.randrange(1, 19), MAXL, -MAXL - 1, MAXL - rnd.randrange(10 ** 12)))
                u = max(min(u, MAXL), -MAXL - 1)
                for q in (rnd.random(), .99, 1.01, 1 + rnd.random(), .999999, 1.000001):
                    d = int(abs(u) * e * q)
                    for v in (u + d, u - d):
                        if -MAXL - 1 <= v <= MAXL:
                            P.add('I', u, v, rnd.random() < .93)
            else:
                lim = 37 if kind == 'F' else 300
                u = rnd.uniform(-1, 1) * 10.0 ** rnd.randrange(-lim + 12, lim)
                if rnd.random() < .15: u = rnd.choice((1, -1)) * (MAXF if kind == 'F' else MAXD) * rnd.choice((1, .999, .5, .1))
                for q in (rnd.random(), .9, .99, 1.01, 1.1, 1 + rnd.random() * 3, .999, 1.001):
                    for v in (u + abs(u) * e * q, u - abs(u) * e * q, u / (1 + e * q)):
                        if abs(v) < (3.402e38 if kind == 'F' else 1.797e308):
                            P.add(kind, u, v, rnd.random() < .93)
        P.flush(tol, i % 2)
    # far apart, all signs and magnitudes
    for tol in TOLS:
        for kind, big in (('I', MAXL), ('F', 3.402823e38), ('D', 1.797693134862315e308)):
            vals = [0, 1, -1, 2, -2, 3, 7, 1000, -1000, 10 ** 9, big, -big, big // 2 if kind == 'I' else big / 2, 0.0]
            vals += [-big - 1, big - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 10 ** 18] if kind == 'I' else [0.5, -0.5, 0.001, 1e-6, 1e6, 1e20, -1e20, 1e-20, -1e-20, 1e37, 1.0000001, 1.5]
            for u in vals:
                for v in rnd.sample(vals, len(vals) if c.thorough else 8):
                    P.add(kind, u, v, rnd.random() < .85, False, True)
        for u in (0, 1):
            for v in (0, 1):
                for t in (False, True):
                    P.add('B', u, v, t)
        P.flush(tol, rnd.randrange(2))
    # around the machine epsilon, where all numbers are equal
    for tol in (None, 1e-3, 0.5, 0.0, 1e-9):
        for kind, eps in (('F', EPSF), ('D', EPSD)):
            vals = [s * eps * q for q in (.001, .25, .5, .9, .99, 1.01, 1.1, 2, 4, 100) for s in (1, -1)] + [0, EPSD * .9, EPSF * .9, -EPSF * .5, 1e-9]
            for u in vals:
                for v in rnd.sample(vals, len(vals) if c.thorough else 9):
                    P.add(kind, u, v)
        for d in (0, 1, -1):
            P.add('I', 0, d); P.add('I', 1, d)
        P.flush(tol, 1)
    # contents which are no number, or not only one
    odd = ['nan', 'NaN', '-nan', 'inf', '-inf', 'Infinity', 'x', '', '1x', '1 x', '0x10', ' 1', '1 ', '+1', '01', '1.0', '1e0', '1.', '.5', '5', '1e400', '-1e400', '99999999999999999999', '-99999999999999999999',
           '--1', '+-1', '1e', '1e+', 'e1', '1,5', '1.5.2', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '1e39', '3.5e38', 'true', 'false', '0', '1', '2', '-0', '0.0', '10', '1\n', '\t1', '1 2', 'null', '1f', '1L']
    for tol in (None, 0.5, 2.0, 0.0):
        for kind in 'IFDB':
            vs = {'I': [0, 1, 10, -1, MAXL, -MAXL - 1], 'F': [0.0, 1.0, 0.5, float('nan'), float('inf'), float('-inf'), 3e38], 'D': [0.0, 1.0, 0.5, float('nan'), float('inf'), float('-inf'), 1e308], 'B': [0, 1]}[kind]
            for t in odd:
                for v in vs:
                    if c.thorough or rnd.random() < .6:
                        P.add(kind, t, v, rnd.random() < .85, False, False)
        P.flush(tol, 0)
    # a tolerance changed in the middle counts from there on
    for _ in range(20):
        for i in range(10):
            u = rnd.randrange(100, 10000)
            for q in (1.0001, 1.001, 1.01, 1.1, 1.6):
                P.add(rnd.choice('FD'), float(u), float(u) * q)
        P.flush(rnd.choice((None, 0.05)))
        r = P.runs[-1]
        for at in sorted((2 * rnd.randrange(len(r.ops) // 2) for _ in range(3)), reverse=True):      # not within a pair
            r.ops.insert(at, Op('tol', '', repr(rnd.choice((0.0, 5e-4, 5e-3, 5e-2, .5, 1.)))))
    for _ in range(40):       # random pairs of a few values with random tolerances
        for _ in range(40):
            k = rnd.choice('IFD')
            u = rnd.choice((rnd.randrange(-50, 50), rnd.randrange(-10 ** 6, 10 ** 6)))
            P.add(k, u, u + rnd.choice((0, 1, -1, 2, -5, 10, -100)), rnd.random() < .9)
        P.flush(rnd.choice([10 ** rnd.uniform(-8, .5) * rnd.choice((1, -1)) for _ in range(2)]), rnd.randrange(2))
    conform(c, exe, P.runs, 'VerdictRight SymmetricRight', 'runs of many comparisons')
    c.assumptions.append('numbers nearer to the border than the precision of the machine may match or not, if they are not exact')


def varied(rnd, t):
    """a different text"""
    while True:
        w = rnd.randrange(10)
        k = rnd.randrange(len(t) + 1)
        if w == 0: u = t + rnd.choice(' \n\tx0')
        elif w == 1: u = rnd.choice(' \n\tx0') + t
        elif w == 2: u = t[:-1]
        elif w == 3: u = t[1:]
        elif w == 4: u = t.swapcase()
        elif w == 5: u = t.strip()
        elif w == 6: u = t[:k] + rnd.choice('ab <&\n') + t[k:]
        elif w == 7: u = t[:k] + t[k + 1:]
        elif w == 8: u = t[:k] + rnd.choice('abc <&\n') + t[k + 1:]
        else: u = t.replace('\n', ' ').replace('  ', ' ')
        if u != t:
            return u


@prop('P12')
def p12(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.models_parallel([('RegressionMC', 'RegressionMCRun.cfg'), ('MeasurementDataMC', None)])
    runs = []

    def add(pairs):
        """[(kind, base text, test value, tolerant)] under names of their own"""
        p = Place(c)
        p.file('b.xml', '<output>' + ''.join(element(Op(x[0], 'n%d' % i, x[1]), x[1]) for i, x in enumerate(pairs)) + '</output>')
        runs.append(Run(p, ['-I', 'b.xml'], [Op(x[0], 'n%d' % i, x[2], 0 if x[0] in 'IFDB' else None) for i, x in enumerate(pairs)]))
    texts = WORDS + NASTY
    for k in 'PS':
        for t in texts:
            add([(k, t, u) for u in texts])
        for ch in map(chr, list(range(32, 127)) + [9, 10]):
            add([(k, 'a' + ch + 'b', 'a' + x + 'b') for x in ch + 'a \n<' + ch.swapcase()] + [(k, ch, ch + ' '), (k, ch, ' ' + ch), (k, ch, ''), (k, '', ch), (k, ch + ch, ch)])
        for n in LENGTHS + ((20000, 65536) if c.thorough else ()):
            t = text(rnd, n)
            ps = [(k, t, t), (k, t, t[:-1]), (k, t, t + 'x'), (k, t[:-1], t), (k, t + '\n', t)]
            for at in {0, n - 1, n // 2, rnd.randrange(n), rnd.randrange(n), max(0, n - 2)}:
                ps.append((k, t, t[:at] + chr((ord(t[at]) - 32 + 1) % 95 + 32) + t[at + 1:]))
            add(ps)
        for n in range(1, 40 if c.thorough else 20):       # each position of short ones
            t = text(rnd, n, 'abcXYZ 01\n')
            add([(k, t, t[:i] + ('q' if t[i] != 'q' else 'r') + t[i + 1:]) for i in range(n)] + [(k, t, t)])
    for _ in range(600 if c.thorough else 150):
        ps = []
        for _ in range(20):
            t = text(rnd, rnd.randrange(30), rnd.choice(('ab \n', MARKUP, 'aA')))
            ps.append((rnd.choice('PS'), t, t if rnd.random() < .3 else varied(rnd, t)))
        add(ps)
    # numbers without tolerance, and booleans
    for k, vals in (('I', [0, 1, -1, 10, 2 ** 31, 2 ** 63 - 1, -2 ** 63, 100, 99]), ('F', [0.0, 1.0, -1.0, 0.5, 1e10, 1.000001, 3e38]), ('D', [0.0, 1.0, -1.0, 0.5, 1e100, 1.0000000000001]), ('B', [0, 1])):
        for v in vals:
            n = number(k, v)
            add([(k, number(k, u), v) for u in vals] + [(k, t, v) for t in (n + ' ', ' ' + n, n + '.0', '+' + n, '0' + n, n + 'x', '', n + '0', n + '\n', n.upper(), '-' + n)])
            add([(k, n, u) for u in vals])
    # names and types, as they are
    allnames = NAMES + NASTY + ['a', 'A', 'a ', ' a', 'aa']
    for n in allnames:
        for m in rnd.sample(allnames, len(allnames) if c.thorough else 12) + [n]:
            p = Place(c)
            k, j = rnd.choice('PS'), rnd.choice('PPSS')
            p.file('b.xml', document([(k, n, 'x')]))
            runs.append(Run(p, ['-I', 'b.xml'], [(j, m, 'x')]))
    for k in 'PSIFDB':
        for j in 'PSIFDB':
            p = Place(c)
            p.file('b.xml', document([(k, 'n', 1)] if k in 'IFDB' else [(k, 'n', '1')]))
            runs.append(Run(p, ['-I', 'b.xml'], [(j, 'n', 1 if j in 'IFDB' else '1')]))
    # encoded baselines
    for i in range(90):
        t = text(rnd, rnd.randrange(1, 90)) if i < 60 else text(rnd, rnd.choice((2, 3, 4, 9)), 'ab\0\0')
        e = rnd.choice((base64.b64encode, base64.encodebytes))(t.encode()).decode()
        u = rnd.choice((t, t, varied(rnd, t), e))
        p = Place(c)
        p.file('b.xml', '<output><DartMeasurement name="%s" type="text/string" encoding="base64">%s</DartMeasurement></output>' % ('n0' if i < 60 else 'n', e))
        runs.append(Run(p, ['-I', 'b.xml'], [('S', 'n0' if i < 60 else 'n', u)]))
    names = [r for r in runs if all(o.name.startswith('n') and o.name[1:].isdigit() for o in r.ops)]
    rest = [r for r in runs if r not in names] if len(names) < len(runs) else []
    conform(c, exe, names, 'VerdictRight', 'runs of many comparisons')
    conform(c, exe, rest, 'CountRight', 'names and types')
    # objects: all relations between a few
    hs = []
    vals = ['', 'x', 'X', 'x ', ' x', 'y', '1', '1.0', '01', 'QUJD', 'ABC', 'x\n', 'xx', 'QUJD\n', 'QQ==', 'A', 'YQBi', 'YQBj', 'AAAA', 'AAA=', 'YQA=', 'AGE=']
    coded = ['QUJD', 'QUJD\n', 'QQ==', 'YQBi', 'YQBj', 'AAAA', 'AAAB', 'AAA=', 'YQA=', 'AGE=', 'AGI=']
    for i in range(1500 if c.thorough else 350):
        h = History()
        for l in 'abc':
            h.new(l, rnd.choice(KINDS) if i % 3 else KINDS[i % 7], rnd.random() < .3)
            h.val('name', l, rnd.choice((b'', b'n', b'n', b'n', b'N', b'n ')))
            if h.kind[l] != 'file' and rnd.random() < .3:
                h.val('enc', l, rnd.choice((b'none', b'base64', b'base64')))
            h.val('text', l, (rnd.choice(vals) if i % 4 else text(rnd, rnd.choice((5, 300)), 'ab')).encode())
        if i % 5 == 2:
            # what is compared is the data: zero bytes in it
            for l in 'abc':
                if h.kind[l] != 'file':
                    h.val('name', l, b'n')
                    h.val('enc', l, b'base64')
                    h.val('text', l, rnd.choice(coded).encode())
        if rnd.random() < .4:
            x, y = rnd.sample('abc', 2)
            h.add('asg', x, y, **{'from': y})
            if rnd.random() < .5:
                h.val('text', x, rnd.choice(vals).encode())
        for x in 'abc':
            for y in 'abc':
                if h.kind[x] != 'file' and h.kind[y] != 'file':
                    h.add('eq', x, y, **{'from': y})
        hs.append(h)

    def observe(ks):
        a = drive(exe, [(k, hs[k].block(k)) for k in ks])
        return [dict(a[k], steps=hs[k].steps) for k in ks]
    c.conform('MeasurementDataTrace', observe(range(len(hs))), lambda k: observe([k]), label='relations of objects')


@prop('P13')
def p13(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.models_parallel([('RegressionMC', 'RegressionMCRun.cfg'), ('FileSystemMC', None)])
    m = Maker(c)

    def place(p, files, dirs=('d', 'e', 'x')):
        for d in dirs:
            p.dir(d)
        for f, t in files:
            p.file(f, t)
    el = lambda name, t, ty='text/plain': '<DartMeasurementFile name="%s" type="%s">%s</DartMeasurementFile>' % (esc(name, True), ty, esc(t))
    doc = lambda *l: '<output>' + ''.join(l) + '</output>'
    # contents: all sizes, one byte changed
    allbytes = bytes(range(256))
    conts = [b'', b'\n', b'x', b'x\n', b'x\r\n', b'\r', b'\n\n', b'\0', b'a\0b', b'a\0c', b'a\n\n', allbytes, allbytes[::-1], b'\xff', b'\x1a', b'x\x1ay', b' x', b'x ', b'l1\nl2\n', b'l1\nl2', b'l1\nl3\n', b'\x80', b'\xef\xbb\xbfx']
    for a in conts:
        p = Place(c)
        place(p, [('t', a)] + [('b%d' % i, x) for i, x in enumerate(conts)])
        p.file('b.xml', doc(*[el('n%d' % i, 'b%d' % i) for i in range(len(conts))]))
        m.runs.append(Run(p, ['-I', 'b.xml'], [('FT', 'n%d' % i, 't') for i in range(len(conts))]))
    for n in LENGTHS + (3000, 5000) + ((65535, 65536, 65537, 100000) if c.thorough else (20000,)):
        t = bytes(rnd.choice(b'abc\n \x00\xff') for _ in range(n))
        flips = sorted({0, n - 1, n // 2, rnd.randrange(n), max(0, n - 2), min(n - 1, 1023), min(n - 1, 1024)})[:4 if n > 3000 else 9]
        alts = [t, t[:-1], t + b'\n', t + b'\0'] + [t[:k] + bytes([t[k] ^ 1]) + t[k + 1:] for k in flips]
        p = Place(c)
        place(p, [('t', t)] + [('b%d' % i, x) for i, x in enumerate(alts)])
        p.file('b.xml', doc(*[el('n%d' % i, 'b%d' % i) for i in range(len(alts))]))
        m.runs.append(Run(p, ['-I', 'b.xml'], [('FT', 'n%d' % i, 't') for i in range(len(alts))]))
    # a file and a text, both ways
    texts = [x for x in WORDS + NASTY]
    for _ in range(60 if c.thorough else 25):
        ts = rnd.sample(texts, 10)
        us = [t if rnd.random() < .4 else rnd.choice((varied(rnd, t), rnd.choice(texts))) for t in ts]
        for base, test in (('f', [('P', 'n%d' % i, t) for i, t in enumerate(us)]), ('t', [('FT', 'n%d' % i, 't%d' % i) for i in range(10)]),
                           ('t', [('FT', 'n%d' % i, 'none%d' % i) for i in range(10)]), ('t', [('S', 'n%d' % i, t) for i, t in enumerate(ts)])):
            p = Place(c)
            place(p, [('b%d' % i, t) for i, t in enumerate(ts)] + [('t%d' % i, t) for i, t in enumerate(us)])
            p.file('b.xml', doc(*[el('n%d' % i, 'b%d' % i) if base == 'f' else element(('P', 'n%d' % i, t)) for i, t in enumerate(ts)]))
            m.runs.append(Run(p, ['-I', 'b.xml'], test))
    # in which directory the baseline file is
    recorded = ['f', 'x/f', './f', 'd/f', 'none/f', 'g', 'd/../f', 'x/']
    for i in range(900 if c.thorough else 260):
        files = [(d + f, rnd.choice(('one', 'two'))) for d in ('', 'd/', 'e/', 'x/') for f in 'fg' if rnd.random() < .6]
        files.append(('t', 'one'))
        names = [rnd.choice(recorded) for _ in range(4)]
        p = Place(c)
        place(p, files)
        where = [rnd.choice(('d', 'e', 'x', '.', 'd/', './e')) for _ in range(rnd.randrange(4))]
        p.file('b.xml', doc(*[el('n%d' % j, n) for j, n in enumerate(names)]))
        if rnd.random() < .2 and not any(f == 'd/f' for f, _ in files):
            rnd.choice((lambda: p.dir('d/f'), lambda: p.link('d/f', '../g'), lambda: p.link('d/f', 'nothing'), lambda: p.fifo('d/f')))()
        args, sets = [], {}
        if i % 4 == 0:
            sets['paths'] = where
        elif i % 4 == 1 and where:
            sets['pre'] = where[0]
            args = [y for x in where[1:] for y in ('-P', x)]
        else:
            args = [y for x in where for y in ('-P', x)]
        t = [rnd.choice((('FT', 'n%d' % j, rnd.choice(('t', 't', 't', 'none', 'd', 'f', 'x/f'))),)) for j in range(4)]
        if (any(o[2] == 'f' for o in t) or 'd/f' in names) and any(x['k'] == 'fifo' for x in p.tree):
            continue
        if rnd.random() < .25:
            t.insert(rnd.randrange(5), rnd.choice((('cd', 'd'), ('cd', 'x'), ('rm', 'f'), ('rm', 't'), ('put', 't', 'two'), ('put', 'd/f', 'one'), ('put', 'f', 'one'))))
        if any(x['k'] == 'fifo' for x in p.tree) and any(o[0] in ('cd', 'put') for o in t):
            continue
        m.runs.append(Run(p, args + ['-I', 'b.xml'], t, sets=sets))
    # missing, unreadable
    import os
    for who in (False, True):
        for x in ('t', 'none', 'd', 'locked', 'l', 'dead', '', 'd/t', 'none/t', 't/t'):
            p = Place(c)
            place(p, [('t', 'one'), ('u', 'one'), ('d/t', 'one')])
            p.file('locked', 'one', 0o600).link('l', 't').link('dead', 'nothing')
            p.file('b.xml', doc(*[el('n%d' % i, y) for i, y in enumerate(('u', 'none', 'locked', 'dead', 'l', 'd', 'd/t'))]))
            for s in ('.stdout', '.stderr'):
                open(p.abs(s), 'w').close(); os.chmod(p.abs(s), 0o666)
            m.runs.append(Run(p, ['-I', 'b.xml'], [('FT', 'n%d' % i, x) for i in range(7)], nobody=who))
    # names and types of files
    for n in NAMES:
        for q in (n, n + ' ', 'other'):
            p = Place(c)
            place(p, [('t', 'x')])
            p.file('b.xml', doc(el(n, 't')))
            m.runs.append(Run(p, ['-I', 'b.xml'], [('FT', q, 't')]))
            p = Place(c)
            place(p, [('t', 'x')])
            p.file('b.xml', doc(el(n, 't', rnd.choice(('text/other', 'image/png', 'text/string')))))
            m.runs.append(Run(p, ['-I', 'b.xml'], [('FT', n, 't')]))
    own = [r for r in m.runs if all(o.kind in ('cd', 'rm', 'put') or o.name[:1] == 'n' and o.name[1:].isdigit() for o in r.ops)]
    rest = [r for r in m.runs if r not in own]
    conform(c, exe, own, 'VerdictRight', 'runs with files')
    conform(c, exe, rest, 'CountRight', 'names and types of files')
    # what is recorded
    m = Maker(c)
    for _ in range(150 if c.thorough else 50):
        fs = [rnd.choice(('f', 'd/f', '/tmp/none/f', './f', '../x/f', 'a b', 'x/y/z/' + 'n' * 50, 'd/f.txt', '<f>&', 'none', 'd//f', 'f' * 300)) for _ in range(5)]
        p = Place(c)
        place(p, [('f', 'x'), ('d/f', 'y')])
        m.runs.append(Run(p, rnd.choice(([], ['-O', 'o'], ['-P', 'd'])), [(rnd.choice(('FT', 'FT', 'FG', 'FJ')), 'n%d' % i, f) for i, f in enumerate(fs)]))
    conform(c, exe, m.runs, 'RecordRight', 'recordings of files')
