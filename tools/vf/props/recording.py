"""P06 to P09: recorded documents and baselines."""
import base64, decimal, os, random, re, struct
from . import prop
from .. import build
from ..engine import drive, hexs, ints
from ..runs import Place, Run, Op, ops, conform, document, element, esc, b, TYPES, number as number_text
from .lifecycle import Maker, WORDS, NAMES, NUMS, LETTERS, pairs, some, other, edited

CHARS = ''.join(map(chr, range(32, 127))) + '\n\t\r'
MARKUP = '<>&"\'/!-[]?;#= \n\r\tax1CDATA'


def text(rnd, n, chars=CHARS):
    return ''.join(rnd.choice(chars) for _ in range(n))


NASTY = ['<DartMeasurement name="x" type="text/plain">y</DartMeasurement>', '</DartMeasurement>', '</output>', '<output>', '<!--', '-->', '<![CDATA[', ']]>', '<?xml version="1.0"?>', '&amp;', '&lt;',
         '&#60;', '&#x3c;', '&', '&;', '&&', '<<', '>>', '"', "'", '\\', '\\n', '%s%n', '\n\n', '\t\t', ' ', '  ', ' a ', '\na', 'a\n', '\n a \n', 'Test ', 'Unmatched ', 'Difference ', 'Baseline ',
         '<!DOCTYPE x [<!ENTITY y "z">]>', 'name="x"', "type='y'", '" type="text/string', '/>', 'encoding="base64"', '\r', '\r\n', 'one\r\ntwo\r\n', '\n\r', '&#13;']
LENGTHS = (1, 2, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193)


def number(rnd, k):
    if k == 'B':
        return rnd.choice((0, 1))
    if k == 'I':
        return rnd.choice((0, -1, 1, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 63 - 1, -2 ** 63, 2 ** 53 + 1, 10 ** 18, 999999, 1000000, 16777217, rnd.randrange(-2 ** 63, 2 ** 63),
                           rnd.randrange(-1000, 1000), rnd.choice((1, -1)) * 10 ** rnd.randrange(19)))
    if k == 'F':
        return rnd.choice((0.0, 1.0, -1.0, 0.5, 1e10, 1e-10, 3.4028235e38, -3.4028235e38, 1.1754944e-38, 16777216.0, 123456.7, 0.1, 1 / 3., 100000.0, 1e6, 1e7, 999999.0, rnd.uniform(-1e6, 1e6),
                           rnd.uniform(-1, 1) * 10 ** rnd.randrange(-30, 30)))
    return rnd.choice((0.0, 1.0, -1.0, 0.5, 1e100, 1e-100, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 9007199254740993.0, 123456.789, 0.1, 1 / 3., 1e15, 1e16, 1e17,
                       999999.0, 1234567.0, rnd.uniform(-1e6, 1e6), rnd.uniform(-1, 1) * 10.0 ** rnd.randrange(-290, 290), 1.0000000000000002))


def nudge(rnd, k, v):
    """another number, which is different in the last digits"""
    if k == 'F':
        bits = struct.unpack('I', struct.pack('f', v))[0] + rnd.choice((1, 2, 3, 8, 30)) * rnd.choice((1, -1))
        w = struct.unpack('f', struct.pack('I', bits & 0xffffffff))[0]
    else:
        bits = struct.unpack('Q', struct.pack('d', v))[0] + rnd.choice((1, 2, 3, 4, 8, 30)) * rnd.choice((1, -1))
        w = struct.unpack('d', struct.pack('Q', bits & (2 ** 64 - 1)))[0]
    return w if w == w and abs(w) < float('inf') and (w == 0 or abs(w) > 1e-37) else v + 1 if abs(v) < 1e6 else v / 2


def anything(rnd, files=True):
    """a measurement of any type with any name and content"""
    n = rnd.choice((rnd.choice(NAMES), rnd.choice(NASTY), text(rnd, rnd.randrange(12), MARKUP), text(rnd, rnd.randrange(30))))
    k = rnd.choice(['P', 'S', 'P', 'S', 'I', 'D', 'F', 'B'] + (['FT', 'FG', 'FJ'] if files else []))
    if k in 'IDFB':
        return Op(k, n, number(rnd, k), rnd.choice((None, 0, 1)))
    if len(k) == 2:
        return Op(k, n, rnd.choice(('f', 'd/f', '/abs/olute', 'a b', '<f>', 'x.y.z', './f', '../f', 'd//f', 'd/&', text(rnd, rnd.randrange(1, 12), MARKUP.replace('\n', '').replace('\r', '') + '/'))))
    w = rnd.randrange(6)
    t = (rnd.choice(WORDS), rnd.choice(NASTY), text(rnd, rnd.randrange(20), MARKUP), text(rnd, rnd.randrange(100)), text(rnd, rnd.randrange(40), '<&>') + rnd.choice(NASTY),
         rnd.choice(NASTY) + rnd.choice(NASTY))[w]
    return Op(k, n, t)


@prop('P06')
def p06(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.models_parallel([('RecordMC', 'RecordMC3.cfg' if c.thorough else 'RecordMC.cfg'), ('XmlMC', 'XmlMC.cfg')])
    m = Maker(c)
    # every character alone, first, last, and every pair of the ones of the markup
    m.add(None, [('P', ch, ch) for ch in CHARS])
    m.add(None, [('S', 'a' + ch, ch + 'a') for ch in CHARS] + [('P', ch + 'b', 'b' + ch) for ch in CHARS])
    for x in MARKUP:
        m.add(None, [('S', x + y, y + x) for y in MARKUP] + [('P', 'n', x + y + 'z') for y in MARKUP])
    for n in NAMES + NASTY:
        m.add(None, [(k, n, t) for t in NASTY + WORDS for k in 'PS'][rnd.randrange(2)::1 if c.thorough else 5])
    # all numbers of measurements, all small sequences
    for n in list(range(0, 12)) + [50, 200, 500] + ([2000] if c.thorough else []):
        m.add(None, [anything(rnd) for _ in range(n)])
    for x in pairs(c, 0, 3, 4):
        m.add(None, [LETTERS[k - 1] for k in x['t']])
    # lengths
    for n in LENGTHS + ((20000, 65536, 100000) if c.thorough else (20000,)):
        for ch in 'x&<\n':
            m.add(None, [('P', 'n', ch * n), ('S', 'after', 'x')])
        m.add(None, [('S', 'n' * n if n < 5000 else 'n', text(rnd, n)), ('P', '&' * min(n, 3000), '>' * (n - 1) + 'x')])
    # all types
    for _ in range(1500 if c.thorough else 350):
        m.add(None, [anything(rnd) for _ in range(rnd.choice((1, 2, 3, 5, 9)))] + [('ret', '', rnd.choice((0, 0, 0, 3)))], rnd.choice(([], [], ['-O', 'o'], ['-O', 'd/o'], ['x', 'y'])))
        m.runs[-1].place.dir('d')
    for k in 'IFDB':
        for _ in range(12 if c.thorough else 5):
            m.add(None, [Op(k, 'n', number(rnd, k), rnd.choice((0, 1, None))) for _ in range(40)])
    for n in ('f', 'd/f', '/a/b/c.txt', 'a/', 'a//b', '', '.', '..', './x', 'a b/c d', 'x' * 300 + '/' + 'y' * 300, '/', 'd/<f>', "d/it's", '&'):
        m.add(None, [(k, 'n', n) for k in ('FT', 'FG', 'FJ')])
    # over what was there, to different places
    old = document([('P', 'old', 'x' * 3000)])
    for i in range(12):
        p = m.add(None, [anything(rnd) for _ in range(i % 4)], ['-O', ('o', 'd/o', 'l', './o')[i % 4]])
        p.dir('d').file('o', old).file('d/o', old).link('l', 'd/o')
        p = m.add(None, [anything(rnd) for _ in range(i % 4)], [] if i % 3 else ['-O', 'o'], sets={'out': 'e'})
        p.file('e', old)
    # hosts
    for h in ['', '-', '--', '---', 'a--b', 'a-->b', '-->', '--!>', '<&>', 'a-', '-a', 'h' * 63, '-' * 64, '-' * 63, ']]>', '?>', 'a b', '&amp;', '</output>', '->', 'x--', 'a-b-c', '--a--b--c---d', 'host.example.org'] + \
            [text(rnd, rnd.randrange(1, 30), '--->-<a.!') for _ in range(60 if c.thorough else 25)]:
        m.add(None, [('P', 'a', 'x')], host=h)
    conform(c, exe, m.runs, 'RecordRight Ended StartedOnce ModeSteady', 'recordings')


class Replay:
    """recordings, and the runs which are compared with them"""
    def __init__(self, c, exe):
        self.c, self.exe, self.made = c, exe, []

    def add(self, script, second, files=(), args=()):
        self.made.append((ops(script), [ops(x) for x in second], files, list(args)))

    def record(self):
        first = []
        for script, second, files, args in self.made:
            p = Place(self.c)
            for d in sorted({os.path.dirname(f) for f, _ in files if '/' in f}):
                p.dir(d)
            for f, t in files:
                p.file(f, t)
            first.append(Run(p, ['-O', 'o'], script))
        self.rec = first
        a = drive(self.exe, [(k, r.block(k)) for k, r in enumerate(first)])
        out = []
        for k, (script, second, files, args) in enumerate(self.made):
            f = first[k].path('o')
            d = open(f, 'rb').read() if os.path.isfile(f) else b''
            for x in second:
                p = Place(self.c)
                for dd in sorted({os.path.dirname(g) for g, _ in files if '/' in g}):
                    p.dir(dd)
                for g, t in files:
                    p.file(g, t)
                p.file('o', d)
                r = Run(p, args + ['-I', 'o'], x)
                r.orig = [y for y in script if y.kind in TYPES]
                out.append(r)
        return out


def doubles(rnd, n):
    """machine numbers of all magnitudes, and those for which the rounding to 16 digits is decided late"""
    out = [0.0, -0.0, 5e-324, 2.0 ** -1022, 2.0 ** 1023, 1.7976931348623157e308, float('inf'), -float('inf')]
    for _ in range(n):
        k = rnd.randrange(6)
        if k == 0: v = struct.unpack('d', struct.pack('Q', rnd.randrange(2 ** 64)))[0]
        elif k == 1: v = rnd.choice((1, -1)) * 2.0 ** rnd.randrange(-80, 80) * rnd.choice((1, 3, 5, 2 ** 53 - 1, 2 ** 52 + 1))
        elif k == 2: v = rnd.choice((9, 99999, 9999999999999999, 99999999999999984, 1, 5)) * 10.0 ** rnd.randrange(-22, 22)
        elif k == 3: v = (rnd.randrange(10 ** 16, 9 * 10 ** 16) // 10 * 10 + 5) / rnd.choice((1., 2., 16., 1024.))        # half way between two
        elif k == 4: v = nudge(rnd, 'D', 10.0 ** rnd.randrange(-10, 20))
        else: v = rnd.uniform(-1, 1) * 10.0 ** rnd.randrange(-12, 20)
        out.append(v if v == v else 1.5)
    return out


def floats(rnd, n):
    out = [0.0, -0.0, 2.0 ** -149, 2.0 ** -126, 3.4028234663852886e38, float('inf'), -float('inf')]
    for _ in range(n):
        k = rnd.randrange(5)
        if k == 0: v = struct.unpack('f', struct.pack('I', rnd.randrange(2 ** 32)))[0]
        elif k == 1: v = rnd.choice((1, -1)) * 2.0 ** rnd.randrange(-40, 40) * rnd.choice((1, 3, 5, 2 ** 24 - 1, 2 ** 23 + 1))
        elif k == 2: v = rnd.choice((9, 99999, 9999999, 99999984, 1, 5)) * 10.0 ** rnd.randrange(-12, 12)
        elif k == 3: v = (rnd.randrange(10 ** 7, 16777216) // 10 * 10 + 5) / rnd.choice((1., 2., 16., 1024.))
        else: v = rnd.uniform(-1, 1) * 10.0 ** rnd.randrange(-12, 12)
        v = struct.unpack('f', struct.pack('f', v))[0]
        out.append(v if v == v else 1.5)
    return out


def integers(rnd, n):
    return [0, -1, 2 ** 63 - 1, -2 ** 63] + [rnd.choice((rnd.randrange(-2 ** 63, 2 ** 63), rnd.choice((1, -1)) * rnd.randrange(10 ** rnd.randrange(1, 18)),
                                                         rnd.choice((1, -1)) * 10 ** rnd.randrange(19), rnd.choice((1, -1)) * 2 ** rnd.randrange(63))) for _ in range(n)]


def numbers(c, exe, rnd):
    """the texts of recorded numbers, which are those of the specification"""
    cases = []
    for k, make in (('I', integers), ('F', floats), ('D', doubles)):
        l = make(rnd, 4000 if c.thorough else 700)
        cases += [(k, l[i:i + 16]) for i in range(0, len(l), 16)]

    def exact(k, v):
        if k == 'I' or v != v or abs(v) == float('inf'):
            return str(v)
        return str(decimal.Decimal(v))

    def observe(ks):
        runs = [Run(Place(c), ['-O', 'o'], [Op(cases[k][0], 'n%d' % i, v) for i, v in enumerate(cases[k][1])]) for k in ks]
        a = drive(exe, [(i, r.block(i)) for i, r in enumerate(runs)])
        out = []
        for i, (k, r) in enumerate(zip(ks, runs)):
            kind, vals = cases[k]
            d = open(r.path('o'), 'rb').read().decode('latin-1') if os.path.isfile(r.path('o')) else ''
            got = dict(re.findall(r'<DartMeasurement name="(n\d+)" type="%s">([^<]*)</DartMeasurement>' % TYPES[kind], d))
            out.append({'crash': a[i].get('crash', 0), 'type': ints(TYPES[kind]),
                        'ns': [{'exact': ints(exact(kind, v)), 'text': ints(got.get('n%d' % j, '')), 'py': ints(number_text(kind, v))} for j, v in enumerate(vals)]})
        return out
    c.conform('NumberTextTrace', observe(range(len(cases))), lambda k: observe([k]), label='written numbers')


@prop('P07')
def p07(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.models_parallel([('RecordMC', 'RecordMC3.cfg' if c.thorough else 'RecordMC.cfg'), ('RegressionMC', 'RegressionMCRun.cfg'), ('ToleranceMC', None), ('NumberTextMC', None)])
    R = Replay(c, exe)

    def value(x):
        """another value, beyond the tolerance"""
        k, v = x.kind, x.value
        if k == 'B': return Op(k, x.name, 1 - int(v), x.tol)
        if k == 'I':
            if x.tol:
                w = -v if abs(v) > 5 else v + 7
                return Op(k, x.name, min(max(w, -2 ** 63), 2 ** 63 - 1), x.tol)
            return Op(k, x.name, v - 1 if v > 0 else v + 1, x.tol)
        if k in 'FD': return Op(k, x.name, -v if abs(v) > 1e-3 else v + 1, x.tol)
        return Op(k, x.name, rnd.choice((x.value + rnd.choice(' \nax<&'), rnd.choice(' \nax<&') + x.value, 'z' if x.value != 'z' else 'y', x.value[:-1] if x.value else 'x')))

    def change(l):
        l = list(l)
        w = rnd.randrange(6)
        at = rnd.randrange(len(l) + 1)
        if w == 0 or not l:
            l.insert(at, anything(rnd, False))
        else:
            at %= len(l)
            x = l[at]
            if w in (1, 2): l[at] = value(x)
            elif w == 3: l[at] = Op(x.kind, rnd.choice((x.name + ' ', x.name + 'x', 'z' + x.name, x.name[:-1] if x.name else 'q')), x.value, x.tol)
            elif w == 4:
                k = rnd.choice([y for y in 'PSI' if y != x.kind])
                l[at] = Op(k, x.name, 5 if k == 'I' else x.text())
            else:
                j = (at + 1) % len(l)
                l[at], l[j] = l[j], l[at]
        return l
    for i in range(1200 if c.thorough else 260):
        n = (1, 1, 2, 3, 5, 8, 20)[i % 7]
        s = [anything(rnd, False) for _ in range(n)]
        R.add(s, [s] + [change(s) for _ in range(4 if c.thorough else 2)])
    # every type over its range: the same, and one changed at a time
    for k in 'IFDB':
        for tol in (None, 0, 1):
            s = [Op(k, 'n%d' % i, number(rnd, k), tol) for i in range(30)]
            R.add(s, [s] + [s[:i] + [value(s[i])] + s[i + 1:] for i in rnd.sample(range(30), 30 if c.thorough else 5)])
    # changes which are just not lost when the number is written, and those which are
    for k in 'FD':
        for _ in range(30 if c.thorough else 8):
            s = [Op(k, 'n%d' % i, number(rnd, k), 0) for i in range(20)]
            R.add(s, [[Op(k, x.name, nudge(rnd, k, x.value), 0) for x in s] for _ in range(2)])
    for _ in range(20 if c.thorough else 4):
        s = [Op('I', 'n%d' % i, number(rnd, 'I'), 0) for i in range(20)]
        R.add(s, [[Op('I', x.name, x.value + (1 if x.value < 0 else -1), 0) for x in s]])
    for k in 'PS':
        s = [Op(k, 'n%d' % i, t) for i, t in enumerate(NASTY + WORDS)]
        R.add(s, [s] + [s[:i] + [value(s[i])] + s[i + 1:] for i in range(0, len(s), 1 if c.thorough else 6)])
        s = [Op(k, t, 'x') for t in NASTY + NAMES]
        R.add(s, [s])
    for n in LENGTHS:
        t, u = text(rnd, n), text(rnd, n, MARKUP)
        s = [Op('S', 'a', t), Op('P', 'b', u), Op('S', 'c', 'x')]
        at = rnd.randrange(n)
        ch = 'y' if t[at] != 'y' else 'z'
        R.add(s, [s, [Op('S', 'a', t[:at] + ch + t[at + 1:])] + s[1:], [s[0], Op('P', 'b', u + ' ')] + s[2:], [s[0], Op('P', 'b', u[:-1]), s[2]]])
    # so many that the document has many blocks
    for n in (100, 400) + ((1500,) if c.thorough else ()):
        s = [anything(rnd, False) for _ in range(n)]
        R.add(s, [s, change(s), s[:n // 2] + [value(s[n // 2])] + s[n // 2 + 1:], s + s[:1]])
    # files
    for i in range(12):
        files = [('f', 'one\n'), ('g', 'two' * 500), ('d/f', 'three\n'), ('e', '')]
        s = [Op('FT', 'a', ('f', 'g', './f')[i % 3]), Op('P', 'b', 'x'), Op('FT', 'c', 'g')]
        R.add(s, [s, [Op('FT', 'a', 'd/f')] + s[1:], [s[0], s[1], Op('FT', 'c', 'e')], [Op('FT', 'z', s[0].value)] + s[1:]], files)
        s = [Op('FT', 'a', 'd/f'), Op('FT', 'b', 'd/f')]
        R.add(s, [s, s[:1] + [Op('FT', 'b', 'f')]], files, ['-P', 'd'])
    runs = R.record()
    conform(c, exe, runs, 'CountRight PairRight Ended', 'replays')
    numbers(c, exe, rnd)


def interrupted(c, exe, script, where, step=1, sets=()):
    """recordings with room for n bytes, for all n"""
    script = ops(script)

    def one(limit):
        p = Place(c)
        p.file('old', document([('P', 'old', 'x' * 400)]), disk=False)
        with open(p.abs('o'), 'w') as f:
            f.write(document([('P', 'old', 'x' * 2000)]))
        return Run(p, (['-O', 'o'] if where == 'o' else []) + [x for s in sets for x in s], script, limit=limit)
    name = 'o' if where == 'o' else '.stdout'
    full = one(None)
    drive(exe, [(0, full.block(0))])
    size = os.path.getsize(full.place.abs(name))
    limits = sorted(set(range(0, size + 3, step)) | set(range(max(0, size - 30), size + 3)) | {0, 1})

    ms = [o.spec() for o in script if o.kind in TYPES]
    exp = dict(sets).get('-R', '0')
    ret = str(next((o.value for o in script if o.kind == 'ret'), 0))

    def observe(ks):
        runs = {k: one(limits[k]) for k in ks}
        a = drive(exe, [(k, runs[k].block(k)) for k in ks])
        out = []
        for k in ks:
            f = runs[k].place.abs(name)
            out.append({'crash': a[k].get('crash', 0), 'ok': int(a[k].get('code') == 200), 'limit': limits[k], 'room': int(limits[k] >= size and exp == ret),
                        'ms': ms, 'out': list(open(f, 'rb').read()) if os.path.isfile(f) else [], 'sig': a[k].get('sig', 0), 'code': a[k].get('code', -1)})
        return out
    return observe, range(len(limits))


@prop('P08')
def p08(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.models_parallel([('RecordMC', 'RecordMC3.cfg' if c.thorough else 'RecordMC.cfg'), ('XmlMC', 'XmlMC.cfg')])
    full = [('P', 'a', 'x&<'), ('S', 'b', '</output>'), ('I', 'c', 5), ('D', 'd', 0.5)]
    scripts = [([], ()), (full, ()), (full[:1] + [('ret', '', 5)], (('-R', '5'),)), (full[:2], (('-R', '5'),)), (full[:1] + [('ret', '', 7)], (('-R', '5'),)),
               ([('FT', 'f', 'f'), ('P', 'p', '\n\n')], ())]
    if c.thorough:
        scripts += [([anything(rnd) for _ in range(6)], ()) for _ in range(4)] + [([('P', 'long', 'x' * 9000)] + full, ())]
    obs, again, left = [], [], {}
    for n, (script, sets) in enumerate(scripts):
        for where in ('o', 'stdout'):
            observe, ks = interrupted(c, exe, script, where, 1 if c.thorough and n < 6 or n < 2 else 7, sets)
            o = observe(ks)
            obs += o
            again += [(observe, k) for k in ks]
            if where == 'o':
                for x in o:
                    left[bytes(x['out'])] = [y for y in ops(script) if y.kind in TYPES]
    # a device which is always full
    def device(k):
        t, e = [(full, 0), ([], 0), (full + [('ret', '', 3)], 3), (full, 3), ([('ret', '', -1)], -1)][k]
        p = Place(c)
        p.link('l', '/dev/full')
        r = Run(p, ['-O', 'l', '-R', str(e)], t)
        a = drive(exe, [(k, r.block(k))])[k]
        res = a.get('res')
        return [{'crash': a.get('crash', 0), 'ok': int(bool(res) and res['v'] == 0), 'limit': 0, 'room': 0, 'ms': [o.spec() for o in r.ops if o.kind in TYPES], 'out': []}]
    for k in range(5):
        obs += device(k)
        again.append((lambda ks: device(ks[0]), k))
    c.conform('InterruptedTrace', obs, lambda k: again[k][0]([again[k][1]]), label='recordings without room')
    # recordings which are ended by the test
    m = Maker(c)
    ends = [('throw', '', k) for k in ('runtime_error', 'bad_alloc', 'int', 'exception', 'foreign')] + [('exit', '', 3), ('kill', '', 9), ('kill', '', 15), ('kill', '', 6)]
    old = document([('P', 'old', 'x' * 2000)])
    for e in ends:
        for at in range(len(full) + 1):
            for kind in range(4):
                t = full[:at] + [e] + full[at:]
                if kind == 0: m.add(None, t, ['-O', 'o'])
                elif kind == 1: m.add(None, t, ['-O', 'o', '-R', '-1']).file('o', old)
                elif kind == 2: m.add(None, t, [])
                else: m.add(None, t, ['-O', 'o', '-R', '3']).file('o', document([]))
    big = [('P', 'b%d' % i, 'y' * 700) for i in range(8)]
    for e in ends:
        for at in (1, 5, 8):
            m.add(None, big[:at] + [e], ['-O', 'o'])
    conform(c, exe, m.runs, 'FailRight LeftoverRight Ended', 'ended recordings')
    # what they left, as the baseline of tests which make as many measurements as were written, none, or all
    for r in m.runs:
        n = '.stdout' if '-O' not in r.args else 'o'
        left.setdefault(open(r.path(n), 'rb').read(), [o for o in r.ops if o.kind in TYPES])
    m = Maker(c)
    cut = []
    for d, script in left.items():
        cut.append((d, script))
    for script in [full, full[:1], [], [('P', 'a', 'x' * 1200)], [('S', 's%d' % i, 'v' * 90) for i in range(14)]]:
        d = document(script)
        cut += [(d[:k].encode(), ops(script)) for k in range(0, len(d), 1 if c.thorough or len(d) < 300 else 9)]
        # around the blocks in which baselines are read
        cut += [(d[:k].encode(), ops(script)) for k in list(range(1015, 1035)) + list(range(2040, 2056)) if k < len(d)]
    # cut off so that the size is a multiple of the block size, at every place of the frame
    for k in range(0, 160 if c.thorough else 40):
        d = document([('P', 'a', 'x' * (1024 - 60 - k))] + full)
        cut.append((d[:1024].encode(), ops([('P', 'a', 'x' * (1024 - 60 - k))])))
        cut.append((d[:2048 - k].encode(), ops(full)))
    for d, script in cut:
        for t in ([], script[:d.count(b'</DartMeasurement')], script):
            m.add(d, t, ['-O', 'r'] if len(d) % 2 else [])
            if not script:
                break
    conform(c, exe, m.runs, 'NotStarted FailRight CountRight Ended', 'leftovers as baselines')
    c.assumptions.append('an ended process loses what it had not flushed; the disk does not lose what was written')


# ------------------------------------------------------------------ P09

def named(rnd, script):
    """names for parts of the texts of a script, and the document type which declares them"""
    if rnd.random() < .6:
        return [], ''
    texts = [o.text() if isinstance(o, Op) else Op(*o).text() for o in script] + [str(o.name if isinstance(o, Op) else o[1]) for o in script] + ['no text']
    ents, decl = [], []
    for _ in range(rnd.randrange(5)):
        t = rnd.choice(texts)
        at = rnd.randrange(len(t) + 1)
        v = t[at:at + rnd.randrange(6)]
        if any(x in v for x in '&<]%\r') or '"' in v and "'" in v:
            continue
        n = rnd.choice(('a', 'text', '_', 'x-1', 'lines', 'Amp', 'LT', 'DartMeasurement', 'n%d' % len(ents)))
        if n not in [e[1] for e in ents]:
            ents.append((v, n))
        q = '"' if "'" in v else "'" if '"' in v else rnd.choice('"\'')
        decl.append('<!ENTITY' + ws(rnd) + n + ws(rnd) + q + v + q + ws(rnd, False) + '>' + ws(rnd, False))
    body = '' if not decl and rnd.random() < .5 else rnd.choice(('', ' ')) + '[' + ws(rnd, False) + ''.join(decl) + ']' + ws(rnd, False)
    return ents, '<!DOCTYPE' + ws(rnd) + rnd.choice(('output', 'output', 'x')) + body + '>' + ws(rnd, False)


def spell(rnd, t, ents=()):
    """some way to write a text"""
    out = []
    i = 0
    while i < len(t):
        ch = t[i]
        w = rnd.randrange(9)
        here = [e for e in ents if t.startswith(e[0], i)]
        if here and rnd.random() < .6:
            v, n = rnd.choice(here)
            out.append('&%s;' % n); i += len(v)
            if v: continue
        if w == 0: out.append('&#%d;' % ord(ch))
        elif w == 1: out.append('&#x%x;' % ord(ch))
        elif w == 2: out.append('&#%06d;' % ord(ch))
        elif w == 3:
            n = rnd.randrange(1, 6)
            s = t[i:i + n]
            if ']]>' in s or s.endswith(']') or '\r' in s:
                out.append('&#%d;' % ord(ch))
            else:
                out.append('<![CDATA[' + s + ']]>'); i += len(s); continue
        elif w == 4: out.append('<!-- %s -->' % rnd.choice(('', 'x', '<a>', '&', '>', ']]>')) + esc1(ch))
        elif w == 5: out.append('<?pi %s?>' % rnd.choice(('', 'x', '<a>', '&')) + esc1(ch))
        elif ch == '\n' and w == 6: out.append(rnd.choice(('\r\n', '\r')))
        else: out.append(esc1(ch))
        i += 1
    return ''.join(out)


def esc1(ch):
    return {'&': '&amp;', '<': '&lt;', '>': '&gt;', '\r': '&#13;'}.get(ch, ch)


def attr(rnd, t, ents=()):
    q = rnd.choice('"\'')
    o = ''
    skip = 0
    for i, ch in enumerate(t):
        if skip:
            skip -= 1
            continue
        here = [e for e in ents if e[0] and t.startswith(e[0], i) and '\n' not in e[0] and '\t' not in e[0]]
        if here and rnd.random() < .6:
            v, n = rnd.choice(here)
            o += '&%s;' % n
            skip = len(v) - 1
        elif ch in '&<' or ch == q or ch in '\n\t\r' or rnd.random() < .15:
            o += rnd.choice(('&#%d;' % ord(ch), '&#x%X;' % ord(ch), {'&': '&amp;', '<': '&lt;', '"': '&quot;', "'": '&apos;'}.get(ch, '&#%d;' % ord(ch))))
        else:
            o += ch
    return q + o + q


def ws(rnd, some=True):
    return ''.join(rnd.choice(' \n\t') for _ in range(rnd.randrange(1 if some else 0, 3)))


def noise(rnd):
    return ''.join(rnd.choice(('', '\n', '  ', '\r\n', '<!-- c -->', '<!-- <DartMeasurement name="x" type="text/plain">y</DartMeasurement> -->', '<?pi x?>', '<!---->', 'text', '&#65;', '<![CDATA[<x>]]>',
                               '<other/>', '<other a="b">text</other>', '<DartMeasurementX name="a" type="text/plain">x</DartMeasurementX>', '<dartmeasurement name="a" type="text/plain">x</dartmeasurement>',
                               '<other><inner>x</inner></other>', '<other><DartMeasurement name="x" type="text/plain">y</DartMeasurement></other>', '<other><output><DartMeasurementFile name="f">z</DartMeasurementFile></output>t</other>'))
                   for _ in range(rnd.randrange(4)))


def spelled(rnd, o, ents=()):
    o = o if isinstance(o, Op) else Op(*o)
    el = 'DartMeasurementFile' if len(o.kind) == 2 else 'DartMeasurement'
    at = [('name', o.name), ('type', TYPES[o.kind])]
    if o.kind == 'P' and rnd.random() < .15 or len(o.kind) == 2 and rnd.random() < .2:
        at = at[:1]                    # the default
    if rnd.random() < .2: at.append(('other', rnd.choice(('', 'x', '<>'))))
    if rnd.random() < .1 and len(o.kind) == 1: at.append(('encoding', 'none'))
    rnd.shuffle(at)
    s = '<' + el + ''.join(ws(rnd) + n + ws(rnd, False) * (rnd.random() < .3) + '=' + ws(rnd, False) * (rnd.random() < .3) + attr(rnd, v, ents) for n, v in at) + ws(rnd, False) * (rnd.random() < .3)
    t = o.text()
    if t == '' and rnd.random() < .5:
        return s + '/>'
    return s + '>' + spell(rnd, t, ents) + '</' + el + ws(rnd, False) * (rnd.random() < .2) + '>'


def styled(rnd, script):
    head = rnd.choice(('', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="US-ASCII"?>', "<?xml version='1.0' encoding='US-ASCII'?>\n", '<!-- c -->', '\n', '<?pi?>\n'))
    root = rnd.choice(('output', 'output', 'output', 'other', 'output a="b"'))
    ents, doctype = named(rnd, script)
    d = head + doctype + '<' + root + ws(rnd, False) + '>' + noise(rnd)
    for o in script:
        d += spelled(rnd, o, ents) + noise(rnd)
    return d + '</' + root.split()[0] + '>' + rnd.choice(('', '\n', '<!-- end -->', '  \n<?pi x?>\n'))


@prop('P09')
def p09(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.models_parallel([('XmlMC', 'XmlMCLarge.cfg' if c.thorough else 'XmlMC.cfg')])
    m = Maker(c)
    names = dict((v, k) for k, v in TYPES.items() if len(k) == 1)
    # documents written by the specification
    for x in c.generate('BaselineGen', env={'SIZE': c.tier}):
        ms = [(('FT' if y['file'] else names[bytes(y['type']).decode()]), bytes(y['name']).decode(), bytes(y['text']).decode()) for y in x['ms']]
        t = [y for y in ms]
        if rnd.random() < .4 and t:
            at = rnd.randrange(len(t))
            t[at] = ('S', t[at][1], t[at][2] + 'x')
        p = m.add(bytes(x['d']), t)
        p.file('f', 'content').file('a b', 'other')
    sample = [('S', 'one', 'a<b>&c'), ('P', 'two "q"', 'l1\nl2\n'), ('S', "it's", ''), ('I', 'n', -12), ('D', 'd', 0.5), ('B', 'b', 1), ('S', 'last', ' x ')]

    def tests(script):
        """equal, and with texts which show what was read"""
        yield script
        yield [(k if k in 'PS' else 'P', n, v if k == 'P' else 'other') for k, n, v in script]
    # all ways of writing
    for i in range(1500 if c.thorough else 600):
        script = sample[:rnd.randrange(8)] if i % 2 else [(o.kind, o.name, o.value) for o in (anything(rnd, False) for _ in range(rnd.randrange(5)))]
        d = styled(rnd, script)
        for t in tests(script):
            m.add(d, t)
        if i % 5 == 0:
            m.add(d.replace('\n', '\r\n').replace('\r\r', '\r'), script)
    # shifted over the boundary of a block, byte by byte
    for base in range(2 if c.thorough else 1):
        script = sample
        core = styled(random.Random(c.seed + base), script) if base else \
            '<output><DartMeasurement name="one" type="text/string">a&lt;b&#62;<![CDATA[&]]>c</DartMeasurement><!-- c --><DartMeasurement type=\'text/plain\' name=\'two "q"\'>l1\r\nl2&#10;</DartMeasurement>' + \
            '<other>x</other><DartMeasurement name="it\'s" type="text/string"/>' + ''.join(element(x) for x in sample[3:]) + '</output>'
        core = core[core.index('<!DOCTYPE' if '<!DOCTYPE' in core else '<output'):] if '<output' in core else core
        for k in range(0, len(core) + 2, 1):
            pad = 1024 * (1 + k % 3) - k - 9
            if pad >= 0:
                m.add('<!--' + 'p' * pad + '-->\n\n' + core, script if k % 2 else list(tests(script))[1])
    # sizes around the multiples of the block size
    for blocks in (1, 2, 3, 4, 5, 8, 9, 16, 17) + ((32, 64, 65) if c.thorough else (64,)):
        for d in range(-3, 4):
            size = blocks * 1024 + d
            head = '<?xml version="1.0"?><output>' + element(('S', 'first', 'x'))
            tail = element(('S', 'last', 'y')) + '</output>'
            for how in range(4):
                n = size - len(head) - len(tail)
                if how == 0: t, mid = [], ' ' * n
                elif how == 1: t, mid = [], '<!--' + 'c' * (n - 7) + '-->'
                elif how == 2:
                    e = len(element(('S', 'mid', '')))
                    t = [('S', 'mid', 'm' * (n - e))]
                    mid = element(t[0])
                else: t, mid = [], ''
                doc = head + mid + tail + (' ' * n if how == 3 else '')
                assert len(doc) == size
                m.add(doc, [('S', 'first', 'x')] + t + [('S', 'last', 'y')] if d % 2 else [('S', 'first', 'q')] + t + [('S', 'last', 'z')])
    # elements in elements
    for n in (10, 126, 127, 128, 254, 255, 256, 257, 1000, 10000):
        for tag in ('x', 'DartMeasurementX') if n < 2000 else ('x',):
            inner = element(('S', 'inner', 'v'))
            d = ''.join('<%s>' % tag + ('<i/>' if n < 2000 else '') for _ in range(n)) + inner + ''.join('</%s>' % tag + (inner if k % 3 == 0 and n < 2000 else '') for k in range(n - 1)) + '</%s>' % tag
            m.add('<output>' + element(sample[0]) + d + element(sample[1]) + '</output>', sample[:2])
    # far above
    for n in (300,) + ((800,) if c.thorough else ()):
        script = [(o.kind, o.name, o.value) for o in (anything(rnd, False) for _ in range(n))]
        d = styled(rnd, script)
        m.add(d, script)
        m.add(d, script[:n // 2] + [('S', 'q', 'q')] + script[n // 2 + 1:])
    conform(c, exe, m.runs, 'NotStarted StartedOnce CountRight ReportsRight', 'baselines')
    # characters which are only possible as references
    m = Maker(c)
    for n in (0xe9, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x10ffff, 13, 9, 10, 127):
        u = chr(n).encode('utf-8').decode('latin-1')
        d = '<output><DartMeasurement name="%s" type="text/string">a%sb</DartMeasurement></output>'
        for r in ('&#%d;' % n, '&#x%x;' % n):
            m.add(d % ('n', r), [('S', 'n', 'a' + u + 'b')])
            m.add(d % ('n', r), [('S', 'n', 'ab')])
            m.add(d % (r, 'x'), [('S', u, 'axb')])
    conform(c, exe, m.runs, 'NotStarted StartedOnce CountRight', 'references')
