"""P20, P21: measurement objects and visitors."""
import random
from . import prop
from .. import build
from ..engine import drive, hexs, ints

CONCRETE = [('plain', 'PlainText'), ('string', 'StringText'), ('int', 'IntegerNumeric'), ('float', 'FloatNumeric'), ('double', 'DoubleNumeric'),
            ('bool', 'BooleanNumeric'), ('file', 'MeasurementFile')]
FACTORY = [('text/plain', 'PlainText'), ('text/string', 'StringText'), ('numeric/integer', 'IntegerNumeric'), ('numeric/float', 'FloatNumeric'),
           ('numeric/double', 'DoubleNumeric'), ('numeric/boolean', 'BooleanNumeric')]


@prop('P21')
def p21(c):
    exe = build.tf()
    c.model('VisitorMC')
    cases = [(k, t, mask, b) for k, t in CONCRETE + FACTORY for mask in range(2048) for b in ('visitor', 'difference', 'compare')]

    def observe(ks):
        a = drive(exe, [(k, 'visit %d %s %d %s' % (k, cases[k][0], cases[k][2], cases[k][3])) for k in ks])
        return [dict(a[k], type=cases[k][1], mask=cases[k][2], made=cases[k][0], base=cases[k][3]) for k in ks]
    c.conform('VisitorTrace', observe(range(len(cases))), lambda k: observe([k]), env={'CHUNK': '256'})
    c.notes.append('all sets of handlers with all types: complete')


KINDS = ['plain', 'string', 'int', 'float', 'double', 'bool', 'file']
TYPES = dict(zip(KINDS, ['text/plain', 'text/string', 'numeric/integer', 'numeric/float', 'numeric/double', 'numeric/boolean', '']))


class History:
    def __init__(self):
        self.steps, self.text, self.kind = [], [], {}

    def add(self, op, l, *w, **kw):
        st = dict(op=op, l=l, **kw)
        self.steps.append(st)
        self.text.append(' '.join([op, l] + list(w)))

    def new(self, l, kind, factory=False):
        self.kind[l] = kind
        self.add('new', l, TYPES[kind] if factory and TYPES[kind] else kind, kind=kind)

    def val(self, op, l, v):
        self.add(op, l, v.decode('latin-1') if op in ('setval', 'esc') else hexs(v), v=list(v))

    def block(self, k):
        return 'obj %d\n%s\nend\n' % (k, '\n'.join(self.text))


def values(rnd):
    import base64
    def raw(n):
        return bytes(rnd.randrange(256) for _ in range(n))
    k = rnd.randrange(12)
    if k == 0: return b''
    if k == 1: return raw(rnd.randrange(1, 8))
    if k == 2: return base64.b64encode(raw(rnd.randrange(1, 9)))
    if k == 3: return base64.b64encode(raw(rnd.choice((54, 55, 107, 108, 109, 300))))
    if k == 4: return base64.encodebytes(raw(rnd.randrange(1, 120)))
    if k == 5: return base64.b64encode(raw(rnd.randrange(1, 9)))[:-1]
    if k == 6: return rnd.choice((b'QUJD', b'QUI=', b'QQ==', b'Q U J D', b'QUJD!', b'QQ==junk', b'=', b'Q', b'QUI', b'QQ=', b' ', b'\n'))
    if k == 7: return raw(rnd.choice((16, 17, 255, 256, 257)))
    if k == 8: return bytes([rnd.randrange(256)]) * rnd.randrange(1, 5)
    if k == 9: return rnd.choice((b'0', b'1', b'12', b'-7', b'0.5', b'abc', b'1.0', b'-0', b'007', b' 3'))
    return rnd.choice((b'same', b'Same', b'same ', b'sam', b'c2FtZQ==', b'c2FtZQ=='))


def setvals(kind, rnd):
    if kind == 'int':
        return rnd.choice(['0', '1', '-1', '9223372036854775807', '-9223372036854775808', '2147483647', '2147483648', '-2147483649', '4294967296', '16777217', '9007199254740993',
                           str(rnd.randrange(-2**63, 2**63)), str(rnd.randrange(-1000, 1000)), str(rnd.choice((-1, 1)) * 10 ** rnd.randrange(19))])
    if kind == 'bool':
        return rnd.choice('01')
    # whole numbers and numbers with a short binary fraction, so that the decimal text is exact
    digits = 6 if kind == 'float' else 14
    frac = rnd.randrange(0, 4 if kind == 'float' else 8)
    whole = digits - frac
    v = rnd.randrange(10 ** rnd.randrange(1, whole + 1)) * 2 ** frac + rnd.randrange(2 ** frac)
    w, f = divmod(v, 2 ** frac)
    t = str(w)
    if f:
        t += '.' + str(f * 10 ** frac // 2 ** frac).rjust(frac, '0').rstrip('0')
        if w == 0 and t.startswith('0.0'):
            t = '0.5'
    return '-' + t if t != '0' and rnd.random() < .4 else t


def history(rnd, n, labels, kinds, bias):
    h = History()
    for l in labels:
        h.new(l, rnd.choice(kinds), rnd.random() < .3)
    for _ in range(n):
        l = rnd.choice(labels)
        m = rnd.choice(labels)
        k = rnd.random()
        kind = h.kind[l]
        if k < .13: h.val('text', l, values(rnd))
        elif k < .24: h.val('data', l, values(rnd))
        elif k < .36: h.val('enc', l, rnd.choice((b'none', b'base64', b'base64', b'none', b'base64', b'base64', b'uu', b'', b'Base64')))
        elif k < .37: h.val('comp', l, rnd.choice((b'none', b'none', b'gzip')))
        elif k < .38: h.val('esc', l, rnd.choice((b'0', b'1')))
        elif k < .40: h.val('name', l, rnd.choice((b'', b'n', b'm', b'a name')))
        elif k < .46: h.add('copy', l, m, **{'from': m}); h.kind[l] = kind = h.kind[m]
        elif k < .53: h.add('asg', l, m, **{'from': m})
        elif k < .56 and kind in ('int', 'float', 'double', 'bool'): h.val('setval', l, setvals(kind, rnd).encode())
        elif k < .62 and kind != 'file' and h.kind[m] != 'file': h.add('eq', l, m, **{'from': m})
        elif k < .64: h.new(l, rnd.choice(kinds)) if rnd.random() < .5 else h.add('attr', l)
        elif k < .72: h.add('gt', l)
        elif kind != 'file': h.add(rnd.choice(('gd', 'gp')), l)
        kind = h.kind[l]
        if rnd.random() < bias and kind != 'file':
            h.add(rnd.choice(('gd', 'gp')), l)
        if rnd.random() < .05 and kind in ('int', 'float', 'double', 'bool'):
            h.val('setval', l, setvals(kind, rnd).encode()); h.add('gt', l); h.add('getval', l)
    for l in labels:
        h.add('gt', l); h.add('attr', l)
        if h.kind[l] != 'file':
            h.add('gd', l); h.add('gp', l)
        if h.kind[l] in ('int', 'float', 'double', 'bool'):
            h.add('getval', l)
        for m in labels:
            if 'file' not in (h.kind[l], h.kind[m]):
                h.add('eq', l, m, **{'from': m})
    return h


def short_histories(c, rnd):
    """all short sequences of operations"""
    import itertools
    ops = ['t1', 't2', 'd1', 'd2', 'en', 'eb', 'eu', 'cg', 'r', 'cp', 'as', 'sa', 'bc']
    out = []
    for n in (1, 2, 3) + ((4,) if c.thorough else ()):
        for seq in itertools.product(ops, repeat=n):
            h = History()
            kind = rnd.choice(KINDS[:6])
            h.new('a', kind); h.new('b', kind)
            for o in seq:
                if o == 't1': h.val('text', 'a', b'QUI=')
                elif o == 't2': h.val('text', 'a', b'no base64')
                elif o == 'd1': h.val('data', 'a', b'\x00\xff\x10')
                elif o == 'd2': h.val('data', 'a', b'QUJD')
                elif o == 'en': h.val('enc', 'a', b'none')
                elif o == 'eb': h.val('enc', 'a', b'base64')
                elif o == 'eu': h.val('enc', 'a', b'uu')
                elif o == 'cg': h.val('comp', 'a', b'gzip')
                elif o == 'r': h.add('gd', 'a')
                elif o == 'cp': h.add('copy', 'b', 'a', **{'from': 'a'})
                elif o == 'as': h.add('asg', 'b', 'a', **{'from': 'a'})
                elif o == 'sa': h.add('asg', 'a', 'a', **{'from': 'a'})
                elif o == 'bc': h.add('asg', 'a', 'b', **{'from': 'b'})
            for l in 'ab':
                h.add('gt', l); h.add('gp', l); h.add('gd', l)
            h.add('eq', 'a', 'b', **{'from': 'b'}); h.add('eq', 'b', 'a', **{'from': 'a'})
            out.append(h)
    return out


def number_histories(c, rnd):
    out = []
    for kind in ('int', 'float', 'double', 'bool'):
        for _ in range(200 if c.thorough else 40):
            h = History()
            h.new('a', kind); h.new('b', kind)
            for _ in range(8):
                h.val('setval', 'a', setvals(kind, rnd).encode()); h.add('gt', 'a'); h.add('getval', 'a'); h.add('gd', 'a')
                if rnd.random() < .4:
                    h.add(rnd.choice(('copy', 'asg')), 'b', 'a', **{'from': 'a'}); h.add('getval', 'b'); h.add('eq', 'b', 'a', **{'from': 'a'})
            out.append(h)
    return out


@prop('P20')
def p20(c):
    rnd = random.Random(c.seed)
    c.model('MeasurementDataMC')
    hs = short_histories(c, rnd) + number_histories(c, rnd)
    for _ in range(3000 if c.thorough else 500):
        kinds = rnd.choice((KINDS, KINDS, [rnd.choice(KINDS[:6])]))
        hs.append(history(rnd, rnd.choice((5, 15, 40)), ['a', 'b', 'c'][:rnd.randrange(1, 4)], kinds, rnd.choice((0, .3, .8))))

    def observer(exe):
        def observe(ks):
            a = drive(exe, [(k, hs[k].block(k)) for k in ks])
            return [dict(a[k], steps=hs[k].steps) for k in ks]
        return observe
    o = observer(build.tf())
    c.conform('MeasurementDataTrace', o(range(len(hs))), lambda k: o([k]))
    if not c.violations:
        # the same with every access to memory watched
        o2 = observer(build.tf('asan'))
        some = sorted(rnd.sample(range(len(hs)), len(hs) if c.thorough else 700))
        c.conform('MeasurementDataTrace', o2(some), lambda k: o2([some[k]]), label='with the address sanitizer')


MARKS = ['&', '<', '>', '"', "'", '&amp;', '&lt;', '&#60;', '&#13;', ']]>', '<![CDATA[', '-->', '<!--', '</DartMeasurement>', '</o>', '<?xml?>', '\n', '\r', '\r\n', '\n\r', '\t', ' ', '\\', '%s', 'name="x"', '/>', ';', '#']
SOME = ['', 'a', 'text', 'none', ' ', 'x y', '0', 'base64']


def writable(rnd):
    k = rnd.randrange(8)
    if k == 0: return rnd.choice(MARKS).encode()
    if k == 1: return rnd.choice(SOME).encode()
    if k == 2: return ''.join(rnd.choice(MARKS) for _ in range(rnd.randrange(2, 9))).encode()
    if k == 3: return bytes(rnd.choice(b'&<>"\'\r\n\t ]a;') for _ in range(rnd.randrange(1, 20)))
    if k == 4: return bytes(rnd.randrange(32, 127) for _ in range(rnd.randrange(1, 60)))
    if k == 5: return rnd.choice(SOME).encode() + rnd.choice(MARKS).encode() + rnd.choice(SOME).encode()
    if k == 6: return rnd.choice((b'x', b'&', b'\r', b'ab&')) * rnd.choice((15, 16, 17, 64, 255, 256, 1023, 1024, 1025))
    return bytes(rnd.choice(b'&<>"\r\n\tabcdefghijkl ') for _ in range(rnd.randrange(60, 300)))


def printed(rnd, n):
    h = History()
    ls = 'abc'[:rnd.randrange(1, 4)]
    for l in ls:
        h.new(l, rnd.choice(KINDS), rnd.random() < .3)
    for _ in range(n):
        l, m = rnd.choice(ls), rnd.choice(ls)
        k = rnd.randrange(20)
        if k < 4: h.val('text', l, writable(rnd))
        elif k < 7: h.val('name', l, writable(rnd))
        elif k < 8: h.val('enc', l, rnd.choice((b'none', b'base64', b'', writable(rnd))))
        elif k < 9: h.val('comp', l, rnd.choice((b'none', b'gzip', b'', writable(rnd))))
        elif k < 10: h.val('ftype', l, rnd.choice((b'text/plain', b'image/png', b'', writable(rnd))))
        elif k < 12: h.val('esc', l, rnd.choice((b'0', b'1', b'1')))
        elif k < 13: h.val('data', l, writable(rnd))
        elif k < 14: h.add('copy', l, m, **{'from': m}); h.kind[l] = h.kind[m]
        elif k < 15: h.add('asg', l, m, **{'from': m})
        elif k < 16: h.new(l, rnd.choice(KINDS))
        elif k < 17 and h.kind[l] in ('int', 'float', 'double', 'bool'): h.val('setval', l, setvals(h.kind[l], rnd).encode())
        elif k < 18 and h.kind[l] != 'file': h.add(rnd.choice(('gd', 'gp')), l)
        else: h.add('print', l, *(['p'] if rnd.random() < .4 else []))
    for l in ls:
        h.add('print', l); h.add('gt', l); h.add('attr', l); h.add('print', l, 'p')
    return h


def every_character(c):
    out = []
    for kind in KINDS:
        for esc in b'10':
            h = History()
            h.new('a', kind)
            h.val('esc', 'a', bytes([esc]))
            for ch in list(range(32, 127)) + [9, 10, 13]:
                for t in (bytes([ch]), bytes([ch, ch]), b'a' + bytes([ch]) + b'b', b'&' + bytes([ch])):
                    h.val('text', 'a', t); h.val('name', 'a', t[::-1]); h.add('print', 'a')
            out.append(h)
    for m in MARKS:
        for n in MARKS:
            h = History()
            for l, kind in (('a', 'string'), ('f', 'file')):
                h.new(l, kind); h.val('text', l, (m + n).encode()); h.val('name', l, (n + m).encode())
                h.val('enc', l, m.encode()); h.val('comp', l, n.encode()); h.val('ftype', l, n.encode())
                h.add('print', l); h.val('esc', l, b'0'); h.add('print', l); h.val('esc', l, b'1'); h.add('print', l)
            out.append(h)
    return out


@prop('P28')
def p28(c):
    rnd = random.Random(c.seed)
    c.model('PrintingMC', 'PrintingMCMore.cfg' if c.thorough else None)
    exe = build.tf()
    hs = every_character(c)
    for _ in range(6000 if c.thorough else 500):
        hs.append(printed(rnd, rnd.choice((4, 12, 30))))

    def observe(ks):
        a = drive(exe, [(k, hs[k].block(k)) for k in ks])
        return [dict(a[k], steps=hs[k].steps) for k in ks]
    c.conform('MeasurementDataTrace', observe(range(len(hs))), lambda k: observe([k]))
