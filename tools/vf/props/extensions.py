"""P32: tests which extend the framework with visitors and measurements of their own."""
import random
from . import prop
from .. import build
from ..engine import drive, hexs, ints
from ..runs import DEFTOL, TYPES, Place, b, document, number, Op

OWN = {'oI': 'I', 'oF': 'F', 'oD': 'D', 'oB': 'B', 'oS': 'S', 'oP': 'P', 'oO': 'S'}
FILES = ('FT', 'FG', 'FJ', 'oM')
WORDS = ['', 'x', 'y', 'a text', 'x\ny', 'x\ny\n', '&<>', 'l' * 200, 'line\n' * 30]
NAMES = ['a', 'b', 'a b', '', 'n' * 40, 'Unmatched a', '<a>']
TEXTS = ['', 'different', 'two\nlines\n', '<Dart/>\n', 'long ' * 60, '\n']
OWNTYPES = ['text/plain', 'image/png', 'image/itk', 'application/x-own', 'own']
NUMBERS = {'I': ['0', '1', '-7', '2147483648'], 'F': ['0', '0.5', '-2.25', '1e10'], 'D': ['0', '0.5', '0.1', '-1e-30', '12345.75'], 'B': ['0', '1']}


def digits(v):
    return '%.17g' % float(v)


class Made:
    """a measurement of the test"""
    def __init__(self, how, name, value, type='', tol=None, say='yes', plain=True, text=''):
        self.how, self.name, self.value, self.tol, self.say, self.plain, self.text = how, name, value, tol, say, plain, text
        k = OWN.get(how, how)
        self.type = type if how == 'oM' else TYPES[k]

    def words(self):
        t = 'd' if self.tol is None else str(int(self.tol))
        v = self.value if self.how in 'IFDB' else hexs(b(self.value))
        return 'op %s %s %s %s %s %s %d %s' % (self.how, hexs(b(self.name)), hexs(b(self.type)), v, t, self.say, self.plain, hexs(b(self.text)))

    def tolerant(self):
        if self.how in 'IFDB':
            return self.how in 'FD' if self.tol is None else bool(self.tol)
        return bool(self.tol) and self.how[0] == 'o'

    def spec(self):
        return {'n': ints(b(self.name)), 't': ints(self.type), 'c': ints(b(self.value)), 'known': self.how not in 'IFDB', 'tolerant': self.tolerant(),
                'text': ints(b(self.text)), 'plain': self.plain}


class Tol:
    def __init__(self, v):
        self.v = v

    def words(self):
        return 'op tol %s' % self.v


class Baseline:
    """of a kind of an Op, or a file of any type"""
    def __init__(self, kind, name, value, type=None):
        self.kind, self.name, self.value, self.type = kind, name, value, type or TYPES[kind]

    def element(self):
        if self.kind in FILES:
            from xml.sax.saxutils import escape, quoteattr
            return '<DartMeasurementFile name=%s type="%s">%s</DartMeasurementFile>\n' % (quoteattr(self.name), self.type, escape(self.value))
        return document([Op(self.kind, self.name, self.value)]).split('<output>\n')[1].split('</output>')[0]

    def spec(self):
        return {'n': ints(b(self.name)), 't': ints(self.type), 'c': ints(b(number(self.kind, self.value) if self.kind in 'IFDB' else self.value))}


class Script:
    def __init__(self, place, ops, base, rec=False, out=False):
        self.place, self.ops, self.base, self.rec, self.out = place, ops, base, rec, out
        doc = document([]).split('</output>')[0] + ''.join(x.element() for x in base) + '</output>\n'
        place.file('base.xml', doc)

    def block(self, k):
        w = ['extend %d' % k, 'dir ' + hexs(self.place.root), 'arg ' + hexs('prog')]
        if not self.rec:
            w += ['arg ' + hexs('-I'), 'arg ' + hexs('base.xml')]
        if self.out:
            w += ['arg ' + hexs('-O'), 'arg ' + hexs('out.xml')]
        return '\n'.join(w + [o.words() for o in self.ops] + ['end', ''])

    def observed(self, a):
        o = {'ops': [x.spec() for x in self.ops if isinstance(x, Made)], 'base': [] if self.rec else [x.spec() for x in self.base],
             'tol': ints(digits(DEFTOL)), 'rec': self.rec}
        return dict({'evs': [], 'res': 0, 'calls': 0, 'sig': 0, 'code': 0}, **dict(a, **o))


def value(rnd, kind):
    return rnd.choice(NUMBERS[kind]) if kind in NUMBERS else rnd.choice(WORDS)


def measurement(rnd, throws=False):
    how = rnd.choice(('I', 'F', 'D', 'B', 'S', 'P', 'P', 'FT', 'FG', 'FJ') + tuple(OWN) + ('oM', 'oM'))
    say = rnd.choice(('yes', 'no', 'base', 'base', 'yes', 'no'))
    plain = rnd.random() < .7
    if how in FILES or how == 'oO':
        say, plain = rnd.choice(('yes', 'no')), True      # these read files, or take the baseline for one like the measurement
    if throws and rnd.random() < .3:
        say = rnd.choice(('cthrow', 'dthrow'))
    k = OWN.get(how, how)
    v = 'no-such-file-%d' % rnd.randrange(3) if how in FILES else value(rnd, k)
    return Made(how, rnd.choice(NAMES), v, rnd.choice(OWNTYPES) if how == 'oM' else '', rnd.choice((None, None, 0, 1)), say, plain, rnd.choice(TEXTS))


def baseline(rnd, m):
    """one for it, more or less"""
    k = OWN.get(m.how, m.how)
    if rnd.random() < .1:
        k = rnd.choice('IFDBSP')
    if k in FILES:
        return Baseline(k, m.name, m.value if rnd.random() < .5 else 'another', rnd.choice(OWNTYPES) if rnd.random() < .1 else m.type)
    return Baseline(k, m.name if rnd.random() < .88 else rnd.choice(NAMES), m.value if rnd.random() < .5 and k == OWN.get(m.how, m.how) else value(rnd, k))


def script(c, rnd):
    throws = rnd.random() < .2
    ops = []
    for _ in range(rnd.choice((1, 2, 3, 5, 8, 15))):
        if rnd.random() < .25:
            ops.append(Tol(rnd.choice(('0', '0.5', '1e-3', '0.1', '1', '1e300', '3.0000000000000004'))))
        ops.append(measurement(rnd, throws))
    base = [baseline(rnd, o) for o in ops if isinstance(o, Made)]
    if rnd.random() < .25 and base:
        at = rnd.randrange(len(base))
        if rnd.random() < .5:
            del base[at]
        else:
            base.insert(at, baseline(rnd, measurement(rnd)))
    return Script(Place(c), ops, base, rnd.random() < .12, rnd.random() < .5)


def each(c):
    """every way of measuring with every verdict"""
    out = []
    rnd = random.Random(5)
    for how in ('I', 'F', 'D', 'B', 'S', 'P', 'FT', 'FG', 'FJ', 'oM') + tuple(OWN):
        for tol in (None, 0, 1):
            for say in ('yes', 'no', 'cthrow', 'dthrow') + (() if how in FILES + ('oO',) else ('base',)):
                for pair in (True, False):
                    k = OWN.get(how, how)
                    v = 'file' if how in FILES else value(rnd, k)
                    ops = [Made(how, 'a', v, 'application/x-own', tol, say, True, 'what\n'), Made('P', 'after', 'x', say='base', plain=False)]
                    base = [Baseline(k, 'a' if pair else 'b', v, 'application/x-own' if how == 'oM' else None), Baseline('P', 'after', 'y')]
                    out.append(Script(Place(c), ops, base, out=bool(len(out) % 2)))
    return out


@prop('P32')
def p32(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.models_parallel([('ExtensionMC', 'ExtensionMC.cfg')] + ([('ExtensionMC', 'ExtensionMCMore.cfg')] if c.thorough else []))
    runs = each(c) + [script(c, rnd) for _ in range(6000 if c.thorough else 1200)]

    def observe(exe, ks):
        for k in ks:
            for n in ('.stdout', '.stderr', 'out.xml'):
                import os
                if os.path.exists(runs[k].place.abs(n)):
                    os.unlink(runs[k].place.abs(n))
        a = drive(exe, [(k, runs[k].block(k)) for k in ks])
        return [runs[k].observed(a[k]) for k in ks]
    c.conform('ExtensionTrace', observe(exe, range(len(runs))), lambda k: observe(exe, [k]))
    if not c.violations:
        # a visitor which is used when it is gone
        asan = build.tf('asan')
        some = sorted(rnd.sample(range(len(runs)), 1500 if c.thorough else 300))
        c.conform('ExtensionTrace', observe(asan, some), lambda k: observe(asan, [some[k]]), label='with the address sanitizer')
    c.notes.append('every way of measuring with every verdict of the visitors, matched and unmatched, and random runs')
