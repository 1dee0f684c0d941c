"""P01 to P05, P10: the runs of a test."""
import itertools, os, random
from . import prop
from .. import build, runs
from ..runs import Place, Run, Op, conform, document, element

LETTERS = [('P', 'a', 'x'), ('P', 'a', 'y'), ('S', 'a', 'x'), ('P', 'b', 'x')]
NUMS = [('I', 'n', 5), ('I', 'n', 6), ('D', 'n', 5), ('F', 'n', 0.5), ('F', 'n', 0.75), ('D', 'n', 0.25), ('B', 'n', 1), ('B', 'n', 0)]
WORDS = ['', 'x', 'y', 'x ', ' x', 'X', 'x\ny', 'x\ny\n', '\n', 'a<b', '&amp;', '"q"', "it's", ']]>', '<!-- -->', '\t', 'x\r\ny\r\n', 'x\r', 'one two', 'x' * 100, 'l1\nl2\nl3\nl4', 'l1\nl2\nl4', '5', '5.0']
NAMES = ['', 'a', 'b', 'name', 'a b', 'A', 'Test a', 'Unmatched a', '<a>', '"', "'", '&', 'a\nb', 'a\tb', 'n' * 60, 'Difference a']


def models(c):
    jobs = [('RegressionMC', 'RegressionMC.cfg'), ('RegressionMC', 'RegressionMCRun.cfg'), ('RegressionMC', 'RegressionMCLive.cfg')]
    if c.thorough:
        jobs += [('RegressionMC', 'RegressionMCArgs4.cfg'), ('RegressionMC', 'RegressionMCRun3.cfg')]
    c.models_parallel(jobs)


def some(rnd, names=NAMES, nasty=True):
    """a measurement"""
    k = rnd.choice('PPPSSIDFB' if nasty else 'PSI')
    n = rnd.choice(names)
    if k in 'PS':
        return (k, n, rnd.choice(WORDS))
    if k == 'B':
        return (k, n, rnd.choice((0, 1)))
    if k == 'I':
        return (k, n, rnd.choice((0, 1, -1, 5, 6, 2147483647, -2147483648, 9223372036854775807, 123456)))
    return (k, n, rnd.choice((0, 0.5, -0.5, 1, 2, 1024.25, 1e10, -3.75, 0.1, 1e-3)))


def other(rnd, m):
    """one which does not match it"""
    while True:
        k, n, v = m
        w = rnd.randrange(3)
        if w == 0:
            k = rnd.choice([x for x in 'PSI' if x != k])
            v = 3 if k == 'I' else 'x'
        elif w == 1:
            n = n + rnd.choice((' ', 'x', 'a'))
        elif k in 'PS':
            v = rnd.choice((v + ' ', v + '\n', 'z' + v, v + 'x\ny', 'other'))
        elif k == 'B':
            v = 1 - v
        elif k == 'I':
            v = v - 1 if v > 0 else v + 1
        else:
            v = v * 3 + 1
        return (k, n, v)


def edited(rnd, base, n):
    """the list with some changes"""
    l = list(base)
    for _ in range(n):
        w = rnd.randrange(6)
        at = rnd.randrange(len(l) + 1)
        if w == 0:
            l.insert(at, some(rnd))
        elif not l:
            continue
        elif w == 1:
            del l[at % len(l)]
        elif w == 2:
            i, j = rnd.randrange(len(l)), rnd.randrange(len(l))
            l[i], l[j] = l[j], l[i]
        else:
            l[at % len(l)] = other(rnd, l[at % len(l)])
    return l


class Maker:
    def __init__(self, c):
        self.c, self.runs = c, []

    def add(self, base, script, args=(), before=(), prog='prog', files=(), **kw):
        """a run with the baseline b.xml, if there is one"""
        p = Place(self.c)
        for f in files:
            p.file(*f)
        a = list(before)
        if base is not None:
            p.file('b.xml', base if isinstance(base, (str, bytes)) else document(base))
            a += ['-I', 'b.xml']
        self.runs.append(Run(p, a + list(args), script, prog=prog, **kw))
        return p


def pairs(c, base, test, n=4):
    return c.generate('RegressionGen', env={'WHAT': 'pairs', 'LETTERS': str(n), 'BASE': str(base), 'TEST': str(test)})


RETS = [(0, None), (5, '5'), (-1, '-1'), (0, '0'), (255, '255'), (1, '1')]


def expecting(v):
    return [] if v is None else ['-R', v]


@prop('P01')
def p01(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    models(c)
    g = pairs(c, 3 if c.thorough else 2, 3)
    m = Maker(c)
    for i, x in enumerate(g):
        if not c.thorough or i % 2 == 0 or len(x['b']) < 3:
            r, e = RETS[i % len(RETS)]
            m.add([LETTERS[k - 1] for k in x['b']], [LETTERS[k - 1] for k in x['t']] + [('ret', '', r)], expecting(e))
    # all types
    for a, b in itertools.product(NUMS + LETTERS[:3], repeat=2):
        m.add([a], [b])
    for _ in range(2000 if c.thorough else 500):
        base = [some(rnd) for _ in range(rnd.randrange(0, 30))]
        r, e = rnd.choice(RETS)
        m.add(base, edited(rnd, base, rnd.choice((0, 0, 1, 2, 3, 8))) + [('ret', '', r)], expecting(e))
    # many mismatches, also just as many as an exit code or a byte can hold
    for n in (127, 128, 255, 256, 257, 511, 512, 1000) + ((1024, 2000, 65536 // 16) if c.thorough else ()):
        short = [('S', 'm%d' % (i % 7), str(i)) for i in range(n)]
        m.add(short, short)
        m.add(short, [(k, a, 'q') for k, a, v in short])
        m.add([], [('S', 'a', 'x')] * n)
        m.add(short, short[:n // 2] + [('S', 'u', '')] * 3 + short[n // 2 + 3:] + short[:2])
    # and as many as do not fit into two bytes
    for n in (32767, 32768, 65535, 65536, 65537) + ((100000, 131072, 1 << 20) if c.thorough else ()):
        for base, first, e in (([], [], None), ([('S', 'a', 'x'), ('S', 'b', 'y')], [('S', 'a', 'x'), ('S', 'b', 'z')], None), ([], [('ret', '', 5)], '5')):
            many = Op('many', value=(n, Op('S', 'm', 'v')))
            m.add(base, [x for x in first if x[0] != 'ret'] + [many] + [x for x in first if x[0] == 'ret'], expecting(e), timeout=60)
            m.runs[-1].mute = True
    # so many which match, then some which do not
    for n in (65536,) if c.thorough else (33000,):
        many = Op('many', value=(n, Op('S', 'm', 'v')))
        for after in ([], [('S', 'm', 'w'), ('S', 'm', 'v')]):
            p = m.add(None, [many] + after, ['-I', 'b.xml'], timeout=60)
            p.file('b.xml', document([many.value[1]] * n + [('S', 'm', 'v')] * 2))
            p.tree[-1]['c'] = []
            m.runs[-1].mute, m.runs[-1].orig = True, [many, Op('S', 'm', 'v'), Op('S', 'm', 'v')]
    # what happens to the world in the meantime
    for i in range(200 if c.thorough else 60):
        base = [some(rnd) for _ in range(rnd.randrange(1, 8))]
        t = edited(rnd, base, rnd.choice((0, 0, 1)))
        at = rnd.randrange(len(t) + 1)
        what = [('rm', 'b.xml'), ('put', 'b.xml', 'no baseline'), ('put', 'b.xml', document([])), ('cd', 'd'), ('cd', '/'), ('exp', '', 0), ('tol', '', '0.5')]
        w = what[i % len(what)]
        if w[0] == 'tol':
            t = [x for x in t if x[0] not in 'FD']
            at = min(at, len(t))
        p = m.add(base, t[:at] + [w] + t[at:], ['a'])
        p.dir('d')
        if w == ('cd', '/'):
            p.tree[-1]['m'] = 0o755
    m.runs = [r for r in m.runs if not any(o.kind == 'cd' and o.name == '/' for o in r.ops)]
    # by the program instead of by an option, and found in a search path
    for i in range(40):
        base = [some(rnd) for _ in range(rnd.randrange(0, 6))]
        t = edited(rnd, base, i % 3)
        p = m.add(None, t, [], sets={'in': 'b.xml', 'exp': 0})
        p.file('b.xml', document(base))
        p = m.add(None, t, ['-P', 'd', '-P', 'e'], sets={'in': 'b.xml'})
        p.dir('d').dir('e').file('d/b.xml', document(base)).file('e/c.xml', 'x')
        p = m.add(None, t, ['-O', 'out', '-I', 'b.xml'], sets={'in': 'c.xml', 'out': 'never', 'paths': ['d']})
        p.dir('d').file('b.xml', document([('P', 'x', 'x')])).file('d/b.xml', document(base)).file('d/c.xml', document([]))
    conform(c, exe, m.runs, 'CountRight ModeSteady Ended', 'runs')


THROWS = ['runtime_error', 'logic_error', 'length_error', 'domain_error', 'out_of_range', 'invalid_argument', 'bad_alloc', 'bad_cast', 'range_error', 'overflow_error',
          'underflow_error', 'exception', 'bad_typeid', 'ios_failure', 'derived', 'int', 'cstring', 'string', 'foreign', 'pointer']


@prop('P02')
def p02(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    models(c)
    m = Maker(c)
    full = [('P', 'a', 'x'), ('S', 'b', 'y'), ('I', 'c', 5)]
    doc = document(full)
    # options which cannot be used, at every place
    good = [[], ['-I', 'b.xml'], ['-O', 'o'], ['-R', '0'], ['-R', '-1'], ['-R', '1'], ['-P', 'd'], ['-I', 'b.xml', '-O', 'o', '-R', '-1', '-P', 'd']]
    bad = [['-I'], ['-O'], ['-R'], ['-P'], ['-I', 'none'], ['-I', 'd'], ['-I', 'l'], ['-I', 'q'], ['-P', 'none'], ['-P', 'b.xml'], ['-P', 'l'], ['-I', ''], ['-P', ''],
           ['-O', 'none/o'], ['-O', 'd'], ['-O', 'b.xml/o'], ['-I', 'bad.xml'], ['-I', 'empty.xml'], ['-I', 'b.xml/x'], ['-O', 'd/none/o']]
    for g, x, after in itertools.product(good, bad, ([], ['a'], ['-I', 'b.xml'], ['-R', '-1'], ['-R', '2'])):
        if len(x) == 1 and after or len(x) > 1 and (x[0] == '-I' and x[1][-4:] == '.xml' or x[0] == '-O') and after[:1] == x[:1]:
            continue
        for rec in (0, 1):
            if rec and not (g or after):
                continue
            if rnd.random() > (1 if c.thorough else .6):
                continue
            p = m.add(None, full[:2] + [('ret', '', rnd.choice((0, -1, 1)))], g + x + after)
            p.file('b.xml', doc).dir('d').link('l', 'nothing').file('bad.xml', doc[:-12]).file('empty.xml', '').fifo('q')
    for s in ({'in': 'none'}, {'in': 'd'}, {'in': 'l'}, {'out': 'none/o'}, {'out': 'd'}, {'in': 'bad.xml'}, {'in': 'none', 'paths': ['d']}, {'in': 'b.xml', 'out': 'b.xml'},
              {'in': 'empty.xml'}, {'in': 'x.xml', 'paths': ['none', 'd']}, {'in': 'd', 'paths': ['.']}):
        for e in (0, -1, 1, 2, 7):
            for how in (0, 1):
                p = m.add(None, full + [('ret', '', e)], ['-R', str(e)] if how else [], sets=dict(s, **({} if how else {'exp': e})))
                p.file('b.xml', doc).dir('d').link('l', 'nothing').file('bad.xml', doc[:-12]).file('empty.xml', '').file('d/x.xml', '<output>')
    # rights
    for x, y in ((['-I', 'n.xml'], 0), (['-P', 'nd'], 0), (['-O', 'nd/o'], 0), (['-I', 'nd/b.xml'], 0), (['-O', 'o'], 0), ([], 1), ([], 2), (['-O', 'ro'], 0), (['-O', 'ro', '-O', 'w'], 0),
                 (['-O', 'w', '-O', 'ro'], 0), (['-I', 'r.xml', '-O', 'ro'], 0), (['-O', 'none'], 0), (['-O', 'w'], 0), (['-O', 'w', '-I', 'r.xml', '-P', 'rd'], 0), (['-P', 'xd'], 0),
                 (['-O', 'xd/o'], 0), (['-O', 'xd/w'], 0), (['-I', 'xd/b.xml'], 0)):
        for e in (0, -1, 1):
            p = m.add(None, full[:1] + [('ret', '', e)], ['-R', str(e)] + x, nobody=True, sets=({}, {'in': 'n.xml'}, {'out': 'ro'})[y])
            p.file('n.xml', doc, 0o600).file('r.xml', document(full[:1])).dir('nd', 0o700).dir('rd').dir('xd').file('ro', 'earlier').file('w', 'earlier', 0o666)
            p.file('xd/w', 'earlier', 0o666).file('xd/b.xml', document(full[:1]))
            os.chmod(p.abs('xd'), 0o711)
            p.tree[[t['p'] for t in p.tree].index(list(os.fsencode(p.abs('xd'))))]['m'] = 0o711
            os.close(os.open(p.abs('.stdout'), os.O_CREAT, 0o666)); os.chmod(p.abs('.stdout'), 0o666)
            os.close(os.open(p.abs('.stderr'), os.O_CREAT, 0o666)); os.chmod(p.abs('.stderr'), 0o666)
    # exceptions of all types at all places
    for k in THROWS:
        for mode, at, e in itertools.product((0, 1, 2), (0, 1, 3), (None, '-1', '1', '3') if c.thorough else (None, '-1')):
            t = full[:at] if mode < 2 else [('P', 'a', 'no'), ('S', 'u', 'y'), ('I', 'c', 5)][:at]
            m.add(full if mode else None, t + [('throw', '', k)], expecting(e) + (['-O', 'o'] if mode == 0 and at else []))
    # defects of baselines
    rich = '<?xml version="1.0"?>\n<output>\n' + element(('P', 'a', 'x&<')) + '<!-- c -->' + element(('FT', 'f', 'n')) + '<DartMeasurement type="text/string" name=\'b\'><![CDATA[y]]></DartMeasurement><DartMeasurement name="e" type="text/plain"/>\n</output>\n'
    made = [('P', 'a', 'x&<'), ('P', 'f', 'n'), ('S', 'b', 'y'), ('P', 'e', '')]
    bads = [rich[:k] for k in range(len(rich))] + [doc[:k] for k in range(0, len(doc), 1 if c.thorough else 7)]
    for _ in range(3000 if c.thorough else 500):
        t = rnd.choice((rich, doc))
        for _ in range(rnd.choice((1, 1, 2))):
            k = rnd.randrange(len(t))
            w = rnd.randrange(4)
            if w == 0: t = t[:k] + t[k + 1:]
            elif w == 1: t = t[:k] + rnd.choice('<>&"\'/!-[]?ax \n\x01\x00\x7f') + t[k:]
            elif w == 2: t = t[:k] + rnd.choice('<>&"\'/!-[]?ax \n\x01') + t[k + 1:]
            else: j = rnd.randrange(len(t)); t = t[:min(j, k)] + t[max(j, k):]
        bads.append(t)
    bads += ['', ' ', '\n', 'text', '<output>', '</output>', '<output/><output/>', '<output></output>x', 'x<output></output>', '<output><a></output></a>', '<a><output></a>',
             '<output>' + element(full[0]), element(full[0])[:-2], '\x00' * 10, '<output>\x00</output>', '<output><DartMeasurement name="a" type="text/plain">x<b/></DartMeasurement></output>',
             '<output><DartMeasurement name="a" type="text/plain"><DartMeasurement name="a" type="text/plain">x</DartMeasurement></DartMeasurement></output>',
             '<output><DartMeasurement name="a" type="text/plain">&nbsp;</DartMeasurement></output>', '<output><DartMeasurement name="a" name="b" type="text/plain">x</DartMeasurement></output>',
             '<output><DartMeasurement name=a type="text/plain">x</DartMeasurement></output>', '<output><DartMeasurement name="a>x</DartMeasurement></output>',
             '<output><DartMeasurementFile name="a" type="text/plain"><x>y</x></DartMeasurementFile></output>', '<output>&#0;</output>', '<output>&#xFFFF;</output>', '<OUTPUT></output>']
    for n in (1000, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4096):      # around the blocks in which it is read
        big = '<output>' + ' ' * (n - 40) + element(full[0])
        bads += [big[:n], (big + '</output>')[:n - 1], big + '</output', big + '</output>x', (big + ' ' * n)[:n], '<output>' + 'x' * n, big + '</output>' + '\n' * n + '<']
    for t in bads:
        if '\xff' not in t:
            m.add(t, rnd.choice((made, full, [], made[:1], made[:3])), expecting(rnd.choice((None, '-1', None))))
            if m.runs[-1].args[-1] == '-1':
                m.runs[-1].ops.append(Op('ret', '', -1))
    conform(c, exe, m.runs, 'Ended NotStarted FailRight', 'runs')


def written(rnd, e):
    """a decimal number, as some would write it"""
    return ('-' if e < 0 else rnd.choice(('', '', '+'))) + '0' * rnd.choice((0, 0, 1, 2, 7)) + str(abs(e))


@prop('P03')
def p03(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    models(c)
    m = Maker(c)
    base = [('P', 'a', 'x'), ('S', 'b', 'y')]
    vals = [0, 1, -1, 2, 5, -5, 127, 128, 255, 256, -128, -256, 1000, 2147483647, -2147483648]
    tests = [base, [], base[:1], [base[0], ('S', 'b', 'z')], base + base]
    for e, r in itertools.product(vals, vals):
        for how in range(6):
            if e != r and how not in (0, 1) and rnd.random() > (1 if c.thorough else .25):
                continue
            ti = rnd.randrange(len(tests))
            for rec in (0, 1):
                t = tests[ti] + [('ret', '', r)]
                b = None if rec else base
                if how == 0: m.add(b, t, ['-R', str(e)])
                elif how == 1: m.add(b, t, [], sets={'exp': e})
                elif how == 2: m.add(b, t, ['-R', str(e)], sets={'exp': rnd.choice(vals)})
                elif how == 3: m.add(b, t, ['-R', str(rnd.choice(vals)), '-R', str(rnd.choice(vals)), '-R', str(e), 'x'])
                elif how == 4: m.add(b, [('exp', '', e)] + t, ['-R', str(rnd.choice(vals))])
                else: m.add(b, t, [], ['-R', written(rnd, e), '-O', 'o'])
    # number of mismatches and value expected are no relatives
    for n in range(0, 9):
        for e in (0, n, n + 1, -n, -1, 1):
            m.add(base, ([('P', 'a', 'z')] * n or base) + [('ret', '', e)], ['-R', str(e)])
            m.add([('P', 'a', 'x')] * 8, [('P', 'a', 'z')] * n + [('P', 'a', 'x')] * (8 - n) + [('ret', '', e)], [], sets={'exp': e})
            for r in (n, 0, e + 1):
                m.add([('P', 'a', 'x')] * 8, [('P', 'a', 'z')] * n + [('ret', '', r)], ['-R', str(e)])
    for e in (7, 8, 9, 10, 17, 64, 100, -10, -64, -8, 0):
        for w in ('0%d', '00%d', '+0%d', '000000000000%d'):
            w = w % e if e >= 0 else '-' + w.lstrip('+') % -e
            for r in (e, int(str(abs(e)), 8) if not set(str(abs(e))) & set('89') else 0, 0):
                m.add(rnd.choice((None, base)), base + [('ret', '', r)], ['-R', w])
    for ex in range(0, 300 if c.thorough else 40):
        e = rnd.randrange(-300, 300); r = rnd.choice((e, e, rnd.randrange(-300, 300), 0, 0))
        b = [some(rnd) for _ in range(rnd.randrange(6))]
        m.add(rnd.choice((None, b)), edited(rnd, b, rnd.randrange(3)) + [('ret', '', r)], ['-R', str(e)])
    conform(c, exe, m.runs, 'Ended CountRight RetRight', 'runs')


def named(rnd, n, tag='m'):
    """measurements which all have names of their own"""
    return [(k, '%s%d' % (tag, i), v) for i, (k, _, v) in enumerate(some(rnd) for _ in range(n))]


@prop('P04')
def p04(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    models(c)
    m = Maker(c)
    # by position, with names which tell the places: base and test over the same few
    for n in (3, 4) + ((5,) if c.thorough else ()):
        ms = [('S' if i % 2 else 'P', 'abcde'[i], 'x') for i in range(n)]
        for p in itertools.permutations(ms):
            m.add(ms, list(p))
            m.add(ms, list(p)[:n - 1])
            m.add(ms[:n - 1], list(p))
    for x in pairs(c, 3, 3, 2) + pairs(c, 2, 3, 3):
        L = [('P', 'a', 'x'), ('P', 'b', 'x'), ('S', 'a', 'x')]
        m.add([L[k - 1] for k in x['b']], [L[k - 1] for k in x['t']])
    for _ in range(1500 if c.thorough else 400):
        n = rnd.choice((1, 2, 3, 5, 8, 13, 30))
        base = named(rnd, n)
        if rnd.random() < .3:      # the same name often
            base = [(k, rnd.choice('ab'), v) for k, _, v in base]
        t = list(base)
        for _ in range(rnd.choice((1, 1, 2, 4))):
            w, at = rnd.randrange(7), rnd.randrange(len(t) + 1)
            if w == 0: t.insert(at, ('P', 'new%d' % at, 'x'))
            elif not t: pass
            elif w == 1: del t[at % len(t)]
            elif w == 2: i, j = rnd.randrange(len(t)), rnd.randrange(len(t)); t[i], t[j] = t[j], t[i]
            elif w == 3: k, nm, v = t[at % len(t)]; t[at % len(t)] = ('S' if k == 'P' else 'P', nm, 'x')
            elif w == 4: t[at % len(t)] = other(rnd, t[at % len(t)])
            elif w == 5: t = t + t[:rnd.randrange(4)]
            else: t.insert(at, t[at % len(t)])
        m.add(base, t)
    for n in (100, 300) + ((1000,) if c.thorough else ()):
        base = named(rnd, n)
        m.add(base, base[1:])
        m.add(base, base[:n // 2] + base[n // 2 + 1:])
        m.add(base, [('P', 'first', 'x')] + base)
        m.add(base, [(k, nm, v) if i % 10 else other(rnd, (k, nm, v)) for i, (k, nm, v) in enumerate(base)])
        m.add(base[:n // 2], base)
    conform(c, exe, m.runs, 'PairRight CountRight', 'runs')


@prop('P05')
def p05(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    models(c)
    c.model('DiffMC')
    m = Maker(c)
    # every type, as every kind of report
    for a, b in itertools.product(NUMS + LETTERS[:3] + [('P', 'n', 'l1\nl2'), ('S', 'n', '5')], repeat=2):
        m.add([a], [b])
    for t in WORDS:
        for u in WORDS:
            if rnd.random() < (1 if c.thorough else .35):
                n = rnd.choice(NAMES)
                m.add([('P', n, t), ('S', n, t)], [('P', n, u), ('S', n, u), ('S', n, u)], rnd.choice(([], ['-O', 'o'])))
    for n in NAMES:
        m.add([('P', n, 'x'), ('I', n, 3), ('D', n, 1)], [('S', n, 'x'), ('I', n, 4), ('D', n, 2), ('P', n, 'y')])
    for _ in range(1500 if c.thorough else 350):
        base = [some(rnd) for _ in range(rnd.randrange(1, 14))]
        m.add(base, edited(rnd, base, rnd.choice((1, 2, 4, 8))), rnd.choice(([], ['-O', 'o'], ['x', 'y'])))
    chars = ''.join(map(chr, range(32, 127))) + '\n\t'
    for _ in range(300 if c.thorough else 80):
        def text(n): return ''.join(rnd.choice(chars) for _ in range(rnd.randrange(n)))
        n = text(20)
        m.add([('S', n, text(60)), ('P', n, text(200)), ('P', n, 'x')], [('S', n, text(60)), ('P', n, text(200)), ('S', n, text(2000))])
    for n in (1000, 5000, 20000):      # long ones
        m.add([('S', 'a', 'x' * n), ('P', 'b', 'x\n' * (n // 50) + 'q')], [('S', 'a', 'x' * (n - 1) + 'y'), ('P', 'b', 'x\n' * (n // 50) + 'r'), ('P', 'c', '&' * n)])
    # encoded baselines: both are shown as they are
    import base64
    for t in ('x', 'hello', 'a\nb', '&<>'):
        e = base64.b64encode(t.encode()).decode()
        d = '<output><DartMeasurement name="a" type="text/string" encoding="base64">%s</DartMeasurement>' % e
        m.add(d + '</output>', [('S', 'a', t)])
        m.add(d + '</output>', [('S', 'a', t + 'x')])
        m.add(d + '<DartMeasurement name="b" type="text/plain" encoding="base64">%s</DartMeasurement></output>' % e, [('S', 'b', t), ('P', 'b', t)])
    # files
    for k in range(12):
        p = m.add(None, [('FT', 'f', 'n1'), ('FT', 'f', 'd/n2'), ('FT', 'g', 'n1'), ('P', 'f', 'one'), ('P', 'f', 'two'), ('FT', 'f', 'none')][:k % 6 + 1],
                  (['-P', 'd'] if k > 5 else []) + ['-I', 'b.xml'])
        p.dir('d').file('n1', 'one').file('d/n2', 'two').file('d/n1', 'three')
        p.file('b.xml', document([('FT', 'f', 'n1')] * 3 + [('P', 'f', 'two')] * 2 + [('FT', 'f', 'n1')]))
    # many of them
    for n in (255, 300, 1700) + ((3500,) if c.thorough else ()):
        m.add([('S', 'a%d' % i, 'x') for i in range(n)], [('S', 'a%d' % i, 'y' if i % 3 else 'x') for i in range(n)])
    for n in (1100,) + ((3000,) if c.thorough else ()):
        m.add([], [('S', 'a%d' % i, 'x') for i in range(n)])
        m.add([('S', 'a', '1')] * n, [])
        m.add([('P', 'a', '\n'.join('line %d' % i for i in range(n)))] * 2, [('P', 'a', '\n'.join('line %d' % (i if i % 100 else -i) for i in range(n))), ('P', 'a', 'new\n' * n)])
    for n in (66000,) + ((1 << 17,) if c.thorough else ()):
        m.add([('S', 'a', 'x' * n), ('P', 'b', 'x\n' * (n // 50) + 'q')], [('S', 'a', 'x' * (n - 1) + 'y'), ('P', 'b', 'x\n' * (n // 50) + 'r'), ('P', 'c', '&' * n)])
    conform(c, exe, m.runs, 'ReportsRight CountRight', 'runs')


@prop('P10')
def p10(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    models(c)
    m = Maker(c)
    toks = ['-I', '-O', '-R', '-P', 'f', 'd', 'o', '7']
    g = c.generate('RegressionGen', env={'WHAT': 'args', 'LETTERS': '8', 'BASE': '4', 'TEST': '0'})
    here, there, third = [('S', 'a', 'x')], [('S', 'a', 'y'), ('S', 'b', 'x')], [('S', 'a', 'z')]
    script = [('S', 'a', 'x'), ('S', 'b', 'x')]

    def world(p):
        p.dir('d').dir('e').file('f', document(here)).file('d/f', document(there)).file('e/f', document(third)).file('h', document(third)).file('e/h', document(here))
    for x in g:
        a = [toks[k - 1] for k in x['a']]
        if len(a) == 4 and not c.thorough and (a[0][0] != '-' or rnd.random() > .5):
            continue
        world(m.add(None, script + [('ret', '', 7 if '-R' in a else 0)], a))
    odd = ['', '-', '--', '-i', '-o', '-II', '-Ix', 'I', '-I ', ' -I', '--I', '/I', '-r', '-Q', '-0', 'f', '-I', '-O', '-R', '-P', 'a b', '*', 'x' * 300, '-h', '--help', '\n', '"', '=', '-O=o', '-Oo', '-R5', '\xe9']
    good = [('-I', 'f'), ('-I', 'h'), ('-O', 'o'), ('-O', 'o2'), ('-O', 'd/o'), ('-R', '0'), ('-R', '7'), ('-R', '-3'), ('-P', 'd'), ('-P', 'e'), ('-P', '.'), ('-P', 'd/'), ('-P', 'd/../e'), ('-I', 'd/f'), ('-I', './f')]
    for i in range(4000 if c.thorough else 900):
        a = []
        for _ in range(rnd.choice((0, 1, 2, 3, 5, 8))):
            a += rnd.choice(good)
        first = True
        rest = []
        for _ in range(rnd.choice((0, 1, 1, 2, 4, 9))):
            x = rnd.choice(odd)
            if not rest and x in ('-I', '-O', '-R', '-P'):
                continue
            rest.append(x)
        kw = {}
        if i % 3 == 0:
            kw['sets'] = rnd.choice(({'in': 'h'}, {'out': 'o3'}, {'in': 'f', 'out': 'o3', 'exp': 4}, {'pre': 'e'}, {'paths': ['e', 'd']}, {'in': 'h', 'paths': ['d', 'e']}))
        r = rnd.choice((0, 7, -3, 4))
        world(m.add(None, script + [('ret', '', r)], a + rest, prog=rnd.choice(('prog', './prog', '/a/b/prog', '', '-I')), **kw))
    for n in (30, 100, 300):
        a = [x for _ in range(n) for x in rnd.choice(good)]
        world(m.add(None, script, a + ['x%d' % i for i in range(n)]))
        world(m.add(None, script, [x for i in range(n) for x in ('-P', 'de'[i % 2])] + ['-I', 'f', 'end']))
    conform(c, exe, m.runs, 'ArgsRight NamesRight OthersStay StartedOnce NotStarted PairRight ModeSteady', 'runs')
