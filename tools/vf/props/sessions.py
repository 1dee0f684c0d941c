"""P29: runs which are made in one process."""
import itertools, os, random
from . import prop
from .. import build
from ..engine import drive, hexs, ints, CheckError
from ..runs import DEFTOL, Op, Place, b, document, ops
from .lifecycle import NUMS, LETTERS, THROWS, edited, named, some

CHECKS = 'Ended NotStarted StartedOnce SubsRight FailRight RetRight CountRight ModeSteady ArgsRight NamesRight OthersStay ReportsRight PairRight RecordRight AnswerRight'
DOCS = {'d0': [], 'd1': [('I', 'a', 1), ('P', 'b', 'x\ny')], 'd2': [('I', 'a', 2), ('D', 'c', 2.5), ('S', 's', 'text'), ('I', 'a', 1)]}


class One:
    """a run of a session"""
    def __init__(self, obj, args=(), script=(), sets=(), nested=False):
        self.obj, self.args, self.ops, self.sets, self.nested = obj, ['prog'] + list(args), ops(script), list(sets), nested


def change(k, v):
    return {'k': k, 'v': [ints(b(x)) for x in v] if k == 'paths' else int(v) if k == 'exp' else ints(b(str(v)))}


class Session:
    def __init__(self, place, runs, timeout=10, files=0, last=0):
        self.place, self.runs, self.timeout, self.files, self.last = place, runs, timeout, files, last
        self.first = None

    def names(self):
        l = []
        for r in self.runs:
            l += [r.args[i + 1] for i in range(1, len(r.args) - 1) if r.args[i] == '-O'] + [v for k, v in r.sets if k == 'out' and v]
        return list(dict.fromkeys(l))

    def block(self, k):
        w = ['session %s' % k, 'dir ' + hexs(self.place.root), 'timeout %d' % self.timeout] + (['files %d' % self.files] if self.files else [])
        for r in self.runs:
            w.append('of %s %d' % (r.obj, r.nested))
            w += ['arg ' + hexs(b(a)) for a in r.args]
            w += ['out ' + hexs(b(n)) for n in self.names()]
            for n, v in r.sets:
                w.append('set paths ' + ' '.join(hexs(b(x)) for x in v) if n == 'paths' else 'set %s %s' % (n, hexs(b(v)) if n in ('in', 'out', 'pre') else v))
            w += [o.words() for o in r.ops]
        return '\n'.join(w + ['end', ''])

    def order(self):
        """in which the runs come to their ends, with the ones which start in them"""
        out = []

        def visit(j):
            for o in self.runs[j].ops:
                if o.kind == 'sub':
                    visit(o.value)
            out.append(j)
        for j, r in enumerate(self.runs):
            if not r.nested:
                visit(j)
        return out

    def reset(self):
        for n in self.names():
            p = self.place.abs(n)
            if self.first is None or p not in self.first:
                self.first = dict(self.first or {}, **{p: open(p, 'rb').read() if os.path.isfile(p) else None})
            elif self.first[p] is None:
                if os.path.isfile(p):
                    os.unlink(p)
            else:
                with open(p, 'wb') as f:
                    f.write(self.first[p])

    def observed(self, a):
        """one observation for each run"""
        out = [None] * len(self.runs)
        base = {'root': ints(self.place.root), 'cwd': [], 'other': False}
        if a.get('crash'):
            return [dict(base, crash=a['crash'], args=[], tree=[], ops=[], sets=[], earlier=[], paths=[], disturbed=1)]
        now, earlier = {}, {}

        def tree():
            t = [e for e in self.place.tree if bytes(e['p']) not in now]
            return t + [{'p': list(p), 'k': 'file', 'c': c, 'm': 0o644} for p, c in now.items() if c is not None]

        def visit(j):
            r, g = self.runs[j], a['runs'][j]
            o = dict(base, crash=0, args=[ints(b(x)) for x in r.args], tree=tree(), ops=[x.spec() for x in r.ops], sets=[change(*s) for s in r.sets], paths=[],
                     earlier=list(earlier.get(r.obj, [])), disturbed=int(r.nested or any(x.kind == 'sub' for x in r.ops)))
            e = {k: o[k] for k in ('root', 'cwd', 'other', 'tree', 'args', 'sets', 'ops')}
            subs = 0
            for x in r.ops:
                if x.kind == 'sub' and a['runs'][x.value]['res'] is not None:
                    subs += 1
                    visit(x.value)
            earlier.setdefault(r.obj, []).append(e)
            res, test = g['res'], g['test']
            o.update(has=int(res is not None), res=res or {'v': 0, 'in': [], 'out': [], 'exp': 0}, test=test or {'argc': 0, 'argv': [], 'cmp': 0, 'pos': 0},
                     ntest=g['ntest'], ms=g['ms'], sig=a['sig'], code=a['code'], outs=g['outs'], subs=subs)
            for f in g['outs']:
                p = os.fsencode(self.place.abs(os.fsdecode(bytes(f['n']))))
                if f['n'] and (f['there'] or p in now):
                    now[p] = f['c'] if f['there'] else None
            out[j] = o
        for j, r in enumerate(self.runs):
            if not r.nested:
                visit(j)
        return [o for o in out if o is not None][-self.last:]


def observe(exe, sessions, ks):
    for k in ks:
        sessions[k].reset()
    a = drive(exe, [(k, sessions[k].block(k)) for k in ks])
    return [sessions[k].observed(a[k]) for k in ks]


def conform(c, exe, sessions, label):
    cfg = 'SPECIFICATION Spec\nVIEW View\nALIAS Short\nINVARIANTS NoCrash %s\nCHECK_DEADLOCK FALSE\n' % CHECKS
    obs = observe(exe, sessions, range(len(sessions)))
    at = [(k, i) for k, l in enumerate(obs) for i in range(len(l))]

    def rerun(n):
        k, i = at[n]
        l = observe(exe, sessions, [k])[0]
        return l[i:i + 1] or l[-1:]
    return c.conform('RegressionTrace', [o for l in obs for o in l], rerun, cfgtext=cfg, label=label)


# what may become of a run
KINDS = ('match', 'less', 'differ', 'more', 'throw', 'late', 'record', 'halfway', 'badarg', 'missing', 'broken', 'noout', 'ret', 'expected', 'empty')


def args_of(kind, k, out):
    """arguments and test of a run of that kind, with its output in a file or not"""
    d1 = DOCS['d1']
    args = ['-O', 'o%d' % k] if out else []
    base = ['-I', 'd1']
    other = [('I', 'a', 7), ('P', 'b', 'x\nz')]
    if kind == 'match':
        return args + base, d1
    if kind == 'less':
        return args + base, d1[:1]
    if kind == 'differ':
        return base + args, other
    if kind == 'more':
        return args + base, d1 + [('S', 'n', 'new'), ('I', 'z', 1)]
    if kind == 'throw':
        return args + base, other[:1] + [('throw', '', 'runtime')] + other[1:]
    if kind == 'late':
        return args + base, other + [('throw', '', 'int')]
    if kind == 'record':
        return args, DOCS['d2']
    if kind == 'halfway':
        return args, DOCS['d2'][:2] + [('throw', '', 'runtime')]
    if kind == 'badarg':
        return args + ['-R', '3'] + base + ['-P', 'nowhere'], d1
    if kind == 'missing':
        return args + ['-I', 'nothing'], d1
    if kind == 'broken':
        return args + ['-I', 'broken'], d1
    if kind == 'noout':
        return base + ['-O', 'dir'], d1
    if kind == 'ret':
        return args + base, other + [('ret', '', 5)]
    if kind == 'expected':
        return args + base + ['-R', '5'], other + [('ret', '', 5)]
    if kind == 'files':
        return args + ['-I', 'df'], [('FT', 'f', 'f1'), ('FT', 'f', 'f1'), ('FT', 'g', 'f2'), ('FT', 'h', 'none')]
    return args + ['-I', 'd0'], []


NEW = [('in', ''), ('out', ''), ('exp', '0'), ('paths', ())]     # as a new object


def place(c):
    p = Place(c)
    for n, l in DOCS.items():
        p.file(n, document(ops(l)))
    p.file('df', document(ops([('FT', 'f', 'f1'), ('FT', 'f', 'f2'), ('FT', 'g', 'f2'), ('FT', 'h', 'f1')]))).file('f1', 'text of a file\n').file('f2', 'another\ntext\n')
    p.file('broken', document(ops(DOCS['d2']))[:-12]).dir('dir').dir('sub').file('sub/d1', document(ops(DOCS['d2'])))
    return p


def session(c, kinds, outs, objs=None, sets=NEW):
    runs = []
    for k, kind in enumerate(kinds):
        a, t = args_of(kind, k, outs[k])
        runs.append(One('x' if objs is None else objs[k], a, t, sets))
    return Session(place(c), runs)


def around(c, outer, inner, at, out):
    """a run in a run, of another object"""
    a, t = args_of(outer, 0, out)
    ai, ti = args_of(inner, 1, True)
    t = ops(t)
    at = min(at, len(t))
    runs = [One('x', a, t[:at] + [Op('sub', value=1)] + t[at:], NEW), One('y', ai, ti, NEW, nested=True), One('x', *args_of(outer, 2, out), NEW)]
    return Session(place(c), runs)


def wild(c, rnd):
    """anything: settings which stay, records which are replayed"""
    p = place(c)
    runs, files, depth = [], ['d0', 'd1', 'd2', 'broken', 'sub/d1'], 0
    content = dict(DOCS, **{'sub/d1': DOCS['d2']})
    for k in range(rnd.randrange(2, 8)):
        args, sets = [], []
        f = rnd.choice(files)
        script = content.get(f, DOCS['d1'])
        if rnd.random() < .35:
            sets += rnd.sample(NEW, rnd.randrange(1, 5))
        if rnd.random() < .55:
            (args.extend(('-I', f)) if rnd.random() < .6 else sets.append(('in', f)))
        if rnd.random() < .5:
            (args.extend(('-O', 'o%d' % k)) if rnd.random() < .7 else sets.append(('out', 'o%d' % k)))
            files.append('o%d' % k)
            content['o%d' % k] = script
        if rnd.random() < .2:
            (args.extend(('-R', rnd.choice(('0', '3', '-1')))) if rnd.random() < .6 else sets.append(('exp', rnd.choice(('0', '3', '256')))))
        if rnd.random() < .2:
            (args.extend(('-P', rnd.choice(('sub', '.', 'nowhere')))) if rnd.random() < .5 else sets.append(rnd.choice((('pre', 'sub'), ('paths', ('sub', 'dir')), ('paths', ())))))
        if rnd.random() < .15:
            sets.append(('tol', rnd.choice(('0', '0.5', DEFTOL))))
        if rnd.random() < .2:
            args.append(rnd.choice(('-I', 'x', '-O', '-X', '')))
        t = edited(rnd, list(script), rnd.choice((0, 0, 1, 2)))
        if rnd.random() < .4:
            at = rnd.randrange(len(t) + 1)
            t.insert(at, rnd.choice([('throw', '', rnd.choice(THROWS)), ('ret', '', 3), ('ret', '', 0), ('tol', '', '0.5'), ('exp', '', 3), ('tol', '', '0')]))
            if t[at][0] == 'ret':
                t = t[:at + 1]
        runs.append(One(rnd.choice('xxy'), args, t, sets))
    # some of them in others
    for k in range(len(runs) - 1):
        if rnd.random() < .2 and runs[k].obj != runs[k + 1].obj and not runs[k].nested:
            r = runs[k + 1]
            r.nested = True
            r.sets += [('out', 'n%d' % k), ('in', rnd.choice(('', 'd1', 'd2', 'sub/d1', 'broken')))]
            if '-I' in r.args:
                r.args = ['prog']
            runs[k].ops.insert(rnd.randrange(len(runs[k].ops) + 1), Op('sub', value=k + 1))
    return Session(p, runs)


@prop('P29')
def p29(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.model('SessionMC', 'SessionMCMore.cfg' if c.thorough else None)
    S = []
    # every two, and three, kinds of runs of an object
    for kinds in itertools.product(KINDS, repeat=2):
        for outs in ((0, 0), (1, 0), (0, 1), (1, 1)) if c.thorough else ((rnd.randrange(2), 0), (rnd.randrange(2), 1)):
            S.append(session(c, kinds, outs))
    for kinds in itertools.product(KINDS, repeat=3):
        if c.thorough or rnd.random() < .04:
            S.append(session(c, kinds, [rnd.randrange(2) for _ in kinds], rnd.choice((None, 'xyx', 'xyy', 'xyz'))))
    for i in range(60 if c.thorough else 15):
        n = rnd.choice((6, 12))
        S.append(session(c, [rnd.choice(KINDS) for _ in range(n)], [rnd.randrange(2) for _ in range(n)], [rnd.choice('xxy') for _ in range(n)]))
    conform(c, exe, S, 'one after the other')
    S = []
    for outer, inner in itertools.product(KINDS, repeat=2):
        for at, out in itertools.product((0, 1, 9), (0, 1)):
            if c.thorough or rnd.random() < .25:
                S.append(around(c, outer, inner, at, out))
    conform(c, exe, S, 'within each other')
    S = [wild(c, rnd) for _ in range(1500 if c.thorough else 300)]
    conform(c, exe, S, 'of all kinds')
    # many runs, where only a few files may be open: the last ones are as the first ones
    S = []
    for kind in KINDS + ('files',):
        for objs in ('x', 'xy', None):
            n = 60 if c.thorough else 30
            k = [kind] * n + ['record', 'differ']
            s = session(c, k, [i % 2 for i in range(n)] + [1, 1], [objs[i % len(objs)] if objs else 'o%d' % i for i in range(n + 2)])
            s.files, s.last = 24, 2
            S.append(s)
    conform(c, exe, S, 'many')
