"""P27: what the watchers of filters write."""
import os, random
from . import prop
from .. import build
from ..engine import drive, hexs, ints

ITERATIONS = ['IterationEvent', 'MultiResolutionIterationEvent', 'FunctionEvaluationIterationEvent', 'GradientEvaluationIterationEvent',
              'FunctionAndGradientEvaluationIterationEvent']
EVENTS = ['StartEvent', 'EndEvent', 'AbortEvent', 'AnyEvent', 'ProgressEvent', 'ExitEvent', 'ModifiedEvent', 'InitializeEvent', 'PickEvent', 'StartPickEvent',
          'EndPickEvent', 'AbortCheckEvent', 'UserEvent'] + ITERATIONS
USUAL = ['StartEvent', 'IterationEvent', 'IterationEvent', 'EndEvent', 'AbortEvent', 'ProgressEvent']
CLASSES = ['F', 'MyFilter', 'DifferenceImageFilter', 'a class', '', 'x' * 200, 'A<b,c>']
COMMENTS = ['', 'c', 'a comment', '"quoted"', 'two\nlines', '<&>', 'x' * 300, ' ', '%s%n', '\xe9']


class History:
    def __init__(self):
        self.steps, self.lines = [], []
        self.procs, self.held, self.ws = [], [], {}

    def add(self, line, **st):
        self.lines.append(line)
        self.steps.append(st)

    def told(self, name):
        self.add('proc %d told %s' % (len(self.procs), hexs(name)), op='proc', p=len(self.procs), what='told', name=ints(name))
        self.procs.append('told'); self.held.append(True)

    def filter(self, size, threads):
        self.add('proc %d filter %d %d' % (len(self.procs), size, threads), op='proc', p=len(self.procs), what='filter')
        self.procs.append('filter'); self.held.append(True)

    def watch(self, j, p, own, to, comment):
        self.add('watch %d %d %s %d %s' % (j, p, 'own' if own else 'plain', to, hexs(comment)), op='watch', id=j, p=p, own=bool(own), to=to, comment=ints(comment))
        self.ws[j] = p

    def drop(self, j):
        self.add('drop %d' % j, op='drop', id=j)
        del self.ws[j]

    def ev(self, p, e, const=False):
        self.add('ev %d %s %s' % (p, e, 'c' if const else 'v'), op='ev', p=p, e=e)

    def run(self, p, script=()):
        self.add(' '.join(['run %d' % p] + list(script)), op='run', p=p, what=self.procs[p], script=list(script))

    def free(self, p):
        self.add('free %d' % p, op='free', p=p)
        self.held[p] = False

    def name(self, j):
        self.add('name %d' % j, op='name', id=j)

    def alive(self):
        return [p for p in range(len(self.procs)) if self.held[p] or p in self.ws.values()]

    def block(self, k):
        return '\n'.join(['watch %d' % k] + self.lines + ['end', ''])


def generated(case):
    h = History()
    h.told('F'); h.told('Other')
    for x in case['h']:
        if x['op'] == 'watch': h.watch(x['id'], x['p'], x['own'], x['id'], 'n%d' % x['id'])
        elif x['op'] == 'drop': h.drop(x['id'])
        elif x['op'] == 'free': h.free(x['p'])
        else: h.ev(x['p'], x['e'])
    for p in case['live']:
        for e in ('StartEvent', 'IterationEvent', 'EndEvent', 'AbortEvent'):
            h.ev(p, e)
    for j in list(h.ws):
        h.name(j); h.drop(j)
    return h


def history(rnd, n):
    h = History()
    for _ in range(rnd.choice((1, 2, 3))):
        if rnd.random() < .25: h.filter(rnd.randrange(1, 40), rnd.choice((0, 1, 2, 7, 32)))
        else: h.told(rnd.choice(CLASSES))
    j = 0
    for _ in range(n):
        live, k = h.alive(), rnd.random()
        if not live:
            break
        p = rnd.choice(live)
        if k < .18:
            h.watch(j, p, rnd.random() < .3, rnd.randrange(4), rnd.choice(COMMENTS)); j += 1
        elif k < .27:
            if h.ws: h.drop(rnd.choice(list(h.ws)))
        elif k < .32:
            if h.held[p] and rnd.random() < .5: h.free(p)
        elif k < .36:
            if h.ws: h.name(rnd.choice(list(h.ws)))
        elif k < .55:
            s = [rnd.choice(USUAL + EVENTS + ['progress', 'progress']) for _ in range(rnd.randrange(0, 9))]
            if rnd.random() < .3:
                s.insert(rnd.randrange(len(s) + 1), rnd.choice(('abort', 'fail', 'stop')))
            h.run(p, s if h.procs[p] == 'told' else ())
        else:
            h.ev(p, rnd.choice(USUAL + EVENTS), rnd.random() < .3)
    return h


@prop('P27')
def p27(c):
    rnd = random.Random(c.seed)
    exe = os.path.join(build.itk(), 'itkdrv')
    c.model('WatcherMC', 'WatcherMCMore.cfg' if c.thorough else None)
    hs = []
    for n in ('1', '2', '3') + (('4',) if c.thorough else ()):
        g = c.generate('WatcherGen', env={'LENGTH': n})
        rnd.shuffle(g)
        hs += [generated(x) for x in g[:30000 if c.thorough else 4000]]
    for e in EVENTS:                   # each kind of event, for each kind of watcher
        for own in (0, 1):
            for name, comment in ((rnd.choice(CLASSES), rnd.choice(COMMENTS)), ('F', 'c')):
                h = History()
                h.told(name); h.watch(0, 0, own, 1, comment); h.ev(0, e); h.ev(0, e, True); h.run(0, [e, e]); h.drop(0); h.ev(0, e); h.run(0, [e])
                hs.append(h)
    for size in (1, 2, 17, 100):       # a filter, with any number of threads
        for th in (0, 1, 2, 3, 8, 40):
            h = History()
            h.filter(size, th)
            for j in range(3): h.watch(j, 0, j == 1, j, 'w%d' % j)
            h.run(0); h.run(0); h.drop(1); h.run(0); h.free(0); h.drop(0); h.run(0); h.drop(2)
            hs.append(h)
    h = History()                      # many events, and many watchers
    h.told('Long')
    for j in range(60): h.watch(j, 0, j % 3 == 0, j % 4, 'c%d' % j)
    h.run(0, [USUAL[k % 6] for k in range(40)])
    for j in range(0, 60, 2): h.drop(j)
    h.run(0, ['IterationEvent'] * 30)
    hs.append(h)
    for e in USUAL[:2] + USUAL[4:] + ['EndEvent', 'progress']:     # for a long time
        h = History()
        h.told('Long'); h.watch(0, 0, False, 0, 'c'); h.watch(1, 0, True, 1, 'c')
        h.run(0, [e] * (3000 if c.thorough else 1100))
        hs.append(h)
    hs += [history(rnd, rnd.choice((5, 15, 40))) for _ in range(4000 if c.thorough else 700)]

    def observe(ks):
        a = drive(exe, [(k, hs[k].block(k)) for k in ks])
        return [dict(a[k], steps=hs[k].steps) for k in ks]
    c.conform('WatcherTrace', observe(range(len(hs))), lambda k: observe([k]), label='histories of watchers')
