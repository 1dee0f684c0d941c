"""P14, P15, P16: path names, searches, lists and the current directory."""
import itertools, random
from . import prop
from .. import build
from ..engine import drive, hexs, ints


def special_strings(rnd, chars, thorough):
    out = []
    for n in (6, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 1026, 2000, 5000):
        for _ in range(6 if thorough else 2):
            out.append(''.join(rnd.choice(chars) for _ in range(n)))
    return out


@prop('P15')
def p15(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.model('PathMC')
    gen = c.generate('PathGen', env={'SIZE': c.tier})
    singles = [bytes(g['p']).decode('latin-1') for g in gen if g['n'] == 1]
    pairs = [(bytes(g['p']).decode('latin-1'), bytes(g['q']).decode('latin-1')) for g in gen if g['n'] == 2]
    alpha = '/./a.b-_ \\:~*\xe9\xffC0'
    words = ['', '.', '..', '/', '//', 'a', 'a/', '/a', 'a/b', 'a//b', 'a.b', '.a', 'a.', 'a.b.c', 'a.b/c', 'a.b/', '/a.b', './a', '../a', 'a/.', 'a/..',
             '\\a', 'a\\b', 'C:/x', '~', '~/a', 'a b', ' ', 'a:b', '.tar.gz', 'x.tar.gz/', '...', '/.', '/..', '//a', '///', 'http://x/y.z', '\xe9/\xff.\xfe']
    singles += words + special_strings(rnd, alpha, c.thorough)
    singles += [''.join(rnd.choice(alpha) for _ in range(rnd.randrange(1, 14))) for _ in range(8000 if c.thorough else 1500)]
    pairs += list(itertools.product(words, words))
    longs = special_strings(rnd, alpha, c.thorough)
    pairs += [(rnd.choice(longs), rnd.choice(words)) for _ in range(40)] + [(rnd.choice(words), rnd.choice(longs)) for _ in range(40)]
    pairs += [('d' * n + '/' * rnd.randrange(4), 'n' * m) for n in (1, 15, 16, 255, 1023, 1024, 1100) for m in (1, 16, 255, 1024)]
    pairs += [('/' * n, w) for n in (1, 2, 3, 17, 300) for w in words]
    for _ in range(8000 if c.thorough else 1500):
        pairs.append(tuple(''.join(rnd.choice(alpha) for _ in range(rnd.randrange(0, 9))) for _ in range(2)))
    cases = [('parts', s, '') for s in singles] + [('join', s, '') for s in singles if '/' in s] + [('append', a, b) for a, b in pairs]

    def observe(ks):
        cmd = {'parts': 'pparts', 'join': 'pjoin', 'append': 'pappend'}
        a = drive(exe, [(k, '%s %d %s %s' % (cmd[cases[k][0]], k, hexs(cases[k][1]), hexs(cases[k][2]))) for k in ks])
        return [dict(a[k], kind=cases[k][0], p=ints(cases[k][1]), q=ints(cases[k][2])) for k in ks]
    c.conform('PathTrace', observe(range(len(cases))), lambda k: observe([k]))


class Tree:
    """a history of a directory tree, for the driver and for the model"""
    def __init__(self, c, name):
        self.root = c.scratch.sub('tree/' + name)
        self.steps, self.text, self.q = [], [], 0
        self.kinds = {}
        self.made = False

    def abs(self, p):
        return self.root + '/' + p if p else self.root

    def do(self, op, p='', **kw):
        p = self.abs(p)
        st = {'op': op, 'p': ints(p)}
        words = [op, hexs(p)]
        if 't' in kw:
            st['t'] = ints(kw['t']); words.append(hexs(kw['t']))
        if 'm' in kw:
            st['m'] = kw['m']; words.append('%o' % kw['m'])
        self.steps.append(st); self.text.append(' '.join(words))

    def user(self):
        self.steps.append({'op': 'user', 'p': []}); self.text.append('user')

    def query(self, op, p, l=()):
        self.q += 1
        self.steps.append({'op': op, 'p': ints(p), 'l': [ints(x) for x in l], 'q': self.q})
        self.text.append(' '.join([op, hexs(p)] + [hexs(x) for x in l]))

    def block(self, k):
        return 'tree %d\nroot %s\n%s\nend\n' % (k, hexs(self.root), '\n'.join(self.text))


KINDS = ('none', 'file', 'dir', 'fifo', 'lfile', 'ldir', 'lnone', 'lself', 'lfifo', 'llfile')


def entry(t, path, kind):
    """something of a kind at path; what links lead to is in x/"""
    up = '../' * path.count('/')
    to = {'lfile': up + 'x/f', 'ldir': up + 'x/d', 'lnone': up + 'x/nothing', 'lself': path.split('/')[-1], 'lfifo': up + 'x/p', 'llfile': up + 'x/l'}
    if kind == 'none':
        return
    if kind in to:
        t.do('link', path, t=to[kind])
    else:
        t.do(kind, path)


def targets(t):
    t.do('dir', 'x'); t.do('file', 'x/f'); t.do('dir', 'x/d'); t.do('fifo', 'x/p'); t.do('link', 'x/l', t='f')
    t.do('file', 'x/d/n')


def search_trees(c, rnd):
    trees = []
    combos = list(itertools.product(KINDS, repeat=3))
    if not c.thorough:
        some = [k for k in combos if k[2] in ('file', 'none') and k[1] in ('file', 'dir', 'lnone', 'none', 'lfile')]
        combos = some + rnd.sample(combos, 150)
    for i, ks in enumerate(combos):
        t = Tree(c, 's%d' % i)
        targets(t)
        for d, k in zip('abc', ks):
            t.do('dir', d); entry(t, d + '/n', k)
        dirs = ['a', 'b', 'c', 'missing', t.abs('a'), t.abs('b'), 'b/', './c', 'x/f', 'x/d', '', '.', t.abs('nothing')]
        lists = [(), ('a',), ('b', 'a'), ('a', 'b', 'c'), ('missing', 'c', 'b'), (t.abs('a'), 'b')]
        lists += [tuple(rnd.choice(dirs) for _ in range(rnd.randrange(1, 6))) for _ in range(12)]
        for l in lists:
            t.query('search', 'n', l)
        for nm in ('m', 'd/n', '../b/n', './n', '', t.abs('a/n'), t.abs('c/n'), 'n/', '.', '..', 'n/.', '/nonexistent/n'):
            t.query('search', nm, tuple(rnd.choice([d for d in dirs if nm[:2] != '..' or d not in ('', '.', t.root)]) for _ in range(3)))
        for d in 'abc':
            t.query('pred', d + '/n'); t.query('pred', t.abs(d) + '/n/')
        trees.append(t)
    # long lists and long names
    for i, n in enumerate((16, 17, 64, 128, 257) + ((1000,) if c.thorough else ())):
        t = Tree(c, 'l%d' % i)
        names = []
        for j in range(n):
            t.do('dir', 'd%d' % j); names.append('d%d' % j)
        at = sorted({0, n // 2, n - 1})
        t.query('search', 'n', names)
        for j in reversed(at):
            t.do('file', 'd%d/n' % j)
            t.query('search', 'n', names)
            t.query('search', 'n', names[::-1])
        trees.append(t)
    for i, (depth, width) in enumerate(((1, 255), (4, 250), (10, 120), (14, 200), (2, 100))):
        t = Tree(c, 'w%d' % i)
        p = ''
        for j in range(depth):
            p = (p + '/' if p else '') + chr(97 + j) * width
            t.do('dir', p)
        t.do('file', p + '/' + 'n' * 200)
        t.query('search', 'n' * 200, ['.', p]); t.query('search', 'n' * 200, [t.abs(p)]); t.query('search', 'n' * 199, [p])
        t.query('pred', p); t.query('pred', p + '/' + 'n' * 200)
        t.query('search', p + '/' + 'n' * 200, ['.'])
        trees.append(t)
    # odd names
    for i, nm in enumerate(('a b', 'a:b', '-n', '~', '*', '\xe9', 'n.txt', '.n', '...', "n'", '"', '\\', '#', '%41', 'N', '$HOME')):
        t = Tree(c, 'o%d' % i)
        for d in ('p', 'q', 'r'):
            t.do('dir', d)
        t.do('dir', 'p/' + nm); t.do('file', 'r/' + nm); t.do('file', 'q/x' + nm); t.do('dir', nm)
        t.query('search', nm, ['p', 'q', 'r']); t.query('search', nm, ['q']); t.query('search', nm, ['.'])
        t.query('search', 'x' + nm, [nm, 'p', 'q']); t.query('pred', nm); t.query('pred', 'r/' + nm)
        t.query('search', nm.upper() + 'z', ['p', 'r'])
        trees.append(t)
    return trees


def history_trees(c, rnd, count, other):
    """changes between the calls"""
    trees = []
    for i in range(count):
        t = Tree(c, ('u' if other else 'h') + str(i))
        targets(t)
        have = {}
        dirs = ['a', 'b', 'e']
        for d in dirs:
            t.do('dir', d)
        links = 0

        def kinds(p):
            return have.get(p, 'none')
        places = [d + '/' + n for d in dirs for n in 'nm']
        if other:
            for p in places:
                k = rnd.choice(KINDS); entry(t, p, k); have[p] = k
                if k in ('file', 'dir', 'fifo') and rnd.random() < .8:
                    t.do('chmod', p, m=rnd.choice((0, 0o600, 0o644, 0o666, 0o755, 0o711, 0o444, 0o222, 0o111, 0o777, 0o004, 0o005, 0o007, 0o001)))
            for d in dirs + ['x/d', 'x/f', 'x']:
                if rnd.random() < .5:
                    t.do('chmod', d, m=rnd.choice((0, 0o700, 0o755, 0o711, 0o744, 0o777, 0o005, 0o004, 0o001)) if d != 'x/f' else rnd.choice((0, 0o644, 0o600, 0o111)))
            t.user()
        for _ in range(14):
            if not other and rnd.random() < .6:
                p = rnd.choice(places)
                if kinds(p) == 'none':
                    k = rnd.choice(KINDS[1:]); entry(t, p, k); have[p] = k
                elif rnd.random() < .3 and kinds(p) in ('file', 'dir', 'fifo'):
                    t.do('chmod', p, m=rnd.choice((0, 0o644, 0o755, 0o100, 0o010, 0o001)))
                else:
                    t.do('rm', p); have[p] = 'none'
            p = rnd.choice(places)
            t.query('search', p[-1], [rnd.choice(dirs + ['x/d', t.abs('b'), 'b/m']) for _ in range(3)])
            for p in rnd.sample(places, 2):
                t.query('pred', p)
        for d in dirs + ['x', 'x/f', 'x/l', 'x/p', 'x/d/', '.', '', '/nonexistent', 'a/n/..', 'b/m/']:
            t.query('pred', d)
        trees.append(t)
    return trees


def observe_trees(exe, trees, ks):
    a = drive(exe, [(k, trees[k].block(k)) for k in ks])
    out = []
    for k in ks:
        t = trees[k]
        out.append(dict(a[k], root=ints(t.root), steps=t.steps))
    return out


def run_trees(c, exe, trees):
    def observe(ks):
        return observe_trees(exe, trees, ks)

    def again(k):
        # from the beginning, in an empty directory
        import os, shutil, subprocess
        subprocess.run(['chmod', '-R', 'u+rwX', trees[k].root])
        shutil.rmtree(trees[k].root); os.makedirs(trees[k].root)
        return observe([k])
    obs = observe(range(len(trees)))
    keep = [k for k in range(len(obs)) if obs[k].get('code') != 112]
    if len(keep) < len(obs):
        c.notes.append('%d histories of an unprivileged user left out, there is no right to change the user' % (len(obs) - len(keep)))
    c.conform('FileSystemTrace', [obs[k] for k in keep], lambda j: again(keep[j]))


@prop('P14')
def p14(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.models_parallel([('FileSystemMC', 'FileSystemMC.cfg'), ('FileSystemMC', 'FileSystemMCOther.cfg')])
    trees = search_trees(c, rnd) + history_trees(c, rnd, 600 if c.thorough else 120, False) + history_trees(c, rnd, 400 if c.thorough else 80, True)
    run_trees(c, exe, trees)


def cd_trees(c, rnd, count):
    trees = []
    for i in range(count):
        t = Tree(c, 'c%d' % i)
        targets(t)
        for d in ('a', 'a/b', 'a/b/c', 'd', 'd/e'):
            t.do('dir', d)
        t.do('link', 'd/l', t='../a/b'); t.do('link', 'a/l', t=t.abs('d')); t.do('link', 'a/bad', t='nothing'); t.do('file', 'a/f'); t.do('link', 'a/lf', t='f')
        other = i % 4 == 3
        if other:
            for d in ('a', 'd', 'd/e', 'a/b'):
                if rnd.random() < .5:
                    t.do('chmod', d, m=rnd.choice((0, 0o700, 0o711, 0o744, 0o755)))
            t.user()
        names = ['a', 'b', 'c', 'd', 'e', 'l', '..', '.', '../..', 'a/b', 'b/c', 'd/l', 'a/l', 'd/e', '', 'f', 'lf', 'bad', 'nothing', 'a/', 'b//c', './b',
                 t.abs(''), t.abs('a'), t.abs('a/b/c'), t.abs('d/l'), t.abs('a/f'), t.abs('nothing'), t.root + '/', t.abs('a//b')]
        links = {('d', 'l'): '../a/b', ('a', 'l'): t.abs('d')}
        dirs = [(), ('a',), ('a', 'b'), ('a', 'b', 'c'), ('d',), ('d', 'e'), ('x',), ('x', 'd')]

        def walk(at, path):
            """where a name leads, 'out' when it leads out of the tree"""
            if path.startswith('/'):
                if not path.startswith(t.root):
                    return None
                at, path = (), path[len(t.root):]
            for n in path.split('/'):
                if n in ('', '.'):
                    continue
                if n == '..':
                    if not at:
                        return 'out'
                    at = at[:-1]
                elif at + (n,) in links:
                    at = walk(at, links[at + (n,)])
                elif at + (n,) in dirs:
                    at += (n,)
                else:
                    return None
                if at in ('out', None):
                    return at
            return at
        here = {()}     # more than one when permissions may be in the way

        def cd(d):
            to = {p: walk(p, d) if d else None for p in here}
            if 'out' in to.values():
                return
            t.query('cd', d)
            new = {q for q in to.values() if q is not None} | {p for p in here if to[p] is None or other}
            here.clear(); here.update(new)
        for _ in range(30):
            cd(rnd.choice(names))
        cd(t.abs('a/b/c'))
        for d in ('..', '../c', '../../..', 'd/../a', 'x/f', 'a/b/../../d/l'):
            cd(d)
        trees.append(t)
    for i, (depth, width) in enumerate(((1, 255), (4, 200), (9, 100), (7, 139), (5, 200), (10, 220), (16, 230))):
        t = Tree(c, 'y%d' % i)
        p = ''
        for j in range(depth):
            p = (p + '/' if p else '') + chr(97 + j) * width
            t.do('dir', p); t.query('cd', t.abs(p))
        t.query('cd', t.root); t.query('cd', p); t.query('cd', 'nothing')
        trees.append(t)
    # names of every length around those of buffers
    for i, n in enumerate((256, 512, 1024, 2048)):
        t = Tree(c, 'b%d' % i)
        p = ''
        while len(t.abs(p)) < n - 260:
            p = (p + '/' if p else '') + 'd' * 200
            t.do('dir', p)
        for k in range(-3, 4):
            left = n + k - len(t.abs(p)) - 1
            if 0 < left < 256:
                q = (p + '/' if p else '') + 'e' * left
                t.do('dir', q); t.query('cd', t.abs(q)); t.query('where', '')
            elif left >= 256:
                q = (p + '/' if p else '') + 'e' * (left // 2)
                t.do('dir', q)
                q += '/' + 'f' * (left - left // 2 - 1)
                t.do('dir', q); t.query('cd', t.abs(q)); t.query('where', '')
        trees.append(t)
    # directories which are moved or removed while one is in them
    for i in range(count // 2):
        t = Tree(c, 'm%d' % i)
        dirs, cwd, gone = {''}, '', False
        for _ in range(30):
            d = rnd.choice(sorted(dirs))
            n = (d + '/' if d else '') + rnd.choice('abc')
            k = rnd.random()
            if k < .35 and n not in dirs and n.count('/') < 4:
                t.do('dir', n); dirs.add(n)
            elif k < .5 and n not in dirs:
                s = rnd.choice(sorted(dirs))
                if s and n != s and not n.startswith(s + '/'):
                    t.do('mv', s, t=t.abs(n))
                    to = lambda x: n + x[len(s):] if x == s or x.startswith(s + '/') else x
                    dirs = {to(x) for x in dirs}
                    if not gone:
                        cwd = to(cwd)
            elif k < .65 and d and not any(x.startswith(d + '/') for x in dirs):
                t.do('rm', d); dirs.discard(d)
                gone = gone or d == cwd
            elif k < .7 and not gone:
                t.query('cd', rnd.choice(['.', 'nothing', './/.', '']))
            else:
                d = rnd.choice(sorted(dirs) + ['a/b/c/a', 'b'])
                t.query('cd', t.abs(d))
                if d in dirs:
                    cwd, gone = d, False
            t.query('where', '')
        trees.append(t)
    return trees


def listing_trees(c, rnd, count):
    trees = []
    odd = ['a b', 'a:b', '-n', '~', '*', '\xe9\xff', '...', '.hidden', '..b', "n'", '"', '\\', '\n', 'N' * 255, ' ', 'a.', '\t', '$HOME', '<x>&']
    for i, n in enumerate([0, 1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513, 1000] + ([2500] if c.thorough else [])):
        t = Tree(c, 'n%d' % i)
        t.do('dir', 'd')
        for j in range(n):
            t.do(('file', 'dir', 'fifo')[j % 3 if n < 40 else 0], 'd/' + 'e%d' % j + 'x' * rnd.choice((0, 0, 1, 5, 20, 100, 200)))
        for q in ('d', t.abs('d'), 'd/', 'd//', './d', 'd/.', 'd/..'):
            t.query('ls', q)
        trees.append(t)
    t = Tree(c, 'often')
    t.do('dir', 'a'); t.do('file', 'a/f'); t.do('file', 'g')
    for i in range(200):
        t.query('ls', rnd.choice(['a', 'a', 'a', 'a', '.', 'g', 'nothing']))
    trees.append(t)
    for i in range(count):
        other = i % 3 == 2
        t = Tree(c, 'l%d' % i)
        targets(t)
        for d in 'ab':
            t.do('dir', d); t.do('dir', d + '/s')
        t.do('link', 'la', t='a'); t.do('link', 'lla', t='la'); t.do('link', 'x/up', t='..')
        if rnd.random() < .5:
            t.query('cd', rnd.choice(['a', 'b', t.abs('x'), 'a/s']))
        places = [d + '/' + n for d in ('a', 'b', 'a/s') for n in ['n', 'm', '.n'] + rnd.sample(odd, 3)]
        have = {}
        for step in range(12):
            if other and step == 6:
                for d in ('a', 'b', 'a/s', 'x', 'x/d'):
                    if rnd.random() < .5:
                        t.do('chmod', d, m=rnd.choice((0, 0o700, 0o711, 0o744, 0o755, 0o733, 0o701, 0o704)))
                t.user()
            if not (other and step >= 6):
                for _ in range(rnd.randrange(4)):
                    p = rnd.choice(places)
                    if p in have:
                        if have[p] != 'dir' and rnd.random() < .3:
                            q = rnd.choice(places)
                            if q not in have:
                                t.do('mv', p, t=t.abs(q)); have[q] = have.pop(p)
                                continue
                        t.do('rm', p); del have[p]
                    else:
                        k = rnd.choice(KINDS[1:6]); entry(t, p, k); have[p] = k
            for _ in range(3):
                t.query('ls', rnd.choice(['a', 'b', 'a/', '.', 'a/s', 'a/s/..', 'la', 'lla', 'la/', 'x', 'x/l', 'x/f', 'x/p', 'x/d', 'x/up', 'x/up/b', 'nothing', '', 'a/n', 'b/m', 'b/.', 'b//',
                                         t.abs('a'), t.abs('b/'), t.abs(''), t.abs('la'), t.abs('a/n'), t.abs('nothing/x')]))
        trees.append(t)
    return trees


@prop('P30')
def p30(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.models_parallel([('FileSystemMC', 'FileSystemMC.cfg'), ('FileSystemMC', 'FileSystemMCOther.cfg')])
    run_trees(c, exe, listing_trees(c, rnd, 700 if c.thorough else 150))


@prop('P16')
def p16(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.models_parallel([('PathMC', 'PathMC.cfg'), ('FileSystemMC', 'FileSystemMC.cfg')])
    values = [''.join(x) for n in range(0, 8 if c.thorough else 6) for x in itertools.product(':a/', repeat=n)]
    alpha = ':::a/b. ;\\,\xe9\xff='
    values += [''.join(rnd.choice(alpha) for _ in range(rnd.randrange(1, 30))) for _ in range(4000 if c.thorough else 1000)]
    for n in (1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4000):
        values += [':' * n, 'a' * n, 'ab:' * n, ':ab' * n, '/usr/lib' + ':' * n + '/x', ''.join(rnd.choice(alpha) for _ in range(n)),
                   ':'.join('/d%d' % j for j in range(n)), 'a' * n + ':' + 'b' * n]
    cases = [('colon', v, 1) for v in values] + [('env', v, 1) for v in values if rnd.random() < .4 or len(v) > 60] + [('env', '', 0), ('env', '', 1)]

    def observe(ks):
        a = drive(exe, [(k, 'pcolon %d %s' % (k, hexs(cases[k][1])) if cases[k][0] == 'colon' else
                         'penv %d %s' % (k, hexs(cases[k][1]) if cases[k][2] else 'unset')) for k in ks])
        return [dict(a[k], kind=cases[k][0], p=ints(cases[k][1]), set=cases[k][2]) for k in ks]
    c.conform('PathTrace', observe(range(len(cases))), lambda k: observe([k]), cfg='PathTraceLists.cfg')
    run_trees(c, exe, cd_trees(c, rnd, 400 if c.thorough else 100))
