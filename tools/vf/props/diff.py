"""P17: line differences."""
import random
from . import prop
from .. import build
from ..engine import drive, hexs, ints


def render(seq):
    return '\n'.join('' if x == 0 else chr(x) for x in seq)


def colliding():
    """lines which have the same value of the hash function, in pairs and in threes"""
    out = []
    for n in (10, 11, 13, 19, 30):
        base = 'bcdefghijklmnopqrstuvwxyzabcdefghijk'[:n]
        for k in (1, 2):
            at = n - 10      # 9 characters later the bits come round again
            a = list(base); a[at] = chr(ord(a[at]) + 2 * k); a[at + 9] = chr(ord(a[at + 9]) - k)
            out.append((base, ''.join(a)))
    return out


@prop('P17')
def p17(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.model('DiffMC')
    pairs = [(render(g['a']), render(g['b'])) for g in c.generate('DiffGen', env={'SIZE': c.tier})]
    if not c.thorough and len(pairs) > 5000:
        pairs = rnd.sample(pairs, 5000)
    coll = colliding()
    for x, y in coll:
        pairs += [(x, y), (x + '\n' + y, y + '\n' + x), (x + '\n' + x, x + '\n' + y + '\n' + x), ('q\n' + x, 'q\n' + y), (x + '\n' + y + '\n', x + '\n')]
        for _ in range(60 if c.thorough else 12):
            ws = [x, y, 'a', '']
            pairs.append(tuple('\n'.join(rnd.choice(ws) for _ in range(rnd.randrange(1, 8))) for _ in range(2)))
    for h in range(1, 9):           # small values of the hash function
        x, y = chr(h), '\x01' + chr(128 + h)
        for n in range(1, 10):
            t = '\n'.join([x] + [y] * n)
            pairs += [(t, 'q'), ('q', t), (t, '\n'.join([y] + [x] * n))]
    odd = ['', ' ', '  ', '\t', '< a', '> a', '----', '---', '1d1', '3a4', '1,2c3', 'a', 'A', 'a ', ' a', 'b', '\x7f', '\xe9', '\xff', 'x' * 300, 'x' * 301, '\r', 'a\r', '<', '&amp;', '-', '.']
    for _ in range(4000 if c.thorough else 500):
        pairs.append(tuple('\n'.join(rnd.choice(odd) for _ in range(rnd.randrange(1, 7))) for _ in range(2)))
    # edits of longer texts
    def edited(n, alpha, edits, both=False):
        a = [rnd.choice(alpha) for _ in range(n)]
        b = list(a)
        for _ in range(edits):
            k = rnd.randrange(4)
            at = rnd.randrange(len(b) + 1)
            if k == 0: b[at:at] = [rnd.choice(alpha) for _ in range(rnd.randrange(1, 4))]
            elif k == 1: del b[at:at + rnd.randrange(1, 4)]
            elif k == 2 and at < len(b): b[at] = rnd.choice(alpha)
            elif k == 3 and b:
                f = rnd.randrange(len(b)); blk = b[f:f + 3]; del b[f:f + 3]; b[at:at] = blk
        return ('\n'.join(a), '\n'.join(b)) if rnd.random() < .5 else ('\n'.join(b), '\n'.join(a))
    uniq = ['line %d' % i for i in range(400)]
    for _ in range(1500 if c.thorough else 250):
        pairs.append(edited(rnd.randrange(5, 31), rnd.choice((['a', 'b'], ['a', 'b', 'c', ''], uniq)), rnd.randrange(1, 6)))
    for _ in range(400 if c.thorough else 60):      # nothing in common, little in common
        n, m = rnd.randrange(1, 25), rnd.randrange(1, 25)
        al = rnd.choice((['a', 'b'], 'abcdefghij', uniq))
        pairs.append(('\n'.join(rnd.choice(al) for _ in range(n)), '\n'.join(rnd.choice(al) for _ in range(m))))
    for n, e in ((60, 5), (100, 30), (150, 3)) + (((300, 10), (400, 60), (600, 4), (1200, 3)) if c.thorough else ((260, 4),)):
        for al in (['a', 'b', ''], uniq):
            pairs.append(edited(n, al, e))
    pairs += [('\n' * n, '\n' * m) for n in (0, 1, 2, 9, 40) for m in (0, 1, 2, 9, 41)]
    pairs += [('', 'a\n' * n) for n in (1, 9, 10, 99, 100, 101)] + [('a\n' * n, '') for n in (1, 9, 10, 99, 100, 101)] + \
        [('a\n' * n, 'b\n' * n) for n in (1, 9, 10, 11, 60)] + [('\n'.join('a%d' % i for i in range(n)), '\n'.join('b%d' % i for i in range(n))) for n in (1, 2, 9, 10, 99, 200) + ((500,) if c.thorough else ())]
    # many different lines, of which some are at other places
    for n, m in ((300, 30), (600, 12)) + (((1500, 10), (900, 100)) if c.thorough else ()):
        for _ in range(3):
            a = ['%d %s' % (i, rnd.choice(('', 'x', 'line'))) for i in rnd.sample(range(10 ** 5), n)]
            b = list(a)
            f = rnd.randrange(n - m)
            for i in range(f, f + m):
                if rnd.random() < .6:
                    b[i] = 'new %d' % rnd.randrange(10 ** 6)
            pairs.append(('\n'.join(a), '\n'.join(b)))
    # long texts with hardly anything at its place: the shortest script is long and hard to find
    for n, al in ((120, 'ab'), (160, 'abc'), (220, 'abcdefgh')) + (((320, 'ab'), (400, 'abcdef'), (500, [str(i) for i in range(60)]), (700, 'abc')) if c.thorough else ()):
        for _ in range(2):
            pairs.append(tuple('\n'.join(rnd.choice(al) for _ in range(rnd.randrange(n - 20, n + 20))) for _ in range(2)))
    # more lines than a short integer counts
    for n in (70000,) + ((140000,) if c.thorough else ()):
        for a in ([str(i) for i in range(n)], ['%x' % (i * 7919 % 1000003) for i in range(n)]):      # each line is once in the text
            b = list(a)
            for i, d in enumerate(list(range(65526, 65546)) + [32766, 32767, 32768, 32769]):
                b[66000 + 4 * i] = a[66000 + 4 * i - d]
            b[66030:66030] = ['more', 'lines', 'here']
            pairs.append(('\n'.join(a), '\n'.join(b)))
    # the same with and without the last line break
    pairs += [(a + '\n' * rnd.randrange(3), b + '\n' * rnd.randrange(3)) for a, b in rnd.sample(pairs[:4000], 300)]

    def observe(ks, exe=exe):
        a = drive(exe, [(k, 'diff %d %s %s' % (k, hexs(pairs[k][0]), hexs(pairs[k][1]))) for k in ks])
        return [dict(a[k], s=ints(pairs[k][0]), t=ints(pairs[k][1])) for k in ks]
    c.conform('DiffTrace', observe(range(len(pairs))), lambda k: observe([k]))
    if not c.violations:
        # the same with every access to memory watched
        watched = build.tf('asan')
        some = [k for k in range(len(pairs)) if len(pairs[k][0]) < 20 and ('\x01' in pairs[k][0] or rnd.random() < .3) or len(pairs[k][0]) < 300 and rnd.random() < .3]
        some = some[:8000 if c.thorough else 1500]
        c.conform('DiffTrace', observe(some, watched), lambda k: observe([some[k]], watched), label='with the address sanitizer')
    c.assumptions += ['texts without zero bytes, up to %d lines' % max(max(a.count('\n'), b.count('\n')) for a, b in pairs)]
