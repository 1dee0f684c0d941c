"""P22: the comparison of images."""
import decimal, os, random
from . import prop
from .. import build
from ..engine import drive, hexs


class Pictures:
    """differences of pairs of images, computed by the filter and by CompareImage"""
    def __init__(self, c):
        self.cases, self.c = [], c

    def add(self, size, a, b, t=0, r=0, sizeb=None, type='double', start=None, unit=0.25, ignore=False, threads=0, passes=1, ptol=(0,), at=(), comps=0):
        # each third pair also from files (in which there is no other place to start)
        dir = self.c.scratch.sub() if len(self.cases) % 3 == 0 and not at and not start and not comps else ''
        self.cases.append({'size': list(size), 'sizeb': list(sizeb or size), 'a': list(a), 'b': list(b), 't': t, 'r': r, 'type': type,
                           'start': list(start or [0] * len(size)), 'unit': 1 if type in ('short', 'uchar') else unit, 'ignore': ignore,
                           'threads': threads, 'passes': passes, 'ptol': list(ptol), 'at': list(at), 'files': dir, 'comps': comps})

    def block(self, k):
        c = self.cases[k]
        j = lambda l: ' '.join(str(x) for x in l)
        return '\n'.join(['images %d' % k, 'dims %d' % len(c['size']), 'size ' + j(c['size']), 'sizeb ' + j(c['sizeb']), 'start ' + j(c['start']),
                          'a ' + j(c['a']), 'b ' + j(c['b']), 'tol %s' % c['t'], 'radius %d' % c['r'], 'type ' + c['type'], 'unit %r' % c['unit'],
                          'ignore %d' % c['ignore'], 'threads %d' % c['threads'], 'passes %d' % c['passes'], 'comps %d' % c['comps'], 'ptol ' + j(c['ptol'])] + (['at ' + j(c['at'])] if c['at'] else []) + (['files ' + hexs(c['files'])] if c['files'] else []) + ['end', ''])

    def observe(self, exe, ks):
        a = drive(exe, [(k, self.block(k)) for k in ks])
        out = []
        for k in ks:
            o = {n: self.cases[k][n] for n in ('size', 'sizeb', 'a', 'b', 't', 'r', 'ignore', 'passes', 'ptol', 'threads', 'start', 'type', 'at', 'comps')}
            x = a[k]
            o.update(crash=x['crash'], threw=x.get('threw', 0), cmps=x.get('cmps', []), inFiles=bool(self.cases[k]['files']), fcmps=x.get('fcmps', []), stats=x.get('stats', []), out=x.get('out', []))
            out.append(o)
        return out

    def conform(self, c, exe, label):
        c.conform('ImageTrace', self.observe(exe, range(len(self.cases))), lambda k: self.observe(exe, [k]), label=label)


def count(size):
    n = 1
    for x in size:
        n *= x
    return n


def near(rnd, a, t, n):
    """a with some values a little and some much different"""
    b = list(a)
    for _ in range(n):
        k = rnd.randrange(len(b))
        b[k] += rnd.choice((t, t + 1, t - 1, -t, -t - 1, -t + 1, 2 * t, 1, -1, 100))
    return b


TYPES = {1: ['double'], 2: ['double', 'double', 'float', 'short', 'uchar'], 3: ['double', 'double', 'short']}


def pictures(c, rnd):
    P = Pictures(c)
    # every place of a single different pixel, and of the nearest equal one
    for size in ((1,), (4,), (3, 3), (1, 5), (4, 3), (2, 2, 2), (3, 2, 3), (3, 3, 3), (1, 1, 4)):
        n = count(size)
        for k in range(n):
            a, b = [0] * n, [0] * n
            b[k] = 5
            for r in (0, 1, 2):
                for t in (0, 4, 5):
                    P.add(size, a, b, t, r, ptol=(0, 1, 2))
                P.add(size, b, a, 4, r, ptol=(0, 1))
            b = [9] * n
            b[k] = 1
            for r in (0, 1, 2, 3):
                P.add(size, a, b, 1, r, ignore=bool(k % 2), ptol=(0, n - 1, n))
    # all small images
    for _ in range(1500 if c.thorough else 400):
        size = rnd.choice(((2,), (3,), (2, 2), (3, 1), (2, 3), (1, 2, 2), (2, 2, 2)))
        n = count(size)
        P.add(size, [rnd.randrange(4) for _ in range(n)], [rnd.randrange(4) for _ in range(n)], rnd.randrange(-2, 3), rnd.randrange(4),
              ptol=(0, rnd.randrange(n + 2)), ignore=rnd.random() < .3, threads=rnd.choice((0, 1, 2, 3, 8)))
    # larger ones, many workers, any start, all types
    for i in range(900 if c.thorough else 260):
        d = rnd.choice((1, 2, 2, 3))
        size = [rnd.choice((1, 2, 3, 4, 5, 7, 9, 12)) if d < 3 else rnd.randrange(1, 6) for _ in range(d)]
        ty = rnd.choice(TYPES[d])
        n = count(size)
        top = 255 if ty == 'uchar' else 3000
        t = rnd.choice((0, 0, 1, 3, 10, 100))
        a = [rnd.randrange(rnd.choice((5, top))) for _ in range(n)]
        b = near(rnd, a, t, rnd.randrange(0, n + 1)) if rnd.random() < .7 else [rnd.randrange(top) for _ in range(n)]
        if ty == 'uchar':
            b = [min(255, max(0, x)) for x in b]
        elif rnd.random() < .5:
            a, b = [-x for x in a], [-x for x in b]
        if rnd.random() < .3:      # moved by one
            b = a[1:] + a[:1]
        r = rnd.choice((0, 0, 1, 1, 2, 3, 20))
        P.add(size, a, b, rnd.choice((t, t, -t)), r, type=ty, start=[rnd.randrange(-5, 9) for _ in size] if i % 3 == 0 else None,
              unit=rnd.choice((0.25, 1.0, 2.0 ** -20, 2.0 ** 20)), threads=rnd.choice((0, 1, 2, 3, 5, 16, 64)), passes=rnd.choice((1, 1, 2)),
              ignore=rnd.random() < .25, ptol=(0, 1, n - 1, n, n + 1, 2147483647, rnd.randrange(n + 1)))
    # an image and the part of the baseline where it lies
    for i in range(600 if c.thorough else 200):
        d = rnd.choice((1, 2, 2, 3))
        size = [rnd.randrange(1, 6) for _ in range(d)]
        u = [rnd.randrange(1, n + 1) for n in size]
        at = [rnd.randrange(n - m + 1) for n, m in zip(size, u)]
        ty = rnd.choice(TYPES[d])
        a = [rnd.randrange(rnd.choice((4, 250))) for _ in range(count(size))]
        part = []
        for k in range(count(u)):
            p, s, q = 0, 1, k
            for j in range(d):
                p += (q % u[j] + at[j]) * s
                q //= u[j]; s *= size[j]
            part.append(a[p])
        t = rnd.choice((0, 0, 1, 3))
        if rnd.random() < .8:
            part = [min(255, max(0, x)) for x in near(rnd, part, t, rnd.randrange(0, 4))]
        else:
            part = a[:count(u)]
        P.add(size, a, part, t, rnd.choice((0, 0, 1, 2)), sizeb=u, at=at, type=ty, start=[rnd.randrange(-5, 9) for _ in size] if i % 2 else None,
              ptol=(0, 1, rnd.randrange(count(u) + 2)))
    # other sizes
    for s, u in (((2, 2), (4, 1)), ((2, 3), (3, 2)), ((4,), (5,)), ((1, 2, 3), (3, 2, 1)), ((3, 3), (3, 4)), ((3, 3), (2, 3))):
        P.add(s, [1] * count(s), [1] * count(u), 0, 0, sizeb=u, ptol=(0, 1, 100))
    return P


def composed(c, rnd):
    """images of vectors and of complex numbers"""
    P = Pictures(c)
    for i in range(1200 if c.thorough else 320):
        ty, n, d = rnd.choice((('vector2', 2, 1), ('vector2', 2, 2), ('vector3', 3, 2), ('complex', 2, 2), ('complex', 2, 2), ('complex', 2, 3), ('variable', rnd.randrange(1, 5), 2), ('variable', rnd.randrange(1, 4), 3)))
        size = [rnd.choice((1, 2, 3, 4, 5)) if d < 3 else rnd.randrange(1, 4) for _ in range(d)]
        m = count(size) * n
        hi = rnd.choice((2, 4, 30))
        a = [rnd.randrange(-hi, hi) for _ in range(m)]
        b = list(a)
        u, at = list(size), ()
        if i % 4 == 0:
            u = [rnd.randrange(1, x + 1) for x in size]
            at = [rnd.randrange(x - y + 1) for x, y in zip(size, u)]
            b = []
            for k in range(count(u)):
                p, s, q = 0, 1, k
                for j in range(d):
                    p += (q % u[j] + at[j]) * s
                    q //= u[j]; s *= size[j]
                b += a[p * n:p * n + n]
        elif i % 40 == 1:
            u = [x + (j == 0) for j, x in enumerate(size)]
            b = [0] * (count(u) * n)
        for _ in range(rnd.choice((0, 1, 1, 2, len(b) // 2, 2 * len(b)))):      # (3, 4 and 5, of either sign)
            k = rnd.randrange(len(b) // n) * n
            v = rnd.choice(([3, 4], [4, -3], [5, 0], [0, -5], [-5], [1, 1], [2, -2, 1], [0, 1], [-1], [6, 8], [2, 3, 6]))
            v = (v + [0] * n)[:n]
            rnd.shuffle(v)
            for j in range(n): b[k + j] += v[j]
        if rnd.random() < .2 and not at:
            b = b[n:] + b[:n]
        t = rnd.choice((0, 0, 1, 2, 3, 4, 5, 5, 6, 7, 10, -5))
        P.add(size, a, b, t, rnd.choice((0, 0, 0, 1, 1, 2)), sizeb=u, at=at, type=ty, comps=n, start=[rnd.randrange(-5, 9) for _ in size] if i % 3 == 0 else None,
              unit=rnd.choice((0.25, 1.0, 2.0 ** -12)), threads=rnd.choice((0, 1, 2, 3, 8)), passes=rnd.choice((1, 1, 2)), ignore=rnd.random() < .25, ptol=(0, 1, rnd.randrange(count(u) + 2)))
    return P


# ---------------------------------------------------------------- runs

from ..runs import Op, Place, ImageRun, conform as conform_runs, document, esc, UNIT

CHECKS = 'Ended NotStarted StartedOnce FailRight RetRight CountRight ModeSteady VerdictRight ImageReportRight'
SPACINGS = ((), (), (), ('2', '3'), ('0.5',), ('1', '1', '4'), ('1.0',), ('1e0', '2'))
ORIGINS = ((), (), (), ('5',), ('-1', '2'), ('0', '0', '7'), ('0.25',), ('0.0', '-0'))


NEAR = ('1e-1', '1e-2', '1e-3', '1e-5', '1e-7', '1e-9', '1e-12')


def beside(rnd, numbers, n, default):
    """numbers of which one is a little different"""
    v = list(numbers) + [default] * (n - len(numbers))
    j = rnd.randrange(n)
    d = decimal.Decimal(rnd.choice(NEAR))
    v[j] = format(decimal.Decimal(v[j]) + (d if default == '1' else rnd.choice((d, -d))), 'f')
    return tuple(v)


UNSIGNED = ('uchar', 'ushort', 'uint')
LIMITS = {'uchar': (0, 255), 'char': (-128, 127), 'ushort': (0, 65535), 'uint': (0, 2 ** 32 - 1)}


class Gallery:
    """a place with images: those of the baseline in data, and others which are more or less the same"""
    def __init__(self, c, rnd, plain=False):
        self.place, self.rnd = Place(c), rnd
        self.place.dir('data').dir('more')
        self.n = 0

    def save(self, where, img, ext='.mha', m=0o644):
        n = 'i%d%s' % (self.n, ext)
        self.n += 1
        self.place.image(os.path.join(where, n) if where else n, m=m, **img)
        return n

    def base(self):
        rnd = self.rnd
        size = rnd.choice(((1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 3), (5, 1), (2, 2, 2), (3, 2, 2), (2, 3, 1), (1, 1, 4)))
        ty = rnd.choice(('double', 'double', 'float', 'short', 'uchar', 'int', 'char', 'ushort', 'uint'))
        u = 1 if ty in ('double', 'float') else UNIT
        pix = [u * rnd.randrange(rnd.choice((3, 40))) for _ in range(count(size))]
        far = rnd.random()
        if far < .15:
            # more than single precision has
            ty = rnd.choice(('double', 'int', 'uint'))
            u = 1 if ty == 'double' else UNIT
            p = UNIT * rnd.choice((2 ** 24, 2 ** 27 + 1, 3 * 10 ** 8))
            pix = [p + u * rnd.choice((0, 0, 1, 4)) for _ in pix]
        elif far < .2:
            pix = [(2 ** 16 - 1 - p // UNIT) * UNIT for p in pix]
            ty = 'ushort'
        if ty not in UNSIGNED and rnd.random() < .3:
            pix = [-p for p in pix]
        img = dict(size=size, pix=pix, ty=ty)
        if rnd.random() < .5:
            img.update(spacing=rnd.choice(SPACINGS)[:len(size)], origin=rnd.choice(ORIGINS)[:len(size)])
        return img

    def variant(self, img):
        """an image to compare with it, of whatever type"""
        rnd, v = self.rnd, dict(img)
        k = rnd.random()
        ty = rnd.choice(('double', 'float' if max(map(abs, img['pix'])) < 2 ** 20 else 'double', img['ty'], img['ty']))
        u = 1 if ty in ('double', 'float') else UNIT
        v['ty'] = ty
        if k < .12:
            v['size'] = rnd.choice([s for s in (img['size'][::-1], tuple(img['size'][:-1]) + (img['size'][-1] + 1,), (count(img['size']), 1)) ])
            n = count(v['size'])
            v['pix'] = (list(img['pix']) * 2)[:n] if n <= 2 * len(img['pix']) else [0] * n
        elif k < .22:
            n = len(img['size'])
            v['spacing'] = rnd.choice((rnd.choice(SPACINGS)[:n], beside(rnd, img.get('spacing', ()), n, '1')))
        elif k < .32:
            n = len(img['size'])
            v['origin'] = rnd.choice((rnd.choice(ORIGINS)[:n], beside(rnd, img.get('origin', ()), n, '0')))
        elif k < .42:
            return v
        elif k < .47 and len(img['size']) == 2:
            v['size'] = tuple(img['size']) + (1,)
        else:
            pix = list(img['pix'])
            for _ in range(rnd.randrange(1, 4)):
                j = rnd.randrange(len(pix))
                pix[j] += u * rnd.choice((1, -1, 2, 4, -4, 5, 8, 100))
            if rnd.random() < .2:
                pix = pix[1:] + pix[:1]
            v['pix'] = pix
        if ty in LIMITS:
            lo, hi = LIMITS[ty]
            v['pix'] = [min(hi * UNIT, max(lo * UNIT, p)) for p in v['pix']]
        return v


TOLS = ('0', '0.25', '0.3', '0.5', '1', '1.1', '2', '24.75', '25', '1e3', '-1')


def gallery_run(c, rnd, i):
    g = Gallery(c, rnd)
    p = g.place
    script, base = [], []
    nobody = rnd.random() < .1
    sets = {}
    for j in range(rnd.choice((1, 2, 4, 6))):
        if rnd.random() < .6:
            k = rnd.randrange(6)
            script.append(Op('ioff') if k == 0 else Op('itol1', value=rnd.choice(TOLS)) if k == 1 else
                          Op('itol', value=(rnd.choice(TOLS), rnd.choice((0, 0, 1, 2, 3, 1000)), rnd.choice((0, 0, 1, 2, 9)))))
        img = g.base()
        name = 'pic %d' % j
        where = rnd.choice(('data', 'data', 'data', 'more', ''))
        k = rnd.random()
        b = 'none.mha' if k < .06 else g.save(where, img)
        if k > .94:
            b = 'junk%d.mha' % j
            p.file('data/' + b, rnd.choice(('', 'junk', 'ObjectType = Image\n')))
        elif .9 < k < .94:
            b = 'dir%d.mha' % j
            p.dir('data/' + b)
        if rnd.random() < .15:
            b = 'elsewhere/' + b
        if where == 'more' and rnd.random() < .7:
            sets['pre'] = 'more'
        k = rnd.random()
        t = 'gone.mha' if k < .06 else g.save('', g.variant(img), m=0 if nobody and rnd.random() < .3 else 0o644)
        if k > .95:
            t = 'bad%d.mha' % j
            p.file(t, 'junk')
        elif .92 < k < .95:
            t = 'more'
        elif .85 < k < .92:
            t = 'data/' + b
        ty = 'FI'
        base.append(Op(ty, name if rnd.random() < .96 else 'other', b))
        script.append(Op('FI', name, t))
        if rnd.random() < .15:
            script.append(Op('I', 'num %d' % j, 3))
            base.append(Op('I', 'num %d' % j, rnd.choice((3, 4))))
        if rnd.random() < .08:
            p.file('t%d.txt' % j, 'text\n')
            p.file('data/t%d.txt' % j, rnd.choice(('text\n', 'other\n')))
            script.append(Op('FT', 'text %d' % j, 't%d.txt' % j))
            base.append(Op('FT', 'text %d' % j, 't%d.txt' % j))
    if rnd.random() < .1:
        base = base[:-1]
    p.file('base.xml', document(base))
    if rnd.random() < .1:
        script.append(Op('ret', value=rnd.choice((0, 2))))
    args = ['-I', 'base.xml']
    if rnd.random() < .3 and not nobody:
        args += ['-O', 'out.xml']
    if nobody:
        os.chmod(p.root, 0o777)         # pictures of differences are written there
    return ImageRun(p, args, script, sets=sets, nobody=nobody, timeout=30)


def picture_runs(c, rnd):
    """one baseline, and everything which may be compared with it"""
    out = []
    for a, b in (('.mha', '.mha'), ('.png', '.mha'), ('.mha', '.png'), ('.png', '.png')):
        for tol in (None, ('0.5', 0, 0), ('0', 1, 0), ('0', 0, 1), ('1', 1, 1)):
            g = Gallery(c, rnd)
            base, script = [], []
            img = dict(size=(3, 3), pix=[UNIT * k for k in (1, 2, 3, 4, 5, 6, 7, 8, 9)], ty='uchar')
            n = g.save('data', img, a)
            if tol:
                script.append(Op('itol', value=tol))
            for j in range(10):
                v = dict(img, pix=[x + UNIT * (1 if k == j else 0) for k, x in enumerate(img['pix'])])
                base.append(Op('FI', 'p%d' % j, n))
                script.append(Op('FI', 'p%d' % j, g.save('', v, b)))
            g.place.file('base.xml', document(base))
            out.append(ImageRun(g.place, ['-I', 'base.xml'], script, timeout=30))
    return out


def report_run(c, rnd, i):
    """images of the same size which are different, of whatever kinds"""
    g = Gallery(c, rnd)
    script, base = [], []
    for j in range(rnd.choice((1, 3, 5))):
        if rnd.random() < .4:
            script.append(Op('itol', value=(rnd.choice(TOLS), rnd.choice((0, 0, 1)), rnd.choice((0, 0, 0, 1)))))
        k = rnd.random()
        size = rnd.choice(((3, 3), (4, 3), (5, 1), (2, 2, 2), (3, 2, 3), (2, 3, 4), (4, 1, 5), (3, 3, 3), (2, 2, 7), (7, 5), (17, 13), (5, 4, 9)))
        n = count(size)
        ty = rnd.choice(('double', 'float', 'short', 'uchar', 'int', 'char', 'ushort', 'uint'))
        lo, hi = LIMITS.get(ty, (-1000, 1000))
        hi = min(hi, rnd.choice((1, 2, 10, 100, 255, 1000, 30000)))
        lo = max(lo, rnd.choice((0, 0, -1, -100)))
        u = UNIT if ty not in ('double', 'float') else 1
        slices = [(rnd.randint(lo, hi), rnd.randint(lo, hi)) for _ in range(size[2] if len(size) > 2 else 1)]
        per = n // len(slices)
        pix = [u * rnd.randint(*sorted(slices[q // per])) for q in range(n)]
        img = dict(size=size, pix=pix, ty=ty)
        v = dict(img, pix=list(pix))
        ty2 = rnd.choice((ty, ty, 'double', 'int') + (('float',) if max(map(abs, pix)) < 2 ** 20 else ()))
        v['ty'] = ty2 if not (u == 1 and ty2 not in ('double', 'float')) else ty
        for _ in range(rnd.choice((1, 1, 2, n))):
            q = rnd.randrange(n)
            v['pix'][q] = u * rnd.randint(lo, hi)
        if k < .15:
            v['size'] = size[:-1] + (size[-1] + 1,)
            v['pix'] = (v['pix'] * 2)[:count(v['size'])]
        if rnd.random() < .3:
            m = len(v['size'])
            v.update(spacing=rnd.choice(SPACINGS)[:m], origin=rnd.choice(ORIGINS)[:m])
        a, b = '.mha', '.mha'
        for w in (img, v):
            if rnd.random() < .25:
                w['ch'] = 3
        if len(size) == 2 and ty == 'uchar' and lo >= 0:
            if v['ty'] == 'uchar' and rnd.random() < .5:
                b = '.png'
                v.pop('spacing', None); v.pop('origin', None)
            if rnd.random() < .5:
                a = '.png'
        name = rnd.choice(('pic %d', 'a&b<%d>', 'p%d', 'Test %d')) % j
        script.append(Op('FI', name, g.save('', v, b)))
        base.append(Op('FI', name, g.save('data', img, a)))
    g.place.file('base.xml', document(base))
    return ImageRun(g.place, ['-I', 'base.xml'] + (['-O', 'out.xml'] if rnd.random() < .3 else []), script, timeout=30)


@prop('P31')
def p31(c):
    rnd = random.Random(c.seed)
    exe = os.path.join(build.itk(), 'itkdrv')
    c.models_parallel([('ImageReportMC', 'ImageReportMCMore.cfg' if c.thorough else None)])
    runs = [report_run(c, rnd, i) for i in range(900 if c.thorough else 200)] + [gallery_run(c, rnd, i) for i in range(150 if c.thorough else 40)]
    conform_runs(c, exe, runs, 'ImageReportRight ImageKindsRight ImagePicturesRight VerdictRight', 'reports of images')


@prop('P22')
def p22(c):
    rnd = random.Random(c.seed)
    exe = os.path.join(build.itk(), 'itkdrv')
    c.models_parallel([('ImageMC', 'ImageMCMore.cfg' if c.thorough else None)])
    pictures(c, rnd).conform(c, exe, 'differences of images')
    other = os.path.join(build.itk(), 'itkcomposed')
    if os.path.exists(other):
        composed(c, random.Random(c.seed + 1)).conform(c, other, 'differences of images of vectors and complex numbers')
    else:
        c.notes.append('images of vectors and complex numbers cannot be compared: this does not compile')
    runs = picture_runs(c, rnd) + [gallery_run(c, rnd, i) for i in range(600 if c.thorough else 150)]
    conform_runs(c, exe, runs, CHECKS, 'runs with images')
