"""Runs of the scripted test: what is given to the driver, and what TLC gets to see."""
import os, struct, zlib
from fractions import Fraction
from .engine import drive, hexs, ints, CheckError

DEFTOL = '7.62939453125e-06'
TYPES = {'I': 'numeric/integer', 'F': 'numeric/float', 'D': 'numeric/double', 'B': 'numeric/boolean', 'S': 'text/string', 'P': 'text/plain',
         'FT': 'text/plain', 'FG': 'image/png', 'FJ': 'image/jpeg', 'FI': 'image/itk'}
UNIT = 4            # pixels and intensities are counted in quarters
INTEGRAL = ('size', 'index', 'region')


def b(x):
    return x.encode('latin-1') if isinstance(x, str) else bytes(x)


def number(kind, v):
    """the written form of a value"""
    if kind == 'I':
        return str(int(v))
    if kind == 'B':
        return '1' if str(v) not in ('0', 'False') else '0'
    import struct
    if kind == 'F':
        v = struct.unpack('f', struct.pack('f', float(v)))[0]
        return '%.7g' % v
    return '%.16g' % float(v)


class Op:
    """one thing the test does"""
    def __init__(self, kind, name='', value='', tol=None, exact=False):
        self.kind, self.name, self.value, self.tol, self.exact = kind, name, value, tol, exact

    def words(self):
        k = self.kind
        if k in TYPES:
            w = ['op', k, hexs(b(self.name))]
            if k in 'IFDB':
                w += [str(self.value), 'd' if self.tol is None else str(int(self.tol))]
            else:
                w += [hexs(b(self.value))]
            return ' '.join(w)
        if k in ('rm', 'cd'):
            return 'op %s %s' % (k, hexs(b(self.name)))
        if k == 'many':     # value: how often, the measurement
            n, o = self.value
            return 'op many %s S %s %s' % (hexs(b(o.name)), hexs(b(o.value)), n)
        if k == 'put':
            return 'op put %s %s' % (hexs(b(self.name)), hexs(b(self.value)))
        if k == 'C':        # value: kind, dimensions, values
            kind, dims, vals = self.value
            return 'op C %s %s %s %s %s' % (hexs(b(self.name)), kind, dims, 'd' if self.tol is None else int(self.tol), ' '.join(str(v) for v in vals))
        if k == 'II':       # value: size, pixels
            size, pix = self.value
            return 'op II %s %d %d %s' % (hexs(b(self.name)), size[0], size[1], ' '.join(str(v) for v in pix))
        if k == 'itol':
            return 'op itol %s' % ' '.join(str(v) for v in self.value)
        if k == 'gen':
            return 'op gen %s' % ' '.join(hexs(b(v)) for v in self.value)
        return 'op %s %s' % (k, self.value)

    def text(self):
        return number(self.kind, self.value) if self.kind in 'IFDB' else self.value

    def spec(self):
        k = self.kind
        if k in TYPES:
            tol = self.tol if self.tol is not None else k in 'FD'     # the defaults
            return {'k': 'm', 'file': k[0] == 'F' and len(k) == 2, 'name': ints(b(self.name)), 'type': ints(TYPES[k]), 'text': ints(b(self.text())),
                    'tol': bool(tol) and k in 'IFDB', 'exact': bool(self.exact)}
        if k in ('rm', 'cd'):
            return {'k': k, 'p': ints(b(self.name))}
        if k == 'many':
            return {'k': k, 'n': self.value[0], 'm': self.value[1].spec()}
        if k == 'put':
            return {'k': k, 'p': ints(b(self.name)), 'c': ints(b(self.value))}
        if k == 'C':
            kind, dims, vals = self.value
            i = kind in INTEGRAL
            tol = self.tol if self.tol is not None else not i
            fl = kind[0] == 'f' and kind != 'f'
            return {'k': 'c', 'kind': kind[1:] if fl else kind, 'cols': int(str(dims).split('x')[-1]), 'name': ints(b(self.name)), 'tol': bool(tol),
                    'vals': [ints(number('I' if i else 'D', as_float(v) if fl else v)) for v in vals], 'exacts': [bool(self.exact)] * len(vals)}
        if k == 'II':
            size, pix = self.value
            return {'k': 'm', 'file': True, 'name': ints(b(self.name)), 'type': ints(TYPES['FI']), 'text': [], 'tol': False, 'exact': False,
                    'img': picture(size, [v * UNIT for v in pix], ty='short')}
        if k in ('itol', 'itol1', 'ioff'):
            v = self.value if k == 'itol' else [self.value] if k == 'itol1' else []
            v = list(v) + [0] * (3 - len(v))
            return {'k': 'itol', 'v': {'int': quarters(v[0]), 'num': v[1], 'rad': v[2]}}
        if k in ('ret', 'exp'):
            return {'k': k, 'v': int(self.value)}
        if k == 'tol':
            return {'k': k, 'v': ints(str(self.value))}
        return {'k': k}


def as_float(v):
    return struct.unpack('f', struct.pack('f', float(v)))[0]


def quarters(v):
    """how many whole quarters"""
    return int(abs(Fraction(str(v))) * UNIT)


# ---------------------------------------------------------------- images

def picture(size, pix, spacing=(), origin=(), ty='double', ch=1, many='vector'):
    """as the model sees an image: three dimensions; pixels in quarters"""
    size, spacing, origin = list(size), [str(x) for x in spacing], [str(x) for x in origin]
    return {'size': size + [1] * (3 - len(size)), 'spacing': [ints(x) for x in spacing + ['1'] * (3 - len(spacing))],
            'origin': [ints(x) for x in origin + ['0'] * (3 - len(origin))], 'pix': list(pix),
            'ty': ints(MET[ty][3]), 'ch': ch, 'pt': ints('scalar' if ch == 1 else many)}


# element types: of files, of struct, whole numbers, as they are called in reports
MET = {'uchar': ('MET_UCHAR', 'B', True, 'unsigned_char'), 'short': ('MET_SHORT', 'h', True, 'short'), 'int': ('MET_INT', 'i', True, 'int'),
       'float': ('MET_FLOAT', 'f', False, 'float'), 'double': ('MET_DOUBLE', 'd', False, 'double'), 'char': ('MET_CHAR', 'b', True, 'char'),
       'ushort': ('MET_USHORT', 'H', True, 'unsigned_short'), 'uint': ('MET_UINT', 'I', True, 'unsigned_int'),
       'longlong': ('MET_LONG_LONG', 'q', True, 'long_long')}


def mha(size, pix, spacing=(), origin=(), ty='double', ch=1):
    """ch equal components of each pixel"""
    n = len(size)
    met, c, whole, _ = MET[ty]
    spacing, origin = list(spacing) + [1] * (n - len(spacing)), list(origin) + [0] * (n - len(origin))
    j = lambda l: ' '.join(str(x) for x in l)
    head = ('ObjectType = Image\nNDims = %d\nBinaryData = True\nBinaryDataByteOrderMSB = False\nCompressedData = False\nTransformMatrix = %s\n'
            'Offset = %s\nElementSpacing = %s\nDimSize = %s\n%sElementType = %s\nElementDataFile = LOCAL\n'
            % (n, j(int(i == k) for i in range(n) for k in range(n)), j(origin), j(spacing), j(size), 'ElementNumberOfChannels = %d\n' % ch if ch > 1 else '', met))
    assert not whole or all(p % UNIT == 0 for p in pix)
    return head.encode() + struct.pack('<%d%s' % (len(pix) * ch, c), *[p // UNIT if whole else p / UNIT for p in pix for _ in range(ch)])


def png(size, pix, ch=1, **kw):
    def chunk(t, d):
        return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))
    w, h = size
    rows = b''.join(b'\0' + bytes(p // UNIT for p in pix[y * w:(y + 1) * w] for _ in range(ch)) for y in range(h))
    return b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, 8, 0 if ch == 1 else 2, 0, 0, 0)) + chunk(b'IDAT', zlib.compress(rows)) + chunk(b'IEND', b'')


def read_png(data):
    """the gray levels of a picture which was written by the code; none if it is not such a picture"""
    none = {'size': [0, 0], 'v': []}
    if data[:8] != b'\x89PNG\r\n\x1a\n':
        return none
    k, idat, head = 8, b'', None
    while k + 12 <= len(data):
        n, t = struct.unpack('>I4s', data[k:k + 8])
        d = data[k + 8:k + 8 + n]
        if t == b'IHDR':
            head = struct.unpack('>IIBBBBB', d)
        elif t == b'IDAT':
            idat += d
        k += 12 + n
    if not head or head[2:] != (8, 0, 0, 0, 0):
        return none
    w, h = head[:2]
    try:
        raw = zlib.decompress(idat)
    except zlib.error:
        return none
    if len(raw) != h * (w + 1):
        return none
    v, up = [], [0] * w
    for y in range(h):
        f, row = raw[y * (w + 1)], list(raw[y * (w + 1) + 1:(y + 1) * (w + 1)])
        for x in range(w):
            a, b_, c = row[x - 1] if x else 0, up[x], up[x - 1] if x else 0
            q = a + b_ - c
            near = min((abs(q - a), 0, a), (abs(q - b_), 1, b_), (abs(q - c), 2, c))[2]
            row[x] = (row[x] + (0, a, b_, (a + b_) // 2, near)[f]) % 256
        v += row
        up = row
    return {'size': [w, h], 'v': v}


def read_mha(data):
    """what is in a file which was written by the code: as the model sees it"""
    head, k = {}, 0
    while True:
        e = data.index(b'\n', k)
        n, v = data[k:e].decode('latin-1').split(' = ', 1)
        head[n], k = v, e + 1
        if n == 'ElementDataFile':
            break
    data = data[k:]
    if head.get('CompressedData') == 'True':
        data = zlib.decompress(data)
    size = [int(x) for x in head['DimSize'].split()]
    ty, c = [(t, m[1]) for t, m in MET.items() if m[0] == head['ElementType']][0]
    n = len(data) // struct.calcsize(c)
    big = head.get('BinaryDataByteOrderMSB') == 'True'
    return picture(size, [int(x * UNIT) for x in struct.unpack(('>' if big else '<') + '%d%s' % (n, c), data)],
                   head['ElementSpacing'].split(), head.get('Offset', head.get('Position', '')).split(), ty, int(head.get('ElementNumberOfChannels', 1)))


def ops(l):
    return [o if isinstance(o, Op) else Op(*o) for o in l]


class Place:
    """the directory of some runs, on the disk and as the model sees it"""
    def __init__(self, c, name=None):
        self.root = c.scratch.sub(name)
        self.tree = []

    def abs(self, p):
        return os.path.join(self.root, p) if p else self.root

    def file(self, p, data=b'', m=0o644, disk=True):
        data = b(data)
        if disk:
            with open(self.abs(p), 'wb') as f:
                f.write(data)
            if m != 0o644:
                os.chmod(self.abs(p), m)
        self.tree.append({'p': ints(self.abs(p)), 'k': 'file', 'c': ints(data), 'm': m})
        return self

    def image(self, p, size, pix, spacing=(), origin=(), ty='double', m=0o644, ch=1):
        data = png(size, pix, ch) if p.endswith('.png') else mha(size, pix, spacing, origin, ty, ch)
        self.file(p, data, m)
        self.tree[-1].update(c=[], img=picture(size, pix, spacing, origin, *(('uchar', ch, 'rgb') if p.endswith('.png') else (ty, ch))))
        return self

    def dir(self, p, m=0o755, disk=True):
        if disk:
            os.makedirs(self.abs(p), exist_ok=True)
            if m != 0o755:
                os.chmod(self.abs(p), m)
        self.tree.append({'p': ints(self.abs(p)), 'k': 'dir', 'c': [], 'm': m})
        return self

    def link(self, p, to, disk=True):
        if disk:
            os.symlink(to, self.abs(p))
        self.tree.append({'p': ints(self.abs(p)), 'k': 'link', 'c': ints(to), 'm': 0o777})
        return self

    def fifo(self, p):
        os.mkfifo(self.abs(p))
        self.tree.append({'p': ints(self.abs(p)), 'k': 'fifo', 'c': [], 'm': 0o644})
        return self


class Run:
    paths = ()                          # where baselines are looked for if nothing is set

    def __init__(self, place, args=(), script=(), sets=None, cwd='', nobody=False, prog='prog', timeout=10, limit=None, host=None, shared=()):
        self.place, self.args, self.ops = place, [prog] + list(args), ops(script)
        self.sets = sets or {}
        self.cwd, self.nobody, self.timeout, self.limit, self.host = cwd, nobody, timeout, limit, host
        self.shared = list(shared)      # further entries of the tree
        self.first = None               # what was there before the first run
        self.mute = False               # what is written is not looked at
        self.orig = None                # what the baseline was recorded from

    def block(self, k):
        w = ['run %s' % k, 'dir ' + hexs(self.place.abs(self.cwd)), 'timeout %d' % self.timeout]
        w += ['arg ' + hexs(b(a)) for a in self.args]
        for n, v in self.sets.items():
            if n == 'paths':
                w.append('set paths ' + ' '.join(hexs(b(x)) for x in v))
            elif n in ('in', 'out', 'pre'):
                w.append('set %s %s' % (n, hexs(b(v))))
            else:
                w.append('set %s %s' % (n, v))
        if self.limit is not None:
            w.append('limit %d' % self.limit)
        if self.nobody:
            w.append('as nobody')
        if self.host is not None:
            w.append('host ' + hexs(b(self.host)))
        w += [o.words() for o in self.ops]
        return '\n'.join(w + ['end', ''])

    def names(self):
        """where output may be"""
        l = [self.args[i + 1] for i in range(1, len(self.args) - 1) if self.args[i] == '-O']
        if 'out' in self.sets:
            l.append(self.sets['out'])
        return list(dict.fromkeys(l))

    def path(self, n):
        return os.path.join(self.place.abs(self.cwd), os.fsdecode(b(n)) if not isinstance(n, str) else n)

    def reset(self):
        """everything as before the first run"""
        if self.first is None:
            self.first = {}
            for n in self.names() + [o.name for o in self.ops if o.kind in ('rm', 'put')]:
                p = self.path(n)
                self.first[p] = open(p, 'rb').read() if os.path.isfile(p) else None
            return
        for p, v in self.first.items():
            if v is None:
                if os.path.isfile(p):
                    os.unlink(p)
            else:
                with open(p, 'wb') as f:
                    f.write(v)

    def observed(self, a):
        o = {'crash': a.get('crash', 0), 'args': [ints(b(x)) for x in self.args], 'root': ints(self.place.root),
             'cwd': [ints(x) for x in self.cwd.split('/') if x], 'other': self.nobody, 'tree': self.place.tree + self.shared,
             'set': {'in': ints(b(self.sets.get('in', ''))), 'out': ints(b(self.sets.get('out', ''))), 'exp': int(self.sets.get('exp', 0)),
                     'tol': ints(str(self.sets.get('tol', DEFTOL))),
                     'paths': ([ints(b(self.sets['pre']))] if 'pre' in self.sets else []) + [ints(b(x)) for x in self.sets.get('paths', self.paths)]},
             'ops': [x.spec() for x in self.ops],
             'disturbed': int(any(x.kind in ('rm', 'put', 'cd', 'exit', 'kill') for x in self.ops))}
        if self.orig is not None:
            o['orig'] = [x.spec() for x in self.orig]
        if o['crash']:
            return o
        res, test = a.get('res'), a.get('test')
        o.update(has=int(res is not None), res=res or {'v': 0, 'in': [], 'out': [], 'exp': 0}, test=test or {'argc': 0, 'argv': [], 'cmp': 0, 'pos': 0},
                 ntest=a['ntest'], ms=a['ms'], sig=a['sig'], code=a['code'])
        outs = []
        if self.mute:
            return self.more(dict(o, outs=outs), a)
        with open(os.path.join(self.place.abs(self.cwd), '.stdout'), 'rb') as f:
            outs.append({'n': [], 'there': 1, 'c': list(f.read())})
        for n in self.names():
            p = self.path(n)
            there = os.path.isfile(p)
            outs.append({'n': ints(b(n)), 'there': int(there), 'c': list(open(p, 'rb').read()) if there else []})
        o['outs'] = outs
        return self.more(o, a)

    def more(self, o, a):
        return o


class ImageRun(Run):
    """of the driver with ITK"""
    paths = ('data',)

    def more(self, o, a):
        o['files'] = []
        d = self.place.abs(self.cwd)
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            if os.path.isfile(p) and not n.startswith('.') and p not in self.known:
                e = {'n': ints(os.fsencode(n))}
                if n.endswith('.mha'):
                    with open(p, 'rb') as f:
                        e['img'] = read_mha(f.read())
                elif n.endswith('.png'):
                    with open(p, 'rb') as f:
                        e['pic'] = read_png(f.read())
                o['files'].append(e)
        o['gs'] = [g['n'] for g in a.get('gs', [])]
        return o

    def reset(self):
        d = self.place.abs(self.cwd)
        if self.first is None:
            self.known = {os.path.join(d, n) for n in os.listdir(d)}
        for n in os.listdir(d):         # what an earlier run has left
            p = os.path.join(d, n)
            if p not in self.known and os.path.isfile(p):
                os.unlink(p)
        Run.reset(self)


def observe(exe, runs, ks):
    if len({(runs[k].place.root, runs[k].cwd) for k in ks}) < len(ks):
        raise CheckError('two runs at the same place')
    for k in ks:
        runs[k].reset()
    a = drive(exe, [(k, runs[k].block(k)) for k in ks])
    out = []
    for k in ks:
        if a[k].get('code') in (111, 112):
            raise CheckError('a run could not be set up (%d)' % a[k]['code'])
        out.append(runs[k].observed(a[k]))
    return out


INVARIANTS = 'NoCrash Ended NotStarted StartedOnce FailRight RetRight CountRight ModeSteady ArgsRight NamesRight OthersStay ReportsRight PairRight RecordRight'


def conform(c, exe, runs, invariants, label):
    """the observed runs have to be runs of the model"""
    cfg = 'SPECIFICATION Spec\nVIEW View\nALIAS Short\nINVARIANTS NoCrash %s\nCHECK_DEADLOCK FALSE\n' % invariants
    return c.conform('RegressionTrace', observe(exe, runs, range(len(runs))), lambda k: observe(exe, runs, [k]), cfgtext=cfg, label=label)


# ---------------------------------------------------------------- documents

def esc(t, attr=False):
    t = t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
    if attr:
        t = t.replace('"', '&quot;').replace('\t', '&#9;').replace('\n', '&#10;')
    return t


def element(op, text=None):
    """as the framework writes it"""
    op = op if isinstance(op, Op) else Op(*op)
    el = 'DartMeasurementFile' if len(op.kind) == 2 and op.kind[0] == 'F' else 'DartMeasurement'
    return '<%s name="%s" type="%s">%s</%s>\n' % (el, esc(op.name, True), TYPES[op.kind], esc(op.text() if text is None else text), el)


def document(script):
    return '<?xml version="1.0" encoding="US-ASCII"?>\n<!-- created -->\n<output>\n' + ''.join(element(o) for o in script) + '</output>\n'
