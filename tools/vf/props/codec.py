"""P18, P19: the base64 coder."""
import base64, random
from . import prop
from .. import build
from ..engine import drive, hexs

ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def lengths(thorough):
    l = list(range(0, 64)) + [71, 72, 73, 96, 107, 108, 109, 110, 111, 127, 128, 129, 161, 162, 163, 215, 216, 217, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025]
    if thorough:
        l += list(range(64, 340)) + [2047, 2048, 2049, 3000, 4095, 4096, 4097]
    return l


def variants(exe):
    return exe


@prop('P18')
def p18(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.model('Base64MC')
    data = [bytes(g['v']) for g in c.generate('Base64Gen', env={'WHAT': 'data', 'SIZE': c.tier})]
    # every value at every position of a group, and neighbours
    for pos in range(3):
        for v in range(256):
            for n in (pos + 1, 3):
                x = bytearray(rnd.randrange(256) for _ in range(n)); x[pos] = v
                data.append(bytes(x))
    for n in lengths(c.thorough):
        data.append(bytes(rnd.randrange(256) for _ in range(n)))
        data.append(bytes([rnd.choice((0, 255))]) * n)
    for _ in range(2000 if c.thorough else 200):
        data.append(bytes(rnd.randrange(256) for _ in range(rnd.randrange(4, 120))))
    cases = []
    for d in data:
        for nl, tail in ((1, ''), (0, '')) if len(d) > 50 or rnd.random() < .3 else ((rnd.randrange(2), ''),):
            cases.append({'kind': 'enc', 'data': d, 'nl': nl, 'tail': tail})
    for d in data[-20:]:
        cases.append({'kind': 'enc', 'data': d, 'nl': 1, 'tail': ' on', 'first': 0})
        cases.append({'kind': 'enc', 'data': d, 'nl': 0, 'tail': ' off', 'first': 1})

    def observe(ks):
        text = [(k, 'b64enc %d %s %d%s' % (k, hexs(cases[k]['data']), cases[k].get('first', cases[k]['nl']), cases[k]['tail'])) for k in ks]
        ans = drive(exe, text)
        out = []
        for k in ks:
            q = cases[k]
            o = dict(ans[k], kind='enc', data=list(q['data']), nl=q['nl'])
            out.append(o)
            if o['crash'] == 0:
                t = bytes(o['text'])
                a = drive(exe, [(k, 'b64dec %d %s 0' % (k, hexs(t)))]) if len(ks) == 1 else None
                o['_t'] = t
                o['_a'] = a
        dec = [(j, 'b64dec %d %s %d' % (j, hexs(o['_t']), j % 2)) for j, o in enumerate(out) if o['crash'] == 0]
        ans = drive(exe, dec)
        more = []
        for j, o in enumerate(out):
            o.pop('_t', None); o.pop('_a', None)
            if o['crash'] == 0:
                more.append(dict(ans[j], kind='dec', src='encoded', of=o['data'], text=o['text'], ign=j % 2))
        return out + more
    obs = observe(range(len(cases)))
    # a rejected reading is repeated from its encoding on
    where = {}
    n = len(cases)
    enc_ok = [k for k in range(n) if obs[k]['crash'] == 0]
    def rerun(k):
        return observe([k if k < n else enc_ok[k - n]])
    c.conform('Base64Trace', obs, rerun)
    c.assumptions += ['data up to %d bytes' % max(map(len, data))]


def reading_cases(c, rnd):
    texts = [bytes(g['v']) for g in c.generate('Base64Gen', env={'WHAT': 'texts', 'SIZE': c.tier})]
    cases = [(t, rnd.randrange(2)) for t in texts]
    if not c.thorough:
        cases = [x for x in cases if len(x[0]) < 5 or rnd.random() < .6]
    # every byte in every position of a group
    for v in range(256):
        for pos in range(4):
            g = bytearray(rnd.choice(ALPHA) for _ in range(4)); g[pos] = v
            for ign in (0, 1):
                cases.append((bytes(g), ign))
                cases.append((bytes(rnd.choice(ALPHA) for _ in range(4)) + bytes(g), ign))
        for ign in (0, 1):
            cases.append((bytes([v]), ign))
            cases.append((b'QUJD' + bytes([v]), ign))
            cases.append((b'QUI=' + bytes([v]), ign))
            cases.append((bytes([v]) + b'QUJD', ign))
    for _ in range(20000 if c.thorough else 3000):
        n = rnd.choice((1, 2, 3, 5, 8, 17, 18, 19, 40, 100))
        t = bytearray(base64.b64encode(bytes(rnd.randrange(256) for _ in range(n))))
        for _ in range(rnd.choice((0, 1, 1, 2, 3))):
            k = rnd.randrange(5)
            at = rnd.randrange(len(t) + 1)
            if k == 0: t[at:at] = bytes([rnd.choice(b' \t\n\r\v\f')])
            elif k == 1: t[at:at] = bytes([rnd.randrange(256)])
            elif k == 2: del t[at:at + 1]
            elif k == 3: t[at:at] = b'='
            elif k == 4: t = t[:at]
        cases.append((bytes(t), rnd.randrange(2)))
    # long ones: the defect at the end, at the beginning, on a boundary
    for n in ((54, 300, 768, 3000) if c.thorough else (54, 300, 768)):
        good = base64.b64encode(bytes(rnd.randrange(256) for _ in range(n)))
        for at in (0, 1, 72, 71, 255, 256, len(good) - 1, len(good) - 4, len(good)):
            if at <= len(good):
                for bad in (b'!', b'=', b'\x80', b'\xff', b'\0', b'\n', b'A'):
                    cases.append((good[:at] + bad + good[at:], rnd.randrange(2)))
                cases.append((good[:at], 0))
    return cases


@prop('P19')
def p19(c):
    rnd = random.Random(c.seed)
    exe = build.tf()
    c.models_parallel([('Base64MC', 'Base64MC.cfg'), ('Base64MC', 'Base64MCIgnore.cfg')])
    cases = reading_cases(c, rnd)

    def observe(ks):
        ans = drive(exe, [(k, 'b64dec %d %s %d' % (k, hexs(cases[k][0]), cases[k][1])) for k in ks])
        return [dict(ans[k], kind='dec', src='any', text=list(cases[k][0]), ign=cases[k][1]) for k in ks]
    c.conform('Base64Trace', observe(range(len(cases))), lambda k: observe([k]), cfg='Base64TraceValidity.cfg')
