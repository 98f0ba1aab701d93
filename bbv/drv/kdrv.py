"""runs the translation of generated Kotlin (bbv/kt.py): kdrv.py META CMDS DIR [THREADS]"""
import json, os, struct, sys, types
from array import array
NULL8 = b'\xfe' * 7 + b'\x7f'
S, E = {}, {}
ARR = {'ByteArray': 'b', 'ShortArray': 'h', 'IntArray': 'i', 'LongArray': 'q', 'UByteArray': 'B', 'UShortArray': 'H', 'UIntArray': 'I', 'ULongArray': 'Q', 'FloatArray': 'f', 'DoubleArray': 'd'}


def norm(s):
    return s.replace('_', '').lower()


def parse(s):
    if s[0] == 'A':
        a, b = s[1:].split(':', 1)
        return ('A', int(a), parse(b))
    if s[:2] in ('E:', 'S:'):
        return (s[0], s[2:], None)
    return (s[0], int(s[1:] or 0), None)


class SD:
    pass


def meta(path, d):
    src = open(os.path.join(d, 'kt_mod.py')).read()
    m = types.ModuleType('kt_mod')
    exec(compile(src, 'kt_mod.py', 'exec'), m.__dict__)
    info = json.load(open(os.path.join(d, 'kt_info.json')))
    for line in open(path):
        a = line.split()
        if not a:
            continue
        i = info[a[2]]
        c = getattr(m, i['py'])
        if a[0] == 'E':
            E[a[1]] = c
            c.look = getattr(c, i['sfuns']['fromNumber/1'])
            c.nums = {e.p_number: e for e in c.entries}
        else:
            s = SD()
            s.c, s.f, s.m, s.k, s.i = c, [], [], a[1], i
            S[a[1]] = s
            names = s.props = {norm(k): k for k in i['props']}
            p = 4
            for _ in range(int(a[3])):
                n = names[norm(a[p])]
                s.f.append((n, i['props'][n][0], parse(a[p + 1])))
                p += 2
            k = int(a[p])
            p += 1
            for _ in range(k):
                s.m.append((a[p], a[p + 1], parse(a[p + 2]), names.get(norm(a[p + 1]))))
                p += 3
            fn = i['funs']
            s.es, s.ds = getattr(c, fn['encodeSize/0']), getattr(c, fn['decodeSize/2'])
            s.enc, s.enc2, s.dec = getattr(c, fn['encode/0']), getattr(c, fn['encode/2']), getattr(c, fn['decode/2'])


class Rd:
    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        self.p += n
        return self.b[self.p - n:self.p]


def scalar(t, raw):
    k, n, _ = t
    if k == 'b':
        return raw != bytes(8)
    if k == 'f':
        return struct.unpack('<f', raw[:4])[0] if n == 32 else struct.unpack('<d', raw)[0]
    return struct.unpack('<q' if k == 'i' else '<Q', raw)[0]


def unscalar(t, v):
    k, n, _ = t
    if k == 'b':
        return struct.pack('<Q', int(v)) if type(v) is bool else b'BADTYPE!'
    if k == 'f':
        return struct.pack('<f', v) + bytes(4) if n == 32 else struct.pack('<d', v)
    return struct.pack('<q' if k == 'i' else '<Q', v)


def load(t, kt, r):
    k = t[0]
    if k == 'A':
        l = [load(t[2], None, r) for _ in range(t[1])]
        return array(ARR[kt], l) if kt in ARR else l
    if k in 'sy':
        b = r.take(struct.unpack('<I', r.take(4))[0])
        return b.decode('utf-8') if k == 's' else array('b', b)
    if k == 'E':
        b = r.take(8)
        return None if b == NULL8 else E[t[1]].nums.get(struct.unpack('<Q', b)[0])
    if k == 'S':
        o = S[t[1]].c()
        loads(S[t[1]], o, r)
        return o
    return scalar(t, r.take(8))


def loads(s, o, r):
    for n, kt, t in s.f:
        setattr(o, 'p_' + n, load(t, kt, r))


def dump(t, v, w):
    k = t[0]
    if k == 'A':
        if len(v) != t[1]:
            w += b'BADLEN!!'
        for x in v:
            dump(t[2], x, w)
    elif k == 's':
        b = v.encode('utf-8')
        w += struct.pack('<I', len(b)) + b
    elif k == 'y':
        b = v.tobytes()
        w += struct.pack('<I', len(b)) + b
    elif k == 'E':
        w += NULL8 if v is None else struct.pack('<Q', v.p_number)
    elif k == 'S':
        dumps(S[t[1]], v, w)
    else:
        w += unscalar(t, v)


def dumps(s, o, w):
    for n, kt, t in s.f:
        dump(t, getattr(o, 'p_' + n), w)


def H(b):
    return bytes(b).hex() or '-'


def HB(a):
    return H(a.tobytes())


def U(s):
    return b'' if s == '-' else bytes.fromhex(s)


def dh(s, o):
    w = bytearray()
    dumps(s, o, w)
    return H(w)


def mk(s, c):
    o = s.c()
    if c:
        loads(s, o, Rd(c))
    return o


def exc(e):
    return 'EXC:' + type(e).__name__


def do(line):
    t = line.split()
    s = S[t[2]]
    op = t[0]
    if op == 'E':
        fill, pad = int(t[3]), int(t[4])
        o = mk(s, U(t[6]))
        es = s.es(o)
        b = array('b', bytes([fill]) * (es + 2 * pad))
        ret = s.enc2(o, b, pad)
        a = s.enc(o)
        return '%d %d %s %d %s %s' % (es, ret, HB(b), len(a), HB(a), dh(s, o))
    if op == 'D':
        start, tail = int(t[4]), int(t[5])
        b = array('b', b'\xee' * start + U(t[7]) + b'\xee' * tail)
        o = mk(s, U(t[6]))
        ret = s.dec(o, b, start) if start or t[3] == 'a' else s.dec(o, b)
        if ret < 0:
            return '%d -' % ret
        o2 = s.c()
        s.dec(o2, b, start)
        a, extra = dh(s, o), ''
        eq = o.equals_0(o2)
        if not eq and a == dh(s, o2):
            extra = ' NEQ'
        elif eq and o.hashCode_0() != o2.hashCode_0():
            extra = ' HASH'
        return '%d %s%s' % (ret, a, extra)
    if op == 'Z':
        start, w = int(t[3]), U(t[4])
        o = s.c()
        return ','.join(str(s.ds(o, array('b', b'\xee' * start + w[:k]), start) if start else s.ds(o, array('b', w[:k]))) for k in range(len(w) + 1))
    if op == 'T':
        w, out = U(t[3]), ''
        for k in range(len(w)):
            try:
                out += '-' if s.dec(s.c(), array('b', w[:k])) < 0 else '+'
            except Exception:
                out += 'E'
        return out + '.'
    if op == 'F':
        w = array('b', U(t[3]))
        o = s.c()
        try:
            d = str(s.ds(o, w))
        except Exception as e:
            d = exc(e)
        try:
            n = s.dec(o, w)
        except Exception as e:
            return d + ' ' + exc(e) + ' -'
        return '%s %d %s' % (d, n, dh(s, o) if n >= 0 else '-')
    if op == 'L':
        b = array('b', U(t[3]))
        o = s.c()
        n = s.dec(o, b)
        a = dh(s, o)
        for i in range(len(b)):
            if b[i] & 255 >= 2:
                b[i] ^= 1
        return '%d %s %s' % (n, a, dh(s, o))
    if op == 'G':
        o = mk(s, U(t[3]))
        out = ''
        for kind, n, ty, pub in s.m:
            if kind == 'get':
                if pub is None:
                    out += n + '=MISSING '
                    continue
                v = getattr(o, 'get_' + pub)()
                out += '%s=%s ' % (n, unscalar(ty, v).hex())
        return out + '.'
    if op == 'S':
        o = mk(s, U(t[3]))
        for kind, n, ty, pub in s.m:
            if kind == 'set' and n == t[4]:
                if pub is None or not hasattr(o, 'set_' + pub):
                    return 'MISSING'
                getattr(o, 'set_' + pub)(scalar(ty, struct.pack('<Q', int(t[5], 16))))
        return dh(s, o)
    if op == 'M':
        return alternates(s, U(t[3]), U(t[4]), U(t[5]))
    if op == 'N':
        e = E[t[3]]
        return ''.join('%s=%d%s ' % (x.name, x.p_number, '' if getattr(e.look(x.p_number), 'p_number', None) == x.p_number else '(no-lookup)') for x in e.entries) + '.'
    if op == 'Y':
        a = s.enc(s.c())
        return '%d %s' % (len(a), HB(a))
    if op == 'K':
        a, b = mk(s, U(t[3])), mk(s, U(t[4]))
        return ''.join(str(int(x)) for x in (a.equals_0(b), b.equals_0(a), a.hashCode_0() == b.hashCode_0(), a.equals_0(a), a.equals_0(None), a.equals_0('x')))
    if op == 'J':
        o = s.c()
        out = ''
        for x in t[3:]:
            n, ty = x.split('=')
            k = s.props.get(norm(n))
            out += '%s=%s ' % (n, 'MISSING' if k is None else unscalar(parse(ty), getattr(o, 'p_' + k)).hex())
        return out + '.'
    if op == 'Q':
        return history(s, t[3:])
    return 'EXC badop'


def alternates(s, c, wire, fill):
    fn, o, bad = s.i['funs'], mk(s, c), ''
    st = lambda n: getattr(s.c, s.i['sfuns'][n])
    meta = '1 0 ' if st('dynamic/0')() else '0 %d ' % st('size/0')()
    a = s.enc(o)
    for k in ('encode/1', 'encode/2'):
        b = array('b', (fill + bytes(len(a)))[:len(a)])
        if getattr(s.c, fn[k])(o, b, *[0][:k == 'encode/2']) != len(a) or b != a:
            bad += k + ','
    for k in range(min(3, len(wire) + 1)):
        w, q = array('b', wire[:len(wire) - k]), array('b', b'abc' + wire[:len(wire) - k])
        want = s.ds(s.c(), w)
        if s.ds(s.c(), w, 0) != want or s.ds(s.c(), q, 3) != want:
            bad += 'decodeSize,'
        elif want > 0:
            x, y, z = s.c(), s.c(), s.c()
            r = s.dec(x, w)
            if s.dec(y, w, 0) != r or s.dec(z, q, 3) != r or dh(s, x) != dh(s, y) or dh(s, x) != dh(s, z):
                bad += 'decode,'
    return meta + bad + '-'


def leaves(t, v, out):
    if t[0] == 'A':
        for x in v:
            leaves(t[2], x, out)
    elif t[0] in 'sy':
        out.append((t, v))
    elif t[0] == 'S':
        for n, kt, ft in S[t[1]].f:
            leaves(ft, getattr(v, 'p_' + n), out)
    return out


def history(s, steps):
    o, out, snap = s.c(), [], []
    for st in steps:
        k, a = st[0], st[1:]
        if k in 'ca':
            loads(s, o, Rd(U(a)))
            out.append('ok')
        elif k in 'mi':
            i, h = a.split(':')
            n, kt, ft = s.f[int(i.split(',')[0])]
            if k == 'm':
                setattr(o, 'p_' + n, load(ft, kt, Rd(U(h))))
            else:
                getattr(o, 'p_' + n)[int(i.split(',')[1])] = load(ft[2], None, Rd(U(h)))
            out.append('ok')
        elif k == 'd':
            n = s.dec(o, array('b', U(a)))
            out.append('%d:%s' % (n, dh(s, o)) if n >= 0 else '%d' % n)
            if n >= 0:
                snap.append(leaves(('S', s.k, None), o, []))
        elif k == 'e':
            out.append(HB(s.enc(o)))
        elif k == 'f':
            b = array('b', b'\xff' * s.es(o))
            s.enc2(o, b)
            out.append(HB(b))
        elif k in 'nN':
            out.append(dh(s, o))
    out.append('|')
    for l in snap:
        w = bytearray()
        for t, v in l:
            dump(t, v, w)
        out.append(H(w))
    return ' '.join(out)


def main():
    meta(sys.argv[1], sys.argv[3])
    for l in open(sys.argv[2]):
        if not l.strip() or l[0] == '#':
            continue
        try:
            r = do(l)
        except Exception as e:
            r = 'EXC ' + type(e).__name__ + ':' + str(e).replace('\n', ' ')[:200]
        sys.stdout.write(l.split()[1] + ' ' + r + '\n')
    sys.stdout.write('END\n')


main()
