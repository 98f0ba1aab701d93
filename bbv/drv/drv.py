import importlib, struct, sys, os, warnings
warnings.simplefilter('ignore')
NULL8 = b'\xfe' * 7 + b'\x7f'
S, E = {}, {}


def norm(s):
    return s.replace('_', '').lower()


def parse(s):
    if s[0] == 'A':
        a, b = s[1:].split(':', 1)
        return ('A', int(a), parse(b))
    if s[:2] in ('E:', 'S:'):
        return (s[0], s[2:], None)
    return (s[0], int(s[1:] or 0), None)


class SD:
    pass


def meta(path):
    for line in open(path):
        a = line.split()
        if not a:
            continue
        mod, cls = a[2].rsplit(':', 1)
        c = getattr(importlib.import_module(mod), cls)
        if a[0] == 'E':
            E[a[1]] = c
        else:
            s = SD()
            s.c, s.f, s.m, s.k = c, [], [], a[1]
            S[a[1]] = s
            o = c()
            pub = {norm(k): k for k in dir(c)}
            prv = {norm(k): k for k in vars(o)}
            p = 4
            for _ in range(int(a[3])):
                n = norm(a[p])
                s.f.append((prv.get(n) or '_' + a[p], pub.get(n) or prv[n], parse(a[p + 1])))
                p += 2
            k = int(a[p])
            p += 1
            for _ in range(k):
                s.m.append((a[p], a[p + 1], parse(a[p + 2]), pub.get(norm(a[p + 1]))))
                p += 3


class Rd:
    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        self.p += n
        return self.b[self.p - n:self.p]


def scalar(t, raw):
    k, n, _ = t
    if k == 'b':
        return raw != bytes(8)
    if k == 'f':
        return struct.unpack('<f', raw[:4])[0] if n == 32 else struct.unpack('<d', raw)[0]
    return struct.unpack('<q' if k == 'i' else '<Q', raw)[0]


def unscalar(t, v):
    k, n, _ = t
    if k == 'b':
        return struct.pack('<Q', int(v))
    if k == 'f':
        return struct.pack('<f', v) + bytes(4) if n == 32 else struct.pack('<d', v)
    if type(v) is not int:
        return b'BADTYPE!'
    return struct.pack('<q' if k == 'i' else '<Q', v)


def load(t, r, mode):
    k = t[0]
    if k == 'A':
        return [load(t[2], r, mode) for _ in range(t[1])]
    if k in 'sy':
        b = r.take(struct.unpack('<I', r.take(4))[0])
        return b.decode('utf-8') if k == 's' else b
    if k == 'E':
        b = r.take(8)
        return None if b == NULL8 else E[t[1]](struct.unpack('<Q', b)[0])
    if k == 'S':
        o = S[t[1]].c()
        loads(S[t[1]], o, r, mode)
        return o
    return scalar(t, r.take(8))


def poison(s, o):
    """whatever a constant member holds must not matter when encoding"""
    known = {x[0] for x in s.f}
    for k in list(vars(o)):
        if k not in known:
            setattr(o, k, 77)
    for prv, pub, t in s.f:
        v = getattr(o, prv)
        if t[0] == 'S':
            poison(S[t[1]], v)
        elif t[0] == 'A' and t[2][0] == 'S':
            for x in v:
                poison(S[t[2][1]], x)


def loads(s, o, r, mode):
    for prv, pub, t in s.f:
        setattr(o, pub if mode == 'a' else prv, load(t, r, mode))


def dump(t, v, w, mode):
    k = t[0]
    if k == 'A':
        if len(v) != t[1]:
            w += b'BADLEN!!'
        for x in v:
            dump(t[2], x, w, mode)
    elif k == 's':
        b = v.encode('utf-8')
        w += struct.pack('<I', len(b)) + b
    elif k == 'y':
        b = bytes(v)
        w += struct.pack('<I', len(b)) + b
    elif k == 'E':
        w += NULL8 if v is None else struct.pack('<Q', v.value)
    elif k == 'S':
        dumps(S[t[1]], v, w, mode)
    else:
        w += unscalar(t, v)


def dumps(s, o, w, mode):
    for prv, pub, t in s.f:
        dump(t, getattr(o, pub if mode == 'a' else prv), w, mode)


def H(b):
    return bytes(b).hex() or '-'


def U(s):
    return b'' if s == '-' else bytes.fromhex(s)


def dh(s, o, mode='d'):
    w = bytearray()
    dumps(s, o, w, mode)
    return H(w)


def mk(s, c, mode='d'):
    o = s.c()
    if c:
        loads(s, o, Rd(c), mode)
    return o


def exc(e):
    return 'EXC:' + type(e).__name__


def do(line):
    t = line.split()
    s = S[t[2]]
    op = t[0]
    if op == 'E':
        fill, pad, mode = int(t[3]), int(t[4]), t[5]
        o = mk(s, U(t[6]), mode)
        poison(s, o)
        es = o.encode_size()
        b = bytearray([fill]) * (es + 2 * pad)
        ret = o.encode(memoryview(b)[pad:pad + es] if pad or mode == 'a' else b)
        a = o.encode()
        return '%d %d %s %d %s %s' % (es, ret, H(b), len(a), H(a), dh(s, o, mode))
    if op == 'D':
        mode, start, tail = t[3], int(t[4]), int(t[5])
        b = b'\xee' * start + U(t[7]) + b'\xee' * tail
        b = [bytes, bytearray][mode == 'a'](b)
        o = mk(s, U(t[6]), mode)
        ok, n = o.decode(memoryview(b)[start:] if start else b)
        if not ok:
            return '%d -' % min(n, -1)
        return '%d %s' % (n, dh(s, o, mode))
    if op == 'Z':
        start, w = int(t[3]), U(t[4])
        o = s.c()
        return ','.join(str(o.decode_size(w[:k] if start == 0 else memoryview(bytearray(w[:k])))) for k in range(len(w) + 1))
    if op == 'T':
        w, out = U(t[3]), ''
        for k in range(len(w)):
            try:
                ok, n = s.c().decode(w[:k])
                out += '+' if ok else '-'
            except Exception:
                out += 'E'
        return out + '.'
    if op == 'F':
        w = U(t[3])
        o = s.c()
        try:
            ds = str(o.decode_size(w))
        except Exception as e:
            ds = exc(e)
        try:
            ok, n = o.decode(w)
        except Exception as e:
            return ds + ' ' + exc(e) + ' -'
        if not ok:
            return '%s %d -' % (ds, min(n, -1))
        return '%s %d %s' % (ds, n, dh(s, o))
    if op == 'L':
        b = bytearray(U(t[3]))
        o = s.c()
        ok, n = o.decode(b)
        a = dh(s, o)
        for i in range(len(b)):
            if b[i] >= 2:
                b[i] ^= 1
        return '%d %s %s' % (n, a, dh(s, o))
    if op == 'G':
        o = mk(s, U(t[3]))
        out = ''
        for kind, n, ty, pub in s.m:
            if kind == 'get':
                if pub is None:
                    out += n + '=MISSING '
                    continue
                v = getattr(o, pub)
                out += '%s=%s ' % (n, unscalar(ty, v).hex())
        return out + '.'
    if op == 'S':
        o = mk(s, U(t[3]))
        for kind, n, ty, pub in s.m:
            if kind == 'set' and n == t[4]:
                if pub is None:
                    return 'MISSING'
                v = int(t[5], 16)
                setattr(o, pub, scalar(ty, struct.pack('<Q', v)))
        return dh(s, o)
    if op == 'M':
        return alternates(s, U(t[3]), U(t[4]), U(t[5]))
    if op == 'N':
        return ''.join('%s=%d ' % (n, m.value) if E[t[3]](m.value) is m and E[t[3]][n] is m else n + '=? ' for n, m in E[t[3]].__members__.items()) + '.'
    if op == 'Y':
        a = s.c().encode()
        return '%d %s' % (len(a), H(a))
    if op == 'K':
        return 'na'
    if op == 'Q':
        return history(s, t[3:])
    if op == 'X':
        return shared(s, U(t[3]), U(t[4]), int(t[5]), int(t[6]))
    return 'EXC badop'


def alternates(s, c, wire, fill):
    o, bad = mk(s, c), ''
    meta = '1 0 ' if s.c.dynamic() else '0 %d ' % s.c.size()
    if o.dynamic() is not s.c.dynamic() or o.size() != s.c.size():
        bad += 'instance,'
    a = bytes(o.encode())
    for mk_b in (lambda n: bytearray((fill + bytes(n))[:n]), lambda n: memoryview(bytearray((fill + bytes(n))[:n]))):
        b = mk_b(len(a))
        if o.encode(b) != len(a) or bytes(b) != a or o.encode(buffer=b) != len(a):
            bad += 'encode(%s),' % type(b).__name__
    b = bytearray((bytes(2) + fill + bytes(len(a) + 2))[:len(a) + 2] + bytes(2))
    if o.encode(memoryview(b)[2:2 + len(a)]) != len(a) or b[2:2 + len(a)] != a or b[:2] + b[-2:] != bytes(4):
        bad += 'encode(part),'
    for k in range(min(3, len(wire) + 1)):
        w = wire[:len(wire) - k]
        for x in (bytearray(w), memoryview(w), memoryview(bytearray(w)), memoryview(b'abc' + w)[3:]):
            if s.c().decode_size(x) != s.c().decode_size(w):
                bad += 'decode_size(%s),' % type(x).__name__
            elif s.c().decode_size(w) > 0:
                y, z = s.c(), s.c()
                if y.decode(w) != z.decode(x) or dh(s, y) != dh(s, z):
                    bad += 'decode(%s),' % type(x).__name__
    return meta + bad + '-'


def leaves(t, v, out):
    if t[0] == 'A':
        for x in v:
            leaves(t[2], x, out)
    elif t[0] in 'sy':
        out.append((t, v))
    elif t[0] == 'S':
        for prv, pub, ft in S[t[1]].f:
            leaves(ft, getattr(v, prv), out)
    return out


def history(s, steps):
    o, out, snap, keep = s.c(), [], [], []
    for st in steps:
        k, a = st[0], st[1:]
        if k in 'ca':
            loads(s, o, Rd(U(a)), 'a' if k == 'a' else 'd')
            out.append('ok')
        elif k in 'mi':
            i, h = a.split(':')
            prv, pub, ft = s.f[int(i.split(',')[0])]
            if k == 'm':
                setattr(o, pub, load(ft, Rd(U(h)), 'd'))
            else:
                getattr(o, pub)[int(i.split(',')[1])] = load(ft[2], Rd(U(h)), 'd')
            out.append('ok')
        elif k == 'd':
            w = U(a)
            w = [bytes, bytearray][len(keep) & 1](w)
            keep.append(w)
            try:
                ok, n = o.decode(w)
            except ValueError:
                out.append('-1')
                continue
            out.append('%d:%s' % (n, dh(s, o)) if ok else '%d' % min(n, -1))
            if ok:
                snap.append(leaves(('S', s.k, None), o, []))
        elif k == 'e':
            out.append(H(o.encode()))
        elif k == 'f':
            b = bytearray(b'\xff' * o.encode_size())
            o.encode(b)
            out.append(H(b))
        elif k in 'nN':
            out.append(dh(s, o, 'a' if k == 'N' else 'd'))
    out.append('|')
    for l in snap:
        w = bytearray()
        for t, v in l:
            dump(t, v, w, 'd')
        out.append(H(w))
    return ' '.join(out)


def shared(s, c, wire, n, rounds):
    """two objects and two frames; neighbouring threads work on different ones"""
    import threading
    o, p, r = mk(s, c), s.c(), s.c()
    ref = [bytes(o.encode())]
    p.decode(wire)
    fr = [wire, ref[0]]
    r.decode(fr[1])
    ref.append(bytes(p.encode()))
    o, val, again = [o, p], [dh(s, p), dh(s, r)], [ref[1], bytes(r.encode())]
    bad = []
    bar = threading.Barrier(n)

    def run(h):
        bar.wait()
        for _ in range(rounds):
            try:
                q = s.c()
                ok, m = q.decode(fr[h])
                if o[h].encode_size() != len(ref[h]) or bytes(o[h].encode()) != ref[h] or s.c().decode_size(fr[h]) != len(fr[h]) or not ok or m != len(fr[h]) or dh(s, q) != val[h]:
                    bad.append(1)
                for _ in range(3):
                    q = s.c()
                    q.decode(fr[h])
                    if bytes(q.encode()) != again[h]:
                        bad.append(1)
            except Exception:
                bad.append(1)
    th = [threading.Thread(target=run, args=(q & 1,)) for q in range(n)]
    [x.start() for x in th]
    [x.join() for x in th]
    return '%d %s %s' % (len(bad), H(ref[0]), val[0])


def main():
    sys.path.insert(0, sys.argv[3])
    meta(sys.argv[1])
    out = []
    for l in open(sys.argv[2]):
        if not l.strip() or l[0] == '#':
            continue
        try:
            r = do(l)
        except Exception as e:
            r = 'EXC ' + type(e).__name__ + ':' + str(e).replace('\n', ' ')[:200]
        out.append(l.split()[1] + ' ' + r)
    if len(sys.argv) > 4:
        nth = int(sys.argv[4])
        import threading, time
        sys.setswitchinterval(1e-5)
        lines = [l for l in open(sys.argv[2]) if l.strip() and l[0] != '#']
        bad, ops = [], []
        bar = threading.Barrier(nth)

        def run(q):
            bar.wait()
            for k in range(len(lines)):
                i = (k + q * 7919) % len(lines)
                try:
                    r = do(lines[i])
                except Exception as e:
                    r = 'EXC ' + type(e).__name__ + ':' + str(e).replace('\n', ' ')[:200]
                if lines[i].split()[1] + ' ' + r != out[i]:
                    bad.append(i)
            end, mine = time.monotonic() + 2.5, len(lines)
            for i, l in enumerate(lines):
                if time.monotonic() > end:
                    break
                for t in range(4):  # every thread repeats the same command at the same time
                    try:
                        r = do(l)
                    except Exception as e:
                        r = 'EXC ' + type(e).__name__ + ':' + str(e).replace('\n', ' ')[:200]
                    mine += 1
                    if l.split()[1] + ' ' + r != out[i]:
                        bad.append(i)
            ops.append(mine)
        th = [threading.Thread(target=run, args=(q,)) for q in range(nth)]
        [x.start() for x in th]
        [x.join() for x in th]
        out.append('PAR %d %d %d' % (nth, sum(ops), len(bad)))
    out.append('END')
    sys.stdout.write('\n'.join(out) + '\n')


main()
