"""Command suites: what is sent to every target's driver and the oracle that judges each answer."""
import copy, random, struct
from . import model
from .model import *
from .gen import *


def hx(b):
    return b.hex() or '-'


def uh(s):
    return b'' if s == '-' else bytes.fromhex(s)


def same(t, a, b):
    """value equality; NaNs of the same width are equal"""
    if t.kind == 'array':
        return len(a) == len(b) and all(same(t.elem, x, y) for x, y in zip(a, b))
    if t.kind == 'struct':
        return all(same(f.typ, a[f.name], b[f.name]) for f in t.vfields())
    if t.kind == 'basic' and t.name in FLOATS:
        return a == b or (a is not None and b is not None and is_nan(t.bits, a) and is_nan(t.bits, b))
    return a == b and (type(a) is type(b) or not isinstance(a, bool) and not isinstance(b, bool))


def diff(t, a, b, path=''):
    if t.kind == 'array':
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(t.elem, x, y, '%s[%d]' % (path, i))
            if r:
                return r
        return ''
    if t.kind == 'struct':
        for f in t.vfields():
            r = diff(f.typ, a[f.name], b[f.name], path + '.' + f.name)
            if r:
                return r
        return ''
    return '' if same(t, a, b) else '%s expected %r got %r' % (path, a, b)


def parse_dump(s, tok):
    try:
        b = uh(tok)
        v, p = uncanon(s, b)
        if p != len(b):
            return None, 'dump has %d trailing bytes' % (len(b) - p)
        return v, ''
    except Exception as e:
        return None, 'unreadable dump (%s) %s' % (type(e).__name__, tok[:160])


class Cmd:
    """one driver command plus its oracle"""
    prop = None

    def __init__(self, s):
        self.s = s
        self.id = None

    def line(self):
        raise NotImplementedError

    def line_as(self, i):
        c = copy.copy(self)
        c.id = i
        return c.line()

    def judge(self, tgt, ans):
        """-> '' or a violation text"""
        raise NotImplementedError

    def applicable(self, tgt):
        return True


class Encode(Cmd):
    def __init__(self, s, v, fill=0, pad=0, mode='d', check=('wire', 'size', 'confine', 'dump')):
        super().__init__(s)
        self.v, self.fill, self.pad, self.mode, self.check = v, fill, pad, mode, check
        self.wire, self.mask = encode(s, v)

    def line(self):
        return 'E %s %s %d %d %s %s' % (self.id, self.s.name, self.fill, self.pad, self.mode, hx(canon(self.s, self.v)))

    def judge(self, tgt, ans):
        a = ans.split()
        if len(a) != 6 or a[0] in ('EXC', 'CRASH', 'TIMEOUT'):
            return 'encode failed: ' + ans[:300]
        es, ret, buf, ret2, alloc = int(a[0]), int(a[1]), uh(a[2]), int(a[3]), uh(a[4])
        n = len(self.wire)
        out = []
        if 'size' in self.check:
            if es != n:
                out.append('encode_size returned %d for an encoding of %d bytes' % (es, n))
            if ret != n:
                out.append('encode returned %d, encoding is %d bytes' % (ret, n))
            if ret2 != n:
                out.append('second encode / allocated encoding has %d bytes, expected %d' % (ret2, n))
        p, fill = self.pad, self.fill
        if 'confine' in self.check and p:
            if buf[:p] != bytes([fill]) * p:
                out.append('encode wrote before the start of its buffer')
            if buf[p + n:] != bytes([fill]) * (len(buf) - p - n):
                out.append('encode wrote after its %d bytes: %s' % (n, buf[p + n:].hex()))
        if 'wire' in self.check:
            body = buf[p:p + n]
            if fill == 0:
                if body != self.wire:
                    out.append('wire %s, expected %s' % (body.hex(), self.wire.hex()))
            elif len(body) != n or any((x ^ y) & m for x, y, m in zip(body, self.wire, self.mask)):
                out.append('wire %s (buffer pre-filled with %02x), expected %s under mask %s' % (body.hex(), fill, self.wire.hex(), self.mask.hex()))
            if alloc[:n] != self.wire:
                out.append('allocated encoding %s, expected %s' % (alloc.hex(), self.wire.hex()))
        if 'dump' in self.check:
            d, err = parse_dump(self.s, a[5])
            if err:
                out.append('value after encode: ' + err)
            else:
                r = diff(self.s, self.v, d)
                if r:
                    out.append('value read back from the object differs: ' + r)
        return '; '.join(out)


class Decode(Cmd):
    """decode a well-formed frame"""

    def __init__(self, s, wire, expect=None, start=0, tail=0, mode='d', stale=None, check=('size', 'value')):
        super().__init__(s)
        self.check = check
        self.wire, self.start, self.tail, self.mode, self.stale = wire, start, tail, mode, stale
        if expect is None:
            expect, self.n, bad = decode(s, wire)
            assert not bad
        else:
            self.n = len(wire)
        self.v = expect

    def line(self):
        c = '-' if self.stale is None else hx(canon(self.s, self.stale))
        return 'D %s %s %s %d %d %s %s' % (self.id, self.s.name, self.mode, self.start, self.tail, c, hx(self.wire))

    def judge(self, tgt, ans):
        a = ans.split()
        unknown = has_unknown(self.s, self.v)
        if tgt.excenum and unknown:
            return '' if a[0] == 'EXC' and 'ValueError' in ans else 'decode of an undeclared enum number was not refused: ' + ans[:200]
        if len(a) < 2 or a[0] in ('EXC', 'CRASH', 'TIMEOUT'):
            return 'decode failed: ' + ans[:300]
        ret = int(a[0])
        out = []
        if ('size' in self.check or ret < 0) and ret != self.n:
            out.append('decode returned %d, frame is %d bytes' % (ret, self.n))
        if 'value' in self.check and len(a) > 2 and not has_nan(self.s, self.v):
            out.append('equality of two equal decoded objects broken: ' + a[2])
        if ret >= 0 and 'value' in self.check:
            d, err = parse_dump(self.s, a[1])
            if err:
                out.append('decoded value: ' + err)
            else:
                r = diff(self.s, null_unknown(self.s, self.v) if tgt.nullenum else self.v, d)
                if r:
                    out.append('decoded value differs: ' + r)
        return '; '.join(out)


class BadConst(Cmd):
    """frame with a corrupted constant: decode must refuse"""

    def __init__(self, s, wire, what='', start=0):
        super().__init__(s)
        self.wire, self.what, self.start = wire, what, start

    def line(self):
        return 'D %s %s d %d 0 - %s' % (self.id, self.s.name, self.start, hx(self.wire))

    def judge(self, tgt, ans):
        a = ans.split()
        if a[0] in ('EXC', 'CRASH', 'TIMEOUT'):
            return 'decode of a frame with a wrong constant failed abnormally: ' + ans[:300]
        if int(a[0]) >= 0:
            return 'decode accepted (returned %s) a frame whose constant field is wrong: %s' % (a[0], self.what)
        return ''


class Framing(Cmd):
    """decode_size on every prefix of frame(+extra)"""

    def __init__(self, s, wire, start=0, extra=b''):
        super().__init__(s)
        self.wire, self.start, self.ext = wire, start, extra
        self._least = None

    def least(self, k):
        """length of the shortest frame that begins with the first k bytes: whatever is open ends with the next byte"""
        if self._least is None:
            self._least = least_frames(self.s, self.wire)
        return self._least[k]

    def line(self):
        return 'Z %s %s %d %s' % (self.id, self.s.name, self.start, hx(self.wire + self.ext))

    def judge(self, tgt, ans):
        if ans.split()[0] in ('EXC', 'CRASH', 'TIMEOUT'):
            return 'decode_size failed: ' + ans[:300]
        n = len(self.wire)
        r = [int(x) for x in ans.split(',')]
        if len(r) != n + len(self.ext) + 1:
            return 'bad framing answer'
        for k, x in enumerate(r):
            if k >= n:
                if x != n:
                    return 'decode_size of %d bytes holding a complete %d-byte frame returned %d' % (k, n, x)
            else:
                if x >= 0:
                    return 'decode_size of a %d-byte prefix of a %d-byte frame returned %d (claims complete)' % (k, n, x)
                if -x <= k:
                    return 'decode_size of a %d-byte prefix asks for %d bytes: no progress' % (k, -x)
                if -x > n:
                    return 'decode_size of a %d-byte prefix of a %d-byte frame asks for %d bytes: more than the frame' % (k, n, -x)
                if -x > self.least(k):
                    return 'decode_size of a %d-byte prefix asks for %d bytes although it may be completed by a frame of %d' % (k, -x, self.least(k))
        return ''


class Truncated(Cmd):
    """(framing-guarded) decode on every strict prefix must refuse"""

    def __init__(self, s, wire):
        super().__init__(s)
        self.wire = wire

    def line(self):
        return 'T %s %s %s' % (self.id, self.s.name, hx(self.wire))

    def judge(self, tgt, ans):
        a = ans.split()[0]
        if a in ('EXC', 'CRASH', 'TIMEOUT'):
            return 'decode of a truncated frame failed: ' + ans[:300]
        if len(a) != len(self.wire) + 1:
            return 'bad truncation answer ' + ans[:200]
        if '+' in a:
            return 'decode accepted a %d-byte prefix of a %d-byte frame' % (a.index('+'), len(self.wire))
        if 'E' in a:
            return 'decode threw on a %d-byte prefix of a %d-byte frame instead of reporting failure' % (a.index('E'), len(self.wire))
        return ''


class Hostile(Cmd):
    """arbitrary bytes: no crash, no hang, framing and decode agree with the reference decoder"""

    def __init__(self, s, wire, need_value=True, whole=None):
        super().__init__(s)
        self.whole = whole
        self.wire = wire
        self.need_value = need_value
        try:
            self.v, self.n, self.bad = decode(s, wire)
            self.state = 'bad' if self.bad else 'ok'
        except Need:
            self.state = 'need'
        except BadLen:
            self.state = 'badlen'
        except LongLen:
            self.state = 'longlen'
        self.text = True
        if self.state == 'ok':
            self.text = utf8ok(s, self.v)

    def line(self):
        return 'F %s %s %s' % (self.id, self.s.name, hx(self.wire))

    def judge(self, tgt, ans):
        a = ans.split()
        if a[0] in ('EXC', 'CRASH', 'TIMEOUT') or len(a) < 3:
            return 'hostile input crashed the decoder: ' + ans[:300]
        ds, ret = a[0], a[1]
        n = len(self.wire)
        if ds.startswith('EXC'):
            return 'decode_size threw on arbitrary bytes: ' + ds
        ds = int(ds)
        if self.state == 'longlen':
            if ds > n:
                return 'decode_size returned %d on %d bytes' % (ds, n)
            return 'decode threw on an over-long length prefix: ' + ret if ret.startswith('EXC') else ''
        if self.state in ('need', 'badlen'):
            if ds >= 0:
                return 'decode_size returned %d on %d bytes that do not hold a complete frame' % (ds, n)
            if self.state == 'need' and -ds <= n and self.s.dynamic and not (tgt.lang == 'go' and ds == -1):
                return 'decode_size returned %d on an incomplete %d-byte input: no progress' % (ds, n)
            if self.whole and -ds > self.whole:
                return 'decode_size of a %d-byte prefix of a %d-byte frame asks for %d bytes' % (n, self.whole, -ds)
            if ret.startswith('EXC'):
                return 'decode threw on an incomplete frame: ' + ret
            if ret != 'na' and int(ret) >= 0:
                return 'decode returned %s on an incomplete frame' % ret
            return ''
        if ds != self.n:
            return 'decode_size returned %d on a complete %d-byte frame' % (ds, self.n)
        if self.state == 'bad':
            if ret.startswith('EXC'):
                if tgt.excenum and 'ValueError' in ret:
                    return ''
                if 'Unicode' in ret:
                    return ''
                return 'decode threw on a wrong constant: ' + ret
            if ret != 'na' and int(ret) >= 0:
                return 'decode accepted a wrong constant'
            return ''
        unknown = has_unknown(self.s, self.v)
        if ret.startswith('EXC'):
            if tgt.excenum and unknown and 'ValueError' in ret:
                return ''
            if not self.text and 'Unicode' in ret:
                return ''
            return 'decode threw on a complete frame: ' + ret
        if int(ret) != self.n:
            return 'decode returned %s on a complete %d-byte frame' % (ret, self.n)
        if not self.text and tgt.lang not in ('c', 'cpp', 'go'):
            return ''
        d, err = parse_dump(self.s, a[2])
        if err:
            return err
        r = diff(self.s, null_unknown(self.s, self.v) if tgt.nullenum else self.v, d)
        return 'decoded value differs: ' + r if r else ''


def has_nan(t, v):
    if t.kind == 'array':
        return any(has_nan(t.elem, x) for x in v)
    if t.kind == 'struct':
        return any(has_nan(f.typ, v[f.name]) for f in t.vfields())
    return t.kind == 'basic' and t.name in FLOATS and bool(is_nan(t.bits, v))


def utf8ok(t, v):
    if t.kind == 'array':
        return all(utf8ok(t.elem, x) for x in v)
    if t.kind == 'struct':
        return all(utf8ok(f.typ, v[f.name]) for f in t.vfields())
    if t.kind == 'string':
        try:
            v.decode('utf-8')
            return True
        except UnicodeDecodeError:
            return False
    return True


class Alias(Cmd):
    """with memory copy a decoded value does not change when the input buffer changes"""

    def __init__(self, s, wire, owned=True):
        super().__init__(s)
        self.wire, self.owned = wire, owned
        self.v = decode(s, wire)[0]

    def line(self):
        return 'L %s %s %s' % (self.id, self.s.name, hx(self.wire))

    def judge(self, tgt, ans):
        a = ans.split()
        if tgt.excenum and has_unknown(self.s, self.v):
            return '' if a[0] == 'EXC' and 'ValueError' in ans else 'decode of an undeclared enum number was not refused: ' + ans[:200]
        if a[0] in ('EXC', 'CRASH', 'TIMEOUT') or len(a) != 3:
            return 'decode failed: ' + ans[:300]
        if int(a[0]) != len(self.wire):
            return 'decode returned %s, frame is %d bytes' % (a[0], len(self.wire))
        for i, when in ((1, 'before'), (2, 'after')):
            d, err = parse_dump(self.s, a[i])
            if err:
                return err
            r = diff(self.s, null_unknown(self.s, self.v) if tgt.nullenum else self.v, d)
            if r:
                return 'decoded value %s the caller reuses the input buffer: %s' % (when, r)
        return ''


class View(Alias):
    """without memory copy, bytes (in C also strings) are views of the input buffer"""

    def judge(self, tgt, ans):
        a = ans.split()
        if tgt.excenum and has_unknown(self.s, self.v):
            return '' if a[0] == 'EXC' and 'ValueError' in ans else 'decode of an undeclared enum number was not refused: ' + ans[:200]
        if a[0] in ('EXC', 'CRASH', 'TIMEOUT') or len(a) != 3:
            return 'decode failed: ' + ans[:300]
        if int(a[0]) != len(self.wire):
            return 'decode returned %s, frame is %d bytes' % (a[0], len(self.wire))
        for i, when, want in ((1, 'before', self.v), (2, 'after', seen_through(self.s, self.v, tgt.lang))):
            d, err = parse_dump(self.s, a[i])
            if err:
                return err
            r = diff(self.s, null_unknown(self.s, want) if tgt.nullenum else want, d)
            if r:
                return 'zero-copy decoded value %s the caller changes the input buffer: %s' % (when, r)
        return ''


def flip(b):
    return bytes(x ^ 1 if x >= 2 else x for x in b)


def seen_through(t, v, lang):
    if t.kind == 'array':
        return [seen_through(t.elem, x, lang) for x in v]
    if t.kind == 'struct':
        return {f.name: seen_through(f.typ, v[f.name], lang) for f in t.vfields()}
    if t.kind == 'bytes' or (t.kind == 'string' and lang == 'c'):
        return flip(v)
    return v


def near(a, b):
    """targets may fold constants exactly or leave a zero's sign out"""
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def same_number(t, a, b):
    try:
        a, b = bytes.fromhex(a), bytes.fromhex(b)
        if t in ('float32', 'float64'):
            fmt = '<f' if t == 'float32' else '<d'
            n = struct.calcsize(fmt)
            return near(struct.unpack(fmt, a[:n])[0], struct.unpack(fmt, b[:n])[0])
        # the languages without unsigned types
        n = max(1, int(t.lstrip('uint')) // 8) if t != 'bool' else 8
        return t[0] == 'u' and a[:n] == b[:n]
    except (TypeError, ValueError, struct.error):
        return False


class Getter(Cmd):
    def __init__(self, s, v, want, types=None):
        super().__init__(s)
        self.v, self.want = v, want      # want {method: canonical 8 byte hex}
        self.types = types or {}         # of the methods, where numbers are compared rather than images

    def line(self):
        return 'G %s %s %s' % (self.id, self.s.name, hx(canon(self.s, self.v)))

    def judge(self, tgt, ans):
        a = ans.split()
        if a[0] in ('EXC', 'CRASH', 'TIMEOUT') or a[-1] != '.':
            return 'custom getter failed: ' + ans[:300]
        got = dict(x.split('=', 1) for x in a[:-1])
        for k, w in self.want.items():
            if got.get(k) != w and not (k in self.types and same_number(self.types[k], got.get(k), w)):
                return 'custom getter %s returned %s, expected %s' % (k, got.get(k), w)
        return ''


class Setter(Cmd):
    def __init__(self, s, v, method, arg, want):
        super().__init__(s)
        self.v, self.method, self.arg, self.want = v, method, arg, want

    def line(self):
        return 'S %s %s %s %s %x' % (self.id, self.s.name, hx(canon(self.s, self.v)), self.method, self.arg)

    def judge(self, tgt, ans):
        if ans.split()[0] in ('EXC', 'CRASH', 'TIMEOUT', 'MISSING'):
            return 'custom setter failed: ' + ans[:300]
        d, err = parse_dump(self.s, ans.split()[0])
        if err:
            return err
        for f in self.s.vfields():
            x, y = d.get(f.name), self.want[f.name]
            if f.typ.kind == 'basic' and f.typ.name == 'float64' and isinstance(x, int) and near(*struct.unpack('<dd', struct.pack('<QQ', x, y))):
                d[f.name] = y
        r = diff(self.s, self.want, d)
        return 'custom setter %s: %s' % (self.method, r) if r else ''


def leaf_dump(t, v):
    """strings and bytes only, in order"""
    if t.kind == 'array':
        return b''.join(leaf_dump(t.elem, x) for x in v)
    if t.kind == 'struct':
        return b''.join(leaf_dump(f.typ, v[f.name]) for f in t.vfields())
    return canon_type(t, v) if t.kind in ('string', 'bytes') else b''


class History(Cmd):
    """a sequence of operations on one object, replayed on a sequential model of the object"""

    def __init__(self, s, steps, start=None):
        super().__init__(s)
        self.steps = steps
        self.start = start          # value of a fresh object, None: not looked at

    def line(self):
        out = []
        for st in self.steps:
            k = st[0]
            if k in 'ca':
                out.append(k + hx(canon(self.s, st[1])))
            elif k == 'm':
                f = self.s.vfields()[st[1]]
                out.append('m%d:%s' % (st[1], hx(canon_type(f.typ, st[2]))))
            elif k == 'i':
                f = self.s.vfields()[st[1]]
                out.append('i%d,%d:%s' % (st[1], st[2], hx(canon_type(f.typ.elem, st[3]))))
            elif k == 'd':
                out.append('d' + hx(st[1]))
            else:
                out.append(k)
        return 'Q %s %s %s' % (self.id, self.s.name, ' '.join(out))

    def judge(self, tgt, ans):
        a = ans.split()
        if a[0] in ('EXC', 'CRASH', 'TIMEOUT') or '|' not in a:
            return 'history failed: ' + ans[:300]
        cut = a.index('|')
        res, snap = a[:cut], a[cut + 1:]
        if len(res) != len(self.steps):
            return 'history answered %d of %d steps' % (len(res), len(self.steps))
        cur, seen = copy.deepcopy(self.start), []
        fs = self.s.vfields()
        for n, (st, r) in enumerate(zip(self.steps, res)):
            k, at = st[0], 'step %d of %s: ' % (n, ' '.join(x[0] for x in self.steps))
            if k in 'ca':
                cur = st[1]
            elif k == 'm' and cur is not None:
                cur = dict(cur)
                cur[fs[st[1]].name] = st[2]
            elif k == 'i' and cur is not None:
                cur = dict(cur)
                l = list(cur[fs[st[1]].name])
                l[st[2]] = st[3]
                cur[fs[st[1]].name] = l
            elif k == 'd':
                try:
                    v, m, bad = decode(self.s, st[1])
                except (Need, BadLen):
                    v, bad = None, [1]
                if bad:
                    if not r.startswith('-'):
                        return at + 'decode of a bad frame returned ' + r[:60]
                    cur = None
                else:
                    ret, _, d = r.partition(':')
                    if int(ret) != m:
                        return at + 'decode returned %s, frame is %d bytes' % (ret, m)
                    x, err = parse_dump(self.s, d)
                    if err:
                        return at + err
                    e = diff(self.s, v, x)
                    if e:
                        return at + 'value decoded into a used object differs: ' + e
                    cur = v
                    seen.append(v)
            elif cur is None:
                continue
            elif k == 'e':
                w = encode(self.s, cur)[0]
                if uh(r) != w:
                    return at + 'encoded %s, expected %s' % (r, w.hex())
            elif k == 'f':
                w, m = encode(self.s, cur)
                b = uh(r)
                if len(b) != len(w) or any((x ^ y) & z for x, y, z in zip(b, w, m)):
                    return at + 'encoded into a used buffer %s, expected %s' % (r, w.hex())
            elif k in 'nN':
                x, err = parse_dump(self.s, r)
                if err:
                    return at + err
                e = diff(self.s, cur, x)
                if e:
                    return at + 'object holds another value: ' + e
        if len(snap) != len(seen):
            return 'history lost a snapshot'
        for n, (v, r) in enumerate(zip(seen, snap)):
            if tgt.lang in ('c', 'cpp', 'go'):
                x, err = parse_dump(self.s, r)
                if err:
                    return err
                e = diff(self.s, v, x)
                if e:
                    return 'values handed out by decode number %d changed through later operations on the object: %s' % (n, e)
            elif uh(r) != leaf_dump(self.s, v):
                return 'strings or bytes handed out by decode number %d changed through later operations on the object: %s, expected %s' % (n, r, leaf_dump(self.s, v).hex())
        return ''


class Shared(Cmd):
    """one object encoded and one frame decoded by several threads at once"""

    def __init__(self, s, v, wire, threads=4, rounds=20):
        super().__init__(s)
        self.v, self.wire, self.threads, self.rounds = v, wire, threads, rounds
        self.enc = encode(s, v)[0]
        self.dec = decode(s, wire)[0]

    def line(self):
        return 'X %s %s %s %s %d %d' % (self.id, self.s.name, hx(canon(self.s, self.v)), hx(self.wire), self.threads, self.rounds)

    def judge(self, tgt, ans):
        a = ans.split()
        if a[0] in ('EXC', 'CRASH', 'TIMEOUT') or len(a) != 3:
            return 'shared use failed: ' + ans[:300]
        if a[0] != '0':
            return '%s of %d concurrent operations on a shared object and frame gave a different result' % (a[0], self.threads * self.rounds)
        if uh(a[1]) != self.enc:
            return 'encoded %s, expected %s' % (a[1], self.enc.hex())
        d, err = parse_dump(self.s, a[2])
        if err:
            return err
        r = diff(self.s, null_unknown(self.s, self.dec) if tgt.nullenum else self.dec, d)
        return 'decoded value differs: ' + r if r else ''


class Describe(Cmd):
    """what the generated type says about itself, and every further entry point against the first one"""

    def __init__(self, s, v, wire=None):
        super().__init__(s)
        self.v, self.wire = v, encode(s, v)[0] if wire is None else wire
        # what the buffers hold before encoding: ones, except for the bits of padding, which may stay as they are
        self.fill = hx(encode(s, v)[1])

    def line(self):
        return 'M %s %s %s %s %s' % (self.id, self.s.name, hx(canon(self.s, self.v)), hx(self.wire), self.fill)

    def judge(self, tgt, ans):
        a = ans.split()
        if len(a) != 3 or a[0] in ('EXC', 'CRASH', 'TIMEOUT'):
            return 'alternative entry points failed: ' + ans[:300]
        if a[0] != str(int(self.s.dynamic)):
            return 'dynamic reported as %s for a %s struct' % (a[0], 'dynamic' if self.s.dynamic else 'fixed-size')
        if not self.s.dynamic and int(a[1]) != self.s.bits // 8:
            return 'static size reported as %s, frames have %d bytes' % (a[1], self.s.bits // 8)
        if a[2] != '-':
            return 'entry points disagree: ' + a[2]
        return ''


class Numbers(Cmd):
    """the generated enumeration has exactly the declared names with the declared numbers"""

    def __init__(self, s, e):
        super().__init__(s)
        self.e = e

    def line(self):
        return 'N %s %s %s' % (self.id, self.s.name, self.e.name)

    def judge(self, tgt, ans):
        a = ans.split()
        if not a or a[-1] != '.':
            return 'enumeration %s: %s' % (self.e.name, ans[:300])
        want = {'%s=%d' % (x[0], x[1]) for x in self.e.vals}
        got = set(a[:-1])
        if got != want:
            return 'enumeration %s: missing %s, surplus %s' % (self.e.name, ' '.join(sorted(want - got)), ' '.join(sorted(got - want)))
        return ''


class Constants(Cmd):
    """the named constants of a new object are members that hold their literals, in the targets whose constant members have a value"""
    LANGS = ('csharp', 'commonjs', 'esmodule', 'kotlin')

    def line(self):
        return ' '.join(['J', str(self.id), self.s.name] + ['%s=%s' % (f.name, f.typ.meta()) for f in self.s.flat() if f.kind == 'const' and f.name])

    def judge(self, tgt, ans):
        a = ans.split()
        if not a or a[-1] != '.':
            return 'constant members: ' + ans[:300]
        for f, x in zip([f for f in self.s.flat() if f.kind == 'const' and f.name], a):
            want = '%s=%s' % (f.name, hx(canon_type(f.typ, const_bits(f) if f.typ.name in FLOATS else f.const)))
            if x != want:
                return 'constant member %s, expected %s' % (x, want)
        return ''


class Fresh(Cmd):
    """a new object encodes as the zero value"""

    def __init__(self, s):
        super().__init__(s)
        self.wire = encode(s, zero(s))[0]

    def line(self):
        return 'Y %s %s' % (self.id, self.s.name)

    def judge(self, tgt, ans):
        a = ans.split()
        if len(a) != 2 or a[0] in ('EXC', 'CRASH', 'TIMEOUT'):
            return 'encoding a new object failed: ' + ans[:300]
        if int(a[0]) != len(self.wire) or uh(a[1]) != self.wire:
            return 'a new object encodes as %s, expected %s' % (a[1], self.wire.hex())
        return ''


def zero(t):
    if t.kind == 'array':
        return [zero(t.elem) for _ in range(t.n)]
    if t.kind == 'struct':
        return {f.name: zero(f.typ) for f in t.vfields()}
    if t.kind in ('string', 'bytes'):
        return b''
    return False if t.kind == 'basic' and t.name == 'bool' else 0


class Equal(Cmd):
    """value equality and hash of two objects"""

    def __init__(self, s, a, b, what=''):
        super().__init__(s)
        self.a, self.b, self.what = a, b, what
        self.eq = canon(s, a) == canon(s, b)

    def line(self):
        return 'K %s %s %s %s' % (self.id, self.s.name, hx(canon(self.s, self.a)), hx(canon(self.s, self.b)))

    def judge(self, tgt, ans):
        a = ans.split()
        if not a or len(a[0]) != 6 or not a[0].isdigit():
            return 'equality failed: ' + ans[:300]
        r = [x == '1' for x in a[0]]
        if r[0] != self.eq or r[1] != self.eq:
            return 'objects with %s values compare %s (a=b %d, b=a %d) %s' % ('equal' if self.eq else 'different', 'different' if self.eq else 'equal', r[0], r[1], self.what)
        if self.eq and not r[2]:
            return 'equal objects have different hash codes'
        if not r[3]:
            return 'an object is not equal to itself'
        if r[4] or r[5]:
            return 'an object is equal to null or to a string'
        return ''
