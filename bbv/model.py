"""Schema AST, .bb rendering, and the independent reference codec (the oracle).

Nothing here is derived from bubbler's output: the layout rules are the ones the
README documents (consecutive bits, least significant first; `order="big"`
reverses the 8-bit groups of a field's own bits; NUL-terminated UTF-8 strings;
7-bit little-endian length groups in front of bytes).
"""
import struct as _s

BT = {'bool': 8, 'int8': 8, 'int16': 16, 'int32': 32, 'int64': 64,
      'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64,
      'float32': 32, 'float64': 64}
SHORT = {'bool': 'b', 'int8': 'i8', 'int16': 'i16', 'int32': 'i32', 'int64': 'i64',
         'uint8': 'u8', 'uint16': 'u16', 'uint32': 'u32', 'uint64': 'u64',
         'float32': 'f32', 'float64': 'f64'}


def size_str(bits):
    b, r = divmod(bits, 8)
    if r == 0:
        return '[%d]' % b
    if b == 0:
        return '[#%d]' % r
    return '[%d#%d]' % (b, r)


class Basic:
    kind = 'basic'

    def __init__(self, name):
        self.name = name
        self.bits = BT[name]
        self.dynamic = False

    def bb(self):
        return self.name

    def meta(self):
        return SHORT[self.name]


class Str:
    kind = 'string'
    dynamic = True
    bits = -1

    def bb(self):
        return 'string'

    def meta(self):
        return 's'


class Byt:
    kind = 'bytes'
    dynamic = True
    bits = -1

    def bb(self):
        return 'bytes'

    def meta(self):
        return 'y'


class Enum:
    kind = 'enum'
    dynamic = False

    def __init__(self, name, bits, vals):
        """vals: list of (name, number, text) where text is None (implicit) or the source text"""
        self.name, self.bits, self.vals = name, bits, vals
        self.file = None

    @property
    def numbers(self):
        return [v[1] for v in self.vals]

    def bb(self):
        return self.name

    def meta(self):
        return 'E:' + self.name

    def render(self):
        out = ['enum %s%s {' % (self.name, size_str(self.bits))]
        for n, num, txt in self.vals:
            out.append('    %s%s,' % (n, '' if txt is None else ' = ' + txt))
        out.append('}')
        return '\n'.join(out)


class Arr:
    kind = 'array'

    def __init__(self, elem, n):
        self.elem, self.n = elem, n
        self.dynamic = elem.dynamic

    @property
    def bits(self):
        return -1 if self.dynamic else self.elem.bits * self.n

    def bb(self):
        return '%s<%d>' % (self.elem.bb(), self.n)

    def meta(self):
        return 'A%d:%s' % (self.n, self.elem.meta())


class Method:
    def __init__(self, kind, name, typ, expr):
        """kind get|set; typ basic type name; expr: expression tree (see exprs.py) or text"""
        self.kind, self.name, self.typ, self.expr = kind, name, typ, expr

    def render(self):
        t = self.expr if isinstance(self.expr, str) else self.expr.text()
        return '%s %s(%s): %s;' % (self.kind, self.name, self.typ, t)


class Field:
    def __init__(self, kind, name=None, typ=None, bits=None, big=False, order=None,
                 methods=(), const=None, const_text=None, struct=None, inline=False, show_size=None):
        self.kind = kind          # normal void const embed
        self.name = name
        self.typ = typ
        self.bits = bits if bits is not None else (typ.bits if typ is not None else 0)
        self.order = order        # None | 'big' | 'little'
        self.big = (order == 'big') or big
        if self.big and order is None:
            self.order = 'big'
        self.methods = list(methods)
        self.const = const        # bool / int / float
        self.const_text = const_text
        self.struct = struct
        self.inline = inline
        self.show_size = show_size

    @property
    def dynamic(self):
        return self.kind == 'normal' and self.typ.dynamic

    @property
    def ebits(self):
        return self.bits // self.typ.n if self.typ.kind == 'array' else self.bits

    def render(self, ind='    '):
        opt = ' [order = "%s"]' % self.order if self.order else ''
        if self.kind == 'void':
            return ind + 'void %s;' % size_str(self.bits)
        if self.kind == 'embed':
            if self.inline:
                body = self.struct.render(ind)
                return ind + body.strip() + ';'
            return ind + self.struct.name + ';'
        sz = ''
        if self.kind == 'const':
            if self.show_size or self.bits != self.typ.bits:
                sz = size_str(self.bits)
            nm = ' ' + self.name if self.name else ' '
            return ind + '%s%s%s = %s%s;' % (self.typ.bb(), nm, sz, self.const_text, opt)
        if not self.dynamic and (self.show_size or self.bits != self.typ.bits):
            sz = size_str(self.bits)
        m = ''
        if self.methods:
            m = ' {\n' + ''.join(ind + '    ' + x.render() + '\n' for x in self.methods) + ind + '}'
        return ind + '%s %s%s%s%s;' % (self.typ.bb(), self.name, sz, opt, m)


class Struct:
    kind = 'struct'

    def __init__(self, name, fields, declare_size=False):
        self.name = name
        self.fields = fields
        self.declare_size = declare_size
        self.file = None
        self.inline = False
        self.inplace = False      # defined where it is used, as the type of one field

    def flat(self):
        out = []
        for f in self.fields:
            if f.kind == 'embed':
                out += f.struct.flat()
            else:
                out.append(f)
        return out

    @property
    def dynamic(self):
        return any(f.dynamic for f in self.flat())

    @property
    def bits(self):
        """fixed bits, or -1 when dynamic"""
        if self.dynamic:
            return -1
        return sum(f.bits for f in self.flat())

    def vfields(self):
        return [f for f in self.flat() if f.kind == 'normal']

    def methods(self):
        return [(f, m) for f in self.flat() if f.kind == 'normal' for m in f.methods]

    def bb(self):
        return ' '.join(self.render().split()) if self.inplace else self.name

    def meta(self):
        return 'S:' + self.name

    def inner(self):
        """structs defined inside of this one as a field type, innermost first"""
        out = []
        for f in self.fields:
            if f.kind == 'embed' and f.inline:
                out += f.struct.inner()
            elif f.kind == 'normal':
                t = f.typ.elem if f.typ.kind == 'array' else f.typ
                if t.kind == 'struct' and t.inplace:
                    out += t.inner() + [t]
        return out

    def render(self, ind=''):
        sz = size_str(self.bits) if self.declare_size and not self.dynamic else ''
        return '%sstruct %s%s {\n%s\n%s}' % (
            ind, self.name, sz, '\n'.join(f.render(ind + '    ') for f in self.fields), ind)

    def deps(self):
        """custom types used by value"""
        out = []

        def add(t):
            if t.kind == 'array':
                add(t.elem)
            elif t.kind in ('enum', 'struct'):
                out.append(t)
        for f in self.fields:
            if f.kind == 'normal':
                add(f.typ)
            elif f.kind == 'embed':
                out.append(f.struct)
                out.extend(f.struct.deps())
        return out


class File:
    def __init__(self, path, package, defs, options=None, imports=(), tail=''):
        self.path, self.package, self.defs = path, package, defs
        self.options = options or {}
        self.imports = list(imports)
        self.tail = tail
        for d in defs:
            self.own(d)

    def own(self, d):
        d.file = self
        if d.kind == 'struct':
            for f in d.fields:
                if f.kind == 'embed' and f.inline:
                    f.struct.inline = True
                    self.own(f.struct)
            for t in d.inner():
                t.file = self

    @property
    def stem(self):
        return self.path.rsplit('/', 1)[-1][:-3]

    def structs(self):
        return [t for d in self.defs if d.kind == 'struct' for t in d.inner() + [d]]

    def enums(self):
        return [d for d in self.defs if d.kind == 'enum']

    def render(self):
        out = ['package %s;' % self.package, '']
        for i in self.imports:
            out.append('import "%s";' % i)
        for k, v in self.options.items():
            if isinstance(v, bool):
                out.append('option %s = %s;' % (k, 'true' if v else 'false'))
            else:
                out.append('option %s = "%s";' % (k, v))
        out.append('')
        for d in self.defs:
            out.append(d.render() + '\n')
        return '\n'.join(out) + self.tail


# ---------------------------------------------------------------- values
# basic: python int (bool -> bool); float32/float64 -> raw bit pattern (int)
# enum -> int ; string -> bytes (utf-8) ; bytes -> bytes ; array -> list ; struct -> dict

def raw_bits(t, v):
    """the 64-bit (or narrower) pattern of a scalar value"""
    if t.kind == 'enum':
        return v
    if t.name == 'bool':
        return 1 if v else 0
    return v & ((1 << t.bits) - 1)


def wire_order(v, w, big):
    """value bits -> field bits in wire order"""
    v &= (1 << w) - 1
    if not big:
        return v
    out = 0
    for i in range(0, w, 8):
        n = min(8, w - i)
        g = (v >> max(0, w - 8 * (i // 8 + 1))) & ((1 << n) - 1)
        out |= g << i
    return out


def unwire_order(x, w, big):
    if not big:
        return x
    out = 0
    for i in range(0, w, 8):
        n = min(8, w - i)
        g = (x >> i) & ((1 << n) - 1)
        out |= g << max(0, w - 8 * (i // 8 + 1))
    return out


def from_bits(t, x, w):
    """w field bits -> decoded value"""
    if t.kind == 'enum':
        return x
    if t.name == 'bool':
        return x != 0
    if t.name.startswith('int'):
        if x >> (w - 1) & 1:
            x -= 1 << w
        return x
    return x


def const_bits(f):
    t = f.typ
    if t.name == 'bool':
        return 1 if f.const else 0
    if t.name == 'float32':
        return _s.unpack('<I', _s.pack('<f', f.const))[0]
    if t.name == 'float64':
        return _s.unpack('<Q', _s.pack('<d', f.const))[0]
    return int(f.const) & ((1 << t.bits) - 1)


def varint(n):
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


class Enc:
    def __init__(self):
        self.buf = bytearray()
        self.nb = 0          # bits used in the last byte
        self.mask = bytearray()   # 1 bits = bits that belong to a field

    def put(self, x, w, owned=True):
        while w > 0:
            if self.nb == 0:
                self.buf.append(0)
                self.mask.append(0)
            n = min(8 - self.nb, w)
            m = (1 << n) - 1
            self.buf[-1] |= (x & m) << self.nb
            if owned:
                self.mask[-1] |= m << self.nb
            x >>= n
            w -= n
            self.nb = (self.nb + n) % 8

    def raw(self, b):
        assert self.nb == 0
        self.buf += b
        self.mask += b'\xff' * len(b)


def enc_into(e, s, v):
    for f in s.flat():
        if f.kind == 'void':
            e.put(0, f.bits, owned=False)
        elif f.kind == 'const':
            e.put(wire_order(const_bits(f), f.bits, f.big), f.bits)
        else:
            enc_type(e, f.typ, f.bits, f.big, v[f.name])


def enc_type(e, t, bits, big, v):
    if t.kind == 'array':
        for x in v:
            enc_type(e, t.elem, bits // t.n if bits > 0 else -1, big, x)
    elif t.kind == 'string':
        e.raw(v + b'\0')
    elif t.kind == 'bytes':
        e.raw(varint(len(v)) + v)
    elif t.kind == 'struct':
        assert e.nb == 0
        enc_into(e, t, v)
    else:
        e.put(wire_order(raw_bits(t, v), bits, big), bits)


def encode(s, v):
    e = Enc()
    enc_into(e, s, v)
    assert e.nb == 0
    return bytes(e.buf), bytes(e.mask)


class Need(Exception):
    pass


class BadConst(Exception):
    pass


class LongLen(Exception):
    """length prefix of more than five groups"""


class BadLen(Exception):
    """length prefix beyond any buffer"""


class Dec:
    def __init__(self, data, pos=0):
        self.d, self.bit = data, pos * 8
        self.leaves = []          # (begin, end) of every string and bytes, end of the length of the latter

    def get(self, w):
        end = (self.bit + w + 7) // 8
        if end > len(self.d):
            raise Need(end)
        lo = self.bit // 8
        x = int.from_bytes(self.d[lo:end], 'little') >> (self.bit % 8)
        self.bit += w
        return x & ((1 << w) - 1)

    def byte(self):
        return self.get(8)


def dec_from(d, s, bad):
    out = {}
    for f in s.flat():
        if f.kind == 'void':
            d.get(f.bits)
        elif f.kind == 'const':
            x = unwire_order(d.get(f.bits), f.bits, f.big)
            if x != const_bits(f) & ((1 << f.bits) - 1):
                bad.append(f)
        else:
            out[f.name] = dec_type(d, f.typ, f.bits, f.big, bad)
    return out


def dec_type(d, t, bits, big, bad):
    if t.kind == 'array':
        return [dec_type(d, t.elem, bits // t.n if bits > 0 else -1, big, bad) for _ in range(t.n)]
    if t.kind == 'string':
        p = d.bit // 8
        q = d.d.find(b'\0', p)
        if q < 0:
            raise Need(len(d.d) + 1)
        d.bit = (q + 1) * 8
        d.leaves.append((p, q + 1, None))
        return bytes(d.d[p:q])
    if t.kind == 'bytes':
        n = sh = 0
        start = d.bit // 8
        while True:
            b = d.byte()
            n |= (b & 0x7F) << sh
            sh += 7
            if not b & 0x80:
                break
            if sh >= 35:
                raise LongLen()  # more length groups than any target has to accept
        p = d.bit // 8
        if p + n > len(d.d):
            if n >= 1 << 31:
                raise BadLen()
            raise Need(p + n)
        d.bit += n * 8
        d.leaves.append((start, p + n, p))
        return bytes(d.d[p:p + n])
    if t.kind == 'struct':
        return dec_from(d, t, bad)
    return from_bits(t, unwire_order(d.get(bits), bits, big), bits)


def decode(s, data, pos=0):
    """-> (value, consumed, bad const fields); raises Need/BadLen"""
    d = Dec(data, pos)
    bad = []
    v = dec_from(d, s, bad)
    return v, d.bit // 8 - pos, bad


def least_frames(s, w):
    """for every strict prefix of the frame w the length of the shortest frame that begins with it"""
    d = Dec(w)
    dec_from(d, s, [])
    n, out = len(w), []
    rest, todo = 0, []
    end = n
    for a, b, h in reversed(d.leaves):
        rest += end - b
        todo.append((a, b, h, rest))
        rest, end = rest + 1, a
    if not todo:
        return [n] * n
    for a, b, h, rest in reversed(todo):
        for k in range(len(out), b):
            if k <= a:
                out.append(a + 1 + rest)
            elif h is None:
                out.append(k + 1 + rest)
            elif k >= h:
                out.append(b + rest)
            else:
                m = sum((w[a + i] & 127) << 7 * i for i in range(k - a))
                out.append(k + 1 + m + rest)
    return out + [n] * (n - len(out))


def roundtrip_value(s, v):
    """the value a decode of encode(v) denotes (truncation to the field width, sign extension)"""
    w, _ = encode(s, v)
    return decode(s, w)[0]


# ---------------------------------------------------------------- canonical value serialisation
NULL8 = b'\xfe' * 7 + b'\x7f'


def canon_type(t, v):
    if t.kind == 'array':
        return b''.join(canon_type(t.elem, x) for x in v)
    if t.kind in ('string', 'bytes'):
        return _s.pack('<I', len(v)) + v
    if t.kind == 'struct':
        return canon(t, v)
    if t.kind == 'enum':
        return NULL8 if v is None else _s.pack('<Q', v)
    if t.name == 'bool':
        return _s.pack('<Q', 1 if v else 0)
    if t.name.startswith('int'):
        return _s.pack('<q', v)
    return _s.pack('<Q', v)


def canon(s, v):
    return b''.join(canon_type(f.typ, v[f.name]) for f in s.vfields())


def uncanon_type(t, b, p):
    if t.kind == 'array':
        out = []
        for _ in range(t.n):
            x, p = uncanon_type(t.elem, b, p)
            out.append(x)
        return out, p
    if t.kind in ('string', 'bytes'):
        n = _s.unpack_from('<I', b, p)[0]
        return b[p + 4:p + 4 + n], p + 4 + n
    if t.kind == 'struct':
        return uncanon(t, b, p)
    r = b[p:p + 8]
    p += 8
    if t.kind == 'enum':
        return (None if r == NULL8 else _s.unpack('<Q', r)[0]), p
    if t.name == 'bool':
        x = _s.unpack('<Q', r)[0]
        return (bool(x) if x in (0, 1) else x), p
    if t.name.startswith('int'):
        return _s.unpack('<q', r)[0], p
    return _s.unpack('<Q', r)[0], p


def uncanon(s, b, p=0):
    out = {}
    for f in s.vfields():
        out[f.name], p = uncanon_type(f.typ, b, p)
    return out, p


def null_unknown(t, v):
    """replace enum numbers with no declared value by None (for targets with closed enums)"""
    if t.kind == 'array':
        return [null_unknown(t.elem, x) for x in v]
    if t.kind == 'struct':
        return {f.name: null_unknown(f.typ, v[f.name]) for f in t.vfields()}
    if t.kind == 'enum':
        return v if v in t.numbers else None
    return v


def has_unknown(t, v):
    if t.kind == 'array':
        return any(has_unknown(t.elem, x) for x in v)
    if t.kind == 'struct':
        return any(has_unknown(f.typ, v[f.name]) for f in t.vfields())
    if t.kind == 'enum':
        return v not in t.numbers
    return False
