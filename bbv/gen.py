"""Seeded generators of schemas and values."""
import re
from .model import *

INTS = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64']
FLOATS = ['float32', 'float64']
WORDS = ['alpha', 'bravo', 'carol', 'delta', 'ember', 'fjord', 'gamma', 'hotel', 'input', 'joker',
         'kilos', 'lemon', 'motor', 'noise', 'orbit', 'pulse', 'quark', 'radio', 'servo', 'tango',
         'ultra', 'valve', 'watts', 'xenon', 'yield_v', 'zebra']


class Names:
    """names unique over a whole schema (types, enum values) and per struct (fields)"""

    def __init__(self, tag=''):
        self.n = 0
        self.tag = tag

    def struct(self):
        self.n += 1
        return 'St%s%d' % (self.tag, self.n)

    def enum(self):
        self.n += 1
        return 'En%s%d' % (self.tag, self.n)

    def val(self, e, i):
        return '%s_V%d' % (e.upper(), i)


# words of the .bb grammar, and C's spellings of the same types
KEYWORD = re.compile(r'(u?int|float)(8|16|32|64)(_t)?|bool|string|bytes|void|enum|struct|true|false|inf|nan|get|set|value|option|package|import|syntax')


def fname(rng, used):
    while True:
        a = rng.choice(WORDS)
        b = rng.randrange(5)
        if b == 0:
            n = a
        elif b == 1:
            n = a.rstrip('_') + str(rng.randrange(100))
        elif b == 2:
            n = a.rstrip('_') + '_' + rng.choice(WORDS).split('_')[0]
        elif b == 3:
            n = a.rstrip('_') + '_' + rng.choice(WORDS).split('_')[0] + str(rng.randrange(10))
        else:
            n = a.rstrip('_') + rng.choice(WORDS).split('_')[0].capitalize()
        key = n.replace('_', '').lower()
        if key not in used and not KEYWORD.fullmatch(n):
            used.add(key)
            return n


def gen_enum(rng, names, bits=None):
    bits = bits or rng.choice([1, 2, 3, 4, 5, 7, 8, 8, 8, 9, 12, 16, 16, 20, 24, 31, 32])
    name = names.enum()
    lim = (1 << min(bits, 63)) - 1
    k = rng.randint(1, min(6, lim + 1))
    vals, used, cur = [], set(), -1
    for i in range(k):
        nxt = cur + 1
        if nxt <= lim and nxt not in used and rng.random() < 0.5:
            num, txt = nxt, None
        else:
            for _ in range(50):
                num = rng.choice([lim, 0, rng.randint(0, lim), rng.randint(0, min(lim, 20))])
                if num not in used:
                    break
            else:
                break
            txt = rng.choice(['%d', '0x%X', '0x%x']) % num
        used.add(num)
        cur = num
        vals.append((names.val(name, i), num, txt))
    return Enum(name, bits, vals)


class Cfg:
    def __init__(self, **kw):
        self.types = INTS + FLOATS + ['bool']
        self.p_dyn = 0.35          # chance that a struct has dynamic fields
        self.p_narrow = 0.6
        self.p_big = 0.4
        self.p_array = 0.3
        self.p_void = 0.15
        self.p_const = 0.15
        self.p_embed = 0.1
        self.p_enum = 0.12
        self.p_struct = 0.12
        self.p_inplace = 0.2
        self.max_fields = 7
        self.arr_lens = [1, 2, 3, 4, 5, 6, 7, 8, 9]
        self.const_types = INTS
        self.lead_void = True
        self.__dict__.update(kw)


def gen_const(rng, t, bits):
    """a literal for a constant field that the declared width represents exactly"""
    if t.name == 'bool':
        v = rng.random() < 0.5
        return v, 'true' if v else 'false'
    if t.name in FLOATS:
        import struct as s
        v = rng.choice([0.0, 1.5, -2.25, 0.1, 1e10, -3.75e-3, 3.141592653589793, rng.uniform(-1e6, 1e6)])
        txt = repr(v)
        if 'e' not in txt and '.' not in txt:
            txt += '.0'
        return v, txt
    if t.name.startswith('uint'):
        hi = min((1 << bits) - 1, (1 << 63) - 1)
        v = rng.choice([0, 1, hi, rng.randint(0, hi), rng.randint(0, hi)])
        return v, rng.choice(['%d', '0x%X', '0x%x']) % v
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    v = rng.choice([0, 1, hi, lo, -1, rng.randint(lo, hi), rng.randint(lo, hi)])
    v = max(v, lo, -(1 << 63) + 1)
    v = min(v, hi)
    return v, str(v) if v < 0 else rng.choice(['%d', '0x%X']) % v


def gen_struct(rng, names, cfg, pool_s, pool_e, dyn=None, depth=0, used=None, name=None, aligned_only=False):
    if dyn is None:
        dyn = rng.random() < cfg.p_dyn
    used = used if used is not None else set()
    fields = []
    pos = 0

    def put(f):
        nonlocal pos
        fields.append(f)
        if f.kind == 'embed':
            pass
        elif not f.dynamic:
            pos += f.bits

    def pad():
        """fill up to a byte boundary"""
        r = -pos % 8
        if r:
            if rng.random() < 0.5 or r > 8:
                put(Field('void', bits=r))
            else:
                put(Field('normal', fname(rng, used), Basic('uint8'), r))

    n = rng.randint(1, cfg.max_fields)
    if cfg.lead_void and rng.random() < 0.15:
        put(Field('void', bits=rng.randint(1, 12)))
    for _ in range(n):
        order = rng.choice(['big', 'big', 'big', 'little']) if rng.random() < cfg.p_big else None
        r = rng.random()
        if r < cfg.p_void:
            put(Field('void', bits=rng.randint(1, 17)))
            continue
        r -= cfg.p_void
        if r < cfg.p_const:
            t = Basic(rng.choice(cfg.const_types))
            bits = t.bits if t.name in FLOATS or t.name == 'bool' else rng.choice([t.bits, rng.randint(1, t.bits)])
            if t.name == 'bool':
                bits = rng.choice([1, 8, rng.randint(1, 8)])
            v, txt = gen_const(rng, t, bits)
            nm = fname(rng, used) if rng.random() < 0.7 else None
            put(Field('const', nm, t, bits, order=order, const=v, const_text=txt))
            continue
        r -= cfg.p_const
        if r < cfg.p_embed and depth < 2:
            pad()
            if rng.random() < 0.6 or not pool_s:
                s = gen_struct(rng, names, cfg, pool_s, pool_e, dyn=dyn and rng.random() < 0.4,
                               depth=depth + 1, used=used)
                s.inline = True
                s.declare_size = rng.random() < 0.3
                put(Field('embed', struct=s, inline=True))
            else:
                s = rng.choice(pool_s)
                ks = {x.name.replace('_', '').lower() for x in s.flat() if x.name}
                ks |= {m.name.replace('_', '').lower() for _, m in s.methods()}
                if ks & used or (s.dynamic and not dyn) or any(f.kind == 'embed' and f.struct is s for f in fields) or s in embedded(fields):
                    continue
                used |= ks
                put(Field('embed', struct=s))
            continue
        r -= cfg.p_embed
        if r < cfg.p_enum and pool_e:
            t = rng.choice(pool_e)
        elif r - cfg.p_enum < cfg.p_struct and pool_s:
            if depth < 2 and rng.random() < cfg.p_inplace:
                t = gen_struct(rng, names, cfg, pool_s, pool_e, dyn=dyn and rng.random() < 0.4, depth=depth + 1)
                t.inplace = True
            else:
                t = rng.choice([s for s in pool_s])
            if t.dynamic and not dyn:
                continue
        elif dyn and rng.random() < 0.45:
            t = rng.choice([Str(), Byt()])
        else:
            t = Basic(rng.choice(cfg.types))
        if t.kind in ('string', 'bytes', 'struct'):
            pad()
        elem = t
        if rng.random() < cfg.p_array:
            t = Arr(elem, rng.choice(cfg.arr_lens))
        bits = t.bits
        if elem.kind in ('basic', 'enum') and rng.random() < cfg.p_narrow:
            eb = rng.randint(1, elem.bits)
            bits = eb * (t.n if t.kind == 'array' else 1)
        show = (not t.dynamic) and rng.random() < 0.1
        put(Field('normal', fname(rng, used), t, bits, order=order, show_size=show))
    if not any(f.kind in ('normal', 'embed') for f in fields):
        put(Field('normal', fname(rng, used), Basic('uint8')))
    if dyn and not any(f.dynamic or (f.kind == 'embed' and f.struct.dynamic) for f in fields):
        pad()
        put(Field('normal', fname(rng, used), rng.choice([Str(), Byt()])))
    pad()
    s = Struct(name or names.struct(), fields)
    s.declare_size = (not s.dynamic) and rng.random() < 0.25
    return s


def embedded(fields):
    out = []
    for f in fields:
        if f.kind == 'embed':
            out.append(f.struct)
            out += embedded(f.struct.fields)
    return out


def gen_defs(rng, names, cfg, n_structs, n_enums):
    enums = [gen_enum(rng, names) for _ in range(n_enums)]
    defs = list(enums)
    pool = []
    for i in range(n_structs):
        s = gen_struct(rng, names, cfg, pool, enums)
        defs.append(s)
        if s.bits <= 0 or s.bits < 800:
            pool.append(s)
    return defs


# ---------------------------------------------------------------- systematic grid
def grid_combos(types=None):
    out = []
    for tn in (types or INTS + FLOATS + ['bool']):
        t = Basic(tn)
        for w in range(1, t.bits + 1):
            for off in range(8):
                for big in (False, True):
                    out.append((tn, w, off, big))
    return out


def grid_structs(rng, names, combos, per=6, arr=None):
    """structs whose fields realise the given (type,width,offset,order) points"""
    out = []
    for i in range(0, len(combos), per):
        used, fields, pos = set(), [], 0
        for tn, w, off, big in combos[i:i + per]:
            gap = (off - pos) % 8
            if gap:
                if rng.random() < 0.3:
                    fields.append(Field('void', bits=gap))
                else:
                    fields.append(Field('normal', fname(rng, used), Basic('uint8'), gap))
                pos += gap
            t = Basic(tn)
            n = arr(rng) if arr else 0
            if n:
                t = Arr(t, n)
                w *= n
            fields.append(Field('normal', fname(rng, used), t, w, order='big' if big else None))
            pos += w
        r = -pos % 8
        if r:
            if rng.random() < 0.5:
                fields.append(Field('void', bits=r))
            else:
                fields.append(Field('normal', fname(rng, used), Basic('uint8'), r))
        out.append(Struct(names.struct(), fields))
    return out


# ---------------------------------------------------------------- values
def is_snan(bits, pat):
    if bits == 32:
        return (pat >> 23) & 0xFF == 0xFF and pat & 0x7FFFFF and not pat & 0x400000
    return (pat >> 52) & 0x7FF == 0x7FF and pat & ((1 << 52) - 1) and not pat & (1 << 51)


def is_nan(bits, pat):
    if bits == 32:
        return (pat >> 23) & 0xFF == 0xFF and pat & 0x7FFFFF
    return (pat >> 52) & 0x7FF == 0x7FF and pat & ((1 << 52) - 1)


F32S = [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000,
        0x7f7fffff, 0x00800000, 1, 0x3dcccccd, 0x40490fdb]
F64S = [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0xfff0000000000000,
        0x7ff8000000000000, 0x7fefffffffffffff, 0x0010000000000000, 1,
        0x3fb999999999999a, 0x400921fb54442d18]

NANS = {32: 0x7fc00000, 64: 0x7ff8000000000000}
STRS = ['', 'a', 'hello', 'x' * 40, '\u00e9', '\u4f60\u597d', '\U0001F600', 'a\u00ff\u0100\u07ff\u0800\uffff\U00010000\U0010ffff',
        'tab\tnl\n', '\x01\x7f', 'z' * 127, 'q' * 130, '\ufeffbom', 'e\u0301']


def gen_scalar(rng, t, w, mode=None, overflow=False):
    if t.kind == 'enum':
        ok = [v for v in t.numbers if v < (1 << w)]
        if overflow and rng.random() < 0.3 and t.numbers:
            return rng.choice(t.numbers)
        return rng.choice(ok) if ok else t.numbers[0]
    if t.name == 'bool':
        return rng.random() < 0.5
    if t.name in FLOATS:
        for _ in range(100):
            p = rng.choice(F32S if t.bits == 32 else F64S) if rng.random() < 0.5 else rng.getrandbits(t.bits)
            q = p & ((1 << w) - 1)
            if not is_nan(t.bits, q) and (not is_nan(t.bits, p) or p == NANS[t.bits]) or p == q == NANS[t.bits]:
                return p
        return 0
    W = t.bits if overflow and rng.random() < 0.4 else w
    if t.name.startswith('uint'):
        hi = (1 << W) - 1
        return rng.choice([0, 1, hi, hi - 1 if hi else 0, 1 << (W - 1), (1 << (W - 1)) - 1,
                           0x5555555555555555 & hi, 0xAAAAAAAAAAAAAAAA & hi,
                           0x0123456789ABCDEF & hi, rng.getrandbits(W), rng.getrandbits(W), rng.getrandbits(W)])
    lo, hi = -(1 << (W - 1)), (1 << (W - 1)) - 1
    v = rng.choice([0, 1, -1, lo, hi, lo + 1, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(lo, hi)])
    return max(lo, min(hi, v))


EDGES = [1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10ffff]


def gen_value(rng, t, w=None, overflow=False, big_blob=False):
    if t.kind == 'array':
        eb = None if t.dynamic or w is None else w // t.n
        return [gen_value(rng, t.elem, eb, overflow) for _ in range(t.n)]
    if t.kind == 'string':
        if rng.random() < 0.5:
            return rng.choice(STRS).encode()
        if rng.random() < 0.3:
            return ''.join(map(chr, rng.sample(EDGES, rng.choice([3, 8, len(EDGES)])))).encode()
        n = rng.choice([0, 1, 2, 3, 7, 20, 60])
        s = ''
        for _ in range(n):
            c = rng.choice([rng.choice(EDGES), rng.randint(1, 127), rng.randint(0x80, 0x7ff), rng.randint(0x800, 0xd7ff),
                            rng.randint(0xe000, 0xffff), rng.randint(0x10000, 0x10ffff)])
            s += chr(c)
        return s.encode()
    if t.kind == 'bytes':
        n = rng.choice([0, 0, 1, 2, 3, 5, 16, 126, 127, 128, 129, 200, 255, 256])
        if big_blob:
            n = rng.choice([16383, 16384, 16385, 20000])
        return bytes(rng.getrandbits(8) for _ in range(n))
    if t.kind == 'struct':
        return gen_struct_value(rng, t, overflow)
    return gen_scalar(rng, t, t.bits if w is None else w, overflow=overflow)


def gen_struct_value(rng, s, overflow=False, big_blob=False):
    out = {}
    for f in s.vfields():
        out[f.name] = gen_value(rng, f.typ, None if f.dynamic else f.bits, overflow, big_blob)
    return out


def extreme_value(s, kind):
    """all-zero / all-one patterns"""
    def ev(t, w):
        if t.kind == 'array':
            return [ev(t.elem, None if t.dynamic or w is None else w // t.n) for _ in range(t.n)]
        if t.kind == 'string':
            return b'' if kind == 0 else b'\xc3\xbf' * 3
        if t.kind == 'bytes':
            return b'' if kind == 0 else b'\xff' * 5
        if t.kind == 'struct':
            return extreme_value(t, kind)
        w = t.bits if w is None else w
        if t.kind == 'enum':
            ok = [x for x in t.numbers if x < (1 << w)] or t.numbers[:1]
            return min(ok) if kind == 0 else max(ok)
        if kind == 0:
            return False if t.name == 'bool' else 0
        if t.name == 'bool':
            return True
        if t.name in FLOATS:
            return 0xff7fffff if t.bits == 32 else 0xffefffffffffffff
        return -1 if t.name.startswith('int') else (1 << w) - 1
    return {f.name: ev(f.typ, None if f.dynamic else f.bits) for f in s.vfields()}
