"""Accessor expressions with one meaning in every target: explicit casts, ranges tracked so that nothing overflows."""
import struct
from .model import *
from .gen import INTS, FLOATS

RANGE = {'int8': (-128, 127), 'int16': (-32768, 32767), 'int32': (-2 ** 31, 2 ** 31 - 1), 'int64': (-2 ** 63, 2 ** 63 - 1), 'uint8': (0, 255), 'uint16': (0, 65535), 'uint32': (0, 2 ** 32 - 1), 'uint64': (0, 2 ** 64 - 1)}
LIMIT = {'int32': 2 ** 30, 'int64': 2 ** 52}
LEVEL = {'**': 1, 'u': 2, 'cast': 3, '*': 4, '/': 4, '%': 4, '+': 5, '-': 5, '<<': 6, '>>': 6, '<': 7, '<=': 7, '>': 7, '>=': 7, '==': 8, '!=': 8, '&': 9, '^': 10, '|': 11, '&&': 12, '||': 13, '?': 14}


class X:
    """a node: level, operands; w = work type (int32, int64, float64, bool); lo..hi bounds of its value; exact: small integer value of a float"""

    def __init__(self, op, kids, w, lo=0, hi=0, lit=None, fn=None, exact=False):
        self.op, self.kids, self.w, self.lo, self.hi, self.lit, self.fn, self.exact = op, kids, w, lo, hi, lit, fn, exact
        self.level = 0 if op in ('value', 'lit') else LEVEL['u' if op in ('u-', 'u+', '~', '!') else op]

    def ev(self, v):
        return self.fn(v, *self.kids)

    def ops(self):
        """operators and literal forms in the expression"""
        o = self.op
        if o == 'lit':
            t = self.lit.lstrip('-')
            o = ('-' if self.lit[0] == '-' else '') + ('float' if self.w == 'float64' else 'hex' if t[:2] in ('0x', '0X') else 'octal' if len(t) > 1 and t[0] == '0' else 'dec')
        if o == 'cast':
            o = '(%s)%s' % (self.w, self.kids[0].w)
        return {o}.union(*[k.ops() for k in self.kids])

    def kid(self, rng, k, limit):
        t = k.text(rng)
        return '(%s)' % t if k.level > limit or rng.random() < 0.15 else t

    def text(self, rng):
        o, k = self.op, self.kids
        sp = lambda: rng.choice(['', ' ', ' '])
        if o == 'value':
            return 'value'
        if o == 'lit':
            return self.lit
        if o == 'cast':
            return '(%s)%s%s' % (self.w, sp(), self.kid(rng, k[0], 3))
        if o in ('u-', 'u+', '~', '!'):
            # no sign in front of a literal, which would become part of it (-2.0**2.0 is the square of -2.0)
            t = self.kid(rng, k[0], 2 if k[0].op != 'cast' else 3)
            return o[-1] + ('(%s)' % t if t[0] in '+-.0123456789' else t)
        if o == '?':
            return '%s ? %s : %s' % (self.kid(rng, k[0], 13), self.kid(rng, k[1], 13), self.kid(rng, k[2], 13))
        l = self.level
        s = ' ' if k[1].op in ('u-', 'u+') or (k[1].op == 'lit' and k[1].lit[0] in '+-') else sp()
        return '%s%s%s%s%s' % (self.kid(rng, k[0], l), s, o, s, self.kid(rng, k[1], l - 1))


def lit(n, txt=None):
    return X('lit', [], 'int32', n, n, txt if txt is not None else str(n), lambda v: n)


def cast(w, k):
    if w == 'float64':
        return X('cast', [k], w, k.lo, k.hi, fn=lambda v, a: float(a.ev(v)), exact=k.w != 'float64' or k.exact)
    return X('cast', [k], w, k.lo, k.hi, fn=lambda v, a: a.ev(v))


def const(rng, w, nonneg=False, small=False):
    if w == 'float64':
        v = rng.choice([0.5, 2.0, 1.25, 0.1, 40.0, 3.14159265358979, 0.001, 1e-7, 0.00000025, 1234.5678901234, 1e5, 100.0, rng.randint(1, 1000) / 8, 2.5e-3])
        t = repr(v)
        t = {'1e-07': rng.choice(['1e-07', '0.0000001', '1.0e-7']), '2.5e-07': '0.00000025'}.get(t, t)
        if small:
            v, t = rng.choice([(2.0, '2.0'), (3.0, '3.0')])
        if 'e' in t and '.' not in t:
            t = t.replace('e', '.0e')
        return X('lit', [], w, v, v, t, lambda _: v, exact=v == int(v))
    m = rng.choice([7, 15, 100, 1000])
    n = rng.randint(0, m)
    if not nonneg and rng.random() < 0.15:
        n = -n
    a = abs(n)
    t = rng.choice(['%d' % a, '%d' % a, '0x%x' % a, '0x%X' % a, '0%o' % a if a else '0'])
    if n < 0:
        t = '-' + t
    x = lit(n, t)
    return cast('int64', x) if w == 'int64' else x


def corners(op, a, b):
    c = [op(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
    return min(c), max(c)


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}


def expr(rng, w, atom, depth):
    """an expression of work type w over the atom (a function giving the value as w)"""
    if w == 'bool':
        return cond(rng, atom, max(depth, 1))
    if depth <= 0 or rng.random() < 0.12:
        return atom(w) if rng.random() < 0.7 else const(rng, w)
    sub = lambda d=1: expr(rng, w, atom, depth - d)
    for _ in range(30):
        r = rng.random()
        if w == 'float64':
            if r < 0.6:
                o = rng.choice('+-*')
                a, b = sub(), sub()
                lo, hi = corners(OPS[o], a, b)
                if max(abs(lo), abs(hi)) > 1e100:
                    continue
                return X(o, [a, b], w, lo, hi, fn=lambda v, x, y, f=OPS[o]: f(x.ev(v), y.ev(v)), exact=a.exact and b.exact and max(abs(lo), abs(hi)) < 2 ** 52)
            if r < 0.75:
                b = const(rng, w)
                a = sub()
                return X('/', [a, b], w, *corners(lambda x, y: x / y, a, b), fn=lambda v, x, y: x.ev(v) / y.ev(v))
            if r < 0.83:
                a = sub()
                if not a.exact or max(abs(a.lo), abs(a.hi)) > 1000:
                    continue
                b = const(rng, w, small=True)
                m = max(abs(a.lo), abs(a.hi)) ** b.hi
                return X('**', [a, b], w, -m, m, fn=lambda v, x, y: x.ev(v) ** y.ev(v), exact=True)
            if r < 0.9:
                a = sub()
                return X('u-', [a], w, -a.hi, -a.lo, fn=lambda v, x: -x.ev(v), exact=a.exact)
            return tern(rng, w, atom, depth)
        if r < 0.5:
            o = rng.choice('+-*')
            a, b = sub(), sub()
            lo, hi = corners(OPS[o], a, b)
            if max(abs(lo), abs(hi)) > LIMIT[w]:
                continue
            return X(o, [a, b], w, lo, hi, fn=lambda v, x, y, f=OPS[o]: f(x.ev(v), y.ev(v)))
        if r < 0.58:
            a, b = sub(), const(rng, w, True)
            if a.lo < 0 or b.lo <= 0:
                continue
            return X('%', [a, b], w, 0, b.hi - 1, fn=lambda v, x, y: x.ev(v) % y.ev(v))
        if r < 0.72:
            a, b = sub(), sub()
            if a.lo < 0 or b.lo < 0:
                continue
            o = rng.choice('&|^')
            f = {'&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y}[o]
            return X(o, [a, b], w, 0, (1 << max(int(a.hi).bit_length(), int(b.hi).bit_length())) - 1, fn=lambda v, x, y, f=f: f(x.ev(v), y.ev(v)))
        if r < 0.8 and w == 'int32':
            a, s = sub(), rng.randint(0, 6)
            if a.lo < 0:
                continue
            if rng.random() < 0.5:
                if int(a.hi) << s > LIMIT[w]:
                    continue
                return X('<<', [a, lit(s)], w, a.lo << s, a.hi << s, fn=lambda v, x, y: x.ev(v) << y.ev(v))
            return X('>>', [a, lit(s)], w, a.lo >> s, a.hi >> s, fn=lambda v, x, y: x.ev(v) >> y.ev(v))
        if r < 0.88:
            a = sub()
            o = rng.choice(['u-', '~', 'u-']) if w == 'int32' else 'u-'
            if o == '~':
                return X('~', [a], w, ~int(a.hi), ~int(a.lo), fn=lambda v, x: ~x.ev(v))
            return X('u-', [a], w, -a.hi, -a.lo, fn=lambda v, x: -x.ev(v))
        return tern(rng, w, atom, depth)
    return atom(w)


def branch(rng, w, atom, depth):
    # a branch says its type, by a cast or by being the value itself
    if atom.name == w and rng.random() < 0.3:
        return X('value', [], w, atom.lo, atom.hi, fn=lambda v: v)
    return cast(w, expr(rng, w, atom, depth))


def tern(rng, w, atom, depth):
    c = cond(rng, atom, depth - 1)
    a, b = branch(rng, w, atom, depth - 2), branch(rng, w, atom, depth - 2)
    x = X('?', [c, a, b], w, min(a.lo, b.lo), max(a.hi, b.hi), fn=lambda v, c, a, b: a.ev(v) if c.ev(v) else b.ev(v), exact=a.exact and b.exact)
    # its branches have a type, the whole only gets one sometimes
    return cast(w, x) if rng.random() < 0.4 else x


CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def cond(rng, atom, depth):
    r = rng.random()
    if depth > 1 and r < 0.25:
        a, b = cond(rng, atom, depth - 1), cond(rng, atom, depth - 1)
        if rng.random() < 0.5:
            return X('&&', [a, b], 'bool', 0, 1, fn=lambda v, x, y: x.ev(v) and y.ev(v))
        return X('||', [a, b], 'bool', 0, 1, fn=lambda v, x, y: x.ev(v) or y.ev(v))
    if depth > 0 and r < 0.4:
        a = cond(rng, atom, depth - 1)
        return X('!', [a], 'bool', 0, 1, fn=lambda v, x: not x.ev(v))
    if atom.bool and r < 0.7:
        return X('value', [], 'bool', 0, 1, fn=lambda v: v)
    w = rng.choice(atom.works)
    a, b = expr(rng, w, atom, min(depth - 1, 1)), expr(rng, w, atom, 0)
    o = rng.choice(list(CMP))
    return X(o, [a, b], 'bool', 0, 1, fn=lambda v, x, y, f=CMP[o]: f(x.ev(v), y.ev(v)))


class Atom:
    """`value` of a basic type with a known range"""

    def __init__(self, rng, name, lo, hi):
        self.rng, self.name, self.lo, self.hi = rng, name, lo, hi
        self.bool = name == 'bool'
        m = max(abs(lo), abs(hi))
        self.works = []
        if self.bool:
            self.works = ['int32', 'int64', 'float64']
        elif name in FLOATS:
            self.works = ['float64']
        else:
            if m <= 2 ** 24:
                self.works.append('int32')
            if m <= 2 ** 40:
                self.works.append('int64')
            if m <= 2 ** 52:
                self.works.append('float64')

    def __call__(self, w):
        if self.bool:
            v = X('value', [], 'bool', 0, 1, fn=lambda v: v)
            a, b = cast(w, const(self.rng, w)), cast(w, const(self.rng, w))
            return cast(w, X('?', [v, a, b], w, min(a.lo, b.lo), max(a.hi, b.hi), fn=lambda v, c, a, b: a.ev(v) if c.ev(v) else b.ev(v), exact=a.exact and b.exact))
        v = X('value', [], self.name, self.lo, self.hi, fn=lambda v: v)
        if self.name == w and self.rng.random() < 0.5:
            return v
        return cast(w, v)


def widths(t, bits):
    """the numbers a field of that declared width holds"""
    if t == 'bool':
        return 0, 1
    if t.startswith('u'):
        return 0, (1 << bits) - 1
    return -(1 << bits - 1), (1 << bits - 1) - 1


def fits(rng, x, allow_bool=False):
    """basic types that hold every value of x"""
    if x.w == 'bool':
        return ['bool']
    if x.w == 'float64':
        return ['float64']
    out = [t for t in INTS if RANGE[t][0] <= x.lo and x.hi <= RANGE[t][1]]
    return out + ['float64']


def getter(rng, name, atom, implicit=False):
    """-> Method with .fn"""
    w = rng.choice(atom.works + ['bool'])
    x = expr(rng, w, atom, rng.randint(1, 4))
    t = rng.choice(fits(rng, x))
    y = x if implicit or t == w and rng.random() < 0.5 else castto(t, x)
    m = Method('get', name, t, y.text(rng))
    m.ops = sorted(y.ops())
    m.fn = (lambda v: float(x.ev(v))) if t == 'float64' else x.ev
    return m


def castto(t, x):
    if t == 'bool':
        return x
    return X('cast', [x], t, x.lo, x.hi, fn=lambda v, a: a.ev(v))


def setter(rng, name, typ, field, implicit=False):
    """a setter with a parameter of basic type typ for the field"""
    if typ == 'bool':
        lo, hi = 0, 1
    elif typ in FLOATS:
        lo, hi = -1000, 1000
    else:
        lo, hi = max(RANGE[typ][0], -rng.choice([100, 5000])), min(RANGE[typ][1], rng.choice([200, 30000]))
    atom = Atom(rng, typ, lo, hi)
    ft = field.typ.name
    for _ in range(60):
        w = 'bool' if ft == 'bool' else 'float64' if ft in FLOATS else rng.choice([x for x in atom.works if x != 'float64'] or [None])
        if w is None:
            return None
        x = expr(rng, w, atom, rng.randint(1, 4))
        if ft == 'bool':
            break
        if ft == 'float64':
            break
        if ft == 'float32':
            if x.exact and max(abs(x.lo), abs(x.hi)) < 2 ** 24:
                break
            continue
        a, b = widths(ft, field.bits)
        if a <= x.lo and x.hi <= b:
            break
    else:
        return None
    y = x if implicit or ft == w and rng.random() < 0.5 else castto(ft, x)
    m = Method('set', name, typ, y.text(rng))
    m.ops = sorted(y.ops())
    m.fn, m.range = x.ev, (lo, hi)
    return m


def hex8(t, v):
    """8 byte image of a scalar"""
    if t == 'bool':
        return (1 if v else 0).to_bytes(8, 'little').hex()
    if t == 'float64':
        return struct.pack('<d', v).hex()
    if t == 'float32':
        return struct.pack('<f', v).hex() + '00000000'
    return (int(v) & ((1 << 64) - 1)).to_bytes(8, 'little').hex()


def num(t, pat):
    """the number of a canonical scalar"""
    if t == 'float32':
        return struct.unpack('<f', struct.pack('<I', pat))[0]
    if t == 'float64':
        return struct.unpack('<d', struct.pack('<Q', pat))[0]
    return pat


def pat(t, v):
    if t == 'float32':
        return struct.unpack('<I', struct.pack('<f', v))[0]
    if t == 'float64':
        return struct.unpack('<Q', struct.pack('<d', v))[0]
    return bool(v) if t == 'bool' else int(v)
