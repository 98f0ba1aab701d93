"""One function per property: builds the workload, hands it to Run, returns the evidence rule."""
import itertools, random
from . import build, engine, front, gen, more, obj, opts, fuzz, suite
from .gen import *
from .model import *
from .run import LANGS

B = Basic
ALLT = INTS + FLOATS + ['bool']
# option combinations that every target accepts (unsupported ones only warn)
MIX = ['-unroll -1', '-unroll 0', '-minimal', '-single', '-memcpy', '-signext shift', '-signext arith', '-decnum',
       '-compat', '-relpath', '-inner', '-unroll 2', '-minimal -memcpy -unroll 0', '-single -memcpy -decnum',
       '-compat -unroll 0 -memcpy', '-signext arith -unroll -1 -single', '-inner -minimal -decnum -relpath', '-signext shift -unroll 0']


def opt(s):
    return s.split()


def F(name, t, bits=None, order=None, **k):
    return Field('normal', name, B(t) if isinstance(t, str) else t, bits, order=order, **k)


def V(bits):
    return Field('void', bits=bits)


def one_file(defs, pkg='aa.pmain', **o):
    o.setdefault('go_package', 'bbt/gen/' + pkg.rsplit('.', 1)[-1])
    return File('main.bb', pkg, defs, o)


def split_files(defs, n):
    """independent structs over n imported files (so that every compiler works in parallel)"""
    fs = [File('m%d.bb' % i, 'aa.m%d' % i, defs[i::n], {'go_package': 'bbt/gen/m%d' % i}) for i in range(n)]
    root = File('main.bb', 'aa.pmain', [], {'omit_empty': True, 'go_package': 'bbt/gen/pmain'}, imports=['m%d.bb' % i for i in range(n)])
    return fs + [root], root


# ---------------------------------------------------------------- coverage keys
_feat = {}


def features(s):
    """the layout points a struct realises"""
    if id(s) in _feat and _feat[id(s)][0] is s:
        return _feat[id(s)][1]
    out, pos, dyn = [], 0, False
    for f in s.flat():
        if f.kind == 'normal':
            t, n = f.typ, 0
            if t.kind == 'array':
                n, t = t.n, t.elem
            nm = t.name if t.kind == 'basic' else t.kind
            out.append('%s:%s@%d%s%s%s' % (nm, f.ebits if not f.dynamic else '-', pos % 8, 'B' if f.big else '', '<%d>' % n if n else '', 'd' if dyn else ''))
            if f.dynamic:
                pos, dyn = 0, True
            else:
                pos += f.bits
        elif f.kind == 'const':
            out.append('const %s:%d@%d%s%s' % (f.typ.name, f.bits, pos % 8, 'B' if f.big else '', 'd' if dyn else ''))
            pos += f.bits
        else:
            out.append('void:%d@%d' % (f.bits, pos % 8))
            pos += f.bits
    _feat[id(s)] = (s, out)
    return out


def key_feat(t, c):
    return [type(c).__name__[0] + ' ' + x for x in features(c.s)]


# ---------------------------------------------------------------- schema builders
def strat_combos(rng, types, per_point):
    """every (type, width, order) with per_point of the eight bit offsets"""
    out = []
    for tn in types:
        for w in range(1, B(tn).bits + 1):
            for big in (False, True):
                for off in rng.sample(range(8), per_point):
                    out.append((tn, w, off, big))
    rng.shuffle(out)
    return out


def array_combos(rng, n, types=None):
    out = []
    for _ in range(n):
        tn = rng.choice(types or ALLT)
        out.append((tn, rng.randint(1, B(tn).bits), rng.randrange(8), rng.random() < 0.5))
    return out


def dyn_context(rng, defs):
    """put a dynamic field in front of some structs: the same layout at a run-time offset"""
    for s in defs:
        if rng.random() < 0.4:
            s.fields.insert(0, F('lead_text', rng.choice([Str(), Byt()])))
    return defs


def values(rng, s, k, overflow=False):
    return [extreme_value(s, i) if i < 2 else gen_struct_value(rng, s, overflow) for i in range(k)]


def big_struct(n):
    """a long frame: byte positions beyond 255/256 and far apart fields"""
    r = -(3 + n * 13 + 21 + 60) % 8
    return Struct('Long%d' % n, [F('head', 'uint8', 3), F('blob', Arr(B('uint16'), n), n * 13), F('mid', 'int32', 21, 'big'),
                                 F('body', Arr(B('uint8'), n)), F('tail', 'uint64', 60)] + ([V(r)] if r else []))


def rand_defs(rng, n, ne=4, cfg=None, tag=''):
    return gen_defs(rng, Names(tag), cfg or Cfg(), n, ne)


def dyn_grid(rng, k=None, tag=''):
    """every dynamic construct (scalar, array rolled and unrolled, nested) x fixed bytes before it x what follows it; k of the nine contexts of each"""
    nm = Names('Q' + tag)
    subs = [Struct(nm.struct(), [F('sub_a', 'uint8'), F('sub_s', Str())]), Struct(nm.struct(), [F('sub_b', Byt()), F('sub_c', 'uint16', 16, 'big')]), Struct(nm.struct(), [F('sub_d', Arr(Str(), 6)), F('sub_e', Byt())])]
    out = list(subs)
    base = [lambda: Str(), lambda: Byt(), lambda: rng.choice(subs)]
    for b in base:
        for n in (0, 1, 2, 3, 5, 6):
            ctx = [(l, t) for l in (0, 8, 24) for t in ('', 'fix', 'dyn')]
            for lead, tail in rng.sample(ctx, k) if k else ctx:
                t = b()
                fs = [F('lead_x', 'uint32', lead)] if lead else []
                fs.append(F('dyn_y', Arr(t, n) if n else t))
                if tail:
                    fs.append(F('tail_z', 'uint16') if tail == 'fix' else F('tail_z', rng.choice([Str(), Byt()])))
                out.append(Struct(nm.struct(), fs))
    return out


def pick_opts(rng, lang, k):
    return [opt(x) for x in rng.sample(MIX, k)]


def vast():
    """offsets beyond 16 bits, lengths beyond 8 and 16 bits, in every kind of member"""
    sub = Struct('VastSub', [F('sub_k', 'uint8'), F('sub_s', Str())])
    n = 41000
    r = -(3 + n * 13 + 61) % 8
    return [sub, Struct('VastText', [F('tag_a', 'uint8'), F('s_one', Str()), F('mid', 'uint16', 16, 'big'), F('b_two', Byt()), F('s_end', Str()), F('end_x', 'int32')]),
            Struct('VastFixed', [F('head', 'uint8', 3), F('many', Arr(B('uint16'), n), n * 13), F('tail', 'uint64', 61)] + ([V(r)] if r else [])),
            Struct('VastList', [F('tag_a', 'uint8'), F('texts', Arr(Str(), 300)), F('blobs', Arr(Byt(), 260)), F('subs', Arr(sub, 270)), F('nums', Arr(B('int16'), 258), 258 * 11), V(-(258 * 11) % 8), F('end_x', 'uint16')])]


def tower(rng):
    """structs nested and embedded many levels deep, and structs of many fields"""
    base = []
    for i in range(6):
        base.append(Struct('Base%s' % 'ABCDEF'[i], ([Field('embed', struct=base[-1])] if i else []) + [F('bb%d' % i, 'uint16', 11, 'big' if i % 2 else None), F('bc%d' % i, 'int32', 21)] + ([F('bt%d' % i, Str())] if i == 3 else [])))
    t = []
    for i in range(8):
        sub = [F('sub%d' % i, Arr(t[-1], 2) if i in (1, 4, 7) else t[-1])] if i else [F('leaf_s', Str()), F('leaf_b', Byt())]
        t.append(Struct('Tower%s' % 'ABCDEFGH'[i], [F('lo%d' % i, 'uint8', 5), F('hi%d' % i, 'int16', 11)] + sub + [F('en%d' % i, 'float32' if i % 2 else 'uint8')] + ([Field('embed', struct=base[-1])] if i == 6 else [])))
    out = []
    for name, dyn in (('CrowdFix', False), ('CrowdDyn', True)):
        fs, bits = [], 0
        for k in range(150):
            n = 'c%s%s' % ('abcdefghijklmno'[k // 10], 'klmnopqrst'[k % 10])
            if dyn and k % 17 == 5 and bits % 8 == 0:
                fs.append(F(n, Str() if k % 2 else Byt()))
                continue
            if k % 23 == 11:
                w, ty = 3 * rng.choice([1, 2, 5, 8]), Arr(B('uint8'), 3)
                fs.append(F(n, ty, w))
            else:
                ty = rng.choice(['bool', 'uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'uint64', 'int64'])
                w = 1 if ty == 'bool' else rng.randint(1, int(ty.strip('uint')))
                if dyn and k % 17 in (3, 4) and k % 17 == 4:
                    w = -bits % 8 or 8
                    ty = 'uint8'
                fs.append(F(n, ty, w, 'big' if rng.random() < 0.4 and w > 8 else None))
            bits += w
        if bits % 8:
            fs.append(V(-bits % 8))
        out.append(Struct(name, fs))
    return base + t + out


def tower_items(run, mk):
    d = tower(run.rng)
    f = one_file(d)
    tops = [s for s in d if s.name in ('BaseF', 'TowerC', 'TowerF', 'TowerH', 'CrowdFix', 'CrowdDyn')]
    cmds = [c for s in tops for k in range(2) for c in mk(run.rng, s, gen_struct_value(run.rng, s), k)]
    for l in LANGS:
        run.add([f], f, l, [] if run.quick else run.rng.choice([[], ['-unroll', '0'], ['-memcpy']]), cmds, key_feat, san=False)


def vast_values(rng, s):
    if s.name == 'VastText':
        out = []
        for k in range(3):
            v = gen_struct_value(rng, s)
            n = rng.choice([65533, 65534, 65535, 65536, 65537, 70001, 131071])
            # one long member before the others
            w = ('s_one', 'b_two', 's_end')[k]
            v[w] = bytes(rng.getrandbits(8) for _ in range(n)) if w == 'b_two' else (rng.choice(['x', '\u00e9', '\u4f60', '\U0001F600']) + 'abcdefg' * (n // 7 + 1)).encode()[:n]
            out.append(v)
        return out
    return [gen_struct_value(rng, s)]


def vast_items(run, mk):
    d = vast()
    f = one_file(d)
    cmds = [c for s in d[1:] for k, v in enumerate(vast_values(run.rng, s)) for c in mk(run.rng, s, v, k)]
    for l in LANGS:
        run.add([f], f, l, ['-minimal'] if l in ('c', 'cpp') else [], cmds, key_feat, san=False)


# ---------------------------------------------------------------- the codec properties
def codec(run, mk, scalar_points, arrays, rand_n, rand_opts, nval, san=False, per=12):
    """grid + arrays + random schemas over all targets; mk(rng, struct, value, k) -> commands"""
    rng = run.rng
    grid = grid_structs(rng, Names('G'), strat_combos(rng, ALLT, scalar_points), per)
    dyn_context(rng, grid)
    gfiles, groot = split_files(grid, 4)
    gc = [c for s in grid for k, v in enumerate(values(rng, s, nval)) for c in mk(rng, s, v, k)]
    for l in LANGS:
        run.add(gfiles, groot, l, [], gc, key_feat, san=san)
    for o in (['-unroll', '0'], ['-unroll', '-1']):
        arr = grid_structs(rng, Names('A'), array_combos(rng, arrays), 3, lambda r: r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12]))
        dyn_context(rng, arr)
        f = one_file(arr)
        ac = [c for s in arr for k, v in enumerate(values(rng, s, nval)) for c in mk(rng, s, v, k)]
        for l in LANGS:
            run.add([f], f, l, o, ac, key_feat, san=san)
    for r in range(rand_opts):
        defs = rand_defs(rng, rand_n) + [big_struct(rng.choice([40, 300]))]
        f = one_file(defs)
        rc = [c for s in f.structs() for k, v in enumerate(values(rng, s, nval + 2)) for c in mk(rng, s, v, k)]
        for l in LANGS:
            run.add([f], f, l, pick_opts(rng, l, 1)[0], rc, key_feat, san=san)
    vast_items(run, mk)
    tower_items(run, mk)
    run.execute()


def p_encode(run):
    def mk(rng, s, v, k):
        return [suite.Encode(s, v, [0, 0, 0, 0xff, 0x5a, 0][k % 6], rng.choice([0, 0, 3]), 'da'[k % 2], check=('wire', 'size'))]
    q = run.quick
    codec(run, mk, 3 if q else 8, 90 if q else 600, 14 if q else 30, 4 if q else 24, 4 if q else 8)
    return ('every (basic type, width, order) at %d of 8 bit offsets as a scalar, random element arrays rolled and unrolled, and random schemas '
            'under random option sets; in each the bytes written by the compiled generated encoder are compared with a reference bit-level encoder. '
            'Distinct = (target, options, field kind, width, bit offset, order, array length, static/run-time offset) points whose bytes were compared.' % (3 if q else 8))


def p_decode(run):
    def mk(rng, s, v, k):
        return [suite.Decode(s, encode(s, v)[0], start=k % 3, tail=rng.choice([0, 0, 4]), mode='da'[k % 2])]
    q = run.quick
    codec(run, mk, 3 if q else 8, 90 if q else 600, 14 if q else 30, 4 if q else 24, 4 if q else 8)
    return ('as for encoding: reference-encoded frames (extreme and random values, including sign bits and all-ones neighbours) are decoded by the generated '
            'decoder and the object is read back field by field; distinct = (target, options, layout point) whose decoded value was compared')


def rand_items(run, n_schemas, rand_n, opts_per, mk, nval, langs=LANGS, san=False, cfg=None, extra=None, key=key_feat, opts=None):
    """random schemas; every target sees every schema under opts_per option sets of its own"""
    rng = run.rng
    for r in range(n_schemas):
        defs = rand_defs(rng, rand_n, cfg=cfg) + (extra(rng, r) if extra else [])
        f = one_file(defs)
        cmds = [c for s in f.structs() for k, v in enumerate(values(rng, s, nval)) for c in mk(rng, s, v, k)]
        for l in langs:
            for o in (opts(rng, l, r) if opts else [[]] + pick_opts(rng, l, opts_per)):
                run.add([f], f, l, o, cmds, key, san=san)


def grid_items(run, mk, k, nval, langs=LANGS, san=False, opts=lambda l: []):
    g = dyn_grid(run.rng, k)
    f = one_file(g)
    cmds = [c for s in f.structs() for i, v in enumerate(values(run.rng, s, nval)) for c in mk(run.rng, s, v, i)]
    for l in langs:
        run.add([f], f, l, opts(l), cmds, key_feat, san=san)


DYN = dict(p_dyn=1.0, p_array=0.4, p_struct=0.25, max_fields=8)


def p_size(run):
    def mk(rng, s, v, k):
        w = encode(s, v)[0]
        out = [suite.Encode(s, v, 0, rng.choice([0, 2]), 'da'[k % 2], check=('size',)),
               suite.Decode(s, w, start=k % 3, tail=rng.choice([0, 5]), mode='da'[k % 2], check=('size',))]
        if len(w) < 400:
            out.append(FullSize(s, w, start=k % 3))
        return out

    def extra(rng, r):
        return [big_struct(rng.choice([20, 200])), blobs(rng, 'Blob%d' % r)]
    q = run.quick
    rand_items(run, 3 if q else 20, 12, 1, mk, 7, cfg=Cfg(**DYN), extra=extra)
    defs = rand_defs(run.rng, 12, cfg=Cfg(p_dyn=0))
    f = one_file(defs)
    cmds = [c for s in f.structs() for k, v in enumerate(values(run.rng, s, 4)) for c in mk(run.rng, s, v, k)]
    for l in LANGS:
        run.add([f], f, l, pick_opts(run.rng, l, 1)[0], cmds, key_feat, san=False)
    grid_items(run, mk, 3 if q else None, 4)
    two = [Struct('TwoMega', [F('tag_a', 'uint8'), F('one_b', Byt())]), Struct('TwoMegaArr', [F('few_b', Arr(Byt(), 2)), F('end_x', 'uint8')]), Struct('TwoMegaLoop', [F('many_b', Arr(Byt(), 5)), F('end_x', 'uint8')])]
    tf = one_file(two)
    tc = []
    for n in (2097151, 2097152):
        for s in two:
            f = s.fields[0 if s.name != 'TwoMega' else 1]
            v = extreme_value(s, 0)
            v[f.name] = bytes(n) if f.typ.kind == 'bytes' else [b''] * (f.typ.n - 1) + [bytes(n)]
            tc.append(suite.Encode(s, v, 0, 0, 'd', check=('size',)))
    for l in LANGS:
        run.add([tf], tf, l, [], tc, key_feat, san=False)
    vast_items(run, mk)
    tower_items(run, mk)
    bd = [blobs(run.rng, 'Huge')]
    bf = one_file(bd)
    bc = [c for k in range(4 if q else 12) for c in mk(run.rng, bd[0], gen_struct_value(run.rng, bd[0], big_blob=True), k)]
    for l in LANGS:
        run.add([bf], bf, l, run.rng.choice([[], ['-memcpy']]), bc, key_feat, san=False)
    run.execute()
    return ('random dynamic and fixed frames (strings over the whole UTF-8 range, bytes lengths around 127/128/255/256/16383/16384, arrays of strings, bytes and '
            'dynamic structs, embedded and nested): encode_size, the count encode returns, the length of an allocated encoding, decode\'s count and decode_size of the '
            'complete frame are all compared with the reference length; distinct = (target, options, layout point) in a frame whose sizes were compared')


def blobs(rng, name):
    fs = [F('tag_a', 'uint8', 5), V(3), F('b_one', Byt()), F('mid', 'uint16', 12, 'big'), V(4), F('s_one', Str()), F('b_two', Byt()), F('end', 'int32')]
    return Struct(name, fs)


class FullSize(suite.Framing):
    """decode_size of the complete frame only"""

    def judge(self, tgt, ans):
        if ans.split()[0] in ('EXC', 'CRASH', 'TIMEOUT'):
            return 'decode_size failed: ' + ans[:300]
        x = int(ans.split(',')[-1])
        return '' if x == len(self.wire) else 'decode_size of a complete %d-byte frame returned %d' % (len(self.wire), x)


def p_framing(run):
    def mk(rng, s, v, k):
        w = encode(s, v)[0]
        out = []
        if len(w) <= 260:
            out.append(suite.Framing(s, w, start=k % 3, extra=rng.choice([b'', b'\x80\xff', w[:9]])))
        cuts = sorted({rng.randrange(len(w)) for _ in range(6)}) if len(w) > 1 else []
        out += [suite.Hostile(s, w[:c], whole=len(w)) for c in cuts]
        out.append(suite.Hostile(s, w + rng.choice([b'', b'\0', w, b'\xff' * 5])))
        return out
    q = run.quick
    rand_items(run, 3 if q else 20, 12, 1, mk, 6, cfg=Cfg(**DYN), extra=lambda rng, r: [blobs(rng, 'Blob%d' % r), big_struct(30)])
    rand_items(run, 1 if q else 4, 10, 1, mk, 3, cfg=Cfg(p_dyn=0))
    grid_items(run, mk, 3 if q else None, 4)
    def far(rng, s, v, k):
        w = encode(s, v)[0]
        n = len(w)
        return [suite.Hostile(s, w[:c], whole=n) for c in sorted({rng.randrange(n) for _ in range(3)} | {n - 1, n // 2, min(n - 1, 65536)})]
    vast_items(run, far)
    bd = [blobs(run.rng, 'Huge')]
    bf = one_file(bd)
    bc = []
    for k in range(3 if q else 12):
        w = encode(bd[0], gen_struct_value(run.rng, bd[0], big_blob=True))[0]
        n = len(w)
        for c in sorted({run.rng.randrange(n) for _ in range(12)} | {1, 2, 3, 4, 5, n - 1, n - 2, n // 2, 16384, 16387}):
            bc.append(suite.Hostile(bd[0], w[:c], whole=n))
    for l in LANGS:
        run.add([bf], bf, l, run.rng.choice([[], ['-memcpy']]), bc, key_feat, san=False)
    run.execute()
    return ('every prefix of reference-encoded frames (random prefixes of long ones, plus trailing bytes of a following frame) is given to decode_size in a buffer of exactly '
            'that length; the answers are replayed offline as a streaming receiver: incomplete prefixes must ask for more than they hold and at most the whole frame, complete '
            'ones must report the exact frame length. Distinct = (target, options, layout point) of framed structs')


def const_structs(rng, n, per=4):
    names, out = Names('K'), []
    combos = []
    for tn in INTS + ['bool']:
        t = B(tn)
        for w in range(1, t.bits + 1):
            for big in (False, True):
                combos.append((tn, w, rng.randrange(8), big))
    for tn in FLOATS:
        for off in range(8):
            for big in (False, True):
                combos.append((tn, B(tn).bits, off, big))
    rng.shuffle(combos)
    combos = combos[:n]
    for i in range(0, len(combos), per):
        used, fields, pos = set(), [], 0
        if rng.random() < 0.3:
            fields.append(F('lead_text', rng.choice([Str(), Byt()])))
        for tn, w, off, big in combos[i:i + per]:
            gap = (off - pos) % 8
            if gap:
                fields.append(Field('void', bits=gap) if rng.random() < 0.3 else F(fname(rng, used), 'uint8', gap))
                pos += gap
            v, txt = gen_const(rng, B(tn), w)
            nm = fname(rng, used) if rng.random() < 0.7 else None
            fields.append(Field('const', nm, B(tn), w, order='big' if big else None, const=v, const_text=txt))
            pos += w
        r = -pos % 8
        if r:
            fields.append(Field('void', bits=r) if rng.random() < 0.5 else F(fname(rng, used), 'uint8', r))
        fields.append(F('end_x', 'uint16'))
        out.append(Struct(names.struct(), fields))
    return out


def p_const(run):
    rng = run.rng

    def mk(s, k):
        v = extreme_value(s, k) if k < 2 else gen_struct_value(rng, s)
        w, mask = encode(s, v)
        out = [suite.Encode(s, v, [0, 0, 0xff, 0x5a][k % 4], rng.choice([0, 2]), 'da'[k % 2], check=('wire',)),
               suite.Decode(s, w, start=k % 2, mode='da'[k % 2])]
        if k != 0:
            return out
        base = decode(s, w)[1]
        bits = list(range(8 * len(w)))
        rng.shuffle(bits)
        bad = good = 0
        for b in bits:
            x = bytearray(w)
            x[b // 8] ^= 1 << (b % 8)
            try:
                _, n, isbad = decode(s, bytes(x))
            except (Need, BadLen, LongLen):
                continue
            if isbad and n == base and bad < 48:
                bad += 1
                out.append(suite.BadConst(s, bytes(x), 'bit %d of byte %d' % (b % 8, b // 8)))
            elif not isbad and n == len(w) and good < 12:
                good += 1
                out.append(suite.Decode(s, bytes(x)))
        return out
    q = run.quick
    for r in range(3 if q else 9):
        defs = const_structs(rng, 260 if q else 600)
        # constants inside nested, embedded and array-element structs
        inner = Struct('InnerK%d' % r, [F('xx', 'uint8', 3), Field('const', 'mark', B('uint16'), 13, order='big', const=0x1234, const_text='0x1234')])
        inner2 = Struct('InnerD%d' % r, [Field('const', None, B('uint8'), 8, const=0xA5, const_text='0xA5'), F('txt', Str()), Field('const', 'fin', B('int8'), 8, const=-3, const_text='-3')])
        defs += [inner, inner2, Struct('OuterK%d' % r, [F('nn', inner), F('na', Arr(inner, 6)), F('nb', Arr(inner2, 5)), F('nd', inner2), Field('embed', struct=inner2), F('zz', 'uint8')])]
        fs = split_files(defs[:-3], 4)
        f2 = one_file(defs[-3:], 'aa.pnest')
        jobs = [(fs[0], fs[1], [s for f in fs[0] for s in f.structs()]), ([f2], f2, f2.structs())]
        for files, root, ss in jobs:
            cmds0 = [c for s in ss for k in range(4) for c in mk(s, k)]
            named = [suite.Constants(s) for s in ss if any(f.kind == 'const' and f.name for f in s.flat())]
            for l in LANGS:
                cmds = cmds0 + (named if l in suite.Constants.LANGS else [])
                for o in ([[]] if len(ss) > 3 else [[], ['-unroll', '0', '-memcpy'], ['-decnum', '-single'], ['-minimal', '-compat']]):
                    run.add(files, root, l, o if len(ss) <= 3 else rng.choice([[], ['-decnum'], ['-memcpy']]), cmds, key_feat, san=False)
    run.execute()
    return ('constants of every integer type/width/order (a quarter of the grid per run), bool and floats at all bit offsets, named and unnamed, also nested, embedded and in array '
            'elements: emitted bits are compared with the reference whatever the object holds, every flipped constant bit (up to 48 per struct) must make decode refuse, flips of other '
            'bits must not; named constants of new objects must be members that hold their literal (C#, JavaScript, Kotlin). Distinct = (target, options, constant layout point)')


def p_memory(run):
    rng = run.rng

    def mk(rng, s, v, k):
        w = encode(s, v)[0]
        out = [suite.Encode(s, v, rng.choice([0, 0xcc]), rng.choice([0, 3, 9]), 'da'[k % 2], check=('confine',)),
               suite.Decode(s, w, start=k % 2, tail=0, mode='da'[k % 2], check=())]
        if len(w) <= 200:
            out += [suite.Truncated(s, w), Safe(s, w, start=k % 2)]
        for _ in range(4):
            x = bytearray(w[:rng.randrange(len(w) + 1)] if rng.random() < 0.3 else w)
            for _ in range(rng.choice([1, 1, 2, 5])):
                if x:
                    x[rng.randrange(len(x))] = rng.choice([0, 0x7f, 0x80, 0xff, 0x81, rng.getrandbits(8)])
            if rng.random() < 0.3:
                x += bytes(rng.choice([0x80, 0xff, 0, 0x7f]) for _ in range(rng.randrange(12)))
            out.append(HostileSafe(s, bytes(x)))
        out.append(HostileSafe(s, bytes(rng.getrandbits(8) for _ in range(rng.randrange(len(w) + 12)))))
        return out

    def mkover(rng, s, v, k):
        """values wider than their fields"""
        return [suite.Encode(s, gen_struct_value(rng, s, overflow=True), 0, 2, 'd', check=('confine',))]

    def dirty(rng, s, v, k):
        return mk(rng, s, v, k) + mkover(rng, s, v, k)
    q = run.quick
    rand_items(run, 2 if q else 12, 12, 1, dirty, 5, san=True, cfg=Cfg(**DYN), extra=lambda rng, r: [blobs(rng, 'Blob%d' % r), big_struct(30)])
    rand_items(run, 1 if q else 6, 12, 2, dirty, 4, san=True)
    grid_items(run, dirty, 3 if q else None, 4, san=True)
    grid_items(run, dirty, 2 if q else None, 4, san=True, langs=['c', 'cpp', 'go'], opts=lambda l: ['-memcpy'])
    for o in ([], ['-unroll', '0'], ['-memcpy']):
        arr = dyn_context(rng, grid_structs(rng, Names('M'), array_combos(rng, 60 if q else 300), 3, lambda r: r.choice([1, 3, 5, 8, 9])))
        f = one_file(arr)
        ac = [c for s in arr for k, v in enumerate(values(rng, s, 3)) for c in dirty(rng, s, v, k)]
        for l in (['c', 'cpp'] if q else LANGS):
            run.add([f], f, l, o, ac, key_feat, san=True)
    run.execute()
    return ('encoders run with guard bytes around an exactly sized heap buffer, decoders and decode_size on heap buffers of exactly the input length holding complete, truncated, mutated '
            'and random frames; C and C++ under AddressSanitizer+UndefinedBehaviorSanitizer (any report aborts the command), the other targets under their own bounds checks (an exception on '
            'malformed or incomplete input counts). Distinct = (target, options, layout point) exercised under the monitors')


class Safe(suite.Framing):
    def judge(self, tgt, ans):
        if ans.split()[0] in ('EXC', 'CRASH', 'TIMEOUT'):
            return 'decode_size failed on a prefix: ' + ans[:300]
        return ''


class HostileSafe(suite.Hostile):
    """only abnormal ends and claims beyond the input"""

    def judge(self, tgt, ans):
        a = ans.split()
        if a[0] in ('EXC', 'CRASH', 'TIMEOUT') or len(a) < 3:
            return 'arbitrary bytes crashed the decoder: ' + ans[:300]
        if a[0].startswith('EXC'):
            return 'decode_size threw on arbitrary bytes: ' + a[0]
        if int(a[0]) > len(self.wire):
            return 'decode_size claims %s bytes of a %d-byte input' % (a[0], len(self.wire))
        if a[1].startswith('EXC'):
            if tgt.excenum and 'ValueError' in a[1] or 'Unicode' in a[1]:
                return ''
            return 'decode threw on arbitrary bytes: ' + a[1]
        if a[1] != 'na' and int(a[1]) > len(self.wire):
            return 'decode claims %s bytes of a %d-byte input' % (a[1], len(self.wire))
        return ''


def p_options(run):
    rng = run.rng

    def mk(rng, s, v, k):
        w = encode(s, v)[0]
        return [suite.Encode(s, v, 0, 0, 'da'[k % 2], check=('wire', 'size')), suite.Decode(s, w, start=k % 2, mode='da'[k % 2]), suite.Framing(s, w[:150] if 0 else w, start=0)]
    q = run.quick
    rounds = 2 if q else 12
    for r in range(rounds):
        for lang in LANGS:
            sets = [opt(x) for x in MIX[:12]]
            for _ in range(2 if q else 6):
                c = []
                for x in rng.sample(MIX[:12], rng.randint(2, 5)):
                    if x.split()[0] not in c:
                        c += opt(x)
                sets.append(c)
            # every option set of a target over the same schema and values
            defs = rand_defs(rng, 7, 3) + [signs(rng, 'Sgn%d' % r)]
            f = one_file(defs)
            cmds = [c for s in f.structs() for k, v in enumerate(values(rng, s, 5)) for c in mk(rng, s, v, k)]
            for o in sets:
                run.add([f], f, lang, o, cmds, key_feat, san=False)
    run.execute()
    return ('each target generates the same random schema under every single option and random option combinations; every build must produce the reference bytes, the reference values and the reference '
            'framing for the same value log, i.e. the same as every other option set; distinct = (target, option set, layout point)')


def signs(rng, name):
    fs, pos = [], 0
    for i, (t, w) in enumerate([('int8', 5), ('int16', 11), ('int32', 19), ('int64', 37), ('int64', 64), ('int32', 32), ('int64', 32), ('int16', 16), ('int8', 8), ('int64', 57)]):
        fs.append(F('sg%d' % i, t, w, rng.choice([None, 'big'])))
        pos += w
    fs.append(V(8 - pos % 8 if pos % 8 else 8))
    for i, (t, w, n) in enumerate([('int16', 12, 6), ('int64', 33, 5), ('int8', 3, 8), ('uint32', 32, 6), ('uint64', 64, 5), ('float32', 32, 5), ('float64', 64, 5), ('bool', 1, 8), ('int32', 24, 3)]):
        fs.append(F('ar%d' % i, Arr(B(t), n), w * n, rng.choice([None, 'big'])))
        pos += w * n
    r = -sum(f.bits for f in fs) % 8
    if r:
        fs.append(V(r))
    fs += [F('bl', Byt()), F('st', Arr(Str(), 5)), F('tb', Arr(Byt(), 2))]
    return Struct(name, fs)


def p_alias(run):
    rng = run.rng
    owned = {'java', 'python', 'commonjs', 'esmodule', 'kotlin'}

    def mkc(cls):
        return lambda rng, s, v, k: [cls(s, encode(s, v)[0])]
    q = run.quick
    cfg = Cfg(p_dyn=1.0, p_array=0.35, p_struct=0.3, p_const=0.05, max_fields=8)
    for r in range(7 if q else 24):
        defs = rand_defs(rng, 12, 2, cfg) + [blobs(rng, 'Blob%d' % r)]
        f = one_file(defs)
        vals = [(s, k, v) for s in f.structs() for k, v in enumerate(values(rng, s, 5))]
        own = [suite.Alias(s, encode(s, v)[0]) for s, k, v in vals]
        view = [suite.View(s, encode(s, v)[0]) for s, k, v in vals]
        for l in LANGS:
            extra = rng.choice([[], ['-unroll', '0'], ['-compat'], ['-single'], ['-minimal']])
            run.add([f], f, l, ['-memcpy'] + extra, own, key_feat, san=True)
            run.add([f], f, l, extra, own if l in owned else view, key_feat, san=True)
    run.execute()
    return ('frames with strings, bytes, arrays of them and nested dynamic structs are decoded, the input buffer is then overwritten in place and the object is dumped again: with memory copy (or in targets '
            'that always copy) the value must be unchanged, without it bytes (and strings in C) must show exactly the overwritten content and everything else must be unchanged; C/C++ run under ASan. '
            'Distinct = (target, options, layout point) of decoded dynamic structs')


# ---------------------------------------------------------------- state
def gen_history(rng, s, n=None):
    """random operations on one object: loads, member and item writes, decodes of good and bad frames, encodes into clean and used buffers, reads"""
    def val():
        for _ in range(8):
            v = extreme_value(s, rng.randrange(2)) if rng.random() < 0.15 else gen_struct_value(rng, s)
            v = roundtrip_value(s, v)
            if not suite.has_unknown(s, v) and not suite.has_nan(s, v):
                return v
        return None
    fs = s.vfields()
    steps, known = [], False
    for _ in range(n or rng.randint(5, 14)):
        k = rng.choice('cammiddddddxeeefnN')
        if not known and k in 'efnNmi':
            k = 'd'
        v = val()
        if v is None:
            return None
        if k in 'ca':
            steps.append((k, v))
            known = True
        elif k in 'mi':
            i = rng.randrange(len(fs))
            f = fs[i]
            if k == 'i' and f.typ.kind == 'array':
                j = rng.randrange(f.typ.n)
                steps.append(('i', i, j, v[f.name][j]))
            else:
                steps.append(('m', i, v[f.name]))
        elif k in 'dx':
            w = encode(s, v)[0]
            if k == 'x':
                c = [f for f in s.flat() if f.kind == 'const']
                if len(w) > 1 and rng.random() < 0.7 or not c:
                    w = w[:rng.randrange(len(w))]
                    if len(w) == 0 and s.bits == 0:
                        continue
                else:
                    x = bytearray(w)
                    x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
                    w = bytes(x)
                try:
                    u, _, bad = decode(s, w)
                    if not bad and (suite.has_unknown(s, u) or suite.has_nan(s, u) or not suite.utf8ok(s, u)):
                        continue
                except Exception:
                    pass
            try:
                known = not decode(s, w)[2]
            except Exception:
                known = False
            steps.append(('d', w))
        else:
            steps.append((k,))
    return steps


def p_state(run):
    rng, q = run.rng, run.quick
    cfg = Cfg(p_dyn=0.7, p_array=0.4, p_struct=0.3, max_fields=8)

    def mk(defs, k):
        out = []
        for s in defs:
            if not s.vfields():
                continue
            for _ in range(k):
                h = gen_history(rng, s)
                if h:
                    out.append(suite.History(s, h))
        return out
    for r in range(4 if q else 20):
        defs = rand_defs(rng, 12, 3, cfg) + [blobs(rng, 'Blob%d' % r)]
        f = one_file(defs)
        cmds = mk(f.structs(), 6 if q else 14)
        for l in LANGS:
            for o in ([], rng.choice([['-unroll', '0'], ['-unroll', '-1'], ['-compat'], ['-single']]) + ['-memcpy'], rng.choice([['-minimal'], ['-memcpy'], ['-minimal', '-memcpy']])):
                run.add([f], f, l, o, cmds, key_feat, san=True)
    g = one_file(dyn_grid(rng, 2 if q else None))
    cmds = mk(g.structs(), 3)
    for l in LANGS:
        run.add([g], g, l, rng.choice([[], ['-memcpy']]), cmds, key_feat, san=True)
    run.execute()
    return ('random histories of 5-14 operations on one object (load through members or accessors, single member and array item writes, decode of good, truncated and corrupted frames, encode into clean '
            'and used buffers, reads) replayed against a sequential model of the object; after the history every value handed out by an earlier decode is read again. Distinct = (target, options, layout point)')


def p_threads(run):
    rng, q = run.rng, run.quick
    cfg = Cfg(p_dyn=0.6, p_array=0.4, p_struct=0.25, max_fields=8)

    def items(defs, share):
        cmds = []
        for s in defs:
            if not s.vfields():
                continue
            vs = []
            for _ in range(12):
                v = roundtrip_value(s, gen_struct_value(rng, s))
                if not suite.has_unknown(s, v) and not suite.has_nan(s, v):
                    vs.append(v)
                if len(vs) == 3:
                    break
            for k, v in enumerate(vs):
                w = encode(s, v)[0]
                cmds += [suite.Encode(s, v, 0, 0, 'da'[k % 2], check=('wire', 'size')), suite.Decode(s, w, mode='da'[k % 2])]
                if len(w) < 120:
                    cmds.append(suite.Framing(s, w))
                if share:
                    cmds.append(suite.Shared(s, v, encode(s, vs[-1])[0], 4, 12))
        rng.shuffle(cmds)
        return cmds
    for r in range(1 if q else 6):
        for l in ['c', 'cpp', 'go', 'java', 'csharp', 'python']:
            for o in ([], rng.choice([['-unroll', '0'], ['-unroll', '-1']]) + ['-memcpy'], rng.choice([opt(x) for x in MIX if 'unroll' not in x])):
                defs = rand_defs(rng, 10, 3, cfg) + dyn_grid(rng, 1)[:12] + grid_structs(rng, Names('A'), array_combos(rng, 24), 3, lambda r: r.choice([2, 5, 6, 9])) + grid_structs(rng, Names('G'), array_combos(rng, 24), 6)
                f = one_file(defs)
                cmds = items(f.structs(), True)
                if l in ('c', 'cpp'):
                    cmds = cmds[:400]
                kw = {'race': True} if l == 'go' else {}
                run.add([f], f, l, o, cmds, key_feat, san='thread', threads=6, **kw)
    run.execute()
    return ('the same command log (encode, decode, decode_size of random schemas) is first run alone and then by 6 threads at once on their own objects, starting at different places; results must not change. '
            'In addition single objects are encoded and single frames decoded by 4 threads at the same time. C and C++ run under ThreadSanitizer, Go under the race detector; Java, C# and Python by comparing '
            'results. Distinct = (target, options, layout point) exercised concurrently; observed counts give the threaded operations per target')


PROPS = {'P01': p_encode, 'P02': p_decode, 'P03': p_size, 'P04': p_framing, 'P05': p_const, 'P06': p_memory, 'P07': p_options, 'P08': p_alias,
         'P10': front.p_accept, 'P12': front.p_output, 'P19': front.p_diag,
         'P15': p_threads, 'P17': p_state}
PROPS.update(more.PROPS)
PROPS.update(build.PROPS)
PROPS.update(obj.PROPS)
PROPS.update(fuzz.PROPS)
PROPS.update(opts.PROPS)
