"""Properties about the generated types: embedding, enumerations, plain values, entry points."""
import copy, random, shutil
from . import engine, more, suite
from .gen import *
from .model import *
from .run import LANGS

PROPS = {}


def plain(rng, s, tries=8):
    """a value that every target can hold and compare"""
    for _ in range(tries):
        v = roundtrip_value(s, gen_struct_value(rng, s))
        if not suite.has_unknown(s, v) and not suite.has_nan(s, v):
            return v
    return None


# ---------------------------------------------------------------- P13 embedding
def again(t, tag):
    """the same type; types that are defined inside of a field get defined again under another name"""
    if t.kind == 'array':
        return Arr(again(t.elem, tag), t.n)
    if t.kind == 'struct' and (t.inplace or t.inline):
        t = copy.copy(t)
        t.name += tag
        t.fields = [copy.copy(f) for f in t.fields]
        for f in t.fields:
            if f.kind == 'normal':
                f.typ = again(f.typ, tag)
            elif f.kind == 'embed' and f.inline:
                f.struct = again(f.struct, tag)
    return t


def twin(s):
    """the struct with the fields of everything embedded written out in place"""
    out = []
    for f in s.flat():
        f = copy.copy(f)
        if f.kind == 'normal':
            f.typ = again(f.typ, 'Of' + s.name)
        out.append(f)
    return Struct(s.name + 'Flat', out)


def chain(rng, names, cfg, ps, pe, n):
    """a struct that embeds by name and in place over n levels"""
    used, s = set(), None
    for i in range(n):
        a = gen_struct(rng, names, cfg, [], pe, dyn=rng.random() < 0.4, depth=2, used=used)
        fs = list(a.fields)
        if s is not None:
            # anywhere, unless a member has to start at a byte
            free = not any(holds(f.typ, lambda t: t.kind in ('struct', 'string', 'bytes')) for f in s.flat() if f.kind == 'normal')
            cuts = [k for k in range(len(fs) + 1) if free or sum(0 if f.dynamic else f.bits for f in fs[:k] if f.kind != 'embed') % 8 == 0]
            named = rng.random() < 0.6
            if not named:
                s.inline = True
                ps.remove(s)
            fs.insert(rng.choice(cuts), Field('embed', struct=s, inline=not named))
        s = Struct(names.struct(), fs)
        ps.append(s)
    return ps


def grid(rng, names, enums, r):
    """every kind of field, embedded by name and in place, directly and through another struct"""
    used = set()
    fs = []
    for i, t in enumerate(BT):
        t = Basic(t)
        full = t.name in FLOATS or t.bits == 8
        for o in (None, 'big'):
            w = t.bits if full or rng.random() < 0.5 else rng.randint(9, t.bits)
            v, txt = gen_const(rng, t, w)
            while t.bits > 8 and txt.lower() in ('0', '0x0', '0.0', '-1'):
                v, txt = gen_const(rng, t, w)
            fs.append(Field('const', fname(rng, used) if rng.random() < 0.6 else None, t, w, order=o, const=v, const_text=txt))
            if (i + r) % 2:
                w = t.bits if full or rng.random() < 0.5 else rng.randint(9, t.bits)
                fs.append(Field('normal', fname(rng, used), t, w, order=o))
            else:
                fs.append(Field('normal', fname(rng, used), Arr(t, 2), 2 * t.bits, order=o))
    for e in enums:
        fs.append(Field('normal', fname(rng, used), e, e.bits, order='big'))
        if max(e.numbers) < 1 << 63:
            v = rng.choice(e.vals)
            fs.append(Field('const', None, Basic('uint64'), 64, order='big', const=v[1], const_text=v[0]))
    rng.shuffle(fs)
    k = len(fs) // 3
    one = lambda fs, **kw: Struct(names.struct(), fs, **kw)
    more_ = lambda: Field('normal', fname(rng, used), Basic(rng.choice(['uint16', 'int64', 'bool'])), 8, order='big')
    a = one(fs[:k])                                                             # by name
    b = one(fs[k:2 * k] + [Field('embed', struct=a)] + [more_()])               # by name, through a struct embedded by name and in place
    c = one(fs[2 * k:])                                                         # in place
    c.inline = True
    d = one([more_(), Field('embed', struct=b), Field('embed', struct=c, inline=True)])
    e = one([Field('embed', struct=d), more_()])
    out = []
    for s in (a, b, c, d, e):
        n = -sum(0 if f.kind == 'embed' else f.bits for f in s.fields) % 8
        if n:
            s.fields.insert(rng.choice([0, len(s.fields)]), Field('void', bits=n))
        if s is not c:
            out.append(s)
    return out


def levels(s):
    """field name -> how it came into the struct"""
    out = {}

    def go(x, how):
        for f in x.fields:
            if f.kind == 'embed':
                go(f.struct, how + ('i' if f.inline else 'n'))
            elif f.kind == 'normal':
                t = f.typ.elem if f.typ.kind == 'array' else f.typ
                out[f.name] = '%s %s%s%s' % (how or 'own', t.kind if t.kind != 'basic' else t.name, '[]' if f.typ.kind == 'array' else '', ' big' if f.big else '')
    go(s, '')
    return out


def p_embed(run):
    from . import checks as C
    rng, q = run.rng, run.quick
    cfg = Cfg(p_dyn=0.4, p_embed=0.4, p_array=0.3, p_struct=0.15, p_enum=0.15, max_fields=5)
    feat = {}
    for r in range(3 if q else 16):
        names = Names('')
        enums = [gen_enum(rng, names) for _ in range(3)]
        defs, pool = list(enums), []
        for _ in range(8 if q else 14):
            s = gen_struct(rng, names, cfg, pool, enums)
            defs.append(s)
            if s.dynamic or s.bits < 600:
                pool.append(s)
        for k in range(3 if q else 6):
            defs += chain(rng, names, Cfg(p_dyn=0.4, p_embed=0, p_struct=0.1, p_enum=0.2, max_fields=3), [], enums, rng.randint(3, 5))
        defs += grid(rng, names, enums, r)
        for d in defs:
            if d.kind == 'struct':
                more.decorate(rng, d)
                for x in d.inner():
                    more.decorate(rng, x)
        f = C.one_file(defs)
        ss = [d for d in defs if d.kind == 'struct' and any(x.kind == 'embed' for x in d.fields)]
        cmds = {False: [], True: []}
        for s in ss:
            t = twin(s)
            f.defs.append(t)
            f.own(t)
            feat[s.name] = feat[t.name] = ['%s' % x for x in levels(s).values()]
            vs = [v for v in C.values(rng, s, 4)]
            seed = rng.random()
            for x in (s, t):
                out = []
                for v in vs:
                    w = encode(x, v)[0]
                    out += [suite.Encode(x, v, 0, 0, 'd', check=('wire', 'size', 'dump')), suite.Decode(x, w, mode='d', start=rng.choice([0, 2]))]
                    if len(w) < 200:
                        out.append(suite.Framing(x, w))
                r2 = random.Random(seed)
                h = C.gen_history(r2, x)
                if h:
                    out.append(suite.History(x, h))
                for b in (False, True):
                    cmds[b] += out + more.accessor_cmds(random.Random(seed), x, 3, b)
        key = lambda t, c: [type(c).__name__[0] + ' ' + x for x in feat[c.s.name]] if not c.s.name.endswith('Flat') else None
        for l in LANGS:
            for o in [[], C.pick_opts(rng, l, 1)[0]]:
                if '-minimal' in o and l not in ('c', 'cpp', 'go'):
                    o = ['-decnum']
                run.add([f], f, l, o, cmds[l == 'java'], key, san=False)
        run.count('embedding structs', len(ss))
    run.execute()
    return ('random structs that embed others by name and in place, several levels deep, with dynamic members, constants, padding and custom accessors at every level, each next to a twin that has all the fields written in place; '
            'frames, sizes, framing, object contents, operation histories and accessor results of both are judged by one model of the flat struct. Distinct = (target, options, observation, embedding path of a member, its type)')


PROPS['P13'] = p_embed


# ---------------------------------------------------------------- P16 enumerations
def rich_enum(rng, names, bits, earlier):
    """implicit numbers, literals in every notation and references to other enumerators"""
    e = gen_enum(rng, names, bits)
    # numbers that every target can hold exactly (JavaScript: doubles)
    lim = (1 << min(bits, 53)) - 1
    used, out, cur = set(), [], -1
    for n, num, txt in e.vals:
        num = min(num, lim)
        if out and rng.random() < 0.12:
            # a second name of a number
            num = rng.choice(out)[1]
            out.append((n, num, rng.choice(['%d', '0x%x', '0%o']) % num))
            cur = num
            continue
        refs = [(m, k) for x in earlier for m, k, _ in x.vals if k <= lim and k not in used]
        if rng.random() < 0.25 and refs:
            txt, num = rng.choice(refs)
        elif cur + 1 <= lim and cur + 1 not in used and rng.random() < 0.4:
            num, txt = cur + 1, None
        else:
            free = [x for x in (num, 0, lim, rng.randint(0, lim), rng.randint(0, lim)) if x not in used]
            if not free:
                break
            num = rng.choice(free)
            txt = rng.choice(['%d', '0x%X', '0x%x', '0X%x', '0%o']) % num
        used.add(num)
        cur = num
        out.append((n, num, txt))
    return Enum(e.name, bits, out)


def enum_leaves(t, v):
    if t.kind == 'array':
        for x in v:
            yield from enum_leaves(t.elem, x)
    elif t.kind == 'struct':
        for f in t.vfields():
            yield from enum_leaves(f.typ, v[f.name])
    elif t.kind == 'enum':
        yield t, v


def holdable(lang, c):
    """an enum of C only holds what its enumerators need (listed finding), a number of JavaScript is a double"""
    if isinstance(c, suite.Numbers) or lang not in ('c', 'commonjs', 'esmodule'):
        return True
    v = c.v if not isinstance(c, suite.BadConst) else decode(c.s, c.wire)[0]
    return not any(num >> (53 if lang != 'c' else 31 if max(k.numbers) < 1 << 31 else 32 if max(k.numbers) < 1 << 32 else 64) for k, num in enum_leaves(c.s, v))


def probe_wide(run):
    """the listed finding: an undeclared number of a wide enum whose enumerators are small"""
    if 'c' not in LANGS:
        return
    e = Enum('En1', 40, [('EN1_A', 0, None), ('EN1_B', 1, None)])
    from . import checks as C
    s = Struct('St1', [C.F('wide', e, 40)])
    f = C.one_file([e, s])
    t = engine.TARGETS['c']([f], f, [], san=False)
    try:
        t.prepare()
        c = suite.Decode(s, bytes.fromhex('0000000001'))
        r = c.judge(t, t.run([c.line_as('0')]).get('0', ''))
        run.probe('c-wide-enum-small-numbers', bool(r), r, run.replay_build(t, r))
        run.saw(('c', 'wide enum probe'))
    finally:
        shutil.rmtree(t.dir, True)


def p_enum(run):
    from . import checks as C
    rng, q = run.rng, run.quick
    for r in range(8 if q else 18):
        names, es = Names(''), []
        wide = r % 3 == 2
        if wide:
            widths = rng.sample(range(33, 65), 9 if q else 24) + [33, 64, 7]
        else:
            widths = list(range(1, 33)) if not q else rng.sample(range(1, 33), 16) + [1, 8, 31, 32]
        for b in widths:
            es.append(rich_enum(rng, names, b, es[-6:]))
        half = len(es) // 2
        files, user = [], []
        groups = [es[:half], es[half:]]
        for i, g in enumerate(groups):
            defs = []
            known = es[:half] if i == 0 else es
            for e in g:
                defs.append(e)
            for _ in range(6):
                used, fs, pos = set(), [], 0
                if rng.random() < 0.3:
                    fs.append(C.F(fname(rng, used), rng.choice([Str(), Byt()])))
                for _ in range(rng.randint(2, 5)):
                    e = rng.choice(known)
                    w = rng.choice([e.bits, e.bits, rng.randint(1, e.bits)])
                    k = rng.random()
                    if k < 0.3:
                        t = Basic(rng.choice(INTS))
                        ok = [x for x in e.vals if x[1] < 1 << (t.bits - (t.name[0] == 'i'))]
                        if not ok:
                            continue
                        n, num, _ = rng.choice(ok)
                        w = rng.randint(max(1, num.bit_length() + (t.name[0] == 'i')), t.bits)
                        f = Field('const', fname(rng, used) if rng.random() < 0.6 else None, t, w, order=rng.choice([None, 'big']), const=num, const_text=n)
                    elif k < 0.55:
                        n = rng.choice([1, 2, 3, 5, 8])
                        f = C.F(fname(rng, used), Arr(e, n), w * n, rng.choice([None, 'big']))
                        w *= n
                    else:
                        f = C.F(fname(rng, used), e, w, rng.choice([None, 'big']))
                    fs.append(f)
                    pos += w
                if -pos % 8:
                    fs.append(C.V(-pos % 8))
                if not any(f.kind == 'normal' for f in fs):
                    fs.append(C.F(fname(rng, used), 'uint8'))
                defs.append(Struct(names.struct(), fs))
            f = File('main.bb' if i else 'kinds.bb', 'aa.p%d' % i, defs, {'go_package': 'bbt/gen/p%d' % i}, imports=['kinds.bb'] if i else [])
            files.append(f)
        cmds = []
        for f in files:
            for e in f.enums():
                cmds.append(suite.Numbers(f.structs()[0], e))
            for s in f.structs():
                for k, v in enumerate(C.values(rng, s, 6)):
                    cmds.append(suite.Encode(s, v, 0, 0, 'da'[k % 2], check=('wire', 'size', 'dump')))
                    w = bytearray(encode(s, v)[0])
                    cmds.append(suite.Decode(s, bytes(w), mode='da'[k % 2]))
                    # numbers without a name, and constants with another number
                    for _ in range(3):
                        x = bytearray(w)
                        x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
                        x = bytes(x)
                        try:
                            u, n, bad = decode(s, x)
                        except Exception:
                            continue
                        if n == len(x) and suite.utf8ok(s, u) and not (bad and suite.has_unknown(s, u)):
                            cmds.append(suite.BadConst(s, x, 'one bit of %s' % bytes(w).hex()) if bad else suite.Decode(s, x))

        def key(t, c):
            if isinstance(c, suite.Numbers):
                return ['enum of %d bits, %s' % (c.e.bits, 'implicit' if x[2] is None else 'reference' if x[2][0].isupper() else 'hex' if x[2][:2] in ('0x', '0X') else 'octal' if x[2][0] == '0' and x[2] != '0' else 'decimal') for x in c.e.vals]
            kind = type(c).__name__ + (' unnamed number' if isinstance(c, suite.Decode) and suite.has_unknown(c.s, c.v) else '')
            return ['%s %s' % (kind, x) for x in C.features(c.s) if x.startswith(('enum', 'const'))]
        for l in LANGS:
            for o in [[], C.pick_opts(rng, l, 1)[0]]:
                run.add(files, files[-1], l, o, [c for c in cmds if holdable(l, c)], key, san=False)
    run.execute()
    probe_wide(run)
    return ('enumerations of every width from 1 to 64 bits (numbers below 2^53) with implicit numbers, decimal, hexadecimal and octal literals and references to enumerators of the same file or an imported one; the generated names, numbers and lookups are listed '
            'from the loaded code and compared with the declaration; frames with named and unnamed numbers, arrays of enums and constants that are enumerators go through encode and decode. '
            'Distinct = (target, options, enum width and notation) and (target, options, observation, layout point)')


PROPS['P16'] = p_enum


# ---------------------------------------------------------------- P18 plain values
def changed(rng, t, v, w=None):
    """(another value of the type, what differs) or None: exactly one leaf differs"""
    if t.kind == 'array':
        i = rng.randrange(t.n)
        r = changed(rng, t.elem, v[i], None if w is None or t.dynamic else w // t.n)
        return r and (v[:i] + [r[0]] + v[i + 1:], 'item ' + r[1])
    if t.kind == 'struct':
        fs = t.vfields()
        if not fs:
            return None
        f = rng.choice(fs)
        r = changed(rng, f.typ, v[f.name], None if f.dynamic else f.bits)
        return r and ({**v, f.name: r[0]}, 'member ' + r[1])
    for _ in range(12):
        x = gen_value(rng, t, w)
        if t.kind in ('string', 'bytes') and v and rng.random() < 0.5:
            # one character or byte, or the end
            b = bytearray(v)
            i = rng.randrange(len(b))
            if rng.random() < 0.5:
                b[i:] = b''
            else:
                b[i] ^= 1
            try:
                if t.kind == 'bytes' or 0 not in b and b.decode('utf-8'):
                    x = bytes(b)
            except UnicodeDecodeError:
                pass
        if t.kind == 'basic' and t.name in FLOATS and (x << 1) & ((1 << t.bits) - 1) == 0:
            continue
        if t.kind == 'basic' and t.name in FLOATS and is_nan(t.bits, x):
            continue
        if canon_type(t, x) != canon_type(t, v):
            return x, t.name if t.kind == 'basic' else t.kind
    return None


def no_minus_zero(t, v):
    if t.kind == 'array':
        return [no_minus_zero(t.elem, x) for x in v]
    if t.kind == 'struct':
        return {f.name: no_minus_zero(f.typ, v[f.name]) for f in t.vfields()}
    if t.kind == 'basic' and t.name in FLOATS and v << 1 == 1 << t.bits:
        return 0
    return v


def holds(t, p):
    if p(t):
        return True
    if t.kind == 'array':
        return holds(t.elem, p)
    return t.kind == 'struct' and any(holds(f.typ, p) for f in t.vfields())


def starts_empty(lang, s, memcpy):
    """a new object of the target stands for the zero value by itself"""
    dyn = lambda t: t.kind in ('string', 'bytes')
    if lang == 'c':
        return not holds(s, lambda t: t.kind == 'string')          # a null pointer is no string
    if lang == 'java':
        return not holds(s, lambda t: t.kind == 'enum' or t.kind == 'array' and dyn(t.elem))
    if lang in ('kotlin', 'python'):
        return not holds(s, lambda t: t.kind == 'enum')
    if lang in ('commonjs', 'esmodule'):
        return not holds(s, lambda t: t.kind in ('enum', 'array'))
    if lang == 'csharp':
        return not holds(s, lambda t: t.kind == 'array' and t.elem.kind == 'bytes')
    return True


def p_plain(run):
    from . import checks as C
    rng, q = run.rng, run.quick
    cfg = Cfg(p_dyn=0.5, p_array=0.45, p_struct=0.25, p_embed=0.12, p_enum=0.15, max_fields=7)
    what = {}
    for r in range(6 if q else 14):
        defs = C.rand_defs(rng, 12, 3, cfg)
        f = C.one_file(defs)
        hist, eq, fresh = [], [], []
        for s in f.structs():
            if not s.vfields():
                continue
            for _ in range(3):
                h = accessor_history(rng, s)
                if h:
                    hist.append(suite.History(s, h))
            for _ in range(5):
                v = plain(rng, s)
                if v is None:
                    continue
                v = no_minus_zero(s, v)
                eq.append(suite.Equal(s, v, copy.deepcopy(v)))
                for _ in range(3):
                    x = changed(rng, s, v)
                    if x and not suite.has_nan(s, x[0]) and not suite.has_unknown(s, x[0]):
                        c = suite.Equal(s, v, x[0], x[1])
                        eq.append(c)
            fresh.append(suite.Fresh(s))

        def key(t, c):
            if isinstance(c, suite.Equal):
                return ['equality: ' + (c.what or 'same')]
            if isinstance(c, suite.Fresh):
                return ['new object: ' + x.split('@')[0] for x in C.features(c.s)]
            return ['%s of %s' % (st[0], kind_of(c.s.vfields()[st[1]].typ)) for st in c.steps if st[0] in 'mi'] + ['read ' + x[0] for x in c.steps if x[0] in 'nN']
        for l in LANGS:
            for o in [[], C.pick_opts(rng, l, 1)[0]]:
                cm = hist + [x for x in fresh if starts_empty(l, x.s, '-memcpy' in o)] + (eq if l in ('java', 'csharp', 'kotlin') else [])
                run.add([f], f, l, o, cm, key, san=l in ('c', 'cpp'))
    run.execute()
    return ('random structs with every kind of member: chains of single member and item writes, interleaved with reads of the whole object through accessors and directly, replayed on a model of the object; encodings of new objects; '
            'equality and hash codes of equal objects and of objects that differ in one leaf (Java, C#, Kotlin). Distinct = (target, options, write or read and member type), (target, options, type of the differing leaf), '
            '(target, options, layout of new objects)')


def kind_of(t):
    return t.name if t.kind == 'basic' else kind_of(t.elem) + '[%d]' % t.n if t.kind == 'array' else t.kind


def accessor_history(rng, s):
    v = plain(rng, s)
    if v is None:
        return None
    steps, fs = [(rng.choice('ca'), v)], s.vfields()
    for _ in range(rng.randint(6, 14)):
        x = plain(rng, s)
        if x is None:
            continue
        i = rng.randrange(len(fs))
        f = fs[i]
        if f.typ.kind == 'array' and rng.random() < 0.5:
            j = rng.randrange(f.typ.n)
            steps.append(('i', i, j, x[f.name][j]))
        else:
            steps.append(('m', i, x[f.name]))
        steps.append((rng.choice('nNnNe'),))
    return steps


PROPS['P18'] = p_plain


# ---------------------------------------------------------------- P20 entry points
def p_entry(run):
    from . import checks as C
    rng, q = run.rng, run.quick
    for r in range(8 if q else 20):
        defs = C.rand_defs(rng, 14, 4, Cfg(p_dyn=[0.6, 0.2, 0.4][r % 3], p_array=0.35, p_struct=0.2, p_embed=0.12, max_fields=7))
        f = C.one_file(defs)
        cmds = []
        for s in f.structs():
            for k in range(4):
                v = plain(rng, s)
                if v is not None:
                    cmds.append(suite.Describe(s, v))
        key = lambda t, c: ['entry points: ' + x for x in C.features(c.s)]
        for l in LANGS:
            for o in [[], C.pick_opts(rng, l, 1)[0]]:
                run.add([f], f, l, o, cmds, key, san=l in ('c', 'cpp'))
    run.execute()
    return ('for random structs under random options: the reported dynamic flag and static size against the schema, and every further entry point of the codec (pointer, span, memory, start index, static, plain object, enum by name, value receiver, '
            'buffer kinds) on the same values, frames and truncated frames against the first one, which the other properties judge by the wire model. Distinct = (target, options, layout point)')


PROPS['P20'] = p_entry
