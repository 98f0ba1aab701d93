"""Properties about accessors, metadata, composition (embedding, packages) and enumerations."""
import os, re, shutil
from . import acc, engine, suite
from .gen import *
from .model import *
from .run import LANGS


# ---------------------------------------------------------------- P09 accessors
def subrange(rng, t, bits):
    """the values of a field that its accessors are defined for"""
    if t in FLOATS:
        m = rng.choice([8, 1000, 100000])
        return -m, m
    lo, hi = acc.widths(t, bits)
    m = rng.choice([1 << 64, 1 << 64, 1 << 40, 1 << 24, 1000, 100])
    return max(lo, -m), min(hi, m)


def decorate(rng, s, taken=None, implicit=False):
    """give the basic members of a struct custom getters and setters"""
    taken = taken if taken is not None else {f.name.replace('_', '').lower() for f in s.flat() if f.name}
    for f in s.fields:
        if f.kind == 'embed':
            if f.inline:
                decorate(rng, f.struct, taken, implicit)
            else:
                taken |= {m.name.replace('_', '').lower() for _, m in f.struct.methods()}
            continue
        if f.kind != 'normal' or f.typ.kind != 'basic' or rng.random() < 0.25:
            continue
        t = f.typ.name
        f.vr = subrange(rng, t, f.bits)
        a = acc.Atom(rng, t, *f.vr)
        if not a.works:
            f.vr = None
            continue
        k = 0

        def name(stem):
            nonlocal k
            while True:
                k += 1
                n = rng.choice(['%s%d_%s' % (stem, k, f.name), '%s_%s%d' % (f.name, stem, k), '%s%s%d' % (stem, f.name.replace('_', ''), k)])
                if n.replace('_', '').lower() not in taken:
                    taken.add(n.replace('_', '').lower())
                    return n
        for _ in range(rng.randint(1, 3)):
            f.methods.append(acc.getter(rng, name('calc'), a, implicit))
        for _ in range(rng.randint(0, 2)):
            g = [m for m in f.methods if m.kind == 'get' and not any(x.kind == 'set' and x.name == m.name for x in f.methods)]
            if g and rng.random() < 0.6:
                m = rng.choice(g)
                x = acc.setter(rng, m.name, m.typ, f, implicit)
            else:
                x = acc.setter(rng, name('put'), rng.choice(INTS + ['float64', 'bool']), f, implicit)
            if x:
                f.methods.insert(rng.randint(0, len(f.methods)), x)
    return s


def pick(rng, t, lo, hi, signed):
    if signed and t.startswith('u'):
        hi = min(hi, (1 << Basic(t).bits - 1) - 1)
    if t in FLOATS:
        return float(rng.choice([0, 1, -1, 7, rng.randint(-lo if lo > 0 else lo, hi), rng.randint(int(lo) * 8, int(hi) * 8) / 8]))
    v = rng.choice([lo, hi, max(lo, 0), min(hi, 1), rng.randint(lo, hi), rng.randint(lo, hi)])
    return bool(v) if t == 'bool' else v


def accessor_cmds(rng, s, k, signed):
    """signed: keep unsigned quantities below the sign bit (languages without unsigned types)"""
    out = []
    ms = s.methods()
    if not ms:
        return out
    for _ in range(k):
        for _ in range(6):
            v = roundtrip_value(s, gen_struct_value(rng, s))
            if not suite.has_unknown(s, v) and not suite.has_nan(s, v):
                break
        else:
            continue
        for f in s.vfields():
            if getattr(f, 'vr', None):
                v[f.name] = acc.pat(f.typ.name, pick(rng, f.typ.name, *f.vr, signed))
        want, types = {}, {}
        for f, m in ms:
            if m.kind == 'get':
                want[m.name], types[m.name] = acc.hex8(m.typ, m.fn(acc.num(f.typ.name, v[f.name]))), m.typ
        if want:
            out.append(suite.Getter(s, v, want, types))
        for f, m in ms:
            if m.kind == 'set':
                a = pick(rng, m.typ, *m.range, signed)
                w = dict(v)
                w[f.name] = acc.pat(f.typ.name, m.fn(a))
                out.append(suite.Setter(s, v, m.name, int.from_bytes(bytes.fromhex(acc.hex8(m.typ, a)), 'little'), w))
    return out


def p_accessors(run):
    from . import checks as C
    rng, q = run.rng, run.quick
    cfg = Cfg(p_dyn=0.3, p_array=0.15, p_struct=0.1, p_embed=0.2, max_fields=8)

    def key(t, c):
        ms = [m for _, m in c.s.methods()] if isinstance(c, suite.Getter) else [m for _, m in c.s.methods() if m.kind == 'set' and m.name == c.method]
        return ['%s %s %s' % (m.kind, m.typ, o) for m in ms for o in getattr(m, 'ops', ['?'])]
    for r in range(8 if q else 24):
        # targets that convert the result to the declared type by themselves
        implicit = r % 3 == 2
        defs = C.rand_defs(rng, 14 if q else 24, 3, cfg)
        for d in defs:
            if d.kind == 'struct':
                decorate(rng, d, None, implicit)
                for x in d.inner():
                    decorate(rng, x, None, implicit)
        f = C.one_file(defs)
        cmds = {b: [c for s in f.structs() for c in accessor_cmds(rng, s, 14, b)] for b in (False, True)}
        for l in LANGS:
            if implicit and l in ('python', 'commonjs', 'esmodule'):
                continue
            mix = [[], C.opt(rng.choice(['-decnum', '-compat', '-single', '-memcpy -decnum', '-inner', '-minimal -decnum']))]
            for o in mix:
                if '-minimal' in o and l not in ('c', 'cpp', 'go'):
                    o = ['-decnum']
                run.add([f], f, l, o, cmds[l == 'java'], key, san=True)
    run.execute()
    return ('random structs (with embedded and in-place structs) whose basic members carry random custom getters and setters: expressions over every operator, literal notation, cast and type, generated so that their '
            'value is the same in every target language; every getter is evaluated on random and boundary member values, every setter is applied to them and the object dumped; the oracle evaluates the '
            'expression tree in Python. Distinct = (target, options, getter/setter, method type, operator or literal form in the expression)')


PROPS = {'P09': p_accessors}


# ---------------------------------------------------------------- P14 packages and imports
SEG = ['alpha', 'beta', 'gamma', 'delta', 'core', 'kinds', 'msg', 'unit']


def reach(fs):
    seen = []
    for f in fs:
        if f not in seen:
            seen.append(f)
            seen += [x for x in reach(f.deps) if x not in seen]
    return seen


def graph(rng, n, cfg=None, same_last=0.3, clash=False):
    """n files with random packages and imports; types are used across files directly and through embedding"""
    cfg = cfg or Cfg(p_dyn=0.4, p_embed=0.25, p_struct=0.35, p_enum=0.3, p_array=0.3, max_fields=5)
    names, files, used, golast = Names(''), [], set(), set()
    p_chain = rng.choice([0.1, 0.35, 0.9])     # some graphs are long chains
    for i in range(n):
        last = i == n - 1
        while True:
            # no path below a directory spells the path of another package (quoted includes look there first)
            if clash:
                p = ''.join(rng.choice(SEG[:3]) + rng.choice(['.', '_', '.', '']) for _ in range(3)).rstrip('._') if rng.random() < 0.4 else \
                    '.'.join(rng.choice(SEG[:3]) for _ in range(rng.choice([1, 2, 2, 3])))
                if p not in used:
                    used.add(p)
                    break
                continue
            p = '.'.join([rng.choice(SEG[:3])] + [rng.choice(SEG[3:]) for _ in range(rng.choice([0, 1, 1, 2]))])
            if files and rng.random() < same_last:
                q = files[-1].package.split('.')
                p = '.'.join(p.split('.')[:-1] + q[-1:]) if len(q) > 1 and '.' in p else p
            if p not in used and len(set(p.split('.'))) == len(p.split('.')):
                used.add(p)
                break
        path = 'main.bb' if last else rng.choice(['f%d.bb', 'sub/f%d.bb', 'sub/deep/f%d.bb', 'other/f%d.bb']) % i
        if rng.random() < 0.2:
            # files of one name in several directories
            path = 'main.bb' if last else 'd%d/main.bb' % i
        imps = files[-1:] if rng.random() < p_chain else [f for f in files if rng.random() < 0.5]
        if last:
            # everything is reachable from the main file
            for f in reversed(files):
                if f not in reach(imps):
                    imps.append(f)
        rng.shuffle(imps)
        # what the imported files import is in reach as well
        vis = reach(imps)
        pe = [e for f in vis for e in f.enums()]
        ps = [s for f in vis for s in f.defs if s.kind == 'struct' and (s.dynamic or 0 < s.bits < 600)]
        defs = []
        empty = rng.random() < (0.3 if last and ps else 0 if last else 0.2)     # only hands its imports on
        for _ in range(0 if empty else rng.choice([0, 1, 1, 2])):
            e = gen_enum(rng, names)
            defs.append(e)
            pe.append(e)
        for _ in range(0 if empty else rng.choice([1, 1, 2, 3])):
            s = gen_struct(rng, names, cfg, ps, pe)
            defs.append(s)
            if s.dynamic or s.bits < 600:
                ps.append(s)
        o = {'go_package': 'bbt/' + p.replace('.', '/')} if rng.random() < 0.7 else {'go_package': 'bbt/gp%d/%s' % (i, rng.choice(SEG))}
        for k, v in (('java_package', 'jv.p%d' % i), ('kotlin_package', 'kt.p%d.q' % i), ('cpp_namespace', 'cn%d::inner' % i), ('csharp_namespace', 'Cs.Num%d' % i)):
            if rng.random() < 0.2:
                o[k] = v
        if empty and rng.random() < 0.6 or rng.random() < 0.1:
            o['omit_empty'] = True
        f = File(path, p, defs, o, imports=[os.path.relpath(x.path, os.path.dirname(path) or '.') for x in imps])
        f.deps = imps
        files.append(f)
    return files, files[-1]


def uses(f):
    """(struct, foreign type, how) for every type of another file that a struct of f is made of"""
    for s in f.structs():
        for via, fld in [('embedded ' if e else '', x) for e, x in members(s)]:
            t = fld.typ if fld.kind == 'normal' else None
            how = 'field'
            if t is not None and t.kind == 'array':
                t, how = t.elem, 'array'
            if t is not None and t.kind in ('enum', 'struct') and t.file is not f:
                yield s, t, '%s%s of %s' % (via, how, t.kind)


def members(s, emb=False):
    for f in s.fields:
        if f.kind == 'embed':
            yield from members(f.struct, emb or not f.inline)
        else:
            yield emb, f


def depth(f, g):
    """length of the shortest import path from f to g"""
    fs, n = [f], 0
    while g not in fs:
        fs, n = [x for y in fs for x in y.deps], n + 1
    return n


def p_imports(run):
    from . import checks as C
    rng, q = run.rng, run.quick
    fixed = {'c': ['-relpath', '-minimal', '-single'], 'cpp': ['-relpath', '-minimal', '-single -inner', '-inner'], 'go': ['-relpath', '-single', '-inner -minimal'], 'java': ['-inner', '-single'],
             'csharp': ['-single', '-inner', '-memcpy'], 'python': ['-relpath', '-single'], 'kotlin': ['-minimal', '-inner', '-memcpy -decnum'], 'commonjs': ['-single', '-compat', '-single -compat'], 'esmodule': ['-single', '-compat', '-single -compat']}
    for r in range(9 if q else 40):
        # odd rounds: packages that are spelled like parts of each other, like a.b_c, a_b.c, b.a and a
        clash = r % 2 == 1
        files, root = graph(rng, rng.randint(4, 6 if q else 9), clash=clash)
        cmds = []
        feat = {}
        for f in files:
            for s, t, how in uses(f):
                feat.setdefault(s.name, []).append('%s %d files away' % (how, depth(f, t.file)))
            for s in f.structs():
                for v in C.values(rng, s, 2):
                    v = roundtrip_value(s, v)
                    if not suite.has_unknown(s, v):
                        cmds += [suite.Encode(s, v, 0, 0, 'd', check=('wire', 'size')), suite.Decode(s, encode(s, v)[0], mode='d')]
        key = lambda t, c: feat.get(c.s.name, ['no import'])
        for l in LANGS:
            for o in [''] + ([fixed[l][(r + k) % len(fixed[l])] for k in (0, 1)] if q else fixed[l]):
                if clash and l in ('c', 'cpp') and 'single' not in o and 'relpath' not in o:
                    o = '-relpath ' + o         # without it: the finding below
                run.add(files, root, l, C.opt(o), cmds, key, san=False)
        run.count('files', len(files))
        run.count('uses of foreign types', sum(len(x) for x in feat.values()))
    run.execute()
    # a quoted include finds a file of the own directory first
    a = File('a.bb', 'alpha', [Enum('Tone', 8, [('TONE_LOW', 0, None), ('TONE_HIGH', 1, None)])], {'go_package': 'bbt/alpha'})
    b = File('main.bb', 'msg.alpha', [Struct('Note', [Field('normal', 'tone', a.defs[0])])], {'go_package': 'bbt/msg/alpha'}, imports=['a.bb'])
    for l in ('c', 'cpp'):
        t = engine.TARGETS[l]([a, b], b, [], san=False)
        try:
            t.prepare()
            run.probe('include-own-directory-' + l, False, '', '')
        except (engine.GenFail, engine.BuildFail) as e:
            run.probe('include-own-directory-' + l, True, '%s: package msg.alpha imports package alpha: %s' % (l, e), run.replay_build(t, str(e)))
    return ('random graphs of 4 to %d files with random packages (shared last segments, nested directories), package options, chains, diamonds, files that only import, omitted files; their structs use enums and structs of '
            'directly and indirectly imported files as fields, array elements, and through embedding; every target compiles and loads all of it and every struct is encoded and decoded against the wire model, under several '
            'option sets. Distinct = (target, options, kind of use, import distance)' % (6 if q else 9))


PROPS['P14'] = p_imports
