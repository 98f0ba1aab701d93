"""P11: whatever the compiler accepts must build, load and run in every target."""
import glob, os, re, shutil
from . import engine, gen, suite
from .gen import *
from .model import *
from .run import LANGS

# member names that no target reserves, chosen for what generated code might be using them for
NAMES = '''data offset length values index i j n len result res ret ptr buf buffer start end pos position temp tmp sub sub_size remaining bit bits byte_ struct_size type_ name enum_ math list arr array item key
from_ to count error err ok main id hash other obj o src dst view text cap copy make append str range_ zip ord chr bool_ print input map_ filter_ memset to_string hash_code clone finalize notify wait_ get_class
struct_name create source target binary slice span reader writer stream next done status state flags version_ header payload checksum crc seq command message kind mode level x y z a b c d e f g h k l m p q r s
t u v w acc shift mask byte_index bit_offset sign raw chunk take parse format exit open close read write log max min abs sum all any iter isinstance super_ encoder decoder sub_data sub_offset data_size start_pos
bytes_read written output capacity total width height left right root args prototype constructor_ exports module_ require_ self size_of member to_bytes encoding enumerable bit_converter system console
decoder_ new_ value_ value1 array_length encode_ size_ data1 offset1 data_ temp_ temp_1 struct_ self_ this_ obj_ i_ i1 str_ len_ bytes1 is_valid has_next get_name set_name get1 set1 equal to_array string_builder
char_ ushort_ uint float_ int_ long_ short_'''.split()
NAMES = [w for w in dict.fromkeys(NAMES) if w not in ('uint', 'wait_')]
TYPES = '''Error Buffer Map Set Date Type Exception Character Console Convert Encoding BitConverter Span Memory Bytes Vector Optional Pair Message Packet Frame
Header Status Event Node Point Range Index Version Bool Self Iterator Symbol Promise Function JSON Class Void Char Std Unsafe Dictionary Linq Text Generic Record File Time Data Value Marshal Action Func
Task Half Guid Random Environment Window HTTPHeader TLV A B2 X1Y2 CRC32 Foo_Bar ABC_DEF Udp_Packet_V2 IPv4Addr Number_ Field Struct Enum Method Builder Codec Encoder'''.split()


# not among the types that generated C# (using System …) and Java (java.lang) have in scope: usable from another package as well
FAR = '''Pair Message Packet Frame Header Status Event Node Point Symbol Promise JSON Date Map Set Vector Self Std File Time Data Value Marshal Window HTTPHeader TLV A B2 X1Y2 CRC32 Foo_Bar ABC_DEF Udp_Packet_V2
IPv4Addr Number_ Field Method Codec Iterator Bool Optional Builder Bytes'''.split()


class Free(Names):
    """type and enumerator names from the vocabulary, unique and never spelled like each other"""

    def __init__(self, rng, types, taken=()):
        super().__init__('')
        self.rng, self.types, self.used = rng, list(types), set(taken)
        rng.shuffle(self.types)

    def struct(self):
        while self.types:
            t = self.types.pop()
            if t.replace('_', '').lower() not in self.used:
                self.used.add(t.replace('_', '').lower())
                return t
        self.n += 1
        return 'Plain%d' % self.n
    enum = struct

    def val(self, e, i):
        stem = self.rng.choice(['%s_V%d', '%s_v%d', '%sValue%d', 'V_%s_%d'])
        return (stem % (e.upper() if stem == '%s_V%d' else e, i))


def corners(rng, names):
    """shapes that leave something out"""
    P = Basic
    out = [Struct(names.struct(), [Field('void', bits=rng.choice([8, 16, 24]))]),
           Struct(names.struct(), [Field('const', None, P('uint8'), 8, const=7, const_text='7')]),
           Struct(names.struct(), [Field('const', 'magic', P('uint16'), 16, const=7, const_text='7'), Field('void', bits=8)]),
           Struct(names.struct(), [Field('normal', fname(rng, set()), Arr(P(rng.choice(['uint8', 'bool', 'float64'])), 1))]),
           Struct(names.struct(), [Field('normal', fname(rng, set()), Arr(P(rng.choice(['uint8', 'int16'])), rng.choice([33, 300])))]),
           Struct(names.struct(), [Field('normal', fname(rng, set()), Str())]),
           Struct(names.struct(), [Field('normal', fname(rng, set()), Arr(Byt(), 1))])]
    en = Enum(names.enum(), rng.choice([1, 8]), [])
    en.vals = [(names.val(en.name, 0), 0, None)]
    out.append(en)
    rng.shuffle(out)
    out = out[:rng.randint(1, 5)]
    s = [x for x in out if x.kind == 'struct' and x.bits != 0]
    if s:
        t = rng.choice(s)
        out.append(Struct(names.struct(), [Field('normal', 'one', t), Field('normal', 'few', Arr(t, rng.choice([2, 6])))]))
        out.append(Struct(names.struct(), [Field('embed', struct=rng.choice(s)), Field('normal', 'rest_of_it', P('uint8'))]))
    return out


FLAGS = [('-inner', .3), ('-memcpy', .35), ('-minimal', .25), ('-decnum', .3), ('-compat', .3), ('-single', .3), ('-relpath', .3)]


def flags(rng):
    o = [f for f, p in FLAGS if rng.random() < p]
    if rng.random() < 0.6:
        o += ['-unroll', rng.choice(['-1', '0', '1', '2', '5', '64'])]
    if rng.random() < 0.5:
        o += ['-signext', rng.choice(['shift', 'arith'])]
    out = []
    while o:                        # any order
        i = rng.randrange(len(o))
        n = 2 if o[i] in ('-unroll', '-signext') else 1
        if not o[i].startswith('-') or o[i] == '-1':
            continue
        out += o[i:i + n]
        del o[i:i + n]
    return out


CERR = ['-Werror=implicit-function-declaration', '-Werror=incompatible-pointer-types', '-Werror=int-conversion', '-Werror=return-type', '-Werror=implicit-int']


def strict(t):
    """what a user's own build does beyond compiling the driver; '' or the complaint"""
    if t.lang in ('c', 'cpp'):
        h = sorted(glob.glob(t.out + '/**/*' + ('.h' if t.lang == 'c' else '.hpp'), recursive=True))
        s = sorted(glob.glob(t.out + '/**/*' + t.ext, recursive=True))
        clang = ['clang' if t.lang == 'c' else 'clang++', '-fsyntax-only', '-w', '-ferror-limit=3', t.std, '-I', t.out] + (CERR if t.lang == 'c' else [])
        cmds = [clang + ['-x', 'c-header' if t.lang == 'c' else 'c++-header', x] for x in h] + [clang + [x] for x in s]
        log = engine.compile_many(cmds, t.dir)
        if log:
            return 'every header by itself and every source under a second compiler: ' + log
        if t.lang == 'c':
            gcc = ['gcc', '-fsyntax-only', t.std, '-I', t.out] + CERR
            log = engine.compile_many([gcc + [x] for x in s or h], t.dir)
            if log and 'error' in log:
                return 'implicit declarations: ' + log
        # two translation units of one program include every header twice
        tus = []
        for k in (0, 1):
            p = os.path.join(t.dir, 'tu%d%s' % (k, t.ext))
            with open(p, 'w') as f:
                f.write(''.join('#include "%s"\n' % os.path.relpath(x, t.out) for x in (h if k else h[::-1]) * (1 if t.single else 2)) + ('int main(void) { return 0; }\n' if k else ''))
            tus.append(p)
        if not t.single or t.lang == 'cpp':
            objs = [p + '.o' for p in tus]
            log = engine.compile_many([[t.cc, '-w', t.std, '-I', t.out, '-c', p, '-o', o] for p, o in zip(tus, objs)], t.dir)
            log = log or engine.compile_many([[t.cc] + objs + ['-o', os.path.join(t.dir, 'two')]], t.dir)
            if log:
                return 'two translation units: ' + log
    elif t.lang == 'python':
        ps = sorted(glob.glob(t.out + '/**/*.py', recursive=True))
        rc, o, e = engine.sh(['python3', '-W', 'error', '-c', 'import sys\nfor p in sys.argv[1:]:\n    compile(open(p, encoding="utf-8").read(), p, "exec")'] + ps, cwd=t.dir, timeout=100)
        if rc:
            return 'compiling with warnings as errors: ' + e
    elif t.lang in ('commonjs', 'esmodule'):
        for p in sorted(glob.glob(t.out + '/**/*.js', recursive=True)):
            rc, o, e = engine.sh(['node', '--check', p], cwd=t.dir, timeout=100)
            if rc:
                return 'node --check: ' + e
    return ''


def p_builds(run):
    from . import checks as C, more
    rng, q = run.rng, run.quick
    saved = gen.WORDS
    gen.WORDS = [w for w in NAMES]
    try:
        for r in range(10 if q else 30):
            cfg = Cfg(p_dyn=0.4, p_embed=0.2, p_struct=0.3, p_enum=0.25, p_array=0.35, max_fields=7)
            if r % 3 == 2:
                files, root = more.graph(rng, rng.randint(3, 5), cfg)
                rename(rng, files)
            else:
                names = Free(rng, TYPES)
                defs = gen_defs(rng, names, cfg, rng.randint(4, 7), rng.randint(1, 3))
                defs += corners(rng, names)
                files = [C.one_file(defs, pkg=rng.choice(['aa.pmain', 'x', 'my_pkg.sub_one', 'Aa.Bb', 'a1.b2.c3.d4']))]
                root = files[0]
            methods = rng.random() < 0.5
            if methods:
                accessors(rng, files)
            apart(files, rng)
            cmds = []
            for f in files:
                for s in f.structs():
                    for v in C.values(rng, s, 2):
                        v = roundtrip_value(s, v)
                        if not suite.has_unknown(s, v):
                            cmds += [suite.Encode(s, v, 0, 0, 'd', check=('wire', 'size')), suite.Decode(s, encode(s, v)[0], mode='d')]
            key = lambda t, c: [x.split('@')[0].split(':')[0] for x in C.features(c.s)]
            for l in LANGS:
                for _ in range(2 if q else 3):
                    o = flags(rng)
                    run.add(files, root, l, o, cmds, key, san=False, after=after)
        run.execute()
    finally:
        gen.WORDS = saved
    findings(run)
    return ('random schemas (one file, and import graphs) whose members and types are named after what generated code itself might use (len, data, i, buf, Error, Buffer, …), with structs of only padding or only '
            'constants, one-element and 300-element arrays, one-value enums, under random subsets of all options; every target must compile them, load them, and encode and decode with them; C and C++ headers '
            'also compile alone and in two translation units, C/C++ under clang and gcc without implicit declarations, Python with warnings as errors; Kotlin under the front end of kt.py. '
            'Distinct = (target, options, field type)')


def rename(rng, files):
    names = Free(rng, FAR)
    for f in files:
        for d in f.enums() + f.structs():
            d.name = names.struct()
            if d.kind == 'enum':
                d.vals = [(names.val(d.name, i), num, txt) for i, (n, num, txt) in enumerate(d.vals)]
        for s in f.defs:
            if s.kind == 'struct':
                for x in inl(s):
                    x.name = names.struct()


def apart(files, rng):
    """C# has no member named like its class (see the findings)"""
    n = 0
    for f in files:
        for d in f.structs() + [x for s in f.structs() for x in inl(s)]:
            if d.name.replace('_', '').lower() in {x.name.replace('_', '').lower() for x in d.flat() + [m for _, m in d.methods()] if x.name}:
                n += 1
                d.name = 'Apart%d' % n


def accessors(rng, files):
    """getters and setters named from the same vocabulary"""
    for f in files:
        for s in f.structs():
            used = {x.name.replace('_', '').lower() for x in s.flat() if x.name} | {m.name.replace('_', '').lower() for _, m in s.methods()}
            used |= {x.name.replace('_', '').lower() for g in files for o in g.structs() for x in o.flat() if x.name}
            for x in s.fields:
                if x.kind == 'normal' and x.typ.kind == 'basic' and not x.methods and rng.random() < 0.4:
                    n = fname(rng, used)
                    t = x.typ.name
                    e = 'value' if t == 'bool' or t in FLOATS else rng.choice(['value', '(%s)(value + (%s)1)' % (t, t)])
                    x.methods = [Method('get', n, t, e), Method('set', n if rng.random() < 0.5 else fname(rng, used), t, 'value')][:rng.choice([1, 2, 2])]


def inl(s):
    for f in s.fields:
        if f.kind == 'embed' and f.inline:
            yield f.struct
            yield from inl(f.struct)


def after(run, t, label):
    m = strict(t)
    run.saw((label, 'strict'))
    if m:
        run.violation(label + ' strict', '%s: %s' % (label, m), run.replay_build(t, m))


def plain(n, *fs):
    return Struct(n, [Field('normal', x, Basic('uint8')) if isinstance(x, str) else x for x in fs])


# accepted schemas whose generated code does not build: the names meet each other or the generated API
CLASH = {'names-differ-only-in-case': ('c', plain('One', 'foo_bar', 'fooBar')),
         'member-named-size': ('go', plain('One', 'size')),
         'member-named-like-its-struct': ('csharp', plain('Tone', 'tone', 'other')),
         'member-named-like-array-accessor': ('c', plain('One', Field('normal', 'arr', Arr(Basic('uint8'), 3)), 'arr_length')),
         'member-named-like-setter': ('go', plain('One', 'plain', 'set_plain'))}


def findings(run):
    from . import checks as C
    for fid, (l, s) in CLASH.items():
        f = C.one_file([s])
        t = engine.TARGETS[l]([f], f, [], san=False)
        try:
            t.prepare()
            run.probe(fid, False, '', '')
        except (engine.GenFail, engine.BuildFail) as e:
            run.probe(fid, True, '%s: %s' % (l, e), run.replay_build(t, str(e)))
        run.saw((l, fid))
        shutil.rmtree(t.dir, True)


PROPS = {'P11': p_builds}
