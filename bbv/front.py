"""Front end monitors: acceptance, refusal, diagnostics, placement and determinism of the compiler run itself."""
import concurrent.futures, copy, hashlib, os, random, re, shutil, threading
from . import engine, gen, rules
from .gen import *
from .model import *

FLAGS = {'c': 'c', 'cpp': 'cpp', 'csharp': 'csharp', 'commonjs': 'commonjs', 'esmodule': 'esmodule', 'go': 'go', 'java': 'java', 'kotlin': 'kotlin', 'python': 'python'}
ALIAS = {'csharp': ['cs'], 'commonjs': ['cjs'], 'esmodule': ['javascript', 'js', 'mjs', 'esm'], 'kotlin': ['kt'], 'python': ['py']}
ALL = list(FLAGS)
_n = 0
_l = threading.Lock()


def newdir():
    global _n
    with _l:
        _n += 1
        d = os.path.join(engine.scratch(), 'f%d' % _n)
    os.makedirs(d)
    return d


def put(d, files):
    for f, t in files.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as h:
            h.write(t.encode() if isinstance(t, str) else t)


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def text_of(files):
    return {f.path: f.render() for f in files}


def pool(fn, items):
    with concurrent.futures.ThreadPoolExecutor(8) as p:
        return list(p.map(fn, items))


def abnormal(rc, out, err):
    """a run that neither finished nor refused"""
    t = out + err
    if rc is None:
        return 'hang'
    if rc < 0:
        return 'killed by signal %d' % -rc
    if 'panic:' in t or 'goroutine ' in t or 'fatal error:' in t or rc > 2:
        return 'internal failure (exit %s): %s' % (rc, t[:200])
    return ''


def compile_lines(err):
    """diagnostics of the schema (generator notices about forced options left out)"""
    return [l.strip() for l in err.splitlines() if l.strip() and 'generate warning' not in l and 'Warning: option' not in l]


class Checker:
    def __init__(self, run):
        self.run = run

    def bad(self, where, msg, files, args, out=''):
        rep = self.run.save({'property': self.run.pid, 'kind': 'front', 'where': where, 'schema': {k: v if isinstance(v, str) else v.decode('utf-8', 'replace') for k, v in files.items()}, 'args': args, 'output': out[:3000], 'verdict': msg})
        self.run.violation(where, '%s: %s' % (where, msg), rep)


# ---------------------------------------------------------------- surface variants
TOK = re.compile(r'"[^"\n]*"|[A-Za-z_][A-Za-z_0-9]*|0[xX][0-9A-Fa-f]+|(?:[0-9]+\.[0-9]*|\.[0-9]+|[0-9]+)(?:[eE][+-]?[0-9]+)?|\*\*|<<|>>|[<>=!]=|&&|\|\||[^\sA-Za-z0-9]')
NOTE = ['// note', '// "quote" { ; } \u4f60\u597d', '/* c */', '/* multi\n * line ; } struct X { */', '//', '/**/', '/* // */', "// it's", '/***/', '// \\']


def tokens(t):
    return TOK.findall(t)


def word(x):
    return bool(re.match(r'[A-Za-z_0-9.]', x[-1:]))


def join(rng, toks, dense):
    out, prev = [], ''
    for t in toks:
        r = rng.random()
        need = prev and word(prev) and word(t[:1])
        if prev and prev + t[:1] in ('<<', '>>', '**', '<=', '>=', '==', '!=', '&&', '||', '//', '/*'):
            need = True
        sep = ''
        if r < 0.10 and not dense:
            c = rng.choice(NOTE)
            sep = rng.choice(['', ' ', '\n']) + c + ('\n' if c.startswith('//') else rng.choice(['', ' ']))
        elif r < 0.35 and not dense:
            sep = rng.choice([' ', '\n', '\t', '\r\n', '  ', '\f', '\n\n', ' \t '])
        elif need:
            sep = rng.choice([' ', '\n', '/**/', '\t']) if not dense else ' '
        if prev == '/' and sep.startswith('/'):
            sep = ' ' + sep
        out.append(sep + t)
        prev = t
    return ''.join(out) + rng.choice(['', '\n', ' // end', '\n\n/* end */'])


def number(rng, n):
    return rng.choice(['%d' % n, '0x%x' % n, '0X%X' % n, '0%o' % n if n else '0'])


def respell(rng, text, structs, enums):
    """other spellings of the same definitions, token by token"""
    tk, out, i, stack = tokens(text), [], 0, []
    start = 0   # index in out of the current statement
    while i < len(tk):
        t = tk[i]
        if t == '[' and i + 1 < len(tk) and (tk[i + 1] == '#' or tk[i + 1][0].isdigit()):
            j = tk.index(']', i)
            part = tk[i + 1:j]
            bits, k = 0, 0
            if part[0] != '#':
                bits = int(part[0], 0) * 8
                part = part[1:]
            if part:
                bits += int(part[1], 0)
            b = rng.randint(0, bits // 8)
            form = rng.choice(['bits', 'mix', 'mix', 'bytes'])
            if form == 'bytes' and bits % 8 == 0:
                out += ['[', number(rng, bits // 8), ']']
            elif form == 'bits':
                out += ['[', '#', number(rng, bits), ']']
            else:
                out += ['[', number(rng, b), '#', number(rng, bits - 8 * b), ']']
            i = j + 1
            continue
        if stack[-1:] != ['m'] and re.fullmatch(r'0[xX][0-9a-fA-F]+|0|[1-9]\d*', t):
            out.append(number(rng, int(t, 0)))
            i += 1
            continue
        if t == '"big"' or t == '"little"' or (t[0] == '"' and out and out[-1] == '='):
            out.append("'" + t[1:-1] + "'" if rng.random() < 0.5 else t)
            i += 1
            continue
        if t == '{':
            head = out[start:]
            kind = 'm'
            if head and head[0] == 'struct' and not any(x == ';' for x in head):
                kind = 's'
            elif head and head[0] == 'enum':
                kind = 'e'
            stack.append(kind)
            out.append(t)
            start = len(out)
            i += 1
            if kind in 'se' and rng.random() < 0.1:
                out.append(';')
                start = len(out)
            continue
        if t == '}':
            stack.pop()
            out.append(t)
            if not stack:
                start = len(out)
                if rng.random() < 0.4:
                    out.append(';')
                    start = len(out)
            i += 1
            continue
        if t in ';,' and stack and (t == ';' or stack[-1] == 'e'):
            if stack[-1] == 'e' and rng.random() < 0.4:
                t = ';'
            out.append(t)
            start = len(out)
            if stack[-1] in 'se' and rng.random() < 0.12:
                out.append(';')
                start = len(out)
            i += 1
            continue
        if t == ';' and not stack:
            out.append(t)
            if rng.random() < 0.2:
                out.append(';')
            start = len(out)
            i += 1
            continue
        if stack and stack[-1] == 's' and start == len(out) and rng.random() < 0.4:
            if t in structs:
                out += ['struct', t]
                i += 1
                # the statement is a use, not a definition
                if tk[i] == '{':
                    raise AssertionError
                continue
            if t in enums and tk[i + 1] != ';':
                out += ['enum', t]
                i += 1
                continue
        out.append(t)
        i += 1
    return out


def variant_defs(rng, files):
    """explicit defaults: same schema, other words"""
    fs = copy.deepcopy(files)
    for f in fs:
        for d in f.defs:
            if d.kind == 'enum':
                cur, vals = -1, []
                for n, num, txt in d.vals:
                    if num == cur + 1 and txt is None and rng.random() < 0.5:
                        txt = number(rng, num)
                    elif num == cur + 1 and txt is not None and rng.random() < 0.5:
                        txt = None
                    cur = num
                    vals.append((n, num, txt))
                d.vals = vals
            else:
                todo = [d]
                while todo:
                    s = todo.pop()
                    if rng.random() < 0.4:
                        s.declare_size = not s.declare_size
                    for x in s.fields:
                        if x.kind == 'embed' and x.inline:
                            todo.append(x.struct)
                        elif x.kind == 'normal' and (x.typ.elem if x.typ.kind == 'array' else x.typ) in s.inner():
                            todo.append(x.typ.elem if x.typ.kind == 'array' else x.typ)
                        elif x.kind in ('normal', 'const') and rng.random() < 0.4:
                            if not x.dynamic:
                                x.show_size = True
                            if x.order is None and rng.random() < 0.5:
                                x.order = 'little'
    return fs


def shuffle_heads(rng, text):
    """package, import and option statements may come in any place between definitions"""
    lines = text.split('\n')
    heads = [l for l in lines if l.startswith(('package ', 'option '))]
    imps = [l for l in lines if l.startswith('import ')]
    rest = '\n'.join(l for l in lines if not l.startswith(('package ', 'option ', 'import ')))
    blocks = [b for b in re.split(r'(?m)(?<=^\})\n', rest) if b.strip()]
    slots = [[] for _ in range(len(blocks) + 1)]
    pos = sorted(rng.randrange(len(slots)) for _ in imps)
    for p, l in zip(pos, imps):
        slots[p].append(l)
    for l in heads:
        p = rng.randrange(len(slots))
        slots[p].insert(rng.randint(0, len(slots[p])), l)
    out = []
    for i, s in enumerate(slots):
        out += s
        if i < len(blocks):
            out.append(blocks[i])
    return '\n'.join(out)


def schema(rng, tag=''):
    """a valid schema over one to three files"""
    from . import checks
    cfg = Cfg(p_dyn=0.5, p_embed=0.2, p_const=0.15, p_enum=0.2, p_struct=0.2, const_types=INTS + FLOATS + ['bool'])
    defs = gen_defs(rng, Names(tag), cfg, rng.randint(1, 5), rng.randint(0, 3))
    for s in defs:
        if s.kind == 'struct':
            for k, f in enumerate(s.fields):
                if f.kind == 'normal' and f.typ.kind == 'basic' and not f.methods and rng.random() < 0.15:
                    f.methods = [Method('get', 'zz_calc%d_%s' % (k, f.name), rng.choice(INTS), '(value + 1) * 2'), Method('set', 'zz_calc%d_%s' % (k, f.name), None, 'value - 3')]
                    f.methods[1].typ = f.methods[0].typ
                    if embedded_somewhere(defs, s):
                        f.methods = []
    opts = {'go_package': 'bbt/gen/pmain'}
    if rng.random() < 0.3:
        opts['cpp_namespace'] = 'na::nb'
    if rng.random() < 0.3:
        opts['omit_empty'] = rng.random() < 0.5
    n = rng.choice([1, 1, 2, 3])
    if n == 1 or len(defs) < 3:
        f = File('main.bb', 'aa.pmain', defs, opts)
        return [f], f
    cut = sorted(rng.sample(range(1, len(defs)), min(n - 1, len(defs) - 1)))
    parts = [defs[a:b] for a, b in zip([0] + cut, cut + [len(defs)])]
    files = []
    for i, p in enumerate(parts):
        last = i == len(parts) - 1
        path = 'main.bb' if last else rng.choice(['dep%d.bb', 'sub/dep%d.bb', 'sub/deep/dep%d.bb']) % i
        imps = [os.path.relpath(x.path, os.path.dirname(path) or '.') for x in files]
        files.append(File(path, 'aa.pmain' if last else 'aa.dep%d' % i, p, opts if last else {'go_package': 'bbt/gen/dep%d' % i}, imports=imps))
    return files, files[-1]


def embedded_somewhere(defs, s):
    def walk(fs):
        return any(f.kind == 'embed' and (f.struct is s or walk(f.struct.fields)) for f in fs)
    return any(d.kind == 'struct' and walk(d.fields) for d in defs)


def p_accept(run):
    rng, q, ck = run.rng, run.quick, Checker(run)
    jobs = []
    # refusals with their accepted twins
    for r in range(2 if q else 12):
        for id, docs, kind in rules.R:
            jobs.append(('rule', id, docs, kind, rng.getrandbits(40), rng.choice(ALL)))
    for r in range(160 if q else 1600):
        jobs.append(('variant', rng.getrandbits(40), rng.sample(ALL, 3 if q else 4)))
    for a in cli_jobs(rng):
        jobs.append(('cli',) + a)

    def one(j):
        try:
            if j[0] == 'rule':
                twin(run, ck, *j[1:])
            elif j[0] == 'variant':
                spellings(run, ck, *j[1:])
            else:
                cli_error(run, ck, *j[1:])
        except Exception as e:
            import traceback
            run.inconclusive(traceback.format_exc()[-300:])
    pool(one, jobs)
    # documented by an example of the README, refused
    for fid, text in (('readme-enum-typed-constant', 'enum FrameType[1] { FRAME_KEEPALIVE = 0x00, FRAME_DATA = 0x01, };\nstruct Frame { FrameType opcode = FRAME_DATA; bytes data; };\n'),
                      ('readme-uppercase-constant', 'struct Frame { uint8 FRAME_HEADER = 0xAA; };\n')):
        d = newdir()
        files = {'main.bb': 'package a;\n' + text}
        put(d, files)
        rc, out, err = engine.cli(['-t', 'c', 'main.bb'], cwd=d)
        run.saw(('probe', fid))
        run.probe(fid, rc != 0, 'an example of the README is refused: ' + err[:200], run.save({'property': run.pid, 'kind': 'front', 'where': fid, 'schema': files, 'args': ['-t', 'c'], 'output': err[:500], 'verdict': 'refused'}))
    return ('each language rule is violated in a document and obeyed in its twin that differs only in that construct: the first must be refused (non-zero exit, a message, no crash, output directory untouched), '
            'the second accepted without complaint; random schemas are written again with other spellings (layout, comments, sizes, number bases, explicit defaults, keywords, statement order) and must '
            'give byte-identical code; invalid command lines must be refused. Distinct = rule or spelling seed per target')


def twin(run, ck, id, docs, kind, seed, lang):
    where = 'rule %s' % id
    good, _ = rules.instantiate(docs, random.Random(seed), False)
    bad, mark = rules.instantiate(docs, random.Random(seed), True)
    d = newdir()
    try:
        put(d + '/src', good)
        o = d + '/out'
        args = ['-t', FLAGS[lang], '-o', o, d + '/src/main.bb']
        rc, so, se = engine.cli(args, cwd=d)
        x = abnormal(rc, so, se)
        if x or rc != 0:
            # generation-time refusals are target specific, not language rules
            ck.bad(where, 'the valid twin is refused by target %s (exit %s): %s' % (lang, rc, x or se[:300]), good, args, so + se)
            return
        cl = compile_lines(so + se)
        if cl:
            ck.bad(where, 'the valid twin is complained about: %s' % cl[:3], good, args, so + se)
            return
        t0 = tree(o) if os.path.exists(o) else {}
        if not t0 and 'struct' in good['main.bb']:
            ck.bad(where, 'no output for the valid twin', good, args, so + se)
            return
        shutil.rmtree(d + '/src')
        put(d + '/src', bad)
        if kind == 'warning':
            shutil.rmtree(o, True)
        rc, so, se = engine.cli(args, cwd=d)
        x = abnormal(rc, so, se)
        t1 = tree(o) if os.path.exists(o) else {}
        rest = sorted(set(os.listdir(d)) - {'src', 'out'})
        if x:
            ck.bad(where, 'compiling an invalid schema: %s' % x, bad, args, so + se)
        elif kind == 'warning':
            if rc != 0:
                ck.bad(where, 'a schema that only deserves a warning is refused: %s' % se[:300], bad, args, so + se)
            elif not compile_lines(so + se):
                ck.bad(where, 'no warning is given', bad, args, so + se)
            elif len(t1) != len(t0):
                ck.bad(where, 'a warned schema produced other files', bad, args, so + se)
        else:
            if rc == 0:
                ck.bad(where, 'an invalid schema is accepted', bad, args, so + se)
            elif not (so + se).strip():
                ck.bad(where, 'an invalid schema is refused without a message', bad, args, so + se)
            elif t1 != t0:
                ck.bad(where, 'a refused schema changed the output directory', bad, args, so + se)
        if rest:
            ck.bad(where, 'files appeared outside the output directory: %s' % rest, bad, args)
        run.saw(('rule', id, lang), 2)
        run.count('rules refused' if kind == 'error' else 'warnings given')
    finally:
        shutil.rmtree(d, True)


def spellings(run, ck, seed, langs):
    rng = random.Random(seed)
    files, root = schema(rng)
    base = text_of(files)
    structs = {s.name for f in files for s in f.structs()}
    enums = {e.name for f in files for e in f.enums()}
    alts = []
    for k in range(2):
        v = variant_defs(rng, files) if rng.random() < 0.7 else files
        out = {}
        for f in v:
            t = f.render()
            if rng.random() < 0.5:
                t = shuffle_heads(rng, t)
            tk = respell(rng, t, structs, enums) if rng.random() < 0.8 else tokens(t)
            out[f.path] = join(rng, tk, rng.random() < 0.15)
        alts.append(out)
    for lang in langs:
        d = newdir()
        try:
            res = []
            for i, src in enumerate([base] + alts):
                put('%s/s%d/src' % (d, i), src)
                args = ['-t', FLAGS[lang], '-decnum', '-o', '%s/o%d' % (d, i), '%s/s%d/src/main.bb' % (d, i)]
                rc, so, se = engine.cli(args, cwd=d)
                x = abnormal(rc, so, se)
                run.saw(('spelling', seed, lang, i))
                if x or rc != 0:
                    if lang == 'kotlin' and 'setter' in se and i == 0:
                        return
                    ck.bad('spelling %s' % lang, 'a valid schema is refused (exit %s): %s' % (rc, x or compile_lines(so + se)[:4]), src, args, so + se)
                    return
                o = '%s/o%d' % (d, i)
                res.append(tree(o) if os.path.exists(o) else {})
                if i and res[i] != res[0]:
                    diff = [f for f in sorted(set(res[0]) | set(res[i])) if res[0].get(f) != res[i].get(f)]
                    a, b = res[0].get(diff[0], b'').decode().split('\n'), res[i].get(diff[0], b'').decode().split('\n')
                    w = next(((x, y) for x, y in zip(a, b) if x != y), (len(a), len(b)))
                    ck.bad('spelling %s' % lang, 'the same schema in another spelling gives other code in %s: %r | %r' % (diff[0], w[0], w[1]), {**{'base/' + k: v for k, v in base.items()}, **src}, args)
                    return
            run.count('spellings')
        finally:
            shutil.rmtree(d, True)


def cli_jobs(rng):
    j = []
    t = lambda: FLAGS[rng.choice(ALL)]
    for args, ok in ((['-t', 'c'], 0), (['-t', 'c', 'MAIN', 'MAIN'], 0), (['-t', 'nolang', '-o', 'OUT', 'MAIN'], 0), (['-o', 'OUT', 'MAIN'], 0), (['-t', 'c', '-o', 'OUT', 'missing.bb'], 0), (['-t', 'c', '-signext', 'maybe', '-o', 'OUT', 'MAIN'], 0),
                     (['-t', 'py', '-unroll', 'x', '-o', 'OUT', 'MAIN'], 0), (['-t', 'go', '-unroll', '-2', '-o', 'OUT', 'MAIN'], 0), (['-t', 'go', '-nosuchflag', '-o', 'OUT', 'MAIN'], 0), (['-t', 'go', '-o', 'OUT', '.'], 0),
                     (['-t', '', '-o', 'OUT', 'MAIN'], 0), (['-t', 'C', '-o', 'OUT', 'MAIN'], None), (['-t', t(), '-o', 'MAIN/x', 'MAIN'], 0), ([], 1), (['-t', 'c', '-signext', 'shift', '-o', 'OUT', 'MAIN'], 1),
                     (['-t', 'c', '-signext', 'arith', '-o', 'OUT', 'MAIN'], 1), (['-t', 'c', '-unroll', '-1', '-o', 'OUT', 'MAIN'], 1), (['-t', 'c', '-unroll', '0', '-o', 'OUT', 'MAIN'], 1), (['-t', 'c', '-v', '-o', 'OUT', 'MAIN'], 1),
                     (['-t', 'c', '-minimal', '-single', '-o', 'OUT', 'MAIN'], 1)):
        j.append((args, ok, False))
    for l, al in ALIAS.items():
        for a in al:
            j.append(((FLAGS[l], a), 'alias', False))
    # a setter without a getter cannot be generated for Kotlin
    j.append((['-t', 'kotlin', '-o', 'OUT', 'MAIN'], 0, True))
    j.append((['-t', 'java', '-o', 'OUT', 'MAIN'], 1, True))
    return j


def cli_error(run, ck, args, ok, setter):
    d = newdir()
    m = '{ set calc_it(int32): value + 1; }' if setter else '{ get calc_it(int32): value + 1; set calc_it(int32): value; }'
    src = {'main.bb': 'package aa.main;\nenum Kind [1] { KIND_A = 3, };\nstruct Box {\n    Kind kind;\n    int16 level [#12] %s;\n    void [#4];\n    string label;\n};\n' % m}
    try:
        put(d, src)
        if ok == 'alias':
            res = []
            for i, t in enumerate(args):
                rc, so, se = engine.cli(['-t', t, '-o', 'o%d' % i, 'main.bb'], cwd=d)
                res.append((rc, tree('%s/o%d' % (d, i))))
            run.saw(('alias',) + args, 2)
            if res[0][0] != 0 or res[0] != res[1]:
                ck.bad('alias %s' % args[1], 'the alias does not generate what target %s generates (exit %s)' % (args[0], res[1][0]), src, list(args))
            return
        a = [x.replace('MAIN', d + '/main.bb').replace('OUT', d + '/out') for x in args]
        before = tree(d)
        rc, so, se = engine.cli(a, cwd=d)
        x = abnormal(rc, so, se)
        run.saw(('cli', ' '.join(args), setter))
        where = 'command line %s' % ' '.join(args)
        if x:
            ck.bad(where, x, src, args, so + se)
        elif ok == 1 and rc != 0:
            ck.bad(where, 'refused: %s' % se[:300], src, args, so + se)
        elif ok == 0:
            if rc == 0:
                ck.bad(where, 'an invalid request exits with success', src, args, so + se)
            elif not (so + se).strip():
                ck.bad(where, 'refused without a message', src, args, so + se)
            elif tree(d) != before:
                ck.bad(where, 'a refused request wrote files', src, args, so + se)
    finally:
        shutil.rmtree(d, True)


# ---------------------------------------------------------------- diagnostics
def p_diag(run):
    rng, q, ck = run.rng, run.quick, Checker(run)
    jobs = [(id, docs, kind, rng.getrandbits(40), rng.choice(['c', 'cpp', 'go', 'c', 'kotlin', 'python'])) for _ in range(16 if q else 60) for id, docs, kind in rules.R]

    def one(j):
        id, docs, kind, seed, lang = j
        r = random.Random(seed)
        # the document moved down by a random number of lines, under a random name, imported or given directly
        bad, mark = rules.instantiate(docs, random.Random(seed), True)
        good, _ = rules.instantiate(docs, random.Random(seed), False)
        if not mark:
            mark = ('main.bb', None)
        pad = {f: r.choice([0, 0, 1, 3, 7, 40]) for f in bad}
        fill = lambda n: ''.join(r.choice(['\n', '// x\n', '   \n', '/* a */\n', '\n']) for _ in range(n))
        src = {f: fill(pad[f]) + t for f, t in bad.items()}
        where = 'diagnostic %s' % id
        nested = r.random() < 0.4 and 'import-cycle' not in id and 'import-self' not in id
        main = 'main.bb'
        if nested:
            src['top.bb'] = '\n' * r.randint(0, 9) + 'package topmost.tt;\nimport "main.bb";\n'
            main = 'top.bb'
        d = newdir()
        try:
            put(d + '/src', src)
            o = d + '/out'
            args = ['-t', FLAGS[lang], '-o', o, r.choice(['src/', d + '/src/', './src/']) + main]
            rc, so, se = engine.cli(args, cwd=d)
            x = abnormal(rc, so, se)
            line = mark[1] + pad[mark[0]] if mark[1] else None
            want = '%s/src/%s:' % (d, mark[0]) + ('%d:' % line if line else '')
            log = so + se
            if x:
                ck.bad(where, x, src, args, log)
            elif kind == 'error' and rc == 0:
                ck.bad(where, 'no diagnostic: accepted', src, args, log)
            elif kind == 'warning' and rc != 0:
                ck.bad(where, 'a warning stops generation', src, args, log)
            elif id == 'no-package':
                if 'main.bb' not in log:
                    ck.bad(where, 'the message does not name the file: %s' % log[:300], src, args, log)
            elif line and want not in log:
                ck.bad(where, 'the message does not name %s line %s: %s' % (mark[0], line, ' / '.join(compile_lines(log))[:400]), src, args, log)
            elif ('warning' if kind == 'warning' else 'error') not in log.lower():
                ck.bad(where, 'the message is not marked as %s: %s' % (kind, log[:300]), src, args, log)
            elif kind == 'warning' and not re.search(r'option|import', id):
                pass
            if kind == 'warning' and not x and rc == 0:
                # the warning changes nothing: unknown options are without effect on the code
                if 'option' in id and 'import' not in id:
                    put(d + '/src2', {**{f: fill(pad[f]) + t for f, t in good.items()}, **({'top.bb': src['top.bb']} if nested else {})})
                    engine.cli(['-t', FLAGS[lang], '-o', d + '/out2', d + '/src2/' + main], cwd=d)
                    if tree(o) != tree(d + '/out2'):
                        ck.bad(where, 'an option that is only warned about changes the code', src, args, log)
            run.saw((id, lang, nested))
        finally:
            shutil.rmtree(d, True)
    pool(lambda j: guard(run, one, j), jobs)
    loc = lambda d, t: {(a, int(b)) for a, b in re.findall(re.escape(d) + r'/src/([\w/]+\.bb):(\d+):\d+', re.sub(r'\x1b\[[0-9;]*m', '', t))}

    def graph(j):
        # the broken file is imported by several files that import each other
        id, docs, kind, seed, lang = j
        r = random.Random(seed)
        src, mark = rules.instantiate(docs, random.Random(seed), True)
        where, n = 'diagnostics of the importers of %s' % id, r.randint(2, 5)
        imp = [[k for k in range(i) if r.random() < 0.45] for i in range(n)]
        direct = [i == 0 or not imp[i] or r.random() < 0.5 for i in range(n)]
        lines = set()
        for i in range(n):
            what = ['g%d.bb' % k for k in imp[i]] + ['main.bb'] * direct[i]
            if i == n - 1:
                what += ['g%d.bb' % k for k in range(n - 1) if k not in imp[i]]
            r.shuffle(what)
            src['g%d.bb' % i] = 'package ggg%d;\n%s' % (i, '\n' * r.randint(0, 3))
            for w in what:
                lines.add(('g%d.bb' % i, src['g%d.bb' % i].count('\n') + 1))
                src['g%d.bb' % i] += 'import "%s";\n' % w
            src['g%d.bb' % i] += 'struct Ggg%d { uint8 x; };\n' % i
        d = newdir()
        try:
            put(d + '/src', src)
            args = ['-t', FLAGS[lang], '-o', d + '/out', d + '/src/']
            rc, so, se = engine.cli(args[:-1] + ['src/main.bb'], cwd=d)
            rc2, so2, se2 = engine.cli(args[:-1] + ['src/g%d.bb' % (n - 1)], cwd=d)
            x, log = abnormal(rc2, so2, se2), so2 + se2
            a, b = loc(d, so + se), loc(d, log) - lines
            if x:
                ck.bad(where, x, src, args, log)
            elif (rc != 0) != (rc2 != 0):
                ck.bad(where, 'given directly the file is %s, imported by others %s' % (('refused', 'accepted') if rc else ('accepted', 'refused')), src, args, log)
            elif a - b:
                ck.bad(where, 'not named when the file is imported by others: %s' % sorted(a - b), src, args, log)
            elif b - a:
                ck.bad(where, 'blamed although nothing is wrong there: %s' % sorted(b - a), src, args, log)
            elif 'cycle' in log and 'cycle' not in so + se or 'self import' in log and 'self import' not in so + se:
                ck.bad(where, 'a cycle of imports is reported, there is none', src, args, log)
            run.saw((id, 'graph', n, sum(direct)))
        finally:
            shutil.rmtree(d, True)
    pool(lambda j: guard(run, graph, j), [(id, docs, kind, rng.getrandbits(40), lang) for id, docs, kind, _, lang in jobs[:len(rules.R) * (6 if q else 30)] if id != 'no-package' and 'cycle' not in id and 'self' not in id])

    def many(j):
        # several constructs that deserve a warning, or several errors, in one run
        seed, lang, err = j
        r = random.Random(seed)
        n, src, lines, k = r.choice([1, 1, 2, 3]), {}, set(), [0]

        def nm(style, bad):
            k[0] += 1
            return ({'S': 'Low_case%d', 'E': 'CAMEL_low%d', 'V': 'CamelCase%d', 'f': 'camelCase%d'} if bad else {'S': 'Good%d', 'E': 'Best%d', 'V': 'UPPER_%d', 'f': 'snake_%d'})[style] % k[0]
        for i in range(n):
            f = 'w%d.bb' % i
            t = ['package www%d;' % i] + ['import "w%d.bb";' % x for x in range(i) if x == i - 1 or r.random() < 0.5]

            def line(text, style=None):
                bad = style and r.random() < 0.3 and not err
                t.extend([''] * r.choice([0, 0, 0, 1, 4]) + [text % nm(style, bad) if style else text])
                if bad:
                    lines.add((f, len(t)))

            def wrong(good, bad):
                x = err and i == n - 1 and r.random() < 0.3
                line((bad if x else good) % nm('f', False))
                if x:
                    lines.add((f, len(t)))
            for _ in range(r.randint(1, 5)):
                if r.random() < 0.3:
                    line('enum %s', 'E')
                    t.append('[1] {')
                    for _ in range(r.randint(1, 4)):
                        line('%s,', 'V')
                    t.append('};')
                elif r.random() < 0.2 and not err:
                    if r.random() < 0.5:
                        t.append('option strange%d = %s;' % (k[0], r.choice(['"x"', '5', 'true'])))
                        lines.add((f, len(t)))
                        k[0] += 1
                else:
                    line('struct %s', 'S')
                    t.append('{')
                    line('uint8 %s;', 'f')
                    for _ in range(r.randint(0, 5)):
                        x = r.randrange(7)
                        if x == 0:
                            line('uint8 %s = 3;', 'f')
                        elif x == 1:
                            line('uint16<2> %s', 'f')
                            t.append(';')
                        elif x == 2:
                            line('uint16 %s', 'f')
                            t.append('{')
                            line('get %s(int32): value;', 'f')
                            if r.random() < 0.5:
                                line('get %s(int32): value + 1;', 'f')
                            t.append('};')
                        elif x == 3:
                            wrong('int16 %s[2];', 'int16 %s[3];')
                        elif x == 4:
                            wrong('uint32 %s = 7;', 'uint32 %s = -7;')
                        elif x == 5:
                            wrong('bool %s[1];', 'bool %s[1#1];')
                        else:
                            line('string %s;', 'f')
                    t.append('};')
            t.append('struct Last%d { uint8 a; };' % i)
            src[f] = '\n'.join(t) + '\n'
        d = newdir()
        where = 'several %s' % ('errors' if err else 'warnings')
        try:
            put(d + '/src', src)
            args = ['-t', FLAGS[lang], '-o', d + '/out', 'src/w%d.bb' % (n - 1)]
            rc, so, se = engine.cli(args, cwd=d)
            log, imports = so + se, {(f, i + 1) for f, x in src.items() for i, l in enumerate(x.split('\n')) if l.startswith('import')}
            got, x = loc(d, log), abnormal(rc, so, se)
            if x:
                ck.bad(where, x, src, args, log)
            elif (rc != 0) != bool(err and lines):
                ck.bad(where, 'exit status %s' % rc, src, args, log)
            elif lines - got:
                ck.bad(where, 'not named: %s' % sorted(lines - got), src, args, log)
            elif got - lines - imports:
                ck.bad(where, 'blamed although nothing is wrong there: %s' % sorted(got - lines - imports), src, args, log)
            run.count('%s in one run' % where, len(lines))
            run.saw(('many', err, n, min(len(lines), 8)))
        finally:
            shutil.rmtree(d, True)
    pool(lambda j: guard(run, many, j), [(rng.getrandbits(40), rng.choice(list(FLAGS)), k % 3 == 0) for k in range(240 if q else 1500)])
    return ('every rule violation and every warning is provoked at a random line of the input file or of a file imported by it, at different depth and with absolute or relative input paths; the message must name the '
            'file and line of the offending construct; warnings must not stop generation nor change its result; several warnings (over several files) or several errors in one run are all named, and nothing else is; imported by a random graph of files, the broken file gives the same locations as given directly, and nothing but its imports besides. '
            'Distinct = rule × target × direct/imported, rule × size of the graph × importers')


def guard(run, fn, j):
    try:
        fn(j)
    except Exception:
        import traceback
        run.inconclusive(traceback.format_exc()[-400:])


# ---------------------------------------------------------------- placement, determinism
def expected_files(lang, files, units, rm=(), opts=()):
    """output paths the documentation promises"""
    out = set()
    for f in units:
        own = f.structs() + f.enums()
        if not own and f.options.get('omit_empty') is True:
            continue
        seg = f.package.split('.')
        d, base = '/'.join(seg[:-1]), seg[-1]
        names = []
        if lang in ('java', 'kotlin'):
            p = f.options.get(lang + '_package', f.package).replace('.', '/')
            ext = 'java' if lang == 'java' else 'kt'
            names = ['%s/%s.%s' % (p, t.name, ext) for t in own]
        elif lang == 'go':
            p = f.options.get('go_package', '/'.join(seg))
            names = ['%s/%s.bb.go' % (p, p.rsplit('/', 1)[-1])]
        else:
            suf = {'c': ['.bb.h', '.bb.c'], 'cpp': ['.bb.hpp', '.bb.cpp'], 'csharp': ['.bb.cs'], 'commonjs': ['.bb.js'], 'esmodule': ['.bb.js'], 'python': ['_bb.py']}[lang]
            names = [(d + '/' if d else '') + base + x for x in suf]
        for n in names:
            for r in rm:
                if n.startswith(r + '/'):
                    n = n[len(r) + 1:]
                    break
            out.add(n)
    return out


def placed_schema(rng):
    """files with random packages and package options; returns files, root"""
    files, used = [], set()
    n = rng.randint(1, 5)
    pool_ = []
    names = Names('P%d' % rng.randrange(1000))
    seg = lambda: rng.choice(['alpha', 'beta', 'gamma', 'delta', 'com', 'org', 'net_x', 'exAmple', 'v2', 'core'])
    for i in range(n):
        last = i == n - 1
        while True:
            p = '.'.join([seg() for _ in range(rng.randint(0, 4))] + [rng.choice(['msg', 'types', 'link', 'base', 'ctl']) + str(i)])
            if p not in used:
                used.add(p)
                break
        o = {}
        if rng.random() < 0.4:
            o['go_package'] = '/'.join([rng.choice(['github.com', 'gitlab.com', 'ex']), seg(), 'g%d' % i])
        if rng.random() < 0.4:
            o['java_package'] = '.'.join(['jj', seg().lower(), 'j%d' % i])
        if rng.random() < 0.4:
            o['kotlin_package'] = '.'.join(['kk', seg().lower(), 'k%d' % i])
        if rng.random() < 0.3:
            o['cpp_namespace'] = 'cn%d::%s' % (i, seg())
        if rng.random() < 0.3:
            o['csharp_namespace'] = 'Cs%d.Nn' % i
        empty = rng.random() < 0.2 and n > 1
        defs = [] if empty else gen_defs(rng, names, Cfg(p_dyn=0.3, p_const=0.1, max_fields=4), rng.randint(1, 3), rng.randint(0, 2))
        if rng.random() < 0.4:
            o['omit_empty'] = rng.random() < 0.7
        path = 'main.bb' if last else rng.choice(['d%d.bb', 'sub/d%d.bb', 'a/b/d%d.bb']) % i
        imps = [os.path.relpath(x.path, os.path.dirname(path) or '.') for x in files if last or rng.random() < 0.4]
        files.append(File(path, p, defs, o, imports=imps))
    return files, files[-1]


def p_output(run):
    rng, q, ck = run.rng, run.quick, Checker(run)
    jobs = [(rng.getrandbits(40), lang) for _ in range(45 if q else 500) for lang in ALL]

    def one(j):
        seed, lang = j
        r = random.Random(seed)
        files, root = placed_schema(r)
        src = text_of(files)
        opts = []
        rm = []
        if r.random() < 0.5:
            heads = set()
            for n in expected_files(lang, files, files):
                p = n.split('/')
                for k in range(1, len(p)):
                    heads.add('/'.join(p[:k]))
            # no two prefixes that apply to the same file
            for h in r.sample(sorted(heads), min(len(heads), r.randint(1, 3))):
                if not any(h.startswith(x + '/') or x.startswith(h + '/') for x in rm):
                    rm.append(h)
            want = expected_files(lang, files, files, rm)
            if len(want) != len(expected_files(lang, files, files)):
                rm = []
        if rm:
            opts += ['-rmpath', ','.join(rm)]
        for o in ('-minimal', '-memcpy', '-relpath', '-inner', '-compat', '-decnum'):
            if r.random() < 0.2:
                opts.append(o)
        if lang == 'go' and '-relpath' in opts:
            opts.remove('-relpath')
        if r.random() < 0.3:
            opts += ['-unroll', r.choice(['-1', '0', '1', '7'])]
        want = expected_files(lang, files, files, rm)
        where = '%s %s' % (lang, ' '.join(opts))
        d = newdir()
        try:
            put(d + '/in/src', src)
            os.makedirs(d + '/in/cwd')
            runs = []
            main = d + '/in/src/main.bb'
            for k in range(4):
                cwd = [d + '/in', d + '/in/cwd', d + '/in/src/', d][k]
                inp = [main, '../src/main.bb', 'main.bb', 'in/src/main.bb'][k]
                o = [d + '/in/o0', '../o1', '../o2/deep/er', 'in/o3/'][k]
                real = [d + '/in/o0', d + '/in/o1', d + '/in/o2/deep/er', d + '/in/o3'][k]
                if k == 3:
                    # over files of an earlier, longer run
                    put(real, {n: 'STALE ' * 20000 for n in want})
                    put(real, {'keep/me.txt': 'mine'})
                args = ['-t', FLAGS[lang]] + opts + ['-o', o, inp]
                rc, so, se = engine.cli(args, cwd=cwd)
                x = abnormal(rc, so, se)
                if x or rc != 0:
                    ck.bad(where, 'refused (exit %s): %s' % (rc, x or compile_lines(se)[:3]), src, args, so + se)
                    return
                t = tree(real) if os.path.exists(real) else {}
                if k == 3:
                    if t.pop('keep/me.txt', None) != b'mine':
                        ck.bad(where, 'an unrelated file in the output directory was changed', src, args)
                        return
                if set(t) != want:
                    ck.bad(where, 'files %s instead of %s' % (sorted(set(t) - want)[:6], sorted(want - set(t))[:6]), src, args, so + se)
                    return
                runs.append(t)
                if runs[0] != t:
                    f = [n for n in t if t[n] != runs[0][n]][0]
                    ck.bad(where, 'run %d generates other content in %s than run 0 (other working directory, earlier output present)' % (k, f), src, args)
                    return
            got = sorted(set(tree(d)) - {'in/src/' + p for p in src} - {'in/o0/' + w for w in want} - {'in/o1/' + w for w in want} - {'in/o2/deep/er/' + w for w in want} - {'in/o3/' + w for w in want} - {'in/o3/keep/me.txt'})
            if got:
                ck.bad(where, 'files outside the output directory: %s' % got[:5], src, args)
                return
            if {p: t.encode() for p, t in src.items()} != tree(d + '/in/src'):
                ck.bad(where, 'the input files were changed', src, args)
                return
            # other spellings of the same paths
            here = d + '/in/src'

            def path(m, base):
                rel = m.group(2)
                full = os.path.normpath(os.path.join(here, os.path.dirname(base), rel))
                up = os.path.dirname(full)
                return m.group(1) + '"' + r.choice([rel, './' + rel, full, up + '/../' + os.path.basename(up) + '/' + os.path.basename(full), up + '//' + os.path.basename(full), '../' * rel.count('../') + './/' + rel[3 * rel.count('../'):],
                                                    full.replace('/in/src', '/in/./cwd/../src')]) + '"'
            alt = {n: re.sub(r'(import\s*)"([^"]+)"', lambda m: path(m, n), t) for n, t in src.items()}
            if alt != src:
                put(here, alt)
                args = ['-t', FLAGS[lang]] + opts + ['-o', d + '/in/o4', r.choice([main, d + '/in/cwd/../src/main.bb', d + '/in//src/./main.bb'])]
                rc, so, se = engine.cli(args, cwd=d + '/in/cwd')
                t = tree(d + '/in/o4') if os.path.exists(d + '/in/o4') else {}
                put(here, src)
                shutil.rmtree(d + '/in/o4', True)
                if rc != 0 or t != runs[0]:
                    ck.bad(where + ' import paths', 'other spellings of the import paths give exit %s and %s' % (rc, 'other code' if rc == 0 else compile_lines(so + se)[:3]), alt, args, so + se)
                    return
                run.saw((lang, 'paths', len(alt)))
            # single file
            # (nothing but empty files that are to be omitted: no file at all is right, too)
            if lang not in ('java', 'kotlin') and not all('omit_empty' in t and not re.search(r'\b(struct|enum)\b', t) for t in src.values()):
                so_ = [x for x in opts if x not in rm]
                res = []
                for k in range(2):
                    o = '%s/in/one%d/x/All.out' % (d, k)
                    rc, so, se = engine.cli(['-t', FLAGS[lang], '-single'] + opts + ['-o', o, main], cwd=d + '/in/cwd')
                    x = abnormal(rc, so, se)
                    t = tree('%s/in/one%d' % (d, k)) if os.path.exists('%s/in/one%d' % (d, k)) else {}
                    if x or rc != 0 or set(t) != {'x/All.out'}:
                        ck.bad(where + ' -single', 'exit %s, files %s instead of the one named by -o: %s' % (rc, sorted(t)[:5], x or se[:200]), src, ['-single'] + opts, so + se)
                        return
                    res.append(t)
                if res[0] != res[1]:
                    ck.bad(where + ' -single', 'two runs generate different content', src, ['-single'] + opts)
                run.saw((lang, 'single', tuple(opts)))
            # without -o nothing is written
            rc, so, se = engine.cli(['-t', FLAGS[lang]] + opts + [main], cwd=d + '/in/cwd')
            if abnormal(rc, so, se) or rc != 0 or tree(d + '/in/cwd'):
                ck.bad(where + ' without -o', 'exit %s, files %s' % (rc, sorted(tree(d + '/in/cwd'))[:4]), src, opts, so + se)
            run.saw((lang, tuple(opts), len(files), len(want)), 5)
            run.count('files placed ' + lang, 4 * len(want))
        finally:
            shutil.rmtree(d, True)
    pool(lambda j: guard(run, one, j), jobs)
    return ('random multi-file schemas with random packages, package options, imports, empty units and options are generated four times (other working directory, relative and absolute paths, over longer stale files) '
            'per target: exactly the documented set of files must appear, with identical bytes, nothing else anywhere and inputs untouched; -single must write exactly the file named by -o; without -o no file. '
            'Distinct = (target, options, file counts)')
