"""The compiler on arbitrary input: a verdict, a message, and nothing half done."""
import os, random, re, shutil
from . import engine, more
from .front import *
from .gen import INTS

LEX = re.compile(r'\s+|"[^"\n]*"|\w+|\*\*|<<|>>|[<>=!]=|&&|\|\||.', re.S)
KW = ['struct', 'enum', 'package', 'import', 'option', 'void', 'get', 'set', 'value', 'true', 'false', 'string', 'bytes', 'bool', 'int8', 'uint64', 'float32', 'float64', 'int32', 'int64', '{', '}', '[', ']', '(', ')', '<', '>', '#', ';', ',',
      '=', '==', '?', ':', '+', '-', '*', '**', '/', '%', '<<', '>>', '&', '&&', '|', '||', '^', '~', '!', '.', '"', '\'', '0', '1', '-1', '9223372036854775807', '9223372036854775808', '18446744073709551616', '1e400', '0x', '0xFFFFFFFFFFFFFFFF',
      '00', '08', '1.', '.5', '1e', 'inf', 'nan', '[#0]', '[0]', '[-1]', '[1#8]', '[4294967296]', '<0>', '<99999999999999999999>', 'order="big"', '[order="x"]', 'go_package', '"a/b"', '/*', '//', '\n', '\0', '\ufeff', '\u00e9', 'A', 'a', '_', '$',
      '@', '`', '\\', 'main.bb', '"main.bb"', '"."', '""', '"no.bb"', 'omit_empty', '''"'"''']
NUM = ['0', '1', '2', '3', '5', '7', '8', '9', '15', '16', '17', '31', '32', '33', '63', '64', '65', '127', '128', '255', '256', '1000']
HUGE = ['-1', '2147483648', '4294967295', '4294967296', '9223372036854775807', '9223372036854775808', '99999999999999999999999', '1.5', 'true', '"x"', '0x7fffffffffffffff', '1152921504606846976', '2305843009213693952', '2305843009213693953', '0x1000000000000001']
BASIC = INTS + ['bool', 'string', 'bytes', 'float32', 'float64']


def broken(rng, t, other):
    """token and character damage"""
    toks, ot = LEX.findall(t), LEX.findall(other)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        n = len(toks)
        if n < 4:
            break
        k, i = rng.randrange(10), rng.randrange(n)
        j = min(n, i + rng.choice([1, 1, 2, 3, 8]))
        nums = [x for x, y in enumerate(toks) if y[:1].isdigit()]
        ids = [x for x, y in enumerate(toks) if re.match(r'[A-Za-z_]', y)]
        if k == 0:
            del toks[i:j]
        elif k == 1:
            toks[i:i] = toks[i:j]
        elif k == 2:
            toks[i] = rng.choice(KW)
        elif k == 3:
            toks.insert(i, rng.choice(KW))
        elif k == 4:
            a = rng.randrange(n)
            toks[i], toks[a] = toks[a], toks[i]
        elif k == 5:
            a = rng.randrange(len(ot))
            toks[i:j] = ot[a:a + rng.choice([1, 3, 10])]
        elif k == 6 and nums:
            toks[rng.choice(nums)] = rng.choice(NUM + HUGE * 2)
        elif k == 7 and ids:
            toks[rng.choice(ids)] = rng.choice([toks[rng.choice(ids)], rng.choice(KW)])
        elif k == 8:
            del toks[i:]
        elif k == 9:
            s = ''.join(toks)
            p = rng.randrange(len(s))
            toks = LEX.findall(s[:p] + chr(rng.choice([rng.randrange(128), rng.randrange(0x3000)])) + s[p + rng.randrange(2):])
    return ''.join(toks)


def altered(rng, t):
    """changes that leave the text well formed more often than not"""
    for _ in range(rng.choice([1, 1, 1, 2])):
        toks = LEX.findall(t)
        at = lambda f: [i for i, x in enumerate(toks) if f(x)]
        ids, caps = at(lambda x: re.match(r'[a-z_]\w*$', x)), at(lambda x: re.match(r'[A-Z]\w*$', x))
        nums, tys, stm = at(lambda x: x[0].isdigit()), at(lambda x: x in BASIC), at(lambda x: x in ';{}')
        k = rng.randrange(10)
        if k == 0 and nums:
            toks[rng.choice(nums)] = rng.choice(NUM)
        elif k == 1 and tys:
            toks[rng.choice(tys)] = rng.choice(BASIC + [toks[i] for i in caps])
        elif k == 2 and caps:
            toks[rng.choice(caps)] = toks[rng.choice(caps)]
        elif k == 3 and ids:
            toks[rng.choice(ids)] = toks[rng.choice(ids)]
        elif k in (4, 5) and len(stm) > 5:
            a, b = sorted(rng.sample(range(len(stm) - 1), 2))
            s, e = stm[a] + 1, stm[a + 1] + 1
            seg = toks[s:e]
            if rng.random() < 0.3:
                del toks[s:e]
            elif rng.random() < 0.5:
                toks[e:e] = seg
            else:
                toks[stm[b] + 1:stm[b] + 1] = seg
        elif k == 6 and nums:
            i = rng.choice(nums)
            toks[i] = str(max(0, int(re.match(r'\d+', toks[i]).group()) + rng.choice([-1, 1])))
        elif k == 7 and tys:
            i = rng.choice(tys)
            toks[i] += rng.choice(['<1>', '<2>', '<3>', '<5>'])
        elif k == 8 and nums:
            toks[rng.choice(nums)] = rng.choice(HUGE)
        elif k == 9 and caps:
            # casing decides what a name is
            i = rng.choice(caps)
            toks[i] = toks[i][0].lower() + toks[i][1:]
        t = ''.join(toks)
    return t


def garbage(rng):
    """no schema at all"""
    k = rng.randrange(9)
    n = rng.choice([0, 1, 2, 50, 3000])
    if k == 0:
        return bytes(rng.randrange(256) for _ in range(n))
    if k == 1:
        return ''.join(rng.choice(KW) + rng.choice(['', ' ', '\n']) for _ in range(n)).encode('utf-8', 'replace')
    if k == 2:
        return b'package a.b;\n' + rng.choice([b'\xff\xfe', b'\x00', b'\xef\xbb\xbf', b'\xc3\x28', b'\xf0\x28\x8c\x28', b'\r\r\r']) + b'\nstruct X { uint8 a; };\n'
    if k == 3:
        d = rng.choice([3, 60, 1500])
        return ('package a.b;\nstruct S0 { uint8 v { get g(int32): %svalue%s; }; };\n' % ('(' * d, ')' * d)).encode()
    if k == 4:
        d = rng.choice([2, 4, 6])  # deeper takes the parser exponentially long, see deep()
        t = 'uint8 x;'
        for i in range(d):
            t = 'struct N%d { %s } f%d;' % (i, t, i)
        return ('package a.b;\nstruct Top { %s };\n' % t).encode()
    if k == 5:
        return ('package a.b;\nstruct S { %s };\n' % ''.join('uint8 f%d; ' % i for i in range(rng.choice([1, 100, 500])))).encode()
    if k == 6:
        return ('package a.b;\nenum E[4] { %s };\n' % ''.join('V%d, ' % i for i in range(rng.choice([1, 400, 5000])))).encode()
    if k == 7:
        return ('package ' + '.'.join(rng.choice(['a', 'b', 'A', '_', 'c1']) for _ in range(rng.choice([1, 3, 200]))) + ';\nstruct S { uint8 a; };\n').encode()
    return ('package a.b;\nstruct S { uint8 v { get g(int64): %s; }; };\n' % rng.choice(['value ' + '+ value ' * 400, '-' * 1 + '- ' * 300 + 'value', '1 ? ' * 100 + 'value' + ' : 1' * 100, '2 ** ' * 60 + '2', '~' * 500 + 'value', '(int8)' * 300 + 'value'])).encode()


def import_graph(rng):
    """(files, does a cycle or a hole lie within reach of the root)"""
    n = rng.randint(2, 6)
    names = ['main.bb'] + [rng.choice(['f%d.bb', 'sub/f%d.bb', 'sub/x/f%d.bb', 'o.ther/f%d.bb']) % i for i in range(1, n)]
    edges = {i: [] for i in range(n)}
    dag = rng.random() < 0.5
    for i in range(n):
        for j in range(n):
            if (j > i or not dag and rng.random() < 0.4) and rng.random() < 0.5:
                edges[i].append(j)
    hole = rng.randrange(n) if rng.random() < 0.25 else None
    seen, stack, bad = set(), [], False

    def go(i):
        nonlocal bad
        if i in stack:
            bad = True
            return
        if i in seen:
            return
        seen.add(i)
        stack.append(i)
        if i == hole:
            bad = True
        for j in edges[i]:
            go(j)
        stack.pop()
    go(0)
    src = {}
    for i, f in enumerate(names):
        lines = ['package g.p%d;' % i]
        for j in edges[i]:
            p = os.path.relpath(names[j], os.path.dirname(f) or '.')
            lines.append('import "%s";' % rng.choice([p, './' + p, os.path.join('.', os.path.dirname(p), '.', os.path.basename(p))]))
        if i == hole:
            lines.append('import "%s";' % rng.choice(['nowhere.bb', 'sub', '../nowhere/x.bb', '/nonexistent/x.bb', '']))
        body = 'struct T%d { uint8 a; %s };' % (i, ' '.join('T%d t%d;' % (j, j) for j in edges[i] if not bad))
        lines.append('option go_package = "bbt/p%d";' % i)
        lines.append(body)
        src[f] = '\n'.join(lines) + '\n'
    return src, bad


SAME = ['c', 'cpp', 'csharp', 'commonjs', 'esmodule', 'python']
OPTS = [[], [], ['-minimal'], ['-unroll', '0'], ['-memcpy', '-inner'], ['-unroll', '-1'], ['-compat', '-decnum']]
POS = re.compile(r'(/[^\s:]*?\.bb):(-?\d+):(-?\d+)')


def examine(run, ck, j):
    seed, kind = j
    r = random.Random(seed)
    want = None
    methods = False
    base = None
    if kind == 'imports':
        src, bad = import_graph(r)
        want = not bad
    elif kind == 'garbage':
        src = {'main.bb': garbage(r)}
    else:
        fs, root = schema(r)
        for f in fs:
            for d in f.structs():
                if r.random() < 0.3:
                    more.decorate(r, d)
        methods = any(x.methods for f in fs for d in f.structs() for x in d.inner() if getattr(x, 'methods', None)) if kind == 'altered' else True
        src = text_of(fs)
        base = dict(src)
        v = r.choice(list(src))
        src[v] = altered(r, src[v]) if kind == 'altered' else broken(r, src[v], r.choice(list(text_of(schema(r)[0]).values())))
        methods = methods or any('get ' in t or 'set ' in t for t in src.values())
    opts = r.choice(OPTS)
    langs = [r.choice(SAME), r.choice(ALL)] + (['c', 'python'] if kind == 'altered' and not methods else [])
    d = newdir()
    try:
        put(d + '/s', src)
        heavy = any(len(x) > 5 for t in src.values() for x in re.findall(rb'\d+' if isinstance(t, bytes) else r'\d+', t)) or any(b'0x' in (t if isinstance(t, bytes) else t.encode('utf-8', 'replace')).lower() for t in src.values())
        verdicts = {}
        for l in dict.fromkeys(langs):
            o = '%s/o_%s' % (d, l)
            old = {}
            if base and r.random() < 0.3:
                # over the output of the schema before the change
                put(d + '/b', base)
                engine.cli(['-t', FLAGS[l]] + opts + ['-o', o, d + '/b/main.bb'], cwd=d)
                old = tree(o)
            args = ['-t', FLAGS[l]] + opts + ['-o', o, d + '/s/main.bb']
            rc, so, se = engine.sh([engine.bubbler()] + args, cwd=d, timeout=120, cpu=20, mem=6 << 30)
            log = engine.ANSI.sub('', so + se)
            where = '%s input, target %s %s' % (kind, l, ' '.join(opts))
            new = tree(o) if os.path.isdir(o) else {}
            x = abnormal(rc, log, '')
            if x and heavy and (rc is None or rc < 0 or 'out of memory' in log or 'cannot allocate' in log):
                run.inconclusive('%s with a size above 10^5 elements: %s' % (where, x[:80]))
                return
            if x:
                ck.bad(where, x, src, args, log)
                return
            if rc == 0:
                verdicts[l] = 'accepted'
                if not new and l in SAME and 'omit_empty' not in str(src):
                    ck.bad(where, 'accepted, but no file was written', src, args, log)
                    return
            else:
                verdicts[l] = 'refused'
                if 'error' not in log.lower():
                    ck.bad(where, 'refused (exit %s) without an error message: %s' % (rc, log[:200]), src, args, log)
                    return
                if new != old:
                    f = sorted(set(new) ^ set(old) or [n for n in new if new[n] != old[n]])
                    ck.bad(where, 'the schema is refused and yet the output changes: %s' % f[:4], src, args, log)
                    return
            for p, ln, co in POS.findall(log):
                if not p.startswith(d):
                    continue
                t = src.get(os.path.relpath(p, d + '/s'))
                n = None if t is None else len((t if isinstance(t, bytes) else t.encode('utf-8', 'replace')).splitlines()) + 1
                if n is None or not 0 < int(ln) <= n + 1 or int(co) < 0:
                    ck.bad(where, 'the message points at %s line %s column %s, which does not exist' % (os.path.relpath(p, d), ln, co), src, args, log)
                    return
            if want is not None and (rc == 0) != want:
                ck.bad(where, 'a graph of imports %s is %s' % ('without cycles and holes' if want else 'with a cycle or a missing file', verdicts[l]), src, args, log)
                return
            run.saw((kind, l, verdicts[l], message(log)))
            run.count('%s %s' % (kind, verdicts[l]))
            if rc == 0 and not methods and kind == 'altered' and l in ('c', 'python'):
                # what is accepted is code
                cmd = ['sh', '-c', 'for f in $(find . -name "*.c"); do gcc -I. -fsyntax-only -w $f || exit 1; done' if l == 'c' else 'python3 -m compileall -q . >/dev/null']
                rc2, a, b = engine.sh(cmd, cwd=o, timeout=100)
                run.count('accepted schemas compiled')
                if rc2:
                    ck.bad(where, 'accepted, and the generated code does not compile: %s' % (a + b)[:300], src, args, a + b)
                    return
        if len({verdicts[l] for l in SAME if l in verdicts}) > 1:
            ck.bad('%s input' % kind, 'targets disagree: %s' % verdicts, src, opts)
    finally:
        shutil.rmtree(d, True)


def message(log):
    """the message without names, numbers and places"""
    m = [l for l in log.splitlines() if 'error' in l.lower()]
    if not m:
        return ''
    t = re.sub(r'^.*?error:', '', m[0])
    t = re.sub(r"'[^']*'|\"[^\"]*\"|\[[^\]]*\]", '*', t)
    return re.sub(r'\S*[\d/]\S*', '#', t)[:70]


def deep(n):
    t = 'uint8 x;'
    for i in range(n):
        t = 'struct N%d { %s } f%d;' % (i, t, i)
    return 'package a.b;\nstruct Top { %s };\n' % t


def probe_deep(run):
    """inline structs within inline structs: the time of the parser grows fivefold with each level"""
    d = newdir()
    try:
        put(d, {'main.bb': deep(12)})
        rc, so, se = engine.sh([engine.bubbler(), '-t', 'c', '-o', d + '/o', d + '/main.bb'], cwd=d, timeout=100, cpu=5)
        run.probe('parser-inline-depth', rc not in (0, 1), 'a struct with 12 levels of inline structs: no answer within 5 s of processor time', run.save({'property': run.pid, 'kind': 'front', 'where': 'inline depth', 'schema': {'main.bb': deep(12)}, 'args': ['-t', 'c'], 'exit': rc, 'verdict': 'no answer'}))
    finally:
        shutil.rmtree(d, True)


def p_input(run):
    rng, q, ck = run.rng, run.quick, Checker(run)
    guard(run, lambda j: probe_deep(run), None)
    jobs = []
    for kind, n in (('altered', 360), ('broken', 360), ('garbage', 90), ('imports', 110)):
        jobs += [(rng.getrandbits(48), kind) for _ in range(n if q else n * 20)]
    pool(lambda j: guard(run, lambda j: examine(run, ck, j), j), jobs)
    return ('schema texts changed by token and character damage, by well-formed changes (sizes, types, names, statements moved, doubled or dropped), random import graphs with cycles, holes and other spellings of a path, and texts that are no schema (bytes, '
            'deep nesting, thousands of members, bad UTF-8), each given to two to four targets, partly over the output of the unchanged schema. '
            'Distinct = (kind of input, target, verdict, first message without names, numbers and places)')


PROPS = {'P21': p_input}
