"""P22: every generation option has exactly its documented effect, seen in what the real compiler writes."""
import os, random, re, shutil
from . import engine
from .front import ALL, ALIAS, FLAGS, Checker, abnormal, compile_lines, guard, newdir, pool, put, tree


INTS = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"]
SIZES = dict(zip(INTS, [1, 2, 4, 8] * 2))
HELPER = {'c': 'bb_(write|read)_field_bits', 'cpp': 'bb_(write|read)_field_bits', 'python': '_bb_(write|read)_field_bits', 'csharp': 'Bb(Write|Read)FieldBits'}
# options the README says a target forces or ignores
FORCED = {'java': ['-memcpy'], 'kotlin': ['-memcpy', '-relpath', '-inner', '-single'], 'python': ['-memcpy'],
          'commonjs': ['-memcpy', '-minimal', '-relpath'], 'esmodule': ['-memcpy', '-minimal', '-relpath']}
WARNED = {'kotlin': ['-relpath', '-inner', '-single'], 'commonjs': ['-minimal'], 'esmodule': ['-minimal']}


def bare(lang, text):
    """the code without comments, blank lines and layout"""
    if lang == 'python':
        text = re.sub(r'"""[\s\S]*?"""', '', text)
        text = re.sub(r'#.*', '', text)
    else:
        text = re.sub(r'/\*[\s\S]*?\*/', '', text)
        text = re.sub(r'//.*', '', text)
    return '\n'.join(' '.join(l.split()) for l in text.splitlines() if l.strip())


NUM = re.compile(r'\b0[xX][0-9A-Fa-f]+n?|\b0[bB][01]+n?|\b\d+n?')


def shape(text):
    """the code with every number replaced and equal items of a list shown once"""
    return re.sub(r'([^\s,{}()\[\]][^,{}\n]*?)(?:, ?\1)+(?=\s*[,})\]])', r'\1', re.sub(r'\d+', 'N', NUM.sub('N', text)))


class Out:
    def __init__(self, lang, files, se):
        self.code = {n: bare(lang, t.decode('utf-8', 'replace')) for n, t in files.items()}
        self.raw = {n: t for n, t in files.items()}
        self.err = se

    def all(self):
        return '\n'.join('== %s\n%s' % (n, self.code[n]) for n in sorted(self.code))


class Gen:
    def __init__(self, ck, lang):
        self.ck, self.lang, self.n = ck, lang, 0
        self.d = newdir()

    def __call__(self, src, opts):
        self.n += 1
        p, o = '%s/s%d' % (self.d, self.n), '%s/o%d' % (self.d, self.n)
        put(p, {'a.bb': src})
        args = ['-t', FLAGS[self.lang]] + opts + ['-o', o, p + '/a.bb']
        rc, so, se = engine.cli(args)
        x = abnormal(rc, so, se)
        if x or rc != 0 or not os.path.isdir(o):
            self.ck.bad('%s %s' % (self.lang, ' '.join(opts)), 'refused (exit %s): %s' % (rc, x or [e for e in compile_lines(so + se) if "warning" not in e][:3]), {'a.bb': src}, opts, so + se)
            return None
        return Out(self.lang, tree(o), so + se)


HEAD = '''package px.opt;
enum Ea[1] { EA_NONE = 0, EA_ONE, EA_TWO = 7, };
enum Eb[#5] { EB_NONE = 0, EB_ONE, EB_TWO = 9, };
struct Fix { uint8 a; int16 b[#11]; uint8 [#5] = 3; };
struct Dyn { string s; uint8 n; bytes b; };
'''


def item(r):
    """(declaration of an array of n items of a random kind, bits per item or None when dynamic, fixed by helper)"""
    k = r.random()
    order = r.choice(['', '', ' [order = "big"]'])
    if k < .45:
        t = r.choice(INTS)
        w = SIZES[t] * 8
        b = w if r.random() < .4 else r.randint(1, w)
        return lambda n, f: '%s<%d> %s [#%d]%s;' % (t, n, f, b * n, order), b, True
    if k < .55:
        t = r.choice(['float32', 'float64', 'bool'])
        return lambda n, f: '%s<%d> %s%s;' % (t, n, f, order), {'float32': 32, 'float64': 64, 'bool': 8}[t], True
    if k < .65:
        return lambda n, f: 'Ea<%d> %s%s;' % (n, f, order), 8, True
    if k < .72:
        return lambda n, f: 'Eb<%d> %s;' % (n, f), 5, True
    if k < .82:
        return lambda n, f: 'Fix<%d> %s;' % (n, f), 24, None
    t = r.choice(['string', 'bytes', 'Dyn'])
    return lambda n, f: '%s<%d> %s;' % (t, n, f), 0, False


def plain(r, tag, at=0):
    out, bits = [], 0
    for i in range(r.randint(0, 3)):
        t = r.choice(INTS)
        b = r.randint(1, SIZES[t] * 8)
        out.append('%s %s%d [#%d];' % (t, tag, i, b))
        bits += b
    pad = -(at + bits) % 8
    if r.random() < .3 and tag != 'z':
        out.append('void [#%d];' % pad if pad else '')
        out.append('string %ss;' % tag)
        bits += pad
    return out, bits


def message(r, arrays, name):
    """struct text with the given [(decl, bits, ...), n] arrays at fixed random places; the same r state gives the same surroundings"""
    fs, at = [], 0
    for i, (it, n) in enumerate(arrays):
        p, b = plain(r, 'p%s' % 'abcdef'[i], at)
        fs += p
        at += b
        if it[1] % 8 == 0 and (it[2] is not True or r.random() < .5) and at % 8:
            fs.append('void [#%d];' % (-at % 8))
            at += -at % 8
        fs.append(it[0](n, 'arr' + 'xyz'[i]))
        at += it[1] * n
    if at % 8:
        fs.append('void [#%d];' % (-at % 8))
    p, b = plain(r, 'z')
    fs += p
    if b % 8 and not (p and p[-1].startswith('string')):
        fs.append('void [#%d];' % (-b % 8))
    return 'struct %s {\n  %s\n};\n' % (name, '\n  '.join(x for x in fs if x))


def differ(a, b):
    x, y = a.splitlines(), b.splitlines()
    for p, q in zip(x, y):
        if p != q:
            return '%r against %r' % (p[:140], q[:140])
    return '%d lines against %d' % (len(x), len(y))


def unroll(run, ck, r, lang):
    g = Gen(ck, lang)
    try:
        it = item(r)
        n = r.choice([1, 2, 3, 4, 4, 5, 5, 6, 7, 9, 12, 33])
        base = [o for o in ('-memcpy', '-decnum', '-compat', '-minimal') if r.random() < .25]
        if r.random() < .3:
            base += ['-signext', r.choice(['shift', 'arith'])]
        st = r.getrandbits(30)
        msg = lambda n, k=0: HEAD + message(random.Random(st), [(it, n)], 'Msg')
        ks = r.sample([None, None, -1, 0, 1, 2, 3, 5, 8, n - 1, n, n + 1, 100], 4)
        always, loop = g(msg(n), base + ['-unroll', '-1']), g(msg(n), base + ['-unroll', '0'])
        if not always or not loop:
            return
        for k in ks:
            e = 4 if k is None else k
            o = g(msg(n), base + ([] if k is None else ['-unroll', str(k)]))
            if not o:
                return
            rolled = e >= 0 and n > e
            want = loop if rolled else always
            if o.all() != want.all():
                ck.bad('%s unroll' % lang, 'an array of %d with %s must be %s, but the code is not that of -unroll %d: %s' %
                       (n, 'the default threshold' if k is None else '-unroll %d' % k, 'rolled' if rolled else 'unrolled', 0 if rolled else -1, differ(o.all(), want.all())), {'a.bb': msg(n)}, base + ['-unroll', str(k)])
            run.saw((lang, 'threshold', rolled, it[0](1, 'x').split('<')[0]))
        # rolled code does not depend on the length, unrolled code grows with it
        m = base if lang not in ('c', 'cpp') else [x for x in base if x != '-minimal'] + ['-minimal']
        a, b = g(msg(n), m + ['-unroll', '0']), g(msg(n + 8), m + ['-unroll', '0'])
        c, d = g(msg(n), m + ['-unroll', '-1']), g(msg(n + 8), m + ['-unroll', '-1'])
        if not (a and b and c and d):
            return
        if shape(a.all()) != shape(b.all()):
            ck.bad('%s unroll' % lang, 'with -unroll 0 the code for %d and %d items differs in more than numbers: %s' % (n, n + 8, differ(shape(a.all()), shape(b.all()))), {'a.bb': msg(n)}, m)
        grow = len(d.all().splitlines()) - len(c.all().splitlines())
        # eight more items, each at least one line in encode and decode
        if grow < 16:
            ck.bad('%s unroll' % lang, 'with -unroll -1 the code for %d items has only %d more lines than for %d' % (n + 8, grow, n), {'a.bb': msg(n)}, m)
        h = re.compile(r'\b' + HELPER.get(lang, 'bb(Write|Read)FieldBits') + r'\b')
        for o, what in ((c, '-unroll -1'), (d, '-unroll -1')) + (((a, '-unroll 0'),) if it[2] is False else ()):
            # Kotlin writes every field through them
            if lang != 'kotlin' and h.search(o.all()):
                ck.bad('%s helpers' % lang, 'bit helpers are generated with %s although no fixed-width array is rolled' % what, {'a.bb': msg(n)}, m)
        run.saw((lang, 'growth', it[0](1, 'x').split('<')[0], n))
        run.count('threshold comparisons ' + lang, len(ks))
    finally:
        shutil.rmtree(g.d, True)


def unroll_many(run, ck, r, lang):
    """several arrays around one threshold: each is treated by its own length"""
    g = Gen(ck, lang)
    try:
        its = [item(r) for _ in range(3)]
        k = r.randint(9, 20)
        ns = [r.randint(1, k - 8), r.randint(k + 1, k + 30), r.choice([1, 2, k - 8, k + 1, k + 9])]
        st, split = r.getrandbits(30), r.random() < .5
        o = ['-unroll', str(k), '-minimal'] + [x for x in ('-memcpy', '-decnum') if r.random() < .25]

        def msg(ns):
            q = random.Random(st)
            ar = list(zip(its, ns))
            if split:
                return HEAD + ''.join(message(q, [a], 'Msg%d' % i) for i, a in enumerate(ar))
            return HEAD + message(q, ar, 'Msg')
        a = g(msg(ns), o)
        if not a:
            return
        for i in range(3):
            more = list(ns)
            more[i] += 8
            b = g(msg(more), o)
            if not b:
                return
            x, y = shape(a.all()), shape(b.all())
            if ns[i] > k and x != y:
                ck.bad('%s unroll' % lang, 'array %d of %d items is above -unroll %d, but eight more items change the code: %s' % (i, ns[i], k, differ(x, y)), {'a.bb': msg(ns)}, o)
            if more[i] <= k and len(y.splitlines()) - len(x.splitlines()) < 16:
                ck.bad('%s unroll' % lang, 'array %d of %d items is within -unroll %d, but eight more items add only %d lines' % (i, ns[i], k, len(y.splitlines()) - len(x.splitlines())), {'a.bb': msg(ns)}, o)
        run.saw((lang, 'several', split, tuple(n > k for n in ns)))
        run.count('threshold comparisons ' + lang, 3)
    finally:
        shutil.rmtree(g.d, True)


def cap(s):
    return s[0].upper() + s[1:]


ACCESS = {'c': lambda m, f: r'\b%s_(get|set)_%s(_|\b)' % (m, f), 'cpp': lambda m, f: r'\b(get|set)_%s(_|\b)' % f, 'csharp': lambda m, f: r'\b%s\b' % cap(f),
          'go': lambda m, f: r'\b(Get|Set)%s\b' % cap(f), 'java': lambda m, f: r'\b(get|set)%s(At)?\b' % cap(f), 'python': lambda m, f: r'\bdef (get_|set_)?%s\b' % f,
          'kotlin': lambda m, f: r'(?<!private )\bva[rl] %s\b' % f}


def minimal(run, ck, r, lang):
    """default accessors exist without -minimal and do not with it; where the target ignores the option nothing changes"""
    g = Gen(ck, lang)
    try:
        kinds = ['uint8 %s;', 'int32 %s [#32];', 'bool %s;', 'float64 %s;', 'string %s;', 'bytes %s;', 'uint16<3> %s;', 'Ea %s;', 'Fix %s;', 'Dyn<2> %s;', 'Ea<6> %s;', 'string<2> %s;', 'int64<5> %s [#120];']
        fs = ['qx%sk' % c for c in 'abcdefgh']
        src = HEAD + 'struct Msg {\n  %s\n};\n' % '\n  '.join(r.choice(kinds) % f for f in fs)
        base = [o for o in ('-memcpy', '-decnum') if r.random() < .3] + r.choice([[], ['-unroll', '0']])
        a, b = g(src, base), g(src, base + ['-minimal'])
        if not a or not b:
            return
        if lang in ACCESS:
            for f in fs:
                rx = re.compile(ACCESS[lang]('Msg', f))
                if not rx.search(a.all()):
                    ck.bad('%s minimal' % lang, 'no default accessor of %s without -minimal' % f, {'a.bb': src}, base)
                if rx.search(b.all()):
                    ck.bad('%s minimal' % lang, 'default accessor of %s although -minimal was given: %r' % (f, rx.search(b.all()).group(0)), {'a.bb': src}, base + ['-minimal'])
        run.saw((lang, 'minimal', tuple(base)))
        run.count('accessors looked for ' + lang, len(fs))
    finally:
        shutil.rmtree(g.d, True)


def decnum(run, ck, r, lang):
    """-decnum: constants in decimal, and the notation of the schema has no further influence"""
    g = Gen(ck, lang)
    try:
        lits, fs = [], []
        for i in range(r.randint(2, 5)):
            t = r.choice(['uint32', 'uint64', 'int64', 'int32', 'uint64'])
            w = min(SIZES[t] * 8 - (t[0] == 'i'), 62)
            v = r.getrandbits(r.randint(18, w)) | 1 << 17 | 0xABC
            b = r.randint(v.bit_length() + 1, SIZES[t] * 8) if t[0] == 'i' else r.randint(v.bit_length(), SIZES[t] * 8)
            b += -b % 8
            order = r.choice(['', ' [order = "big"]'])
            fs.append('%s %s[#%d] = %%s%s;' % (t, 'cst%s ' % 'abcdef'[i] if r.random() < .6 else '', b, order))
            lits.append(v)
        hexs = lambda v: r.choice(['0x%x', '0x%X', '0X%x', '0x000%X']) % v
        src = lambda f: HEAD + 'struct Msg {\n  uint8 one;\n  %s\n};\n' % '\n  '.join(x % f(v) for x, v in zip(fs, lits))
        base = [o for o in ('-memcpy', '-minimal', '-compat') if r.random() < .3]
        sh, sd = src(hexs), src(str)
        a, b = g(sh, base + ['-decnum']), g(sd, base + ['-decnum'])
        if not (a and b):
            return
        if b.all() != a.all():
            ck.bad('%s decnum' % lang, 'with -decnum the code of hexadecimal constants is not that of decimal ones: %s' % differ(a.all(), b.all()), {'a.bb': sh}, base + ['-decnum'])
        for v in lits:
            if re.search(r'\b0[xX]0*%x' % v, a.all(), re.I):
                ck.bad('%s decnum' % lang, 'constant %d is written in hexadecimal although -decnum was given' % v, {'a.bb': sh}, base + ['-decnum'])
        run.saw((lang, 'decnum', tuple(base), len(fs)))
        run.count('constants looked for ' + lang, len(lits))
    finally:
        shutil.rmtree(g.d, True)


def inert(run, ck, r, lang):
    """defaults, aliases and options a target forces or ignores: same code; ignored ones are announced"""
    g = Gen(ck, lang)
    try:
        its = [(item(r), r.randint(1, 9)) for _ in range(2)]
        src = HEAD + message(r, its, 'Msg')
        base = [o for o in ('-memcpy', '-minimal', '-decnum', '-inner') if r.random() < .2]
        a = g(src, base)
        if not a:
            return
        for o in FORCED.get(lang, []) + ['-unroll 4']:
            if o in base:
                continue
            b = g(src, base + o.split())
            if b and b.code != a.code:
                ck.bad('%s %s' % (lang, o), 'the option changes the code although the target %s: %s' % ('uses it by default' if o == '-unroll 4' else 'forces or ignores it', differ(a.all(), b.all())), {'a.bb': src}, base + [o])
            if b and o in WARNED.get(lang, []) and not any('warning' in l and o[1:] in l for l in b.err.splitlines()):
                ck.bad('%s %s' % (lang, o), 'the ignored option is not announced', {'a.bb': src}, base + [o], b.err)
        # whatever is announced as not available was asked for, and changes nothing
        for m in re.findall(r"option '(\w+)' not available", a.err):
            if not any(x.startswith('-' + m) for x in base):
                ck.bad('%s %s' % (lang, ' '.join(base)), "option '%s', which was not given, is announced as not available" % m, {'a.bb': src}, base, a.err)
        for o in ['-relpath', '-inner', '-minimal', '-signext shift'] + (['-single'] if lang == 'java' else []):
            m = o.split()[0]
            if m in base or o in FORCED.get(lang, []):
                continue
            b = g(src, base + o.split())
            if b and "option '%s' not available" % m[1:] in b.err:
                run.count('announced %s %s' % (lang, m))
                if b.code != a.code:
                    ck.bad('%s %s' % (lang, o), 'the option changes the code although it is announced as not available: %s' % differ(a.all(), b.all()), {'a.bb': src}, base + o.split())
        for al in ALIAS.get(lang, []):
            p, o = g.d + '/s1/a.bb', g.d + '/alias_' + al
            rc, so, se = engine.cli(['-t', al] + base + ['-o', o, p])
            if rc != 0 or tree(o) != a.raw and Out(lang, tree(o), '').code != a.code:
                ck.bad('%s alias %s' % (lang, al), 'exit %s or other code than with -t %s' % (rc, FLAGS[lang]), {'a.bb': src}, base, so + se)
        # repeated flags, flag spellings of the command line
        rc, so, se = engine.cli(['--t=' + FLAGS[lang]] + ['-' + x for x in base] + ['--o', g.d + '/dash', g.d + '/s1/a.bb'])
        if rc != 0 or Out(lang, tree(g.d + '/dash'), '').code != a.code:
            ck.bad('%s command line' % lang, 'double-dash and = forms of the options give exit %s or other code' % rc, {'a.bb': src}, base, so + se)
        # standard output instead of a directory
        rc, so, se = engine.cli(['-t', FLAGS[lang]] + base + [g.d + '/s1/a.bb'])
        text = bare(lang, so)
        for n, t in a.code.items():
            miss = [l for l in t.splitlines() if l not in text]
            if rc != 0 or miss:
                ck.bad('%s standard output' % lang, 'without -o the code printed lacks lines of %s: %s' % (n, miss[:2]), {'a.bb': src}, base, so[:2000] + se)
                break
        run.saw((lang, 'inert', tuple(base)))
        run.count('equal outputs ' + lang)
    finally:
        shutil.rmtree(g.d, True)


def p_effects(run):
    rng, q, ck = run.rng, run.quick, Checker(run)
    jobs = []
    for l in ALL:
        for fn, n in ((unroll, 20), (unroll_many, 12), (minimal, 6), (decnum, 8), (inert, 6)):
            jobs += [(fn, rng.getrandbits(40), l) for _ in range(n if q else n * 15)]
    rng.shuffle(jobs)

    def one(j):
        fn, seed, lang = j
        fn(run, ck, random.Random(seed), lang)
    pool(lambda j: guard(run, one, j), jobs)
    return ('the real compiler is run on random schemas that differ in one option or one array length, and its outputs, without comments, are compared: the code with threshold k is that of always or never unrolling '
            'depending on the length of the array, rolled code keeps its shape when eight items are added and unrolled code grows, the documented helpers appear only with a rolled fixed-width array, default '
            'accessors exist exactly without -minimal, -decnum leaves no hexadecimal constant and makes the notation irrelevant, forced, ignored and default options change nothing and are announced. '
            'Distinct = (target, effect, element kind, lengths or options)')


PROPS = {'P22': p_effects}
