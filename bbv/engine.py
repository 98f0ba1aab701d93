"""Build bubbler from /repo, generate code, build per-target drivers, run command logs."""
import atexit, copy, concurrent.futures, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from . import cdrv, kt
from .model import *

REPO = os.environ.get('BB_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
DRV = os.path.join(HERE, 'drv')
CSC = (glob.glob('/usr/lib/dotnet/sdk/*/Roslyn/bincore/csc.dll') + ['?'])[0]
CSREF = (sorted(glob.glob('/usr/lib/dotnet/packs/Microsoft.NETCore.App.Ref/*/ref/net8.0')) or ['?'])[-1]
CSRT = (sorted(glob.glob('/usr/lib/dotnet/shared/Microsoft.NETCore.App/*')) or ['?'])[-1].rsplit('/', 1)[-1]
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=512:handle_abort=0:symbolize=0',
    'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1:abort_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:report_signal_unsafe=0',
}
ENV = dict(os.environ)
ENV.update(HOME='/root', LANG='C.UTF-8', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off',
           GOFLAGS='-mod=mod -buildvcs=false', DOTNET_CLI_TELEMETRY_OPTOUT='1', DOTNET_NOLOGO='1',
           PYTHONDONTWRITEBYTECODE='1', DOTNET_TieredPGO='0', NO_COLOR='1', **SAN_ENV)
ENV['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'

POOL = concurrent.futures.ThreadPoolExecutor(8)


class Infra(Exception):
    """the machinery itself failed (no verdict)"""


_tmp = None


def scratch():
    global _tmp
    if _tmp is None:
        base = os.environ.get('BB_SCRATCH') or tempfile.gettempdir()
        _tmp = tempfile.mkdtemp(prefix='bbv.', dir=base)
        if not os.environ.get('BB_KEEP'):
            atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def sh(cmd, cwd=None, timeout=300, env=None, input=None, mem=None, cpu=None):
    """-> (rc, stdout, stderr); rc None on timeout"""
    def pre():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             start_new_session=True, preexec_fn=pre if mem or cpu else None)
    except OSError as e:
        return 127, '', str(e)
    try:
        o, e = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')
    return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')


_bubbler = None


def bubbler():
    global _bubbler
    if _bubbler is None:
        out = os.path.join(scratch(), 'bubbler')
        env = dict(ENV, GOFLAGS='-mod=readonly -buildvcs=false')
        rc, o, e = sh(['go', 'build', '-o', out, '.'], cwd=REPO, timeout=600, env=env)
        if rc != 0:
            raise Infra('cannot build bubbler from %s:\n%s%s' % (REPO, o, e))
        _bubbler = out
    return _bubbler


ANSI = re.compile(r'\x1b\[[0-9;]*m')


def cli(args, cwd=None, timeout=60):
    rc, o, e = sh([bubbler()] + args, cwd=cwd, timeout=timeout)
    return rc, ANSI.sub('', o), ANSI.sub('', e)


def write_files(files, d):
    for f in files:
        p = os.path.join(d, f.path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as h:
            h.write(f.render())


def pascal(s):
    return '.'.join(''.join(x[:1].upper() + x[1:] for x in seg.split('_')) for seg in s.split('.'))


def snake(s):
    return re.sub(r'(?<!^)(?<!_)([A-Z])', r'_\1', s).lower()


def meta_text(structs, loc, enums):
    out = []
    for e in enums:
        out.append('E %s %s %d %s' % (e.name, loc(e), len(e.vals), ' '.join('%s %d' % (v[0], v[1]) for v in e.vals)))
    for s in structs:
        fs = ' '.join('%s %s' % (f.name, f.typ.meta()) for f in s.vfields())
        ms = ' '.join('%s %s %s' % (m.kind, m.name, SHORT[m.typ]) for _, m in s.methods())
        out.append(' '.join(x for x in ('S', s.name, loc(s), str(len(s.vfields())), fs, str(len(s.methods())), ms) if x != ''))
    return '\n'.join(out) + '\n'


class GenFail(Exception):
    pass


class BuildFail(Exception):
    pass


class Target:
    """one (schema, target, options) configuration"""
    lang = None
    flag = None
    nullenum = False      # unknown enum values decode to null
    excenum = False       # unknown enum values raise
    parallel = False

    def __init__(self, files, root, opts=(), tag='', sub='m', san=True, keep=None):
        self.files, self.root, self.opts = files, root, list(opts)
        self.single = '-single' in self.opts
        self.relpath = '-relpath' in self.opts
        self.minimal = '-minimal' in self.opts
        self.compat = '-compat' in self.opts
        self.tag = tag or '%s%s' % (self.lang, ''.join(self.opts))
        self.san = san
        self.structs = [s for f in files for s in f.structs()]
        self.enums = [e for f in files for e in f.enums()]
        global _seq
        with _lock:
            _seq += 1
            self.dir = os.path.join(scratch(), 't%d' % _seq)
        self.src = os.path.join(self.dir, 'src')
        self.out = os.path.join(self.dir, 'out')

    # ---- generation
    def single_name(self):
        raise NotImplementedError

    def generate(self):
        os.makedirs(self.src)
        os.makedirs(self.out)
        write_files(self.files, self.src)
        o = os.path.join(self.out, self.single_name()) if self.single else self.out
        self.gen_rc, so, se = cli(['-t', self.flag] + self.opts + self.extra() + ['-o', o, os.path.join(self.src, self.root.path)], cwd=self.src)
        self.gen_log = so + se
        if self.gen_rc != 0:
            raise GenFail('%s: bubbler exited %s on an acceptable schema\n%s' % (self.tag, self.gen_rc, '\n'.join(l for l in self.gen_log.splitlines() if 'warning' not in l)[-1500:]))

    def extra(self):
        return []

    def build(self):
        pass

    def prepare(self):
        self.generate()
        self.build()
        return self

    def fail(self, what, log):
        raise BuildFail('%s: %s\n%s' % (self.tag, what, log[:3000]))

    # ---- execution
    def argv(self, cmdfile, threads):
        raise NotImplementedError

    def run(self, lines, threads=0, timeout=400, mem=None, cpu=60):
        """-> {id: rest-of-line}; crashed commands map to 'CRASH <detail>'"""
        res, todo, crashes = {}, list(lines), 0
        self.par = None
        self.stderr = ''
        k = 0
        while todo:
            k += 1
            cf = os.path.join(self.dir, 'cmd%d_%d' % (threading.get_ident() % 100000, k))
            with open(cf, 'w') as f:
                f.write('\n'.join(todo) + '\n')
            rc, o, e = sh(self.argv(cf, threads), cwd=self.dir, timeout=timeout, env=self.env(), mem=mem, cpu=None if threads else cpu)
            self.stderr += e
            self.rc = rc
            ended, n = False, 0
            for l in o.splitlines():
                if l == 'END':
                    ended = True
                elif l.startswith('PAR '):
                    self.par = [int(x) for x in l.split()[1:]]
                else:
                    i, _, rest = l.partition(' ')
                    res[i] = rest
                    n += 1
            if ended:
                break
            crashes += 1
            if n >= len(todo):
                res['_tail'] = 'CRASH rc=%s %s' % (rc, san_summary(e))
                break
            bad = todo[n]
            if rc is None or rc == -signal.SIGKILL:
                res[bad.split()[1]] = 'TIMEOUT'
                if crashes >= 2:
                    break
            else:
                hang = rc == -signal.SIGXCPU
                res[bad.split()[1]] = 'CRASH rc=%s %s%s' % (rc, 'more-than-%d-CPU-seconds-in-one-operation ' % cpu if rc == -signal.SIGXCPU else '', san_summary(e))
                if hang and crashes >= 2:
                    break
            todo = todo[n + 1:]
            if crashes > 12:
                break
        return res

    def env(self):
        return ENV


_lock = threading.Lock()
_seq = 0


def san_summary(e):
    for l in e.splitlines():
        if 'runtime error:' in l or 'ERROR: AddressSanitizer' in l or 'ThreadSanitizer' in l:
            return re.sub(r'\s+', '_', re.sub(r'0x[0-9a-f]+', 'ADDR', re.sub(r'^.*/', '', l)))[:220]
    t = [l for l in e.strip().splitlines() if l]
    return re.sub(r"\s+", "_", (t[0] + (" ... " + t[-1] if len(t) > 1 else "") if t else ""))[:300]



def compile_many(cmds, cwd, timeout=400):
    """run compile commands in parallel; returns joined error log or ''"""
    rs = []

    def one(c):
        return sh(c, cwd=cwd, timeout=timeout)
    with concurrent.futures.ThreadPoolExecutor(8) as p:
        rs = list(p.map(one, cmds))
    for c, (rc, o, e) in zip(cmds, rs):
        if rc is None:
            raise Infra('compiler timeout: ' + ' '.join(c)[:300])
        if rc != 0:
            return o + e
    return ''


class CT_(Target):
    lang, flag, ext, cc, std = 'c', 'c', '.c', 'gcc', '-std=gnu11'
    parallel = True
    sanflags = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']

    def single_name(self):
        return 'all.h'

    def driver(self):
        return cdrv.C(self.structs, self.minimal, self.enums).emit(self.includes())

    def includes(self):
        if self.single:
            return ['all.h']
        return [f.package.replace('.', '/') + '.bb.h' for f in self.files if f.defs or not f.options.get('omit_empty')]

    def build(self):
        drv = os.path.join(self.dir, 'drv' + self.ext)
        with open(drv, 'w') as f:
            f.write(self.driver())
        srcs = [] if self.single else sorted(glob.glob(self.out + '/**/*' + self.ext, recursive=True))
        flags = ['-g0', '-O0', '-w', '-fno-omit-frame-pointer', '-fwrapv-pointer' if 0 else '-fno-strict-aliasing', self.std, '-I', self.out]
        san = ['-fsanitize=thread'] if self.san == 'thread' else self.sanflags if self.san else []
        flags += san
        if self.san == 'thread':
            flags += ['-g1']
        objs, cmds = [], []
        for i, s in enumerate(srcs + [drv]):
            o = os.path.join(self.dir, 'o%d.o' % i)
            objs.append(o)
            cmds.append([self.cc] + flags + ['-c', s, '-o', o])
        log = compile_many(cmds, self.dir)
        if log:
            self.fail('generated code does not compile', log)
        log = compile_many([[self.cc] + san + objs + ['-o', os.path.join(self.dir, 'drv'), '-lpthread', '-lm']], self.dir)
        if log:
            self.fail('generated code does not link', log)

    def argv(self, cf, threads):
        return [os.path.join(self.dir, 'drv'), cf] + ([str(threads)] if threads else [])


class Cpp_(CT_):
    lang, flag, ext, cc, std = 'cpp', 'cpp', '.cpp', 'g++', '-std=c++20'

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        if self.compat:
            self.std = '-std=c++17'

    def single_name(self):
        return 'all.hpp'

    def qual(self, t):
        ns = t.file.options.get('cpp_namespace') or t.file.package.replace('.', '::')
        return '::' + ns + '::' + t.name

    def includes(self):
        if self.single:
            return ['all.hpp']
        return [f.package.replace('.', '/') + '.bb.hpp' for f in self.files if f.defs or not f.options.get('omit_empty')]

    def driver(self):
        return cdrv.Cpp(self.structs, self.minimal, self.compat, self.qual, snake, self.enums).emit(self.includes())


class Go_(Target):
    lang = flag = 'go'
    race = False
    parallel = True

    def __init__(self, *a, **k):
        self.race = k.pop('race', False)
        super().__init__(*a, **k)

    def single_name(self):
        return 'all/all.bb.go'

    def extra(self):
        return ['-rmpath', 'bbt']

    def gopkg(self, f):
        return f.options.get('go_package') or f.package.replace('.', '/')

    def build(self):
        # relative imports exist only outside of modules
        if not self.relpath:
            with open(os.path.join(self.out, 'go.mod'), 'w') as f:
                f.write('module bbt\n\ngo 1.21\n')
        shutil.copy(os.path.join(DRV, 'main.go.txt'), os.path.join(self.out, 'main.go'))
        imp, reg = {}, []
        for s in self.structs:
            p = 'bbt/all' if self.single else self.gopkg(s.file)
            if self.relpath:
                p = './' + (p[4:] if p.startswith('bbt/') else p)
            a = imp.setdefault(p, 'p%d' % len(imp))
            reg.append('\t"%s": reflect.TypeOf(%s.%s{}),' % (s.name, a, s.name))
        nums = []
        for e in self.enums:
            p = 'bbt/all' if self.single else self.gopkg(e.file)
            if self.relpath:
                p = './' + (p[4:] if p.startswith('bbt/') else p)
            a = imp.setdefault(p, 'p%d' % len(imp))
            nums.append('\t"%s": {%s},' % (e.name, ', '.join('{"%s", int64(%s.%s(%s.%s))}' % (v[0], a, e.name, a, v[0]) for v in e.vals)))
        with open(os.path.join(self.out, 'reg.go'), 'w') as f:
            f.write('package main\n\nimport (\n\t"reflect"\n%s)\n\nvar registry = map[string]reflect.Type{\n%s\n}\n\ntype number struct {\n\tn string\n\tv int64\n}\n\nvar nums = map[string][]number{\n%s\n}\n' % (
                ''.join('\t%s "%s"\n' % (a, p) for p, a in imp.items()), '\n'.join(reg), '\n'.join(nums)))
        self.meta = os.path.join(self.dir, 'meta')
        with open(self.meta, 'w') as f:
            f.write(meta_text(self.structs, lambda t: 'x', []))
        rc, o, e = sh(['go', 'build'] + (['-race'] if self.race else []) + ['-o', os.path.join(self.dir, 'drv'), '.'], cwd=self.out, timeout=600, env=dict(ENV, GO111MODULE='off') if self.relpath else None)
        if rc is None:
            raise Infra('go build timeout')
        if rc != 0:
            self.fail('generated code does not compile', o + e)

    def argv(self, cf, threads):
        return [os.path.join(self.dir, 'drv'), self.meta, cf] + ([str(threads)] if threads else [])


class Java_(Target):
    lang = flag = 'java'
    nullenum = True
    parallel = True

    def single_name(self):
        return 'x'

    def loc(self, t):
        return (t.file.options.get('java_package') or t.file.package) + '.' + t.name

    def build(self):
        self.meta = os.path.join(self.dir, 'meta')
        with open(self.meta, 'w') as f:
            f.write(meta_text(self.structs, self.loc, self.enums))
        srcs = sorted(glob.glob(self.out + '/**/*.java', recursive=True)) + [os.path.join(DRV, 'Drv.java')]
        lst = os.path.join(self.dir, 'srcs')
        with open(lst, 'w') as f:
            f.write('\n'.join('"%s"' % s for s in srcs))
        rc, o, e = sh(['javac', '-nowarn', '-proc:none', '-encoding', 'UTF-8', '-d', os.path.join(self.dir, 'cls'), '@' + lst], timeout=400)
        if rc is None:
            raise Infra('javac timeout')
        if rc != 0:
            self.fail('generated code does not compile', o + e)

    def argv(self, cf, threads):
        return ['java', '-Xshare:auto', '-XX:TieredStopAtLevel=1', '-Xmx1g', '-cp', os.path.join(self.dir, 'cls'), 'Drv', self.meta, cf] + ([str(threads)] if threads else [])


class CS_(Target):
    lang, flag = 'csharp', 'csharp'
    parallel = True

    def single_name(self):
        return 'All.cs'

    def loc(self, t):
        f = t.file
        return (f.options.get('csharp_namespace') or pascal(f.package)) + '.' + t.name

    def build(self):
        self.meta = os.path.join(self.dir, 'meta')
        with open(self.meta, 'w') as f:
            f.write(meta_text(self.structs, self.loc, self.enums))
        srcs = sorted(glob.glob(self.out + '/**/*.cs', recursive=True)) + [os.path.join(DRV, 'Drv.cs')]
        dll = os.path.join(self.dir, 'drv.dll')
        rsp = os.path.join(self.dir, 'rsp')
        with open(rsp, 'w') as f:
            f.write('\n'.join(['-nologo', '-nostdlib', '-langversion:latest', '-unsafe', '-optimize+', '-debug-', '-target:exe', '-warn:0',
                               '-define:NET8_0_OR_GREATER,NETCOREAPP,NET8_0', '-out:' + dll] + ['-r:' + r for r in sorted(glob.glob(CSREF + '/*.dll'))] + ['"%s"' % s for s in srcs]) + '\n')
        rc, o, e = sh(['dotnet', 'exec', CSC, '-noconfig', '@' + rsp], cwd=self.dir, timeout=400)
        if rc is None:
            raise Infra('csc timeout')
        if rc != 0:
            self.fail('generated code does not compile', o + e)
        with open(os.path.join(self.dir, 'drv.runtimeconfig.json'), 'w') as f:
            f.write('{"runtimeOptions":{"tfm":"net8.0","framework":{"name":"Microsoft.NETCore.App","version":"%s"},"configProperties":{"System.Globalization.Invariant":true}}}' % CSRT)

    def argv(self, cf, threads):
        return ['dotnet', 'exec', os.path.join(self.dir, 'drv.dll'), self.meta, cf] + ([str(threads)] if threads else [])


class Py_(Target):
    lang, flag = 'python', 'python'
    excenum = True

    def single_name(self):
        return 'allmod_bb.py'

    def loc(self, t):
        m = 'allmod_bb' if self.single else t.file.package + '_bb'
        return (os.path.basename(self.out) + '.' if self.relpath else '') + m + ':' + t.name

    def build(self):
        self.meta = os.path.join(self.dir, 'meta')
        with open(self.meta, 'w') as f:
            f.write(meta_text(self.structs, self.loc, self.enums))

    def argv(self, cf, threads):
        return ['/usr/bin/python3' if os.path.exists('/usr/bin/python3') else 'python3', os.path.join(DRV, 'drv.py'), self.meta, cf, os.path.dirname(self.out) if self.relpath else self.out] + ([str(threads)] if threads else [])


class JS_(Target):
    nullenum = True
    mode = 'cjs'

    def single_name(self):
        return 'all.js'

    def loc(self, t):
        p = os.path.join(self.out, 'all.js') if self.single else os.path.join(self.out, t.file.package.replace('.', '/') + '.bb.js')
        return p + '#' + t.file.package + '.' + t.name

    def build(self):
        if self.mode == 'esm':
            with open(os.path.join(self.out, 'package.json'), 'w') as f:
                f.write('{"type":"module"}')
        else:
            with open(os.path.join(self.out, 'package.json'), 'w') as f:
                f.write('{"type":"commonjs"}')
        self.meta = os.path.join(self.dir, 'meta')
        with open(self.meta, 'w') as f:
            f.write(meta_text(self.structs, self.loc, self.enums))

    def argv(self, cf, threads):
        return ['node', os.path.join(DRV, 'drv.mjs'), self.meta, cf, self.mode, 'compat' if self.compat else 'typed']


class CJS_(JS_):
    lang, flag, mode = 'commonjs', 'commonjs', 'cjs'


class ESM_(JS_):
    lang, flag, mode = 'esmodule', 'esmodule', 'esm'


def every_struct(u):
    """structs of the file, also those defined inside of others"""
    def walk(s):
        yield s
        for f in s.fields:
            t = f.struct if f.kind == 'embed' and f.inline else f.typ if f.kind == 'normal' else None
            t = t.elem if t is not None and t.kind == 'array' else t
            if t is not None and t.kind == 'struct' and (f.kind == 'embed' or t.inplace):
                yield from walk(t)
    for s in u.structs():
        yield from walk(s)


class Kt_(Target):
    """no Kotlin compiler here: kt.py checks the code and translates it to Python"""
    lang = flag = 'kotlin'
    nullenum = True

    def __init__(self, files, root, *a, **k):
        # Kotlin has no property that can only be written, which the compiler says
        if any(m.kind == 'set' and ('get', m.name) not in {(x.kind, x.name) for x in f.methods} for u in files for s in every_struct(u) for f in s.fields for m in f.methods):
            files, root = copy.deepcopy((files, root))
            for u in files:
                for s in every_struct(u):
                    for f in s.fields:
                        for m in list(f.methods):
                            if m.kind == 'set' and ('get', m.name) not in {(x.kind, x.name) for x in f.methods}:
                                f.methods.append(Method('get', m.name, m.typ, 'true' if m.typ == 'bool' else '(%s)%s' % (m.typ, '0.0' if m.typ.startswith('float') else '0')))
        super().__init__(files, root, *a, **k)

    def single_name(self):
        return 'x'

    def loc(self, t):
        p = t.file.options.get('kotlin_package') or t.file.package
        return (p + '.' if p else '') + t.name

    def build(self):
        self.meta = os.path.join(self.dir, 'meta')
        with open(self.meta, 'w') as f:
            f.write(meta_text(self.structs, self.loc, self.enums))
        try:
            src, g = kt.load(self.out, [t.name for t in self.structs + self.enums])
        except kt.KtError as e:
            self.fail('generated code is not valid', str(e))
        except kt.Unsupported as e:
            raise Infra('Kotlin outside of the known subset: %s' % e)
        for t in self.structs + self.enums:
            if self.loc(t) not in g.classes:
                self.fail('generated code is not valid', 'no class %s' % self.loc(t))
        info = {}
        for fq, c in g.classes.items():
            fs = {}
            for fn in c.funs:
                for n in range(fn.req, len(fn.params) + 1):
                    k = '%s/%d' % (fn.name, n)
                    if k not in fs or n == len(fn.params):
                        fs[k] = fn.py
            st = {'%s/%d' % (fn.name, len(fn.params)): fn.py for fn in c.sfuns}
            info[fq] = {'py': c.py, 'props': {n: [g.name(p.rtype), p.mut, 'private' in p.mods, bool(p.getter)] for n, p in c.props.items()}, 'funs': fs, 'sfuns': st}
            want = [] if c.kind == 'enum' else ['encodeSize/0', 'encode/0', 'encode/1', 'encode/2', 'decodeSize/1', 'decodeSize/2', 'decode/1', 'decode/2']
            for k in want:
                if k not in fs:
                    self.fail('generated code is not valid', 'no function %s in %s' % (k, fq))
        with open(os.path.join(self.dir, 'kt_mod.py'), 'w') as f:
            f.write(src)
        with open(os.path.join(self.dir, 'kt_info.json'), 'w') as f:
            json.dump(info, f)

    def argv(self, cf, threads):
        return ['/usr/bin/python3' if os.path.exists('/usr/bin/python3') else 'python3', os.path.join(DRV, 'kdrv.py'), self.meta, cf, self.dir]


TARGETS = {c.lang: c for c in (CT_, Cpp_, Go_, Java_, CS_, Py_, CJS_, ESM_, Kt_)}
