"""A front end for the Kotlin that bubbler generates: it parses the files, resolves and type checks them as kotlinc
would, and translates them to one Python module with the same arithmetic.  There is no Kotlin compiler here.

KtError      the code is wrong for certain (kotlinc would refuse it)
Unsupported  outside of the subset this front end knows: no verdict"""
import glob, os, re


class KtError(Exception):
    pass


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
 (?P<ws>[ \t\r\f]+|//[^\n]*|/\*.*?\*/) |
 (?P<nl>\n) |
 (?P<float>\d[\d_]*\.\d[\d_]*(?:[eE][+-]?\d+)?[fF]?|\d[\d_]*[eE][+-]?\d+[fF]?|\d[\d_]*[fF]) |
 (?P<int>0[xX][0-9a-fA-F_]+[uU]?L?|0[bB][01_]+[uU]?L?|\d[\d_]*[uU]?L?) |
 (?P<str>"(?:\\.|[^"\\\n])*") |
 (?P<chr>'(?:\\.|[^'\\\n])+') |
 (?P<id>[A-Za-z_]\w*|`[^`\n]+`) |
 (?P<op>!is\b|!in\b|===|!==|\.\.<|==|!=|<=|>=|&&|\|\||\?\.|\?:|!!|\+\+|--|\+=|-=|\*=|/=|%=|->|::|\.\.|[-+*/%=<>!.,:;(){}\[\]?@&|])
''', re.X | re.S)
HARD = set('as break class continue do else false for fun if in interface is null object package return super this throw true try typealias typeof val var when while'.split())
MODS = set('private public internal protected override inline const open final data operator infix lateinit tailrec abstract external annotation value'.split())


class Tok:
    __slots__ = ('k', 'v', 'line')

    def __init__(self, k, v, line):
        self.k, self.v, self.line = k, v, line


def lex(text, where):
    out, i, line, nest = [], 0, 1, []
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise KtError('%s:%d: cannot read %r' % (where, line, text[i:i + 20]))
        k, v = m.lastgroup, m.group()
        i = m.end()
        if k == 'nl':
            if not nest or nest[-1] == '{':
                out.append(Tok('nl', '\n', line))
            line += 1
            continue
        if k == 'ws':
            line += v.count('\n')
            continue
        if k in ('int', 'float') and i < len(text) and (text[i].isalnum() or text[i] == '_'):
            raise KtError('%s:%d: malformed number %r' % (where, line, v + text[i:i + 5]))
        if k == 'int' and re.match(r'0[0-9_]', v):
            raise KtError('%s:%d: number with leading zero %r' % (where, line, v))
        if k == 'op':
            if v in '([{':
                nest.append(v)
            elif v in ')]}':
                if not nest or nest.pop() + v not in ('()', '[]', '{}'):
                    raise KtError('%s:%d: unbalanced %s' % (where, line, v))
        if k == 'id' and v in HARD:
            k = 'kw'
        if k == 'id' and v[0] == '`':
            v = v[1:-1]
        out.append(Tok(k, v, line))
    if nest:
        raise KtError('%s: unbalanced %s at the end' % (where, nest[-1]))
    out.append(Tok('nl', '\n', line))
    out.append(Tok('eof', '', line))
    return out


class N(tuple):
    """AST node: ('kind', ...) with a line"""
    line = 0


def node(line, *a):
    n = N(a)
    n.line = line
    return n


class Cls:
    def __init__(self, name, kind, pkg, where, line):
        self.name, self.kind, self.pkg, self.where, self.line = name, kind, pkg, where, line
        self.props, self.funs, self.sprops, self.sfuns, self.entries, self.ctor = {}, [], {}, [], [], []
        self.file = None
        self.fq = (pkg + '.' if pkg else '') + name
        self.inits = []


class Prop:
    def __init__(self, name, typ, init, mut, mods, line):
        self.name, self.typ, self.init, self.mut, self.mods, self.line = name, typ, init, mut, mods, line
        self.getter = self.setter = None
        self.static = False


class Fun:
    def __init__(self, name, params, ret, body, mods, line):
        self.name, self.params, self.ret, self.body, self.mods, self.line = name, params, ret, body, mods, line


class File:
    def __init__(self, where):
        self.where, self.pkg, self.imports, self.classes, self.funs, self.props = where, '', [], [], [], {}


class Parser:
    def __init__(self, text, where):
        self.t, self.p, self.where = lex(text, where), 0, where

    def err(self, what, cls=KtError):
        t = self.t[self.p]
        raise cls('%s:%d: %s at %r' % (self.where, t.line, what, t.v))

    def peek(self, v=None):
        t = self.t[self.p]
        return t if v is None else (t.v == v and t.k in ('op', 'kw', 'id'))

    def nxt(self):
        t = self.t[self.p]
        self.p += 1
        return t

    def nls(self):
        while self.t[self.p].k == 'nl' or self.peek(';'):
            self.p += 1

    def nl(self):
        while self.t[self.p].k == 'nl':
            self.p += 1

    def acc(self, v):
        if self.peek(v):
            return self.nxt()

    def exp(self, v):
        if not self.peek(v):
            self.err('expected ' + v)
        return self.nxt()

    def ident(self):
        t = self.t[self.p]
        if t.k != 'id':
            self.err('expected a name')
        self.p += 1
        return t.v

    def end(self):
        if self.t[self.p].k in ('nl', 'eof') or self.peek(';') or self.peek('}'):
            return
        self.err('expected the end of the statement')

    # ---- declarations
    def file(self):
        f = File(self.where)
        self.nls()
        while self.peek('@'):
            self.annotation()
            self.nls()
        if self.acc('package'):
            f.pkg = self.qname()
            self.end()
        self.nls()
        while self.acc('import'):
            q = [self.ident()]
            while self.acc('.'):
                if self.acc('*'):
                    q.append('*')
                    break
                q.append(self.ident())
            if self.peek('as'):
                self.err('import alias', Unsupported)
            f.imports.append('.'.join(q))
            self.end()
            self.nls()
        while self.t[self.p].k != 'eof':
            self.decl(f, None, False)
            self.nls()
        return f

    def annotation(self):
        self.exp('@')
        self.ident()
        if self.acc(':'):
            self.ident()
        while self.acc('.'):
            self.ident()
        if self.acc('('):
            d = 1
            while d:
                t = self.nxt()
                if t.k == 'eof':
                    self.err('annotation')
                d += (t.v == '(') - (t.v == ')')

    def qname(self):
        q = [self.ident()]
        while self.acc('.'):
            q.append(self.ident())
        return '.'.join(q)

    def mods(self):
        m = set()
        while True:
            if self.peek('@'):
                self.annotation()
                self.nl()
                continue
            t = self.t[self.p]
            n = self.t[self.p + 1]
            if t.k == 'id' and t.v in MODS | {'enum', 'companion'} and (n.k in ('id', 'kw')):
                m.add(t.v)
                self.p += 1
                self.nl()
                continue
            return m

    def decl(self, f, c, static):
        """a declaration of file f or class c"""
        m = self.mods()
        t = self.peek()
        if t.v in ('class', 'interface', 'object', 'typealias') and t.k == 'kw':
            if t.v == 'object' and 'companion' in m:
                self.nxt()
                if self.peek().k == 'id':
                    self.nxt()
                if not self.peek('{'):
                    return
                self.nxt()
                self.nls()
                while not self.acc('}'):
                    self.decl(f, c, True)
                    self.nls()
                return
            if t.v != 'class' or c is not None:
                self.err('declaration', Unsupported)
            self.cls(f, m)
        elif t.v == 'fun':
            fn = self.fun(m)
            (f.funs if c is None else c.sfuns if static else c.funs).append(fn)
        elif t.v in ('val', 'var') and t.k == 'kw':
            p = self.prop(m)
            tab = f.props if c is None else c.sprops if static else c.props
            if p.name in tab or (c is not None and not static and any(p.name == x.name for x in c.ctor)):
                raise KtError('%s:%d: conflicting declarations of %s' % (self.where, p.line, p.name))
            tab[p.name] = p
        else:
            self.err('declaration', Unsupported if t.v in ('init', 'constructor') else KtError)

    def cls(self, f, m):
        t = self.exp('class')
        if m - {'public', 'enum', 'data', 'final'}:
            self.err('class modifiers', Unsupported)
        c = Cls(self.ident(), 'enum' if 'enum' in m else 'class', f.pkg, self.where, t.line)
        c.file = f
        c.data = 'data' in m
        if c.data:
            self.err('data class', Unsupported)
        if self.peek('<'):
            self.err('generic class', Unsupported)
        f.classes.append(c)
        if self.acc('('):
            while not self.acc(')'):
                pm = self.mods()
                if not (self.peek('val') or self.peek('var')):
                    self.err('constructor parameter', Unsupported)
                mut = self.nxt().v == 'var'
                line = self.peek().line
                n = self.ident()
                self.exp(':')
                ty = self.type()
                if self.peek('='):
                    self.err('default in constructor', Unsupported)
                c.ctor.append(Prop(n, ty, None, mut, pm, line))
                if not self.acc(','):
                    self.exp(')')
                    break
        if c.ctor and c.kind == 'class':
            self.err('constructor', Unsupported)
        if self.peek(':'):
            self.err('supertype', Unsupported)
        if not self.acc('{'):
            return
        self.nls()
        if c.kind == 'enum':
            self.nl()
            while self.peek().k == 'id':
                n, line, args = self.ident(), self.peek().line, []
                if self.acc('('):
                    args = self.args(')')
                if any(n == e[0] for e in c.entries):
                    raise KtError('%s:%d: conflicting declarations of %s' % (self.where, line, n))
                c.entries.append((n, args, line))
                self.nl()
                if not self.acc(','):
                    break
                self.nl()
            self.nl()
            if not self.acc(';') and not self.peek('}'):
                self.err('expected ;')
        self.nls()
        while not self.acc('}'):
            self.decl(f, c, False)
            self.nls()

    def type(self):
        if self.acc('('):
            self.err('function type', Unsupported)
        n = self.qname()
        if self.peek('<'):
            self.nxt()
            a = [self.type()]
            while self.acc(','):
                a.append(self.type())
            self.exp('>')
            n = ('gen', n, tuple(a))
        if self.acc('?'):
            n = ('null', n)
        return n

    def fun(self, m):
        line = self.exp('fun').line
        if self.peek('<'):
            self.err('generic function', Unsupported)
        n = self.ident()
        if self.peek('.'):
            self.err('extension function', Unsupported)
        self.exp('(')
        params = []
        while not self.acc(')'):
            pn = self.ident()
            self.exp(':')
            ty = self.type()
            d = self.expr() if self.acc('=') else None
            if any(pn == x[0] for x in params):
                self.err('conflicting parameters')
            params.append((pn, ty, d))
            if not self.acc(','):
                self.exp(')')
                break
        ret = self.type() if self.acc(':') else None
        if self.acc('='):
            self.nl()
            e = self.expr()
            self.end()
            return Fun(n, params, ret, ('expr', e), m, line)
        self.nl()
        return Fun(n, params, ret, ('block', self.block()), m, line)

    def prop(self, m):
        mut = self.nxt().v == 'var'
        line = self.peek().line
        n = self.ident()
        if self.peek('.'):
            self.err('extension property', Unsupported)
        ty = self.type() if self.acc(':') else None
        if self.peek('by'):
            self.err('delegate', Unsupported)
        init = None
        if self.acc('='):
            self.nl()
            init = self.expr()
        p = Prop(n, ty, init, mut, m, line)
        while True:
            save = self.p
            self.nls()
            am = self.mods()
            t, nx = self.peek(), self.t[self.p + 1]
            if t.k == 'id' and t.v in ('get', 'set') and nx.v == '(':
                self.nxt(), self.nxt()
                params = []
                if t.v == 'set':
                    pn = self.ident()
                    params = [(pn, self.type() if self.acc(':') else ty, None)]
                self.exp(')')
                ret = self.type() if self.acc(':') else None
                if self.acc('='):
                    self.nl()
                    body = ('expr', self.expr())
                else:
                    self.nl()
                    body = ('block', self.block())
                fn = Fun(t.v, params, ret or (ty if t.v == 'get' else None), body, am, t.line)
                if t.v == 'get':
                    p.getter = fn
                else:
                    p.setter = fn
            elif t.k == 'id' and t.v in ('get', 'set') and am and nx.k == 'nl':
                self.err('accessor without body', Unsupported)
            else:
                self.p = save
                break
        return p

    # ---- statements
    def block(self):
        self.exp('{')
        return self.stmts()

    def stmts(self):
        out = []
        self.nls()
        while not self.acc('}'):
            out.append(self.stmt())
            self.end()
            self.nls()
        return out

    def body(self):
        """block or single statement -> list"""
        self.nl()
        if self.peek('{'):
            return self.block()
        if self.peek(';'):
            return []
        return [self.stmt()]

    def stmt(self):
        t = self.peek()
        if t.k == 'kw':
            if t.v in ('val', 'var'):
                self.nxt()
                if self.peek('('):
                    self.err('destructuring', Unsupported)
                n = self.ident()
                ty = self.type() if self.acc(':') else None
                e = None
                if self.acc('='):
                    self.nl()
                    e = self.expr()
                return node(t.line, 'val', n, ty, e, t.v == 'var')
            if t.v == 'while':
                self.nxt()
                self.exp('(')
                c = self.expr()
                self.exp(')')
                return node(t.line, 'while', c, self.body())
            if t.v == 'do':
                self.nxt()
                b = self.body()
                self.nl()
                self.exp('while')
                self.exp('(')
                c = self.expr()
                self.exp(')')
                return node(t.line, 'dowhile', b, c)
            if t.v == 'for':
                self.nxt()
                self.exp('(')
                n = self.ident()
                if self.acc(':'):
                    self.type()
                self.exp('in')
                e = self.expr()
                self.exp(')')
                return node(t.line, 'for', n, e, self.body())
            if t.v in ('class', 'fun', 'object', 'try', 'throw', 'interface'):
                self.err('statement', Unsupported)
        e = self.expr()
        t = self.peek()
        if t.k == 'op' and t.v in ('=', '+=', '-=', '*=', '/=', '%='):
            self.nxt()
            self.nl()
            return node(t.line, 'assign', t.v, e, self.expr())
        return node(e.line, 'expr', e)

    # ---- expressions
    def expr(self):
        return self.binary(0)

    LEVELS = [('||',), ('&&',), ('==', '!=', '===', '!=='), ('<', '>', '<=', '>='), ('in', '!in', 'is', '!is'), ('?:',), 'infix', ('..', '..<'), ('+', '-'), ('*', '/', '%'), ('as',)]

    def binary(self, lv):
        if lv == len(self.LEVELS):
            return self.prefix()
        ops = self.LEVELS[lv]
        a = self.binary(lv + 1)
        while True:
            t = self.peek()
            if ops == 'infix':
                if t.k == 'id' and self.t[self.p + 1].k != 'nl':
                    self.nxt()
                    self.nl()
                    b = self.binary(lv + 1)
                    a = node(t.line, 'infix', t.v, a, b)
                    continue
                return a
            if t.k == 'nl' and ops[0] in ('||', '&&', '?:'):
                save = self.p
                self.nl()
                if not (self.peek(ops[0])):
                    self.p = save
                    return a
                t = self.peek()
            if t.k not in ('op', 'kw') or t.v not in ops:
                return a
            self.nxt()
            self.nl()
            if t.v in ('is', '!is'):
                a = node(t.line, 'is', t.v == '!is', a, self.type())
            elif t.v == 'as':
                self.acc('?') and self.err('safe cast', Unsupported)
                a = node(t.line, 'as', a, self.type())
            elif t.v in ('in', '!in'):
                self.err('membership test', Unsupported)
            else:
                a = node(t.line, 'bin', t.v, a, self.binary(lv + 1))

    def prefix(self):
        t = self.peek()
        if t.k == 'op' and t.v in ('-', '+', '!', '++', '--'):
            self.nxt()
            return node(t.line, 'un', t.v, self.prefix())
        return self.postfix()

    def args(self, close):
        out = []
        while not self.acc(close):
            if self.t[self.p].k == 'id' and self.t[self.p + 1].v == '=' and self.t[self.p + 1].k == 'op':
                n = self.ident()
                self.nxt()
                out.append(('named', n, self.expr()))
            else:
                if self.peek('*'):
                    self.err('spread', Unsupported)
                out.append(self.expr())
            if not self.acc(','):
                self.exp(close)
                break
        return out

    def postfix(self):
        a = self.primary()
        while True:
            t = self.peek()
            if t.k == 'nl':
                save = self.p
                self.nl()
                if self.peek('.') or self.peek('?.'):
                    continue
                self.p = save
                return a
            if t.k != 'op':
                return a
            if t.v in ('.', '?.'):
                self.nxt()
                self.nl()
                n = self.ident()
                a = node(t.line, 'dot', a, n, t.v == '?.')
            elif t.v == '[':
                self.nxt()
                ix = self.args(']')
                a = node(t.line, 'index', a, ix[0]) if len(ix) == 1 else self.err('index', Unsupported)
            elif t.v == '!!':
                self.nxt()
                a = node(t.line, 'nn', a)
            elif t.v in ('++', '--'):
                self.nxt()
                a = node(t.line, 'post', t.v, a)
            elif t.v == '(':
                self.nxt()
                args = self.args(')')
                lam = self.lam() if self.peek('{') else None
                a = node(t.line, 'call', a, args, lam, None)
            elif t.v == '{' and a[0] in ('name', 'dot'):
                a = node(t.line, 'call', a, [], self.lam(), None)
            elif t.v == '<' and a[0] in ('name', 'dot'):
                save = self.p
                try:
                    self.nxt()
                    ta = [self.type()]
                    while self.acc(','):
                        ta.append(self.type())
                    self.exp('>')
                    self.exp('(')
                except (KtError, Unsupported):
                    self.p = save
                    return a
                args = self.args(')')
                a = node(t.line, 'call', a, args, self.lam() if self.peek('{') else None, ta)
            else:
                return a

    def lam(self):
        t = self.exp('{')
        self.nls()
        params = []
        save = self.p
        if self.peek().k == 'id':
            try:
                params = [self.ident()]
                if self.acc(':'):
                    self.type()
                while self.acc(','):
                    params.append(self.ident())
                self.exp('->')
            except (KtError, Unsupported):
                self.p, params = save, []
        return node(t.line, 'lambda', params, self.stmts())

    def primary(self):
        t = self.nxt()
        L = t.line
        if t.k == 'int':
            v = t.v.replace('_', '')
            lng = v.endswith('L')
            v = v[:-1] if lng else v
            u = v[-1] in 'uU'
            v = v[:-1] if u else v
            n = int(v, 0)
            if n > (2 ** 64 - 1 if u else 2 ** 63 - 1):
                raise KtError('%s:%d: the value %s is out of range' % (self.where, L, t.v))
            return node(L, 'int', n, u, lng)
        if t.k == 'float':
            v = t.v.replace('_', '')
            f = v[-1] in 'fF'
            return node(L, 'float', float(v[:-1] if f else v), f)
        if t.k == 'str':
            if '$' in t.v or '\\u' in t.v:
                self.err('string template', Unsupported)
            return node(L, 'str', t.v)
        if t.k == 'chr':
            self.err('character', Unsupported)
        if t.k == 'id':
            return node(L, 'name', t.v)
        if t.k == 'kw':
            if t.v in ('true', 'false'):
                return node(L, 'bool', t.v == 'true')
            if t.v == 'null':
                return node(L, 'null')
            if t.v == 'this':
                if self.peek('@'):
                    self.err('label', Unsupported)
                return node(L, 'this')
            if t.v == 'return':
                if self.peek('@'):
                    self.err('label', Unsupported)
                e = None
                if self.t[self.p].k != 'nl' and not self.peek('}') and not self.peek(';') and not self.peek('else'):
                    e = self.expr()
                return node(L, 'return', e)
            if t.v in ('break', 'continue'):
                if self.peek('@'):
                    self.err('label', Unsupported)
                return node(L, t.v)
            if t.v == 'if':
                self.exp('(')
                c = self.expr()
                self.exp(')')
                a = self.branch()
                save = self.p
                self.nls()
                b = None
                if self.acc('else'):
                    b = self.branch()
                else:
                    self.p = save
                return node(L, 'if', c, a, b)
            if t.v == 'when':
                s = None
                if self.acc('('):
                    if self.peek('val'):
                        self.err('when val', Unsupported)
                    s = self.expr()
                    self.exp(')')
                self.nl()
                self.exp('{')
                self.nls()
                br = []
                while not self.acc('}'):
                    if self.acc('else'):
                        conds = None
                    else:
                        conds = [self.expr()]
                        while self.acc(','):
                            self.nl()
                            conds.append(self.expr())
                    self.nl()
                    self.exp('->')
                    br.append((conds, self.branch()))
                    self.nls()
                return node(L, 'when', s, br)
        if t.k == 'op' and t.v == '(':
            e = self.expr()
            self.exp(')')
            return node(L, 'paren', e)
        self.p -= 1
        self.err('expression', Unsupported if t.v in ('::', 'object', 'throw', 'try', 'fun', 'super', '{') else KtError)

    def branch(self):
        self.nl()
        if self.peek('{'):
            return self.block()
        if self.peek(';'):
            return []
        return [self.stmt()]


# ---------------------------------------------------------------- types and translation
BITS = {'Byte': 8, 'Short': 16, 'Int': 32, 'Long': 64, 'UByte': 8, 'UShort': 16, 'UInt': 32, 'ULong': 64}
SGN = ('Byte', 'Short', 'Int', 'Long')
UNS = ('UByte', 'UShort', 'UInt', 'ULong')
INT = SGN + UNS
FLT = ('Float', 'Double')
ARR = {'ByteArray': ('Byte', 'b'), 'ShortArray': ('Short', 'h'), 'IntArray': ('Int', 'i'), 'LongArray': ('Long', 'q'), 'UByteArray': ('UByte', 'B'), 'UShortArray': ('UShort', 'H'),
       'UIntArray': ('UInt', 'I'), 'ULongArray': ('ULong', 'Q'), 'FloatArray': ('Float', 'f'), 'DoubleArray': ('Double', 'd'), 'BooleanArray': ('Boolean', '')}
BUILTIN = set(INT + FLT + ('Boolean', 'String', 'Any', 'Unit', 'Nothing', 'Char', 'Number', 'Array')) | set(ARR)
# other names every Kotlin file sees; a class of the same name in the package wins over them
RT = '''
from array import array
import math, struct, ctypes
class KException(Exception): pass
def nn(x):
    if x is None: raise KException('NullPointerException')
    return x
def IX(i):
    if i < 0: raise IndexError('ArrayIndexOutOfBoundsException')
    return i
def NZ(n):
    if n < 0: raise KException('NegativeArraySizeException')
    if n > 50000000: raise KException('OutOfMemoryError')
    return n
def F32(x):
    return ctypes.c_float(x).value
def fbits(i): return struct.unpack('<f', struct.pack('<I', i & 0xffffffff))[0]
def dbits(i): return struct.unpack('<d', struct.pack('<Q', i & (1 << 64) - 1))[0]
def frb(f):
    try: return struct.unpack('<i', struct.pack('<f', f))[0]
    except OverflowError: return struct.unpack('<i', struct.pack('<f', math.copysign(math.inf, f)))[0]
def drb(f): return struct.unpack('<q', struct.pack('<d', f))[0]
def f2i(f, lo, hi):
    if f != f: return 0
    if f <= lo: return lo
    if f >= hi: return hi
    return int(f)
def idiv(a, b):
    if b == 0: raise KException('ArithmeticException')
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def irem(a, b):
    if b == 0: raise KException('ArithmeticException')
    r = abs(a) % abs(b)
    return -r if a < 0 else r
def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a: return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b
def frem(a, b):
    if b == 0 or a in (math.inf, -math.inf): return math.nan
    return math.fmod(a, b)
def kpow(a, b):
    try: return math.pow(a, b)
    except OverflowError: return math.inf if a > 0 or b % 2 == 0 else -math.inf
    except ValueError: return math.nan if a < 0 else math.inf
def corange(a, i, j):
    if i < 0 or j > len(a) or i > j: raise IndexError('copyOfRange')
    return a[i:j]
def cinto(a, d, o=0, i=0, j=None):
    if j is None: j = len(a)
    if o < 0 or i < 0 or j < i or j > len(a) or o + (j - i) > len(d): raise IndexError('copyInto')
    d[o:o + (j - i)] = a[i:j]
    return d
def utf8d(a):
    if len(a) > 100000000: raise KException('OutOfMemoryError')
    return a.tobytes().decode('utf-8', 'replace')
def utf8e(s): return array('b', s.encode('utf-8', 'replace'))
def w32(x): return ((x + 0x80000000) & 0xffffffff) - 0x80000000
def w64(x): return ((x + (1 << 63)) & ((1 << 64) - 1)) - (1 << 63)
def bh(k, x):
    if x is None: return 0
    if k == 'o': return x.hashCode_0()
    if k == 'Boolean': return 1231 if x else 1237
    if k == 'Float': return frb(x) if x == x else 0x7fc00000
    if k == 'Double':
        x = drb(x) if x == x else 0x7ff8000000000000
        k = 'Long'
    if k in ('Long', 'ULong'):
        x &= (1 << 64) - 1
        return w32(x ^ x >> 32)
    if k == 'String':
        h = 0
        b = x.encode('utf-16-le', 'surrogatepass')
        for i in range(0, len(b), 2): h = (31 * h + b[i] + 256 * b[i + 1]) & 0xffffffff
        return w32(h)
    if k == 'e': return w32(id(x) >> 4)
    if k == 'i': return w32(id(x) >> 4)
    if k[0] == '[':
        h = 1
        for y in x: h = (31 * h + bh(k[1:], y)) & 0xffffffff
        return w32(h)
    return w32(x)
def keq(k, x, y):
    """== of two values of static kind k"""
    if x is None or y is None: return x is y
    if k == 'o': return x.equals_0(y)
    if k == 'e' or k == 'i': return x is y
    if k == 'Float' or k == 'Double': return x == y
    if k[0] == '[':
        return len(x) == len(y) and all(keq2(k[1:], a, b) for a, b in zip(x, y))
    return x == y
def keq2(k, x, y):
    if k == 'Float' or k == 'Double': return drb(x) == drb(y) or (x != x and y != y)
    return keq(k, x, y)
'''


def tstr(t):
    if isinstance(t, tuple):
        if t[0] == 'null':
            return tstr(t[1]) + '?'
        if t[0] == 'gen':
            return t[1] + '<' + ', '.join(map(tstr, t[2])) + '>'
        if t[0] == 'arr':
            return 'Array<' + tstr(t[1]) + '>'
        if t[0] == 'ilit':
            return ('UInt' if t[2] else 'Int') + ' literal'
    return str(t)


class Prog:
    def __init__(self, files, knowns):
        """files: [File]; knowns: names of all types of the schema"""
        self.files, self.knowns = files, set(knowns)
        self.classes = {}
        for f in files:
            seen = set()
            for c in f.classes:
                if c.fq in self.classes:
                    raise KtError('%s:%d: redeclaration of %s (also in %s)' % (f.where, c.line, c.fq, self.classes[c.fq].where))
                self.classes[c.fq] = c
                seen.add(c.name)
        self.pkgs = {f.pkg for f in files}
        self.pkgfuns = {}
        for f in files:
            for fn in f.funs:
                self.pkgfuns.setdefault(f.pkg, []).append((f, fn))
            if f.props:
                raise Unsupported('%s: top-level property' % f.where)
        for i, c in enumerate(self.classes.values()):
            c.py = 'C%d_%s' % (i, c.name)
        self.out = []
        for f in files:
            for i in f.imports:
                if i.endswith('.*'):
                    p = i[:-2]
                    if p not in self.pkgs and not p.startswith(('kotlin', 'java')):
                        raise KtError('%s: unresolved import %s' % (f.where, i))
                elif i not in self.classes and not i.startswith(('kotlin', 'java')):
                    raise KtError('%s: unresolved import %s' % (f.where, i))

    # ---- names
    def lookup(self, name, f):
        """class visible by simple name in file f, or None"""
        if '.' in name:
            return self.classes.get(name)
        hits = [self.classes[i] for i in f.imports if i in self.classes and i.rsplit('.', 1)[-1] == name]
        if hits:
            return hits[0]
        c = self.classes.get((f.pkg + '.' if f.pkg else '') + name)
        if c:
            return c
        hits = {}
        for i in f.imports:
            if i.endswith('.*') and i[:-2] + '.' + name in self.classes:
                hits[i] = self.classes[i[:-2] + '.' + name]
        if len(hits) > 1:
            raise KtError('%s: %s is ambiguous between %s' % (f.where, name, ', '.join(sorted(hits))))
        for c in hits.values():
            return c

    def rtype(self, t, f, line):
        """resolve a parsed type"""
        if t is None:
            return None
        if isinstance(t, tuple):
            if t[0] == 'null':
                x = self.rtype(t[1], f, line)
                return x if isinstance(x, tuple) and x[0] == 'null' else ('null', x)
            if t[0] == 'gen':
                if t[1] != 'Array' or len(t[2]) != 1 or self.lookup('Array', f):
                    raise Unsupported('%s:%d: type %s' % (f.where, line, tstr(t)))
                return ('arr', self.rtype(t[2][0], f, line))
        c = self.lookup(t, f)
        if c:
            return c
        if t.startswith('kotlin.') and t[7:] in BUILTIN:
            return t[7:]
        if t in BUILTIN:
            if t == 'Array':
                raise KtError('%s:%d: one type argument expected for Array' % (f.where, line))
            return t
        if t.rsplit('.', 1)[-1] in self.knowns:
            raise KtError('%s:%d: unresolved reference %s' % (f.where, line, t))
        raise Unsupported('%s:%d: type %s' % (f.where, line, t))

    def name(self, t):
        if isinstance(t, Cls):
            return t.fq
        if isinstance(t, tuple):
            if t[0] == 'null':
                return self.name(t[1]) + '?'
            if t[0] == 'arr':
                return 'Array<' + self.name(t[1]) + '>'
        return tstr(t)

    # ---- declarations
    def compile(self):
        w = self.out.append
        w(RT)
        for f in self.files:
            for c in f.classes:
                self.declare(c, f)
        for pkg, fns in self.pkgfuns.items():
            for k, (f, fn) in enumerate(fns):
                self.sig(fn, f)
                fn.py = 'F%d_%s' % (abs(hash(pkg)) % 10 ** 8, fn.name + str(k))
        for f in self.files:
            for c in f.classes:
                self.emit_class(c, f)
        for pkg, fns in self.pkgfuns.items():
            for f, fn in fns:
                self.emit_fun(fn, None, f, '', fn.py, True)
        return '\n'.join(self.out) + '\n'

    def sig(self, fn, f):
        fn.ptypes = [self.rtype(t, f, fn.line) for _, t, _ in fn.params]
        fn.rtype = self.rtype(fn.ret, f, fn.line) if fn.ret else (None if fn.body[0] == 'expr' else 'Unit')
        fn.req = sum(1 for p in fn.params if p[2] is None)

    def declare(self, c, f):
        for p in c.ctor + list(c.props.values()) + list(c.sprops.values()):
            p.rtype = self.rtype(p.typ, f, p.line) if p.typ else None
            p.cls = c
        for p in c.ctor:
            c.props[p.name] = p
        for tab, pre in ((c.funs, ''), (c.sfuns, 's_')):
            seen = {}
            for fn in tab:
                self.sig(fn, f)
                k = (fn.name, tuple(self.name(t) for t in fn.ptypes))
                if k in seen:
                    raise KtError('%s:%d: conflicting overloads of %s' % (f.where, fn.line, fn.name))
                seen[k] = 1
                fn.cls = c
                fn.py = pre + fn.name + '_%d' % sum(1 for x in tab[:tab.index(fn)] if x.name == fn.name)
        # getters and setters of the JVM
        jvm = {}
        for p in c.props.values():
            n = p.name
            cap = n[:1].upper() + n[1:]
            isx = re.match(r'is[^a-z]', n)
            if 'private' in p.mods and not p.getter:
                continue
            for m in [n if isx else 'get' + cap] + (['set' + (n[2:] if isx else cap) + ':' + self.name(p.rtype) if p.rtype else ''] if p.mut else []):
                if m and m in jvm:
                    raise KtError('%s:%d: platform declaration clash: %s of %s and %s' % (f.where, p.line, m, jvm[m], n))
                jvm[m] = n
        for fn in c.funs:
            if not fn.params and fn.name in jvm:
                raise KtError('%s:%d: platform declaration clash: %s' % (f.where, fn.line, fn.name))
            if fn.name in ('equals', 'hashCode', 'toString') and 'override' not in fn.mods and len(fn.params) == (fn.name == 'equals') and (fn.name != 'equals' or self.name(fn.ptypes[0]) == 'Any?'):
                raise KtError('%s:%d: %s hides a member of its supertype and needs override' % (f.where, fn.line, fn.name))
            if 'override' in fn.mods and not (fn.name in ('hashCode', 'toString') and not fn.params or fn.name == 'equals' and [self.name(x) for x in fn.ptypes] == ['Any?']):
                raise KtError('%s:%d: %s overrides nothing' % (f.where, fn.line, fn.name))

    def emit_class(self, c, f):
        w = self.out.append
        w('class %s:' % c.py)
        w('    fq = %r' % c.fq)
        if c.kind == 'enum':
            w('    def __init__(self, name%s):' % ''.join(', a%d' % i for i in range(len(c.ctor))))
            w('        self.name = name')
            for i, p in enumerate(c.ctor):
                w('        self.p_%s = a%d' % (p.name, i))
            if any(n not in {x.name for x in c.ctor} for n in c.props):
                raise Unsupported('%s: property of an enum' % f.where)
        else:
            w('    def __init__(self):')
            w('        pass')
            for p in c.props.values():
                if p.init is None:
                    if not p.getter or (p.mut and not p.setter):
                        raise KtError('%s:%d: property %s must be initialized' % (f.where, p.line, p.name))
                    continue
                fc = FC(self, c, f, None)
                if p.rtype is not None:
                    code = fc.conv(p.init, p.rtype)
                else:
                    code, p.rtype = fc.ex(p.init)
                    p.rtype = fc.settle(p.rtype)
                w('        self.p_%s = %s' % (p.name, code))
        for p in c.props.values():
            if p.getter:
                if p.init is not None:
                    raise Unsupported('%s:%d: getter and initializer' % (f.where, p.line))
                p.getter.rtype = p.rtype
                p.getter.ptypes, p.getter.req = [], 0
                self.emit_fun(p.getter, c, f, '    ', 'get_' + p.name, False)
                if p.rtype is None:
                    p.rtype = p.getter.rtype
            if p.setter:
                p.setter.rtype, p.setter.ptypes, p.setter.req = 'Unit', [p.rtype], 1
                if not p.mut:
                    raise KtError('%s:%d: a val has no setter' % (f.where, p.line))
                self.emit_fun(p.setter, c, f, '    ', 'set_' + p.name, False)
        for p in c.sprops.values():
            fc = FC(self, c, f, None)
            if p.init is None or p.getter or p.mut:
                raise Unsupported('%s:%d: companion property' % (f.where, p.line))
            code = fc.conv(p.init, p.rtype) if p.rtype is not None else None
            if code is None:
                code, t = fc.ex(p.init)
                p.rtype = fc.settle(t)
            w('    s_%s = %s' % (p.name, code))
        for fn in c.funs:
            self.emit_fun(fn, c, f, '    ', fn.py, False)
        for fn in c.sfuns:
            self.emit_fun(fn, c, f, '    ', fn.py, True)
        if c.kind == 'class' and not any(fn.py == 'equals_0' for fn in c.funs):
            w('    def equals_0(self, o): return self is o')
        if c.kind == 'class' and not any(fn.py == 'hashCode_0' for fn in c.funs):
            w('    def hashCode_0(self): return bh("i", self)')
        for i, (n, args, line) in enumerate(c.entries):
            fc = FC(self, c, f, None)
            if len(args) != len(c.ctor):
                raise KtError('%s:%d: %s: wrong number of arguments' % (f.where, line, n))
            w('%s.e_%s = %s(%s)' % (c.py, n, c.py, ', '.join([repr(n)] + [fc.conv(a, p.rtype) for a, p in zip(args, c.ctor)])))
        if c.kind == 'enum':
            w('%s.entries = [%s]' % (c.py, ', '.join('%s.e_%s' % (c.py, e[0]) for e in c.entries)))

    def emit_fun(self, fn, c, f, ind, py, static):
        fc = FC(self, c, f, fn, static)
        ps = []
        for (n, t, d), rt in zip(fn.params, fn.ptypes):
            v = fc.declare(n, rt, False, fn.line)
            ps.append(v + ('=' + fc.conv(d, rt) if d is not None else ''))
        if static and ind:
            self.out.append(ind + '@staticmethod')
        self.out.append('%sdef %s(%s):' % (ind, py, ', '.join((['self'] if not static else []) + ps)))
        mark = len(self.out)
        if fn.body[0] == 'expr':
            if fn.rtype is None:
                code, t = fc.ex(fn.body[1])
                fn.rtype = fc.settle(t)
            elif fn.rtype == 'Unit':
                raise Unsupported('%s:%d: expression body' % (f.where, fn.line))
            else:
                code = fc.conv(fn.body[1], fn.rtype)
            self.out.append(ind + '    return ' + code)
        else:
            falls = fc.block(fn.body[1], ind + '    ')
            if falls and fn.rtype != 'Unit':
                raise KtError('%s:%d: a function with a block body must return a value: %s' % (f.where, fn.line, fn.name))
        if len(self.out) == mark:
            self.out.append(ind + '    pass')


class FC:
    """one function body"""

    def __init__(self, prog, c, f, fn, static=False):
        self.g, self.c, self.f, self.fn, self.static = prog, c, f, fn, static
        self.scopes, self.n, self.loops = [{}], 0, []

    def err(self, line, what, cls=KtError):
        raise cls('%s:%d: %s' % (self.f.where, line, what))

    def declare(self, n, t, mut, line):
        if n in self.scopes[-1]:
            self.err(line, 'conflicting declarations of %s' % n)
        self.n += 1
        v = 'v%d_%s' % (self.n, re.sub(r'\W', '_', n))
        self.scopes[-1][n] = [v, t, mut]
        return v

    def find(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]

    # ---- types
    def settle(self, t):
        if isinstance(t, tuple) and t[0] == 'ilit':
            if t[2]:
                return 'UInt' if t[1] < 2 ** 32 else 'ULong'
            return 'Int' if -2 ** 31 <= t[1] < 2 ** 31 else 'Long'
        return t

    def fits(self, v, t):
        b = BITS[t]
        return 0 <= v < 2 ** b if t in UNS else -2 ** (b - 1) <= v < 2 ** (b - 1)

    def assignable(self, t, want):
        if isinstance(t, tuple) and t[0] == 'ilit':
            w = want[1] if isinstance(want, tuple) and want[0] == 'null' else want
            if w in (UNS if t[2] else SGN):
                return self.fits(t[1], w)
            return w == 'Any'
        if t == want or t == 'Nothing':
            return True
        if isinstance(want, tuple) and want[0] == 'null':
            return t == 'null' or self.assignable(t[1] if isinstance(t, tuple) and t[0] == 'null' else t, want[1])
        if want == 'Any':
            return t != 'null' and not (isinstance(t, tuple) and t[0] == 'null')
        return False

    def conv(self, e, want):
        """code of e where a value of type want is expected"""
        code, t = self.ex(e, want)
        if not self.assignable(t, want):
            self.err(e.line, 'type mismatch: %s where %s is expected' % (self.g.name(t), self.g.name(want)))
        return code

    # ---- statements; each returns whether control can fall through
    def block(self, stmts, ind, scope=True):
        if scope:
            self.scopes.append({})
        mark, falls = len(self.g.out), True
        for s in stmts:
            falls = self.stmt(s, ind) and falls
        if len(self.g.out) == mark:
            self.g.out.append(ind + 'pass')
        if scope:
            self.scopes.pop()
        return falls

    def stmt(self, s, ind):
        w = self.g.out.append
        k = s[0]
        if k == 'val':
            _, n, ty, e, mut = s
            rt = self.g.rtype(ty, self.f, s.line) if ty else None
            if e is None:
                if rt is None:
                    self.err(s.line, 'a variable needs a type or a value')
                self.declare(n, rt, True, s.line)
                self.err(s.line, 'late initialisation', Unsupported)
            if rt is not None:
                code = self.conv(e, rt)
            else:
                code, t = self.ex(e)
                rt = self.settle(t)
                if rt == 'null':
                    self.err(s.line, 'variable of type Nothing?', Unsupported)
            w('%s%s = %s' % (ind, self.declare(n, rt, mut, s.line), code))
            return True
        if k == 'assign':
            self.assign(s, ind)
            return True
        if k == 'while':
            c = self.conv(s[1], 'Boolean')
            w('%swhile %s:' % (ind, c))
            self.loops.append('while')
            self.brk = False
            self.block(s[2], ind + '    ')
            self.loops.pop()
            return not (s[1] == ('bool', True) and not has(s[2], 'break'))
        if k == 'dowhile':
            if has(s[1], 'continue'):
                self.err(s.line, 'continue in do while', Unsupported)
            w('%swhile True:' % ind)
            self.scopes.append({})
            self.loops.append('do')
            self.block(s[1], ind + '    ', scope=False)
            c = self.conv(s[2], 'Boolean')
            self.loops.pop()
            self.scopes.pop()
            w('%s    if not (%s): break' % (ind, c))
            return True
        if k == 'for':
            self.loop(s[1], s[2], s[3], ind, s.line)
            return True
        if k == 'expr':
            return self.stex(s[1], ind)
        self.err(s.line, 'statement ' + k, Unsupported)

    def loop(self, n, it, body, ind, line):
        rng, t = self.range_(it)
        self.g.out.append('')
        at = len(self.g.out) - 1
        self.scopes.append({})
        v = self.declare(n, t, False, line)
        self.g.out[at] = '%sfor %s in %s:' % (ind, v, rng)
        self.loops.append('for')
        self.block(body, ind + '    ')
        self.loops.pop()
        self.scopes.pop()

    def range_(self, e):
        if e[0] == 'paren':
            return self.range_(e[1])
        step = None
        if e[0] == 'infix' and e[1] == 'step':
            step, e = self.conv(e[3], 'Int'), e[2]
            while e[0] == 'paren':
                e = e[1]
        if e[0] == 'infix' and e[1] in ('until', 'downTo') or e[0] == 'bin' and e[1] in ('..', '..<'):
            op = e[1]
            (a, ta), (b, tb) = self.ex(e[2]), self.ex(e[3])
            ta, tb = self.settle(ta), self.settle(tb)
            if ta != tb and not (ta in SGN and tb in SGN) or ta not in INT:
                self.err(e.line, 'range of %s and %s' % (self.g.name(ta), self.g.name(tb)))
            t = 'Long' if 'Long' in (ta, tb) else 'Int' if ta in SGN else ta
            st = step or '1'
            if op == 'downTo':
                return 'range(%s, (%s) - 1, -(%s))' % (a, b, st), t
            return 'range(%s, %s%s, %s)' % (a, b, ' + 1' if op == '..' else '', st), t
        if e[0] == 'dot' and e[2] == 'indices' and not step:
            c, t = self.ex(e[1])
            if t in ARR or isinstance(t, tuple) and t[0] == 'arr':
                return 'range(len(%s))' % c, 'Int'
        c, t = self.ex(e)
        if not step and t in ARR:
            return c, ARR[t][0]
        if not step and isinstance(t, tuple) and t[0] == 'arr':
            return c, t[1]
        self.err(e.line, 'loop', Unsupported)

    def stex(self, e, ind):
        """expression statement"""
        w = self.g.out.append
        k = e[0]
        if k == 'paren':
            return self.stex(e[1], ind)
        if k == 'return':
            if self.fn is None:
                self.err(e.line, 'return here')
            if e[1] is None:
                if self.fn.rtype != 'Unit':
                    self.err(e.line, 'return without a value')
                w(ind + 'return')
            elif e[1][0] == 'when' and len(e[1][2]) > 12:
                # a long when: a chain of ifs
                subj, t = self.ex(e[1][1]) if e[1][1] is not None else (None, None)
                w('%ssb_ = %s' % (ind, subj))
                for conds, b in e[1][2]:
                    v = self.blockexpr(b, self.fn.rtype, e.line)
                    if conds is None:
                        w('%sreturn %s' % (ind, v))
                    else:
                        w('%sif %s: return %s' % (ind, ' or '.join(self.cond(c, 'sb_', t) for c in conds), v))
            else:
                if self.fn.rtype == 'Unit':
                    self.err(e.line, 'a value is returned from a function of Unit')
                w('%sreturn %s' % (ind, self.conv(e[1], self.fn.rtype)))
            return False
        if k in ('break', 'continue'):
            if not self.loops:
                self.err(e.line, k + ' outside of a loop')
            w(ind + k)
            return False
        if k == 'if':
            _, c, a, b = e
            narrowed = None
            if c[0] == 'is' and c[1] and c[2][0] == 'name' and self.find(c[2][1]) and b is None:
                narrowed = (c[2][1], self.g.rtype(c[3], self.f, c.line))
            cc = self.conv(c, 'Boolean')
            w('%sif %s:' % (ind, cc))
            fa = self.block(a, ind + '    ')
            fb = True
            if b is not None:
                w(ind + 'else:')
                fb = self.block(b, ind + '    ')
            if narrowed and not fa:
                v = self.find(narrowed[0])
                self.scopes[-1][narrowed[0]] = [v[0], narrowed[1], v[2]]
            return fa or fb
        if k == 'when':
            subj, t = self.ex(e[1]) if e[1] is not None else (None, None)
            self.n += 1
            sv = 'v%d_when' % self.n
            if subj is not None:
                w('%s%s = %s' % (ind, sv, subj))
            falls, first, els = False, True, False
            for conds, b in e[2]:
                if conds is None:
                    els = True
                    w(ind + ('else:' if not first else 'if True:'))
                else:
                    w('%s%s %s:' % (ind, 'if' if first else 'elif', ' or '.join(self.cond(c, sv if subj is not None else None, t) for c in conds)))
                first = False
                falls = self.block(b, ind + '    ') or falls
            return falls or not els
        if k == 'call' and e[1] == ('name', 'run') and e[3] is not None and not e[2]:
            return self.block(e[3][2], ind)
        if k == 'call' and e[1] == ('name', 'repeat') and e[3] is not None and len(e[2]) == 1:
            c = self.conv(e[2][0], 'Int')
            self.scopes.append({})
            v = self.declare(e[3][1][0] if e[3][1] else 'it', 'Int', False, e.line)
            w('%sfor %s in range(%s):' % (ind, v, c))
            self.loops.append('repeat')
            if has(e[3][2], 'break') or has(e[3][2], 'continue'):
                self.err(e.line, 'break in repeat', Unsupported)
            self.block(e[3][2], ind + '    ')
            self.loops.pop()
            self.scopes.pop()
            return True
        if k in ('post', 'un') and e[1] in ('++', '--'):
            one = node(e.line, 'int', 1, False, False)
            self.assign(node(e.line, 'assign', e[1][0] + '=', e[2], one), ind, inc=True)
            return True
        if k in ('call', 'infix', 'name', 'dot', 'index', 'bin', 'un', 'int', 'is', 'nn', 'bool'):
            c, t = self.ex(e)
            w(ind + c)
            return t != 'Nothing'
        self.err(e.line, 'statement ' + k, Unsupported)

    def assign(self, s, ind, inc=False):
        _, op, tg, e = s
        w = self.g.out.append
        while tg[0] == 'paren':
            tg = tg[1]
        # the target
        if tg[0] == 'name':
            v = self.find(tg[1])
            if v:
                code, t = v[0], v[1]
                if not v[2]:
                    self.err(s.line, 'val %s cannot be reassigned' % tg[1])
                put = '%s = %%s' % code
            elif tg[1] == 'field':
                self.err(s.line, 'backing field', Unsupported)
            else:
                if self.c is None or tg[1] not in self.c.props or self.static:
                    self.err(s.line, 'unresolved reference %s' % tg[1])
                code, t, put = self.target_prop('self', self.c, tg[1], s.line)
        elif tg[0] == 'dot' and not tg[3]:
            rc, rt = self.ex(tg[1])
            if not isinstance(rt, Cls):
                self.err(s.line, 'assignment to %s of %s' % (tg[2], self.g.name(rt)), Unsupported)
            code, t, put = self.target_prop(rc, rt, tg[2], s.line)
        elif tg[0] == 'index':
            rc, rt = self.ex(tg[1])
            t = self.elem(rt, tg.line)
            ic = self.ix(tg[2])
            code = '%s[%s]' % (rc, ic)
            put = code + ' = %s'
        else:
            self.err(s.line, 'assignment target', KtError if tg[0] in ('int', 'call', 'bin') else Unsupported)
        if op == '=':
            w(ind + put % self.conv(e, t))
            return
        ec, et = self.ex(e)
        c, rt = self.arith(op[0], (code, t), (ec, et), s.line)
        if inc and t in INT:
            c, rt = self.wrap('(%s %s 1)' % (code, op[0]), t), t
        if not self.assignable(rt, t):
            self.err(s.line, 'type mismatch: %s where %s is expected' % (self.g.name(rt), self.g.name(t)))
        w(ind + put % c)

    def target_prop(self, rc, cls, n, line):
        p = cls.props.get(n)
        if p is None:
            self.err(line, 'unresolved reference %s of %s' % (n, cls.name))
        if not p.mut:
            self.err(line, 'val %s cannot be reassigned' % n)
        if 'private' in p.mods and cls is not self.c:
            self.err(line, 'cannot access %s: it is private in %s' % (n, cls.name))
        if p.setter:
            return '%s.get_%s()' % (rc, n), p.rtype, '%s.set_%s(%%s)' % (rc, n)
        return '%s.p_%s' % (rc, n), p.rtype, '%s.p_%s = %%s' % (rc, n)

    # ---- expressions
    def wrap(self, code, t):
        b = BITS[t]
        if t in UNS:
            return '(%s & %s)' % (code, hex(2 ** b - 1))
        return '((%s + %s & %s) - %s)' % (code, hex(2 ** (b - 1)), hex(2 ** b - 1), hex(2 ** (b - 1)))

    def elem(self, t, line):
        if t in ARR:
            return ARR[t][0]
        if isinstance(t, tuple) and t[0] == 'arr':
            return t[1]
        self.err(line, 'indexing of %s' % self.g.name(t), Unsupported if t == 'String' else KtError)

    def ix(self, e):
        c = self.conv(e, 'Int')
        return c if c.isdigit() else 'IX(%s)' % c

    def kind(self, t):
        if isinstance(t, tuple) and t[0] == 'null':
            t = t[1]
        if isinstance(t, Cls):
            return 'e' if t.kind == 'enum' else 'o'
        if isinstance(t, tuple) and t[0] == 'arr' or t in ARR:
            return 'i'
        return t

    def arith(self, op, a, b, line):
        (ca, ta), (cb, tb) = a, b
        if isinstance(ta, tuple) and ta[0] == 'ilit' and isinstance(tb, tuple) and tb[0] == 'ilit' and ta[2] == tb[2] and op in '+-*':
            v = {'+': ta[1] + tb[1], '-': ta[1] - tb[1], '*': ta[1] * tb[1]}[op]
            t = self.settle(ta) if BITS[self.settle(ta)] >= BITS[self.settle(tb)] else self.settle(tb)
            if self.fits(v, t):
                return '(%d)' % v, ('ilit', v, ta[2])
        ta, tb = self.settle(ta), self.settle(tb)
        if ta == 'String' and op == '+':
            self.err(line, 'string concatenation', Unsupported)
        for f in (SGN + FLT, UNS):
            if ta in f and tb in f:
                break
        else:
            self.err(line, 'no operator %s for %s and %s' % (op, self.g.name(ta), self.g.name(tb)))
        if 'Double' in (ta, tb) or 'Float' in (ta, tb):
            t = 'Double' if 'Double' in (ta, tb) else 'Float'
            fa, fb = (c if x in FLT else 'float(%s)' % c for c, x in ((ca, ta), (cb, tb)))
            if t == 'Float':
                fa, fb = (c if x in FLT else 'F32(%s)' % c for c, x in ((fa, ta), (fb, tb)))
            c = {'/': 'fdiv(%s, %s)', '%': 'frem(%s, %s)'}.get(op, '(%%s %s %%s)' % op) % (fa, fb)
            return ('F32(%s)' % c if t == 'Float' else c), t
        t = ('Long' if 'Long' in (ta, tb) else 'Int') if ta in SGN else ('ULong' if 'ULong' in (ta, tb) else 'UInt')
        if op in '/%':
            return self.wrap('%s(%s, %s)' % ('idiv' if op == '/' else 'irem', ca, cb), t), t
        return self.wrap('(%s %s %s)' % (ca, op, cb), t), t

    def compare(self, op, a, b, line):
        (ca, ta), (cb, tb) = a, b
        if op in ('===', '!=='):
            if ta in INT + FLT or tb in INT + FLT:
                self.err(line, 'identity of numbers', Unsupported)
            return '(%s %s %s)' % (ca, 'is' if op == '===' else 'is not', cb), 'Boolean'
        if op in ('==', '!='):
            la, lb = isinstance(ta, tuple) and ta[0] == 'ilit', isinstance(tb, tuple) and tb[0] == 'ilit'
            if la and not lb and self.assignable(ta, tb):
                ta = tb
            elif lb and not la and self.assignable(tb, ta):
                tb = ta
            ta, tb = self.settle(ta), self.settle(tb)
            na, nb = (t[1] if isinstance(t, tuple) and t[0] == 'null' else t for t in (ta, tb))
            if 'null' in (ta, tb):
                return '(%s %s %s)' % (ca, 'is' if op == '==' else 'is not', cb), 'Boolean'
            if na != nb and 'Any' not in (na, nb):
                self.err(line, 'operator %s cannot be applied to %s and %s' % (op, self.g.name(ta), self.g.name(tb)))
            k = self.kind(na)
            if 'Any' in (na, nb):
                self.err(line, 'equality with Any', Unsupported)
            if k in ('o', 'e', 'i') or ta != na or tb != nb:
                c = 'keq(%r, %s, %s)' % (k, ca, cb)
                return (c if op == '==' else '(not %s)' % c), 'Boolean'
            return '(%s %s %s)' % (ca, op, cb), 'Boolean'
        ta, tb = self.settle(ta), self.settle(tb)
        if not any(ta in f and tb in f for f in (SGN + FLT, UNS)) and not ta == tb == 'String':
            self.err(line, 'no comparison %s of %s and %s' % (op, self.g.name(ta), self.g.name(tb)))
        if ta == 'String':
            self.err(line, 'comparison of strings', Unsupported)
        return '(%s %s %s)' % (ca, op, cb), 'Boolean'

    def bits(self, op, a, b, line):
        (ca, ta), (cb, tb) = a, b
        ta = self.settle(ta)
        if op in ('shl', 'shr', 'ushr'):
            if ta not in ('Int', 'Long', 'UInt', 'ULong') or op == 'ushr' and ta in UNS:
                self.err(line, 'no %s for %s' % (op, self.g.name(ta)))
            if not self.assignable(tb, 'Int'):
                self.err(line, 'type mismatch: shift by %s' % self.g.name(tb))
            m = BITS[ta] - 1
            n = '%d' % (tb[1] & m) if isinstance(tb, tuple) else '(%s & %d)' % (cb, m)
            if op == 'shl':
                return self.wrap('(%s << %s)' % (ca, n), ta), ta
            if op == 'shr':
                return '(%s >> %s)' % (ca, n), ta
            return self.wrap('((%s & %s) >> %s)' % (ca, hex(2 ** BITS[ta] - 1), n), ta), ta
        if ta == 'Boolean' and tb == 'Boolean':
            return '(bool(%s %s %s))' % (ca, {'and': '&', 'or': '|', 'xor': '^'}[op], cb), 'Boolean'
        if ta not in ('Int', 'Long') + UNS:
            if ta in ('Byte', 'Short') and any(i in ('kotlin.experimental.*', 'kotlin.experimental.' + op) for i in self.f.imports):
                pass
            else:
                self.err(line, 'no %s for %s' % (op, self.g.name(ta)))
        if not self.assignable(tb, ta):
            self.err(line, 'type mismatch: %s %s %s' % (self.g.name(ta), op, self.g.name(tb)))
        return '(%s %s %s)' % (ca, {'and': '&', 'or': '|', 'xor': '^'}[op], cb), ta

    def cast(self, to, code, t, line):
        if t in INT:
            if to in INT:
                lo, hi = (0, 2 ** BITS[t] - 1) if t in UNS else (-2 ** (BITS[t] - 1), 2 ** (BITS[t] - 1) - 1)
                if self.fits(lo, to) and self.fits(hi, to):
                    return code, to
                return self.wrap(code, to), to
            if to == 'Double':
                return 'float(%s)' % code, to
            if to == 'Float':
                return 'i2f(%s)' % code if 0 else 'F32(%s)' % code, to
        if t in FLT:
            if to == 'Double':
                return code, to
            if to == 'Float':
                return 'F32(%s)' % code, to
            if to in ('Int', 'Long', 'UInt', 'ULong'):
                b = BITS[to]
                return 'f2i(%s, %s, %s)' % ((code, '0', hex(2 ** b - 1)) if to in UNS else (code, '-' + hex(2 ** (b - 1)), hex(2 ** (b - 1) - 1))), to
        self.err(line, 'no to%s() for %s' % (to, self.g.name(t)), KtError if t in INT + FLT + ('Boolean',) or isinstance(t, (Cls, tuple)) else Unsupported)

    def blockexpr(self, stmts, want, line):
        if len(stmts) != 1 or stmts[0][0] != 'expr':
            self.err(line, 'block as a value', Unsupported)
        if want is None:
            return self.ex(stmts[0][1])
        return self.conv(stmts[0][1], want)

    def cond(self, c, sv, t):
        if sv is None:
            return self.conv(c, 'Boolean')
        return self.compare('==', (sv, t), self.ex(c, t), c.line)[0]

    def join(self, rs, line):
        """common type of branches"""
        ts = [t for _, t in rs if t != 'Nothing']
        if not ts:
            return 'Nothing'
        lits = [t for t in ts if isinstance(t, tuple) and t[0] == 'ilit']
        if len(lits) == len(ts):
            return max(lits, key=lambda t: BITS[self.settle(t)])
        rest = [t for t in ts if t not in lits and t != 'null']
        if not rest:
            self.err(line, 'branches of different types', Unsupported)
        r = rest[0]
        nullable = 'null' in ts or any(isinstance(t, tuple) and t[0] == 'null' for t in rest)
        if nullable:
            r = r if isinstance(r, tuple) and r[0] == 'null' else ('null', r)
        for t in ts:
            if not self.assignable(t, r):
                self.err(line, 'branches of types %s and %s' % (self.g.name(r), self.g.name(t)), Unsupported)
        return r

    def ex(self, e, want=None):
        k, L = e[0], e.line
        if k == 'paren':
            return self.ex(e[1], want)
        if k == 'int':
            _, n, u, lng = e
            if lng:
                return '%d' % n, 'ULong' if u else 'Long'
            return '%d' % n, ('ilit', n, u)
        if k == 'float':
            return ('F32(%r)' if e[2] else '%r') % e[1], 'Float' if e[2] else 'Double'
        if k == 'bool':
            return str(e[1]), 'Boolean'
        if k == 'null':
            return 'None', 'null'
        if k == 'str':
            return repr(eval(e[1])), 'String'
        if k == 'this':
            if self.c is None or self.static:
                self.err(L, 'this is not defined here')
            return 'self', self.c
        if k == 'name':
            return self.ref(e[1], L)
        if k == 'un':
            if e[1] in ('++', '--'):
                return self.incr(e, L, True)
            c, t = self.ex(e[2])
            if e[1] == '!':
                if t != 'Boolean':
                    self.err(L, 'no ! for %s' % self.g.name(t))
                return '(not %s)' % c, t
            if isinstance(t, tuple) and t[0] == 'ilit' and not t[2]:
                return '(%s%s)' % (e[1], c), ('ilit', -t[1] if e[1] == '-' else t[1], False)
            if t in SGN:
                r = 'Long' if t == 'Long' else 'Int'
                return (self.wrap('(-%s)' % c, r) if e[1] == '-' else c), r
            if t in FLT:
                return '(%s%s)' % (e[1], c), t
            self.err(L, 'no unary %s for %s' % (e[1], self.g.name(self.settle(t))))
        if k == 'post':
            return self.incr(e, L, False)
        if k == 'nn':
            c, t = self.ex(e[1])
            return 'nn(%s)' % c, t[1] if isinstance(t, tuple) and t[0] == 'null' else t
        if k == 'is':
            c, t = self.ex(e[2])
            rt = self.g.rtype(e[3], self.f, L)
            if not isinstance(rt, Cls):
                self.err(L, 'type test', Unsupported)
            return '(%sisinstance(%s, %s))' % ('not ' if e[1] else '', c, rt.py), 'Boolean'
        if k == 'as':
            c, t = self.ex(e[1])
            rt = self.g.rtype(e[2], self.f, L)
            if t in INT and rt in INT and t != rt:
                self.err(L, 'cast from %s to %s' % (t, rt), Unsupported)
            return c, rt
        if k == 'infix':
            a, b = self.ex(e[2]), None
            if e[1] in ('and', 'or', 'xor', 'shl', 'shr', 'ushr'):
                return self.bits(e[1], a, self.ex(e[3]), L)
            self.err(L, 'infix ' + e[1], Unsupported)
        if k == 'bin':
            op = e[1]
            if op in ('&&', '||'):
                a = self.conv(e[2], 'Boolean')
                narrowed = None
                if op == '&&' and e[2][0] == 'is' and not e[2][1] and e[2][2][0] == 'name' and self.find(e[2][2][1]):
                    v = self.find(e[2][2][1])
                    self.scopes.append({e[2][2][1]: [v[0], self.g.rtype(e[2][3], self.f, L), v[2]]})
                    narrowed = 1
                if op == '&&' and e[2][0] == 'bin' and e[2][1] == '&&':
                    self.deep(e[2], L)
                b = self.conv(e[3], 'Boolean')
                if narrowed:
                    self.scopes.pop()
                return '(%s %s %s)' % (a, 'and' if op == '&&' else 'or', b), 'Boolean'
            if op == '?:':
                c, t = self.ex(e[2])
                r = self.ex(e[3])
                base = t[1] if isinstance(t, tuple) and t[0] == 'null' else t
                self.n += 1
                j = self.join([('', base), r], L)
                if r[1] == 'Nothing':
                    self.err(L, 'elvis with a jump', Unsupported)
                return '(v%d_ if (v%d_ := %s) is not None else %s)' % (self.n, self.n, c, r[0]), j
            if op in ('==', '!=', '===', '!==', '<', '>', '<=', '>='):
                return self.compare(op, self.ex(e[2]), self.ex(e[3]), L)
            if op in ('+', '-', '*', '/', '%'):
                return self.arith(op, self.ex(e[2]), self.ex(e[3]), L)
            self.err(L, 'operator ' + op, Unsupported)
        if k == 'if':
            if e[3] is None:
                self.err(L, 'if must have both main and else branches if used as an expression')
            c = self.conv(e[1], 'Boolean')
            if want is not None:
                return '(%s if %s else %s)' % (self.blockexpr(e[2], want, L), c, self.blockexpr(e[3], want, L)), want
            a, b = self.blockexpr(e[2], None, L), self.blockexpr(e[3], None, L)
            return '(%s if %s else %s)' % (a[0], c, b[0]), self.join([a, b], L)
        if k == 'when':
            return self.when(e, want, L)
        if k == 'index':
            c, t = self.ex(e[1])
            el = self.elem(t, L)
            return '%s[%s]' % (c, self.ix(e[2])), el
        if k == 'dot':
            return self.dot(e, L)
        if k == 'call':
            return self.call(e, want, L)
        if k in ('return', 'break', 'continue'):
            self.err(L, 'jump in an expression', Unsupported)
        self.err(L, 'expression ' + k, Unsupported)

    def deep(self, e, L):
        if e[0] == 'bin' and e[1] == '&&':
            self.deep(e[2], L)
            self.deep(e[3], L)
        elif e[0] == 'is':
            self.err(L, 'smart cast', Unsupported)

    def incr(self, e, L, prefix):
        v = self.find(e[2][1]) if e[2][0] == 'name' else None
        if not v or v[1] not in INT:
            self.err(L, 'variable expected for %s' % e[1] if e[2][0] in ('int', 'float', 'bool', 'un', 'bin', 'infix') else 'increment in an expression', KtError if e[2][0] in ('int', 'float', 'bool', 'un', 'bin', 'infix') else Unsupported)
        if not v[2]:
            self.err(L, 'val %s cannot be reassigned' % e[2][1])
        c = '(%s := %s)' % (v[0], self.wrap('(%s %s 1)' % (v[0], e[1][0]), v[1]))
        return (c if prefix else self.wrap('(%s %s 1)' % (c, '-' if e[1] == '++' else '+'), v[1])), v[1]

    def when(self, e, want, L):
        _, s, br = e
        sv, t = None, None
        if s is not None:
            code, t = self.ex(s)
            self.n += 1
            sv = 'v%d_w' % self.n
        if br[-1][0] is not None:
            if isinstance(t, Cls) and t.kind == 'enum':
                self.err(L, 'when over an enum', Unsupported)
            self.err(L, "'when' expression must be exhaustive")
        rs, conds = [], []
        for i, (cs, b) in enumerate(br):
            r = self.blockexpr(b, want, L)
            rs.append(r if want is None else (r, want))
            if cs is None:
                break
            cc = [self.cond(c, sv, t) for c in cs]
            conds.append(' or '.join(cc))
        out = rs[-1][0]
        for c, r in reversed(list(zip(conds, rs))):
            out = '(%s if %s else %s)' % (r[0], c, out)
        if s is not None:
            out = '(lambda %s: %s)(%s)' % (sv, out, code)
            if any(x in out for x in (':= ',)):
                self.err(L, 'assignment in when', Unsupported)
        return out, want if want is not None else self.join(rs, L)

    def ref(self, n, L):
        v = self.find(n)
        if v:
            return v[0], v[1]
        if self.c is not None:
            if n in self.c.props and not self.static:
                return self.prop('self', self.c, n, L)
            if n in self.c.sprops:
                return '%s.s_%s' % (self.c.py, n), self.c.sprops[n].rtype
            for x in self.c.entries:
                if x[0] == n:
                    return '%s.e_%s' % (self.c.py, n), self.c
        if n == 'field':
            self.err(L, 'backing field', Unsupported)
        c = self.g.lookup(n, self.f)
        if c:
            return c.py, ('class', c)
        if n in BUILTIN:
            return n, ('class', n)
        self.err(L, 'unresolved reference %s' % n, KtError if not n[0].isupper() or n in self.g.knowns else Unsupported)

    def prop(self, rc, cls, n, L):
        p = cls.props[n]
        if 'private' in p.mods and cls is not self.c:
            self.err(L, 'cannot access %s: it is private in %s' % (n, cls.name))
        if p.rtype is None:
            self.err(L, 'type of %s' % n, Unsupported)
        return ('%s.get_%s()' if p.getter else '%s.p_%s') % (rc, n), p.rtype

    def dot(self, e, L):
        _, r, n, safe = e
        c, t = self.ex(r)
        if isinstance(t, tuple) and t[0] == 'class':
            k = t[1]
            if isinstance(k, Cls):
                if n in k.sprops:
                    if 'private' in k.sprops[n].mods and k is not self.c:
                        self.err(L, 'cannot access %s' % n)
                    return '%s.s_%s' % (k.py, n), k.sprops[n].rtype
                for x in k.entries:
                    if x[0] == n:
                        return '%s.e_%s' % (k.py, n), k
                self.err(L, 'unresolved reference %s of %s' % (n, k.name), Unsupported if n in ('entries', 'Companion') else KtError)
            if k in INT and n in ('MAX_VALUE', 'MIN_VALUE', 'SIZE_BITS', 'SIZE_BYTES'):
                b = BITS[k]
                v = {'SIZE_BITS': b, 'SIZE_BYTES': b // 8, 'MAX_VALUE': 2 ** b - 1 if k in UNS else 2 ** (b - 1) - 1, 'MIN_VALUE': 0 if k in UNS else -2 ** (b - 1)}[n]
                return '(%d)' % v, 'Int' if n.startswith('SIZE') else k
            if n == 'Companion':
                return c, t
            self.err(L, 'reference %s of %s' % (n, k), Unsupported)
        return self.guard(c, t, safe, L, lambda c, t: self.member(c, t, n, L))

    def guard(self, c, t, safe, L, f):
        """f applied to a receiver that may be null"""
        if isinstance(t, tuple) and t[0] == 'null' or t == 'null':
            if not safe:
                code, rt = f(c, t)
                return code, rt
            self.n += 1
            v = 'v%d_' % self.n
            code, rt = f(v, t[1])
            return '(%s if (%s := %s) is not None else None)' % (code, v, c), rt if isinstance(rt, tuple) and rt[0] == 'null' else ('null', rt)
        return f(c, t)

    def member(self, c, t, n, L):
        if isinstance(t, tuple) and t[0] == 'null':
            self.err(L, 'only safe (?.) or non-null asserted (!!.) access to %s is allowed on %s' % (n, self.g.name(t)))
        if isinstance(t, Cls):
            if n in t.props:
                return self.prop(c, t, n, L)
            if t.kind == 'enum' and n == 'name':
                return c + '.name', 'String'
            if t.kind == 'enum' and n == 'ordinal':
                return '%s.entries.index(%s)' % (t.py, c), 'Int'
            self.err(L, 'unresolved reference %s of %s' % (n, t.name), KtError if n not in ('javaClass',) else Unsupported)
        if t in ARR or isinstance(t, tuple) and t[0] == 'arr':
            if n == 'size':
                return 'len(%s)' % c, 'Int'
            if n == 'lastIndex':
                return '(len(%s) - 1)' % c, 'Int'
        if t == 'String' and n == 'length':
            return '(len(%s.encode("utf-16-le", "surrogatepass")) // 2)' % c, 'Int'
        self.err(L, 'member %s of %s' % (n, self.g.name(self.settle(t))), Unsupported)

    def pick(self, fns, args, L, what):
        """overload by arguments; -> fn, codes"""
        fit, why = [], []
        for fn in fns:
            pos = [a for a in args if a[0] != 'named']
            named = {a[1]: a[2] for a in args if a[0] == 'named'}
            if len(pos) > len(fn.params) or any(k not in [p[0] for p in fn.params[len(pos):]] for k in named):
                continue
            if any(i >= len(pos) and p[2] is None and p[0] not in named for i, p in enumerate(fn.params)):
                continue
            saved = len(self.g.out), self.n
            try:
                codes = [self.conv(a, t) for a, t in zip(pos, fn.ptypes)]
                for p, t in zip(fn.params, fn.ptypes):
                    if p[0] in named:
                        codes.append('%s=%s' % ('v%d_%s' % ([x[0] for x in fn.params].index(p[0]) + 1, p[0]), self.conv(named[p[0]], t)))
                fit.append((fn, codes))
            except KtError as x:
                why.append(str(x))
        if not fit:
            self.err(L, 'no %s accepts these arguments%s' % (what, ': ' + why[0] if why else ''))
        if len(fit) > 1:
            # the one without defaulted parameters wins
            exact = [x for x in fit if len(x[0].params) == len(args)]
            if len(exact) != 1:
                self.err(L, 'overloads of ' + what, Unsupported)
            fit = exact
        return fit[0]

    def rt(self, fn, L):
        if fn.rtype is None:
            self.err(L, 'inferred result of %s' % fn.name, Unsupported)
        return fn.rtype

    def call(self, e, want, L):
        _, cal, args, lam, targs = e
        if cal[0] == 'name':
            n = cal[1]
            if self.find(n):
                self.err(L, 'call of a variable', Unsupported)
            if self.c is not None:
                for tab, st in ((self.c.funs, False), (self.c.sfuns, True)):
                    fns = [f for f in tab if f.name == n]
                    if fns and (st or not self.static):
                        fn, codes = self.pick(fns, args, L, n)
                        return '%s.%s(%s)' % (self.c.py if st else 'self', fn.py, ', '.join(codes)), self.rt(fn, L)
            fns = [fn for f, fn in self.g.pkgfuns.get(self.f.pkg, []) if 'private' not in fn.mods or f is self.f]
            for i in self.f.imports:
                if i.endswith('.*'):
                    fns += [fn for f, fn in self.g.pkgfuns.get(i[:-2], []) if 'private' not in fn.mods and i[:-2] != self.f.pkg]
            fns = [x for x in fns if x.name == n]
            if fns:
                fn, codes = self.pick(fns, args, L, n)
                return '%s(%s)' % (fn.py, ', '.join(codes)), self.rt(fn, L)
            c = self.g.lookup(n, self.f)
            if c:
                if args or c.kind == 'enum':
                    self.err(L, 'constructor of %s' % n)
                return c.py + '()', c
            return self.builtin(n, args, lam, targs, L)
        if cal[0] != 'dot':
            self.err(L, 'call', Unsupported)
        _, r, n, safe = cal
        c, t = self.ex(r)
        if isinstance(t, tuple) and t[0] == 'class':
            k = t[1]
            if isinstance(k, Cls):
                fns = [f for f in k.sfuns if f.name == n and ('private' not in f.mods or k is self.c)]
                if not fns:
                    self.err(L, 'unresolved reference %s of %s' % (n, k.name), Unsupported if n in ('values', 'valueOf') else KtError)
                fn, codes = self.pick(fns, args, L, n)
                return '%s.%s(%s)' % (k.py, fn.py, ', '.join(codes)), self.rt(fn, L)
            if n == 'fromBits' and k in FLT and len(args) == 1:
                return '%s(%s)' % ('fbits' if k == 'Float' else 'dbits', self.conv(args[0], 'Int' if k == 'Float' else 'Long')), k
            self.err(L, 'call of %s of %s' % (n, k), Unsupported)
        return self.guard(c, t, safe, L, lambda c, t: self.method(c, t, n, args, lam, L))

    def builtin(self, n, args, lam, targs, L):
        if n in ARR and len(args) == 1:
            el, code = ARR[n]
            size = 'NZ(%s)' % self.conv(args[0], 'Int')
            if lam is not None:
                body = self.lambody(lam, el, L)
                inner = '[%s for %s in range(%s)]' % (body[0], body[1], size)
                return ('array(%r, %s)' % (code, inner) if code else inner), n
            if not code:
                return '([False] * %s)' % size, n
            return 'array(%r, bytes(%s * %d))' % (code, size, {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'f': 4}.get(code, 8)), n
        if n == 'Array' and len(args) == 1 and lam is not None:
            size = 'NZ(%s)' % self.conv(args[0], 'Int')
            el = self.g.rtype(targs[0], self.f, L) if targs else None
            body = self.lambody(lam, el, L)
            return '[%s for %s in range(%s)]' % (body[0], body[1], size), ('arr', el or self.settle(body[2]))
        if n == 'arrayOfNulls' and len(args) == 1 and targs:
            return '([None] * NZ(%s))' % self.conv(args[0], 'Int'), ('arr', ('null', self.g.rtype(targs[0], self.f, L)))
        for a, (el, code) in ARR.items():
            if n == a[0].lower() + a[1:] + 'Of' or n == a[:-5].lower() + 'ArrayOf' or n == a[:2].lower() + a[2:] + 'Of':
                inner = '[%s]' % ', '.join(self.conv(x, el) for x in args)
                return ('array(%r, %s)' % (code, inner) if code else inner), a
        if n in ('maxOf', 'minOf') and len(args) == 2:
            a, b = self.ex(args[0]), self.ex(args[1])
            ta, tb = a[1], b[1]
            if self.assignable(ta, tb):
                t = self.settle(tb)
            elif self.assignable(tb, ta):
                t = ta
            else:
                self.err(L, '%s of %s and %s' % (n, self.g.name(ta), self.g.name(tb)))
            if t not in INT:
                self.err(L, n, Unsupported)
            return '%s(%s, %s)' % (n[:3], a[0], b[0]), t
        self.err(L, 'function ' + n, Unsupported)

    def lambody(self, lam, want, L):
        self.scopes.append({})
        v = self.declare(lam[1][0] if lam[1] else 'it', 'Int', False, L)
        if len(lam[2]) != 1 or lam[2][0][0] != 'expr':
            self.err(L, 'lambda', Unsupported)
        if want is not None:
            c, t = self.conv(lam[2][0][1], want), want
        else:
            c, t = self.ex(lam[2][0][1])
        self.scopes.pop()
        return c, v, t

    def method(self, c, t, n, args, lam, L):
        t = self.settle(t)
        if n == 'hashCode' and not args:
            if isinstance(t, tuple) and t[0] == 'arr' or t in ARR:
                return 'bh("i", %s)' % c, 'Int'
            return 'bh(%r, %s)' % (self.kind(t), c), 'Int'
        arr = isinstance(t, tuple) and t[0] == 'arr' or t in ARR
        narr = isinstance(t, tuple) and t[0] == 'null' and (t[1] in ARR or isinstance(t[1], tuple) and t[1][0] == 'arr')
        if (arr or narr) and n in ('contentEquals', 'contentHashCode', 'contentDeepEquals', 'contentDeepHashCode'):
            base = t if arr else t[1]
            el = ARR[base][0] if base in ARR else base[1]
            if 'Deep' in n:
                if base in ARR:
                    self.err(L, 'unresolved reference %s of %s' % (n, base))
                b2 = el[1] if isinstance(el, tuple) and el[0] == 'null' else el
                k = '[[' + ARR[b2][0] if b2 in ARR else '[' + self.kind(el)
            else:
                k = '[' + self.kind(el)
            if n.endswith('HashCode'):
                return 'bh(%r, %s)' % (k, c), 'Int'
            o, ot = self.ex(args[0])
            if not (self.assignable(ot, ('null', base))):
                self.err(L, 'type mismatch: %s where %s is expected' % (self.g.name(ot), self.g.name(base)))
            return 'keq(%r, %s, %s)' % (k, c, o), 'Boolean'
        if n == 'equals' and len(args) == 1:
            return self.compare('==', (c, t), self.ex(args[0]), L)
        if isinstance(t, tuple) and t[0] == 'null':
            self.err(L, 'only safe (?.) or non-null asserted (!!.) calls of %s are allowed on %s' % (n, self.g.name(t)))
        if isinstance(t, Cls):
            fns = [f for f in t.funs if f.name == n and ('private' not in f.mods or t is self.c)]
            if not fns:
                self.err(L, 'unresolved reference %s of %s' % (n, t.name), Unsupported if n in ('also', 'apply', 'let', 'run', 'toString') else KtError)
            fn, codes = self.pick(fns, args, L, n)
            return '%s.%s(%s)' % (c, fn.py, ', '.join(codes)), self.rt(fn, L)
        if n.startswith('to') and n[2:] in INT + FLT and not args:
            return self.cast(n[2:], c, t, L)
        if n == 'inv' and not args:
            if t in ('Int', 'Long'):
                return '(~%s)' % c, t
            if t in UNS:
                return self.wrap('(~%s)' % c, t), t
            if t in ('Byte', 'Short'):
                if any(i in ('kotlin.experimental.*', 'kotlin.experimental.inv') for i in self.f.imports):
                    return '(~%s)' % c, t
                self.err(L, 'unresolved reference inv of %s' % t)
            self.err(L, 'unresolved reference inv of %s' % self.g.name(t), KtError if t in FLT else Unsupported)
        if n in ('and', 'or', 'xor', 'shl', 'shr', 'ushr') and len(args) == 1 and t in INT + ('Boolean',):
            return self.bits(n, (c, t), self.ex(args[0]), L)
        if n in ('toRawBits', 'toBits') and not args and t in FLT:
            return '%s(%s)' % ('frb' if t == 'Float' else 'drb', c), 'Int' if t == 'Float' else 'Long'
        if n == 'pow' and t in FLT and len(args) == 1:
            if not any(i in ('kotlin.math.pow', 'kotlin.math.*') for i in self.f.imports):
                self.err(L, 'unresolved reference pow')
            a, ta = self.ex(args[0])
            if t == 'Double' and ta == 'Double':
                return 'kpow(%s, %s)' % (c, a), t
            self.err(L, 'pow of %s' % self.g.name(ta), Unsupported)
        if n in ('coerceAtLeast', 'coerceAtMost') and t in INT and len(args) == 1:
            return '%s(%s, %s)' % ('max' if n.endswith('Least') else 'min', c, self.conv(args[0], t)), t
        if n in ('plus', 'minus', 'times') and len(args) == 1 and t in INT + FLT:
            return self.arith({'plus': '+', 'minus': '-', 'times': '*'}[n], (c, t), self.ex(args[0]), L)
        if t == 'String':
            if n == 'encodeToByteArray' and not args:
                return 'utf8e(%s)' % c, 'ByteArray'
            if n == 'isEmpty' and not args:
                return '(%s == "")' % c, 'Boolean'
        if t == 'ByteArray':
            if n == 'decodeToString':
                if args:
                    pos = [self.conv(a, 'Int') for a in args if a[0] != 'named']
                    if len(pos) != len(args) or len(pos) > 2:
                        self.err(L, 'decodeToString', Unsupported)
                    return 'utf8d(corange(%s, %s, %s))' % (c, pos[0], pos[1] if len(pos) > 1 else 'len(%s)' % c), 'String'
                return 'utf8d(%s)' % c, 'String'
        if arr:
            if n == 'copyOfRange' and len(args) == 2:
                return 'corange(%s, %s, %s)' % (c, self.conv(args[0], 'Int'), self.conv(args[1], 'Int')), t
            if n in ('copyOf', 'clone') and not args:
                return '%s[:]' % c, t
            if n == 'copyInto' and args:
                names, pos = ['o', 'i', 'j'], []
                d = self.conv(args[0], t)
                for i, a in enumerate(args[1:]):
                    if a[0] == 'named':
                        pos.append('%s=%s' % ({'destinationOffset': 'o', 'startIndex': 'i', 'endIndex': 'j'}.get(a[1]) or self.err(L, 'copyInto ' + a[1]), self.conv(a[2], 'Int')))
                    else:
                        pos.append(self.conv(a, 'Int'))
                return 'cinto(%s)' % ', '.join([c, d] + pos), t
            if n == 'isEmpty' and not args:
                return '(len(%s) == 0)' % c, 'Boolean'
            if n == 'get' and len(args) == 1:
                return '%s[%s]' % (c, self.ix(args[0])), self.elem(t, L)
        if t in INT + FLT + ('Boolean',) and n in ('size', 'encode', 'decode', 'encodeSize', 'decodeSize', 'copyInto', 'number'):
            self.err(L, 'unresolved reference %s of %s' % (n, t))
        self.err(L, 'call of %s of %s' % (n, self.g.name(t)), Unsupported)


def has(stmts, what):
    """does a jump of that kind leave these statements"""
    def walk(x):
        if isinstance(x, N):
            if x[0] == what:
                return True
            if x[0] in ('while', 'dowhile', 'for', 'lambda') and what in ('break', 'continue') and x[0] != 'lambda':
                return False
        if isinstance(x, (tuple, list)):
            return any(walk(y) for y in x)
        return False
    return any(walk(s) for s in stmts)


def load(root, knowns):
    """all files below root -> (python source, {fq: {property: type}})"""
    files = []
    for p in sorted(glob.glob(root + '/**/*.kt', recursive=True)):
        with open(p, encoding='utf-8') as f:
            files.append(Parser(f.read(), os.path.relpath(p, root)).file())
    g = Prog(files, knowns)
    src = g.compile()
    return src, g
