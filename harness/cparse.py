"""C source text -> table of syntax nodes for spec/CSem.tla.

The parser is pycparser (from the wheelhouse); this module only renumbers its
tree in preorder and rewrites it into the node kinds of the specification.  No
node is evaluated or typed here.
"""
import sys, glob, os, subprocess
for w in glob.glob('/opt/veriftools/wheels/pycparser-*.whl'):
    sys.path.insert(0, w)
from pycparser import c_parser, c_ast as A

class Unsupported(Exception):
    pass

BASE = {}
def _b(names, t):
    BASE[tuple(sorted(names.split()))] = t
for s, u in (('', ''),):
    pass
for n in ('char', 'signed char'):
    _b(n, 'i8')
_b('unsigned char', 'u8')
for n in ('short', 'short int', 'signed short', 'signed short int'):
    _b(n, 'i16')
for n in ('unsigned short', 'unsigned short int'):
    _b(n, 'u16')
for n in ('int', 'signed', 'signed int'):
    _b(n, 'i32')
for n in ('unsigned', 'unsigned int'):
    _b(n, 'u32')
for n in ('long', 'long int', 'signed long', 'signed long int', 'long long', 'long long int',
          'signed long long', 'signed long long int'):
    _b(n, 'i64')
for n in ('unsigned long', 'unsigned long int', 'unsigned long long', 'unsigned long long int'):
    _b(n, 'u64')
_b('float', 'f32'); _b('double', 'f64'); _b('long double', 'f64'); _b('void', 'void')

def Z(n):
    if -2**30 < n < 2**30:
        return [n]
    s, l = (1 if n > 0 else -1), []
    n = abs(n)
    while n:
        l.append(n % 32768)
        n //= 32768
    return [s] + l

def unZ(z):
    if len(z) == 1:
        return z[0]
    n = 0
    for d in reversed(z[1:]):
        n = n * 32768 + d
    return z[0] * n

ESC = {'n': 10, 't': 9, 'r': 13, 'a': 7, 'b': 8, 'v': 11, 'f': 12, '\\': 92, "'": 39, '"': 34, '?': 63}
def unescape(s):
    """bytes of the text between the quotes"""
    out, i = [], 0
    b = s.encode('utf-8').decode('latin-1')
    while i < len(b):
        c = b[i]
        if c != '\\':
            out.append(ord(c)); i += 1
            continue
        c = b[i + 1]
        if c == 'x':
            j = i + 2
            while j < len(b) and b[j] in '0123456789abcdefABCDEF':
                j += 1
            out.append(int(b[i + 2:j], 16) & 255); i = j
        elif c in '01234567':
            j = i + 1
            while j < len(b) and j < i + 4 and b[j] in '01234567':
                j += 1
            out.append(int(b[i + 1:j], 8) & 255); i = j
        else:
            out.append(ESC[c]); i += 2
    return out

class Conv:
    def __init__(self, loose=False):
        self.loose = loose        # for Static.tla: keep what is wrong with a program in the table
        self.nodes = []
        self.seen = {}
        self.anon = 0

    def new(self, k):
        d = {'k': k}
        self.nodes.append(d)
        return len(self.nodes), d

    def fin(self, i):
        self.nodes[i - 1]['z'] = len(self.nodes)
        return i

    # ---- types; pre: list of node ids of definitions that come first
    def type(self, t, pre):
        if isinstance(t, A.TypeDecl) or isinstance(t, A.Typename):
            return self.type(t.type, pre)
        if isinstance(t, A.IdentifierType):
            names = tuple(sorted(t.names))
            if names in BASE:
                return [BASE[names]]
            if len(t.names) == 1:
                if t.names[0] == '_Bool':
                    raise Unsupported('_Bool')
                return ['td', t.names[0]]
            raise Unsupported('type ' + ' '.join(t.names))
        if isinstance(t, A.PtrDecl):
            if isinstance(t.type, A.FuncDecl):
                raise Unsupported('function pointer')
            return ['ptr', self.type(t.type, pre)]
        if isinstance(t, A.ArrayDecl):
            # the element type first, as in the source
            e = self.type(t.type, pre)
            if t.dim is None:
                return ['arr', e, -1]
            if isinstance(t.dim, A.Constant) and t.dim.value.isdigit() and not t.dim.value.startswith('0'):
                return ['arr', e, int(t.dim.value)]
            return ['arrx', e, self.expr(t.dim)]
        if isinstance(t, (A.Struct, A.Union)):
            if t.name is None:
                if id(t) not in self.seen:
                    self.anon += 1
                    self.seen[id(t)] = '#%d' % self.anon
                tag = self.seen[id(t)]
            else:
                tag = t.name
            if t.decls is not None and ('d', id(t)) not in self.seen:
                self.seen[('d', id(t))] = True
                i, n = self.new('sdef')
                n['tag'] = tag; n['u'] = isinstance(t, A.Union)
                inner, ms = [], []
                for d in t.decls:
                    if d.bitsize is not None:
                        raise Unsupported('bit-field')
                    mt = self.type(d.type, inner)
                    if d.name is None:
                        raise Unsupported('unnamed member')
                    ms.append({'n': d.name, 't': mt})
                n['ms'] = ms
                self.fin(i)
                pre.extend(inner)
                pre.append(i)
            elif t.decls is None and ('d', id(t)) not in self.seen and t.name is not None:
                pass
            return self.tag(tag, 'union' if isinstance(t, A.Union) else 'struct')
        if isinstance(t, A.Enum):
            if t.name is None:
                if id(t) not in self.seen:
                    self.anon += 1
                    self.seen[id(t)] = '#%d' % self.anon
                tag = self.seen[id(t)]
            else:
                tag = t.name
            if t.values is not None and ('d', id(t)) not in self.seen:
                self.seen[('d', id(t))] = True
                i, n = self.new('edef')
                n['tag'] = tag
                n['es'] = [{'n': e.name, 'e': self.expr(e.value) if e.value is not None else 0}
                           for e in t.values.enumerators]
                self.fin(i)
                pre.append(i)
            return self.tag(tag, 'enum')
        raise Unsupported('type %s' % type(t).__name__)

    def tag(self, tag, kind):
        return ['tag', tag, kind] if self.loose else ['tag', tag]

    # ---- expressions
    def const(self, c):
        if c.type == 'string':
            i, n = self.new('str')
            n['b'] = unescape(c.value[1:-1])
            return self.fin(i)
        if c.type == 'char':
            i, n = self.new('chr')
            b = unescape(c.value[1:-1])
            v = b[0]
            n['v'] = [v - 256 if v > 127 else v]
            return self.fin(i)
        if 'float' in c.type or 'double' in c.type:
            i, n = self.new('flt')
            s = c.value
            if s[-1] in 'fFlL' or s[:2].lower() == '0x':
                raise Unsupported('floating constant ' + s)
            m, _, ex = s.lower().partition('e')
            a, _, b = m.partition('.')
            v, d = int((a + b) or '0'), len(b) - int(ex or '0')
            if d < 0:
                v, d = v * 10 ** -d, 0
            n['v'] = Z(v); n['d'] = d
            return self.fin(i)
        i, n = self.new('num')
        s = c.value
        if s[-1] in 'uUlL':
            raise Unsupported('integer suffix')
        base = 16 if s[:2].lower() == '0x' else 8 if s[0] == '0' and len(s) > 1 else 10
        n['v'] = Z(int(s, base)); n['dec'] = int(s[0] != '0')
        return self.fin(i)

    def expr(self, e):
        if isinstance(e, A.Constant):
            return self.const(e)
        if isinstance(e, A.ID):
            i, n = self.new('id'); n['n'] = e.name
            return self.fin(i)
        if isinstance(e, A.BinaryOp):
            k = {'&&': 'and', '||': 'or'}.get(e.op, 'bin')
            i, n = self.new(k)
            if k == 'bin':
                n['op'] = e.op
            n['a'] = self.expr(e.left); n['b'] = self.expr(e.right)
            return self.fin(i)
        if isinstance(e, A.UnaryOp):
            op = e.op
            if op == 'sizeof':
                if isinstance(e.expr, A.Typename):
                    i, n = self.new('szt')
                    n['t'] = self.typename(e.expr)
                else:
                    i, n = self.new('sze')
                    n['a'] = self.expr(e.expr)
                return self.fin(i)
            if op in ('++', '--', 'p++', 'p--'):
                i, n = self.new('inc')
                n['op'] = op[-1]; n['pre'] = not op.startswith('p')
            elif op == '&':
                i, n = self.new('addr')
            elif op == '*':
                i, n = self.new('deref')
            elif op in '-+~!':
                i, n = self.new('un'); n['op'] = op
            else:
                raise Unsupported('unary ' + op)
            n['a'] = self.expr(e.expr)
            return self.fin(i)
        if isinstance(e, A.Assignment):
            i, n = self.new('asg')
            n['op'] = '=' if e.op == '=' else e.op[:-1]
            n['a'] = self.expr(e.lvalue); n['b'] = self.expr(e.rvalue)
            return self.fin(i)
        if isinstance(e, A.TernaryOp):
            i, n = self.new('cond')
            n['a'] = self.expr(e.cond); n['b'] = self.expr(e.iftrue); n['c'] = self.expr(e.iffalse)
            return self.fin(i)
        if isinstance(e, A.ExprList):
            xs = e.exprs
            if len(xs) == 1:
                return self.expr(xs[0])
            return self.comma(xs)
        if isinstance(e, A.Cast):
            i, n = self.new('cast')
            n['t'] = self.typename(e.to_type)
            n['a'] = self.expr(e.expr)
            return self.fin(i)
        if isinstance(e, A.ArrayRef):
            i, n = self.new('idx')
            n['a'] = self.expr(e.name); n['b'] = self.expr(e.subscript)
            return self.fin(i)
        if isinstance(e, A.StructRef):
            i, n = self.new('mem' if e.type == '.' else 'arrow')
            n['a'] = self.expr(e.name); n['f'] = e.field.name
            return self.fin(i)
        if isinstance(e, A.FuncCall):
            if not isinstance(e.name, A.ID):
                raise Unsupported('call')
            i, n = self.new('call')
            n['f'] = e.name.name
            n['as'] = [self.expr(a) for a in (e.args.exprs if e.args else [])]
            return self.fin(i)
        raise Unsupported('expression %s' % type(e).__name__)

    def comma(self, xs):
        i, n = self.new('comma')
        n['a'] = self.comma(xs[:-1]) if len(xs) > 2 else self.expr(xs[0])
        n['b'] = self.expr(xs[-1])
        return self.fin(i)

    def typename(self, t):
        pre = []
        r = self.type(t.type, pre)
        if pre:
            raise Unsupported('definition in type name')
        return r

    def init(self, e):
        if isinstance(e, A.InitList):
            i, n = self.new('il')
            n['is'] = [self.init(x) for x in e.exprs]
            return self.fin(i)
        if isinstance(e, A.NamedInitializer):
            raise Unsupported('designator')
        return self.expr(e)

    # ---- declarations -> list of node ids
    def decl(self, d):
        pre = []
        if isinstance(d, A.Typedef):
            t = self.type(d.type, pre)
            i, n = self.new('tdef'); n['n'] = d.name; n['t'] = t
            return pre + [self.fin(i)]
        if d.name is None:
            t = self.type(d.type, pre)
            if self.loose and not pre:
                i, n = self.new('tagdecl'); n['t'] = t
                return [self.fin(i)]
            return pre
        if isinstance(d.type, A.FuncDecl):
            i, n = self.new('fproto')
            n['n'] = d.name
            n['t'] = self.type(d.type.type, pre)
            n['ps'] = [{'n': p.name or '', 't': self.type(p.type, pre)}
                       for p in (d.type.args.params if d.type.args else [])
                       if isinstance(p, (A.Decl, A.Typename))]
            if len(n['ps']) == 1 and n['ps'][0]['t'] == ['void']:
                n['ps'] = []
            if self.loose:
                n['va'] = any(isinstance(p, A.EllipsisParam) for p in (d.type.args.params if d.type.args else []))
            self.fin(i)
            if pre:
                raise Unsupported('definition in prototype')
            return [i]
        if 'extern' in (d.storage or []):
            raise Unsupported('extern')
        # the initialiser has to be within the preorder range of the declaration
        t = self.type(d.type, pre)
        i, n = self.new('decl')
        n['n'] = d.name; n['t'] = t; n['st'] = 'static' in (d.storage or [])
        n['i'] = self.init(d.init) if d.init is not None else 0
        return pre + [self.fin(i)]

    # ---- statements -> node id (a declaration gives several: see stmts)
    def stmts(self, ss):
        out = []
        for s in ss or []:
            if isinstance(s, (A.Decl, A.Typedef)):
                out += self.decl(s)
            elif isinstance(s, A.DeclList):
                for d in s.decls:
                    out += self.decl(d)
            elif isinstance(s, (A.Case, A.Default)):
                out += self.case(s)
            else:
                out.append(self.stmt(s))
        return out

    def case(self, s):
        i, n = self.new('case' if isinstance(s, A.Case) else 'default')
        if isinstance(s, A.Case):
            n['e'] = self.expr(s.expr)
            if self.switches:
                self.switches[-1]['cs'].append(i)
        elif self.switches:
            self.switches[-1]['df'] = i
        body = list(s.stmts or [])
        if body and not isinstance(body[0], (A.Decl, A.Typedef, A.DeclList, A.Case, A.Default)):
            n['s'] = self.stmt(body.pop(0))
        else:
            j, _ = self.new('empty'); self.fin(j)
            n['s'] = j
        self.fin(i)
        return [i] + self.stmts(body)

    def stmt1(self, s):
        """a statement that is a child of another one"""
        if s is None:
            j, _ = self.new('empty')
            return self.fin(j)
        if isinstance(s, (A.Case, A.Default)):
            xs = self.case(s)
            if len(xs) != 1:
                raise Unsupported('case group')
            return xs[0]
        return self.stmt(s)

    def stmt(self, s):
        if isinstance(s, A.Compound):
            i, n = self.new('block')
            n['ss'] = self.stmts(s.block_items)
            return self.fin(i)
        if isinstance(s, A.If):
            i, n = self.new('if')
            n['c'] = self.expr(s.cond); n['a'] = self.stmt1(s.iftrue)
            n['b'] = self.stmt1(s.iffalse) if s.iffalse is not None else 0
            return self.fin(i)
        if isinstance(s, A.While):
            i, n = self.new('while')
            n['c'] = self.expr(s.cond); n['b'] = self.stmt1(s.stmt)
            return self.fin(i)
        if isinstance(s, A.DoWhile):
            i, n = self.new('do')
            n['b'] = self.stmt1(s.stmt); n['c'] = self.expr(s.cond)
            return self.fin(i)
        if isinstance(s, A.For):
            i, n = self.new('for')
            if s.init is None:
                n['i'] = []
            elif isinstance(s.init, A.DeclList):
                n['i'] = self.stmts([s.init])
            else:
                j, m = self.new('expr'); m['e'] = self.expr(s.init); self.fin(j)
                n['i'] = [j]
            n['c'] = self.expr(s.cond) if s.cond is not None else 0
            n['s'] = self.expr(s.next) if s.next is not None else 0
            n['b'] = self.stmt1(s.stmt)
            return self.fin(i)
        if isinstance(s, A.Switch):
            i, n = self.new('switch')
            n['c'] = self.expr(s.cond); n['cs'] = []; n['df'] = 0
            self.switches.append(n)
            n['b'] = self.stmt1(s.stmt)
            self.switches.pop()
            return self.fin(i)
        if isinstance(s, A.Break):
            i, n = self.new('break'); return self.fin(i)
        if isinstance(s, A.Continue):
            i, n = self.new('continue'); return self.fin(i)
        if isinstance(s, A.Return):
            i, n = self.new('return')
            n['e'] = self.expr(s.expr) if s.expr is not None else 0
            return self.fin(i)
        if isinstance(s, A.Goto):
            i, n = self.new('goto'); self.gotos.append((n, s.name)); n['l'] = s.name
            return self.fin(i)
        if isinstance(s, A.Label):
            i, n = self.new('label'); self.labels[s.name] = i; n['l'] = s.name
            n['s'] = self.stmt1(s.stmt)
            return self.fin(i)
        if isinstance(s, A.EmptyStatement):
            i, n = self.new('empty'); return self.fin(i)
        if isinstance(s, (A.Case, A.Default)):
            return self.stmt1(s)
        i, n = self.new('expr')
        n['e'] = self.expr(s)
        return self.fin(i)

    def program(self, ast):
        top = []
        for x in ast.ext:
            if isinstance(x, A.FuncDef):
                pre = []
                t = self.type(x.decl.type.type, pre)
                top += pre
                i, n = self.new('fdef')
                n['n'] = x.decl.name; n['t'] = t
                ps = []
                for p in (x.decl.type.args.params if x.decl.type.args else []):
                    if isinstance(p, A.EllipsisParam):
                        raise Unsupported('variadic definition')
                    if isinstance(p, A.Typename) and p.name is None:
                        if self.loose and (len(x.decl.type.args.params) > 1 or self.type(p.type, []) != ['void']):
                            raise Unsupported('unnamed parameter')
                        continue        # (void)
                    pp = []
                    ps.append({'n': p.name, 't': self.type(p.type, pp)})
                    if pp:
                        raise Unsupported('definition in parameter')
                n['ps'] = ps; n['va'] = False
                self.labels, self.gotos, self.switches = {}, [], []
                n['b'] = self.stmt(x.body)
                for g, name in self.gotos:
                    g['y'] = self.labels.get(name, 0) if self.loose else self.labels[name]
                self.fin(i)
                top.append(i)
            elif isinstance(x, A.Pragma):
                pass
            else:
                top += self.decl(x)
        return {'nodes': self.nodes, 'top': top}

INCLUDE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'include')

def preprocess(text):
    """directives, with the headers of include/, which only declare the library"""
    # (pycparser doesn't know these as white space)
    text = text.replace('\r', ' ').replace('\v', ' ').replace('\f', ' ')
    if '#' not in text and '//' not in text and '/*' not in text and '\\\n' not in text:
        return text
    r = subprocess.run(['cpp', '-P', '-undef', '-nostdinc', '-I', INCLUDE, '-'], input=text.encode('utf-8'),
                       capture_output=True)
    if r.returncode:
        raise Unsupported('preprocessor: ' + r.stderr.decode()[-300:])
    return r.stdout.decode('utf-8')

def parse(text, loose=False):
    text = preprocess(text)
    ast = c_parser.CParser().parse(text)
    return Conv(loose).program(ast)

if __name__ == '__main__':
    import json
    print(json.dumps(parse(open(sys.argv[1]).read())))
