"""Invalid programs are rejected with a message, and leave no output file."""
from .common import *
from . import c17
import engine, lib, cparse, json, os, re
TECHNIQUE = 'TLA+/TLC: grammar of C as a push-down machine (spec/Syntax.tla), declarations and constraints of C as a machine over the syntax (spec/Static.tla); their verdicts are compared with what the compiler does with the program'
RULE = ('generated programs with all kinds of declarations and statements, changed in one or two places: tokens deleted, doubled, exchanged, '
        'replaced, inserted; identifiers, types and operators replaced; lines deleted, doubled, moved; statements inserted; arguments added '
        'and removed; tables of every operator, statement, cast, argument, result and initialiser with operands of every kind of type, and of every '
        'declaration twice in every scope; a collection of invalid programs (harness/data/invalid.txt); files that cannot be read. Each text is judged by '
        'Syntax.tla and Static.tla; what they call invalid has to be rejected, what they call valid accepted. Non-trivial: distinct source.')

KW = set('auto break case char const continue default do double else enum extern float for goto if int long register return short '
         'signed sizeof static struct switch typedef union unsigned void volatile while inline restrict _Bool _Complex _Imaginary '
         '_Alignas _Alignof _Atomic _Generic _Noreturn _Static_assert _Thread_local'.split())
NUM = re.compile(r'(0[xX][0-9a-fA-F]+|[0-9]+)$')
FLT = re.compile(r'([0-9]+\.[0-9]*|\.[0-9]+|[0-9]+(?=[eE]))([eE][+-]?[0-9]+)?$')

def tokens(text):
    """the tokens of a text without directives"""
    out = []
    for t in c17.tokens(re.sub(r'/\*.*?\*/|//[^\n]*', ' ', text, flags=re.S)):
        c = t[0]
        if t in KW:
            k = 'kw'
        elif c.isalpha() or c == '_':
            k = 'id'
        elif c == '"':
            k = 'str' if len(t) > 1 else 'bad'
        elif c == "'":
            k = 'chr' if len(t) > 2 else 'bad'
        elif c.isdigit() or (c == '.' and t != '...' and len(t) > 1):
            k = 'int' if NUM.match(t) and not re.match('0[0-9]*[89]', t) else 'flt' if FLT.match(t) else 'odd'
        else:
            k = 'bad' if c in '@$`#\\' else 'p'
        out.append(dict(k=k, s=t))
    return out

# ------------------------------------------------------------ valid programs
class Base:
    """small programs, one declaration or statement per line"""
    def __init__(self, R):
        self.R, self.out, self.n = R, [], 0
        self.gl = []                    # global variables (name, type)
        self.fns = []                   # (name, result, parameter types)
    def name(self, p='v'):
        self.n += 1
        return '%s%d' % (self.R.choice(['a', 'b', 'x', 'val', 'tmp', 'n', p]), self.n)
    def L(self, s, ind=0):
        self.out.append('    ' * ind + s)
    def program(self):
        R = self.R
        self.L('int printf(const char *format, ...);')
        fs = R.sample([self.structs, self.unions, self.enums, self.typedefs, self.globals, self.globals, self.protos, self.list_], R.randint(3, 5))
        self.typ = ['int', 'int', 'char', 'long', 'unsigned int', 'short', 'unsigned char', 'double', 'float', 'unsigned long']
        self.st = []                    # struct types: (spelling, [(member, type)])
        self.en = []
        for f in fs:
            f()
        for i in range(R.randint(1, 3)):
            self.function('f%d' % i, R.choice(self.typ + ['void', 'void', 'int *']))
        self.function('main', 'int')
        return '\n'.join(self.out) + '\n'
    def structs(self):
        R = self.R
        t, ms = 'S%d' % len(self.st), []
        self.L('struct %s' % t)
        self.L('{')
        for i in range(R.randint(1, 4)):
            m, y = self.name('m'), R.choice(self.typ)
            k = R.randrange(5)
            if k == 0:
                self.L('%s %s[%d];' % (y, m, R.randint(1, 5)), 1)
            elif k == 1:
                self.L('struct %s *%s;' % (t, m), 1)
            else:
                self.L('%s %s;' % (y, m), 1)
                ms.append((m, y))
        self.L('};')
        self.st.append(('struct ' + t, ms))
    def unions(self):
        t, ms = 'U%d' % len(self.st), []
        self.L('union %s' % t)
        self.L('{')
        for i in range(self.R.randint(2, 3)):
            m, y = self.name('m'), self.R.choice(self.typ)
            self.L('%s %s;' % (y, m), 1)
            ms.append((m, y))
        self.L('};')
        self.st.append(('union ' + t, ms))
    def enums(self):
        R = self.R
        es = [self.name('E') for _ in range(R.randint(2, 4))]
        self.L('enum %s' % self.name('T'))
        self.L('{')
        for i, e in enumerate(es):
            v = R.choice(['', '', ' = %d' % R.randint(0, 9), ' = %s + %d' % (R.choice(self.en + ['3']), R.randint(1, 9))])
            self.L(e + v + (',' if i < len(es) - 1 else ''), 1)
        self.L('};')
        self.en += es
    def typedefs(self):
        t = self.name('t') + '_t'
        self.L('typedef %s %s;' % (self.R.choice(self.typ), t))
        self.typ.append(t)
    def globals(self):
        R = self.R
        for _ in range(R.randint(1, 3)):
            n, t = self.name('g'), R.choice(self.typ)
            k = R.randrange(6)
            if k == 0:
                self.L('%s %s[%d];' % (t, n, R.randint(1, 6)))
            elif k == 1:
                self.L('%s %s[] = {%s};' % (t, n, ', '.join(str(R.randint(0, 9)) for _ in range(R.randint(1, 4)))))
            elif k == 2 and self.st:
                self.L('%s %s;' % (R.choice(self.st)[0], n))
            elif k == 3:
                self.L('static %s %s = %d;' % (t, n, R.randint(0, 99)))
                self.gl.append((n, t))
            else:
                self.L('%s %s;' % (t, n))
                self.gl.append((n, t))
    def protos(self):
        R = self.R
        n, r = self.name('p'), R.choice(self.typ)
        ps = [R.choice(self.typ) for _ in range(R.randint(0, 3))]
        self.L('%s %s(%s);' % (r, n, ', '.join('%s %s' % (p, self.name('q')) if R.random() < .7 else p for p in ps) or 'void'))
        self.pending = getattr(self, 'pending', []) + [(n, r, ps)]
        self.fns.append((n, r, ps))
    def list_(self):
        self.L('typedef struct Node%d' % len(self.st))
        self.L('{')
        self.L('int key;', 1)
        self.L('struct Node%d *next;' % len(self.st), 1)
        self.L('} List%d;' % len(self.st))
        self.st.append(('List%d' % len(self.st), [('key', 'int')]))
    # -------------------------------------------------------- functions
    def function(self, n, r):
        R = self.R
        pend = getattr(self, 'pending', [])
        self.pending = []
        if n == 'main':
            for p in pend:
                self.body(*p)
            self.body(n, r, [])
        else:
            self.pending = pend
            self.body(n, r, [R.choice(self.typ + ['int *', 'char *']) for _ in range(R.randint(0, 3))])
    def body(self, n, r, ps):
        R = self.R
        self.vs = list(self.gl)
        self.arr, self.sv = [], []
        self.ret, self.labels, self.ind = r, 0, 0
        names = [self.name('p') for _ in ps]
        self.L('%s%s %s(%s)' % ('', r, n, ', '.join('%s %s' % (t, v) for t, v in zip(ps, names)) or 'void'))
        self.fns.append((n, r, ps))
        self.vs += [(v, t) for t, v in zip(ps, names) if '*' not in t]
        self.L('{')
        for _ in range(R.randint(1, 3)):
            self.decl(1)
        if R.random() < .3:
            lab = 'end%d' % self.n
        else:
            lab = ''
        self.lab = lab
        for _ in range(R.randint(2, 6)):
            self.stmt(1, 0, False, False)
        if lab:
            self.L('%s:' % lab, 0)
        if r == 'void':
            self.L('return;' if R.random() < .4 or lab else ';', 1)
        elif '*' in r:
            self.L('return 0;', 1)
        else:
            self.L('return %s;' % self.expr(1), 1)
        self.L('}')
    def decl(self, i):
        R = self.R
        n, t = self.name(), R.choice(self.typ)
        k = R.randrange(9)
        if k == 0:
            self.L('%s %s[%d];' % (t, n, R.randint(1, 6)), i)
            self.arr.append((n, t))
        elif k == 1 and self.st:
            s = R.choice(self.st)
            self.L('%s %s;' % (s[0], n), i)
            self.sv.append((n, '.', s[1]))
            return
        elif k == 2 and self.sv and self.sv[-1][1] == '.':
            self.L('int *%s = &%s;' % (n, self.lvalue('int')), i)
            self.arr.append((n, 'int'))
        elif k == 3:
            self.L('char %s[] = "%s";' % (n, R.choice(['abc', '', 'x y', '%d\\n'])), i)
            self.arr.append((n, 'char'))
        elif k == 4:
            self.L('%s %s = %s, %s = %d;' % (t, n, self.expr(1), n + 'b', R.randint(0, 9)), i)
            self.vs += [(n, t), (n + 'b', t)]
        else:
            self.L('%s %s = %s;' % (t, n, self.expr(1)), i)
            self.vs.append((n, t))
    def lvalue(self, want=None):
        R = self.R
        c = [n for n, t in self.vs if not want or t == want]
        c += ['%s[%s]' % (n, R.choice(['0', 'sizeof(int) - 4', '1 - 1'])) for n, t in self.arr if not want or t == want]
        c += [n + o + m for n, o, ms in self.sv for m, t in ms if not want or t == want]
        if not c:
            n = self.name()
            self.L('%s %s = 0;' % (want or 'int', n), 1)
            if self.ind < 2:
                self.vs.append((n, want or 'int'))
            return n
        return R.choice(c)
    INTS = {'int', 'char', 'long', 'unsigned int', 'short', 'unsigned char', 'unsigned long'}
    def intv(self):
        c = [n for n, t in self.vs if t in self.INTS]
        return self.R.choice(c) if c else str(self.R.randint(0, 9))
    def expr(self, d):
        R = self.R
        k = R.randrange(14)
        vs = [n for n, t in self.vs] or ['1']
        if d <= 0 or k < 3:
            return R.choice(vs + [str(R.randint(0, 300))])
        if k < 6:
            return '%s %s %s' % (self.expr(d - 1), R.choice(['+', '-', '*', '<', '==', '&&', '||', '!=']), self.expr(d - 1))
        if k == 6:
            return '(%s %s %s)' % (self.intv(), R.choice(['&', '|', '^', '%', '<<', '>>']), R.choice([self.intv(), '3']))
        if k == 7:
            return '(%s ? %s : %s)' % (self.expr(d - 1), self.expr(d - 1), self.expr(d - 1))
        if k == 8:
            return '(%s)%s' % (R.choice(['int', 'char', 'double', 'unsigned long']), R.choice(vs))
        if k == 9:
            return R.choice(['-%s', '!%s', '+%s']) % R.choice(vs)
        if k == 10:
            return R.choice(['sizeof(%s)' % R.choice(self.typ + [s[0] for s in self.st]), 'sizeof %s' % R.choice(vs), '~%s' % self.intv()])
        if k == 11:
            return 'sizeof(int)' if not self.en else R.choice(self.en)
        if k == 12 and self.arr:
            a = R.choice(self.arr)[0]
            return R.choice(['%s[0]', '*%s', '*(%s + 0)']) % a
        fs = [f for f in self.fns if f[1] != 'void' and '*' not in f[1] and not any('*' in p for p in f[2])]
        if fs:
            f = R.choice(fs)
            return '%s(%s)' % (f[0], ', '.join(self.expr(0) for _ in f[2]))
        return R.choice(vs)
    def block(self, i, d, lp, sw):
        R = self.R
        sv = (len(self.vs), len(self.arr), len(self.sv))
        self.L('{', i)
        if R.random() < .4:
            self.ind += 2
            self.decl(i + 1)
            self.ind -= 2
        for _ in range(R.randint(1, 3)):
            self.stmt(i + 1, d + 1, lp, sw)
        self.L('}', i)
        del self.vs[sv[0]:], self.arr[sv[1]:], self.sv[sv[2]:]
    def stmt(self, i, d, lp, sw):
        R = self.R
        k = R.randrange(20 if d < 3 else 8)
        if k < 3:
            l = self.lvalue()
            self.L('%s %s %s;' % (l, R.choice(['=', '=', '+=', '-=', '*=']), self.expr(2)), i)
        elif k == 3:
            l = self.lvalue()
            self.L(R.choice(['%s++;', '--%s;', '%s--;']) % l, i)
        elif k == 4:
            self.L('printf("%%d %%s\\n", (int)%s, "s");' % self.lvalue(), i)
        elif k == 5:
            fs = [f for f in self.fns if not any('*' in p for p in f[2])]
            if fs:
                f = R.choice(fs)
                self.L('%s(%s);' % (f[0], ', '.join(self.expr(1) for _ in f[2])), i)
        elif k == 6 and lp:
            self.L(R.choice(['if (%s) break;', 'if (%s) continue;']) % self.expr(1), i)
        elif k == 7:
            if self.lab and R.random() < .5:
                self.L('if (%s) goto %s;' % (self.expr(1), self.lab), i)
            elif self.ret == 'void':
                self.L('if (%s) return;' % self.expr(1), i)
            else:
                self.L('if (%s) return %s;' % (self.expr(1), '0' if '*' in self.ret else self.expr(1)), i)
        elif k < 11:
            self.L('if (%s)' % self.expr(2), i)
            self.block(i, d, lp, sw)
            if R.random() < .5:
                self.L('else', i)
                self.block(i, d, lp, sw)
        elif k < 13:
            self.L('while (%s)' % self.expr(1), i)
            self.block(i, d, True, False)
        elif k == 13:
            self.L('do', i)
            self.block(i, d, True, False)
            self.L('while (%s);' % self.expr(1), i)
        elif k < 17:
            v = self.name('i')
            self.L('for (int %s = 0; %s < %d; %s++)' % (v, v, R.randint(1, 5), v), i)
            self.vs.append((v, 'int'))
            self.block(i, d, True, False)
            self.vs.remove((v, 'int'))
        elif k < 19:
            self.L('switch (%s)' % self.intv(), i)
            self.L('{', i)
            for c in R.sample(range(12), R.randint(1, 3)):
                self.L('case %s:' % (c if R.random() < .8 else "'%s'" % chr(65 + c)), i)
                self.stmt(i + 1, d + 2, lp, True)
                self.L(R.choice(['break;', 'break;', ';']), i + 1)
            if R.random() < .6:
                self.L('default:', i)
                self.L('break;', i + 1)
            self.L('}', i)
        else:
            self.block(i, d, lp, sw)

# ------------------------------------------------------------ changes
STMTS = ['break;', 'continue;', 'case 1:', 'case 77: ;', 'default: ;', 'default:', 'return;', 'return 1;', 'return 1.5;', 'goto end1;', 'goto nowhere;', 'end1: ;',
         'end: ;', 'end: ; end: ;', 'int x;', 'int x = 1, x = 2;', 'int y[0];', 'int y[-1];', 'int y[2] = {1, 2, 3};', 'void v;', 'struct nosuch s;', 'int z = z1;', ';', '{', '}', '{ }',
         'else ;', 'if (1) ;', 'while (0) ;', 'for (;;) break;', 'do ; while (0);', 'switch (1) ;', 'switch (1.5) { }', 'switch (1) { case 1: case 1: ; }', 'switch (1) { default: ; default: ; }',
         'switch (1) { continue; }', 'while (0) { switch (1) { case 1: continue; } }', 'while (0) { continue; }', 'if (1) { break; }', '1 = 2;', '"a" = 0;', '1++;', '&1;', '*1;', '5();', '1[2];',
         'int x; { int x; }', 'struct Z { int a; int a; };', 'struct Z { struct Z z; };', 'struct Z { int a; } z; z.b = 1;', 'struct Z { int a; } z; z->a = 1;',
         'struct Z { int a; } z; z = 1;', 'struct Z { int a; } z; z + 1;', 'enum { QQ, QQ };', 'enum { QQ = 1.5 };', 'enum { QQ }; QQ = 1;', 'typedef int T; T t = 1;', 'typedef int T; T = 1;', 'typedef int T; int T2 = T;',
         'int g(void) { return 1; }', 'printf(;', 'printf();', 'int a[3]; a = 0;', 'int a[3]; a++;', 'int *q; q * 2;', 'int *q; -q;', 'int *q; ~q;', 'int *q; q % 2;', 'int *q; double *r; q - r;', '1.5 % 2;', '1.5 << 1;', '~1.5;',
         'int *q = 1.5;', 'double d; int *q; d = q;', 'int i; *i;', 'int i; i[2];', 'int i; i.x;', 'int i; i->x;', 'int i; i();', 'static int s = 1;', 'extern int e;', 'struct T9 { int a; }; union T9 { int b; };',
         'int x, ;', 'int ;', 'int 5;', 'x y;', 'int unsigned long k;', 'int float k;', 'unsigned double k;', 'short long k;', 'void *v; v = 0;', 'char c = \'\';', 'int i = 0x;', 'int i = 09;', 'int i = 1.2.3;', 'int i = 3x;', '@;', '$;', '#;', '`;', '\\;', '"abc;', "'a;", '/* ;', '*/;',
         'sizeof(void);', 'sizeof(struct nosuch);', 'void *v; *v = 1;', 'int f9(int, int); f9(1);', 'void f8(void); int i = f8();', 'void f8(void); f8() + 1;', 'void f8(void); if (f8()) ;',
         'for (int i = 0; i < 3; i++) int k;', 'if (1) int k = 2;', 'while (1) ) ;', '(1;', '1);', 'a[;', ']', '1 +;', '* ;', '1 2;', '1 ? 2;', '1 ? : 2;', ': 1;', '.5.x;', 'if 1 ;', 'while ;', 'for (;) ;', 'for (;;;) ;', 'do ; while (1)', 'return', 'goto ;', 'goto 1;', 'case : ;', 'switch ;',
         'int (x;', 'int x[;', 'int *;', 'int x = ;', 'int x = {1;', 'struct { int a } z;', 'struct { int ; } z;', 'enum { };', 'enum { 1 };', 'enum { A1 = };', 'typedef ;', 'int f(int x,);', 'int f(,);', 'int f(x y);', 'int f(int x int y);', 'int f(...);']
TOKS = ['(', ')', '[', ']', '{', '}', ';', ',', ':', '?', '.', '->', '=', '==', '+', '-', '*', '/', '%', '&', '&&', '|', '||', '!', '~', '++', '--', '<<', '+=', '...', '1', '2.5', '"s"', "'c'", 'x', 'int', 'void',
        'struct', 'if', 'else', 'while', 'for', 'do', 'return', 'break', 'sizeof', 'case', 'default', 'goto', 'const', 'static', 'typedef', 'unsigned', 'double', 'enum', 'union', '@', '#', '$']
OPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '==', '&&', '=', '+=', '%=', '&=', '<<=', '.', '->', ',']
OPSET = set(OPS) | {'<=', '>=', '>', '!=', '||', '-=', '*=', '/=', '|=', '^=', '>>='}
TYPES = ['int', 'char', 'double', 'void', 'struct nosuch', 'unsigned int', 'float', 'nosuch_t', 'int *', 'struct S0', 'union U0', 'enum S0', 'long long', 'char unsigned', 'short double', 'struct {int q;}']

def mutate(R, text):
    """(what, changed text)"""
    lines = text.split('\n')[:-1]
    k = R.randrange(23)
    i = R.randrange(1, len(lines))
    if k in (0, 1):                     # tokens
        head, lines = lines[0], lines[1:]
        i -= 1
        ts = c17.tokens(lines[i])
        if not ts:
            return None
        j = R.randrange(len(ts))
        w = R.choice(['delete', 'double', 'swap', 'insert', 'replace'])
        if w == 'delete':
            del ts[j]
        elif w == 'double':
            ts.insert(j, ts[j])
        elif w == 'swap':
            j2 = R.randrange(len(ts))
            ts[j], ts[j2] = ts[j2], ts[j]
        elif w == 'insert':
            ts.insert(j, R.choice(TOKS))
        else:
            ts[j] = R.choice(TOKS)
        lines[i] = ' '.join(ts)
        return 'token: ' + w, '\n'.join([head] + lines) + '\n'
    if k == 2:
        del lines[i]
        w = 'line deleted'
    elif k == 3:
        lines.insert(i, lines[i])
        w = 'line doubled'
    elif k == 4:
        l = lines.pop(i)
        lines.insert(R.randrange(1, len(lines) + 1), l)
        w = 'line moved'
    elif k == 5:
        lines.insert(R.randrange(1, len(lines) + 1), R.choice(lines))
        w = 'line copied'
    elif k in (6, 7, 8, 9, 10, 11):
        lines.insert(i, '    ' + R.choice(STMTS))
        w = 'statement inserted'
    else:
        def occ(pred):
            """a token with its line and position"""
            c = []
            for a, l in enumerate(lines[1:], 1):
                ts = c17.tokens(l)
                c += [(a, b) for b, t in enumerate(ts) if pred(t)]
            return R.choice(c) if c else None
        ident = lambda t: (t[0].isalpha() or t[0] == '_') and t not in KW
        def put(o, new):
            ts = c17.tokens(lines[o[0]])
            if new is None:
                del ts[o[1]]
            else:
                ts[o[1]] = new
            lines[o[0]] = ' '.join(ts)
        ids = sorted({t for l in lines for t in c17.tokens(l) if ident(t)})
        if k in (12, 13, 14):
            o = occ(ident)
            put(o, R.choice(ids + ['undeclared1'] * 2))
            w = 'identifier replaced'
        elif k == 15:
            o = occ(lambda t: t in OPSET)
            if not o:
                return None
            put(o, R.choice(OPS))
            w = 'operator replaced'
        elif k == 16:
            o = occ(lambda t: t[0].isdigit())
            if not o:
                return None
            put(o, R.choice(['1.5', '"s"', '-1', '0', R.choice(ids), '', '3 3', '(void)0', "'x'", '99999999']))
            w = 'constant replaced'
        elif k == 17:
            o = occ(lambda t: t in ('int', 'char', 'long', 'double', 'float', 'short', 'unsigned', 'void') or t.endswith('_t'))
            if not o:
                return None
            put(o, R.choice(TYPES))
            w = 'type replaced'
        elif k == 18:
            o = occ(lambda t: t == '(')
            put(o, R.choice(['(1, ', '("s", ', '(%s, ' % R.choice(ids), '(int w, ', '(']))
            w = 'argument added'
        elif k == 19:
            o = occ(lambda t: t == ',')
            if not o:
                return None
            ts = c17.tokens(lines[o[0]])
            n = o[1] + 1
            while n < len(ts) and ts[n] not in ',);}':
                n += 1
            del ts[o[1]:n]
            lines[o[0]] = ' '.join(ts)
            w = 'part of list deleted'
        elif k == 20:
            o = occ(lambda t: ident(t) or t[0].isdigit())
            t = c17.tokens(lines[o[0]])[o[1]]
            put(o, R.choice(['*%s', '&%s', '-%s', '~%s', '%s++', '--%s', '%s.a', '%s->a', '%s[0]', '%s()', '%s(1)', '(%s)', '(int *)%s', '(double)%s', '(void)%s', 'sizeof %s', '%s = 1', '!%s', '&*%s', '*&%s', '%s, 1', '1, %s']) % t)
            w = 'operator inserted'
        elif k == 21:
            o = occ(lambda t: t in '{}();[]')
            put(o, None)
            w = 'bracket deleted'
        else:
            o = occ(ident)
            t = c17.tokens(lines[o[0]])[o[1]]
            for a in range(o[0], len(lines)):
                lines[a] = re.sub(r'\b%s\b' % t, R.choice(ids), lines[a]) if R.random() < .9 else lines[a]
            w = 'identifier replaced everywhere'
    return w, '\n'.join(lines) + '\n'

def difference(a, b):
    """the first line that is new"""
    old = set(a.split('\n'))
    return next((l.strip() for l in b.split('\n') if l not in old), '')[:60]

# ------------------------------------------------------------ verdicts
def _parse(text):
    try:
        return cparse.parse(text, True)
    except RecursionError:
        return None
    except Exception:
        return None

def judge(ctx, texts, control=True):
    """[(verdict, reason)] of the texts, by the specification"""
    f = os.path.join(ctx.scratch, 'syntax.json')
    toks = [tokens(t) for t in texts]
    odd = {i for i, t in enumerate(toks) if any(x['k'] == 'odd' for x in t)}
    for t in toks:
        for x in t:
            if x['k'] == 'odd':
                x['k'] = 'int'
    json.dump(toks, open(f, 'w'))
    out, gen_, dist = lib.tlc('Syntax.tla', 'Syntax.cfg', {'SYNTAX_ITEMS': f})
    ctx.cov['states'] += dist
    ctx.cov['transitions'] += gen_
    syn = {int(i) - 1: v for i, v, _ in re.findall(r'<<"SYNTAX", (\d+), "(\w+)", (\d+)>>', out)}
    if len(syn) != len(texts):
        raise lib.ToolError('Syntax: %d verdicts of %d' % (len(syn), len(texts)))
    res = [('invalid', 'syntax') if syn[i] == 'error' else ('either', 'syntax') if syn[i] == 'either' or i in odd else None for i in range(len(texts))]
    todo = [i for i, r in enumerate(res) if r is None]
    ps = dict(zip(todo, engine.pool_map(_parse, [texts[i] for i in todo])))
    for i in todo:
        if ps[i] is None:
            res[i] = ('either', 'not read by the harness')
    todo = [i for i in todo if ps[i] is not None]
    f = os.path.join(ctx.scratch, 'static.json')
    json.dump([ps[i] for i in todo], open(f, 'w'))
    out, gen_, dist = lib.tlc('Static.tla', 'Static.cfg', {'STATIC_PROGS': f})
    ctx.cov['states'] += dist
    ctx.cov['transitions'] += gen_
    v = {int(i): (a, b) for i, a, b in re.findall(r'<<"STATIC", (\d+), "(\w+)", "([^"]*)">>', out)}
    if len(v) != len(todo):
        raise lib.ToolError('Static: %d verdicts of %d' % (len(v), len(todo)))
    for n, i in enumerate(todo):
        res[i] = v[n + 1]
    return res

def _base(job):
    return Base(random.Random(job)).program()

OK = 'int main(void)\n{\n    return 0;\n}\n'
DIRECTIVES = [('#include "nosuch.h"\n' + OK, {}), ('#include <nosuch.h>\n' + OK, {}), ('#include "a.h"\n' + OK, {'a.h': '#include "nosuch.h"\n'}),
              ('#include "a.h"\n' + OK, {'a.h': 'int f(void) { return x; }\n'}), ('#include "a.h"\n' + OK, {'a.h': 'int f(void) {\n'}), ('#include "a.h"\n' + OK, {'a.h': 'int x[0];\n'}),
              ('#error no\n' + OK, {}), ('#if 1\n' + OK, {}), ('#endif\n' + OK, {}), ('#else\n' + OK, {}), ('#ifdef A\n#else\n#else\n#endif\n' + OK, {}), ('#if 1 +\n#endif\n' + OK, {}),
              ('#define\n' + OK, {}), ('#nosuch\n' + OK, {}), ('#define F(x) x\nint main(void)\n{\n    return F(1;\n}\n', {}), ('#define X y\nint main(void)\n{\n    return X;\n}\n', {}),
              ('#define X(a) a\nint main(void)\n{\n    return X(1, 2);\n}\n', {}), ('int main(void)\n{\n    return 0; /* }\n', {}), ('', {}), ('\n', {}), ('// int main(void) { return 0; }\n', {}),
              ('#include "a.h"\nint main(void)\n{\n    return 0;\n', {'a.h': 'int x;\n'}), ('#undef main\n#define main\n' + OK, {})]
def files(ctx):
    """inputs that cannot be read, and outputs that cannot be written"""
    d = os.path.join(ctx.scratch, 'f')
    os.makedirs(d + '/dir')
    def put(n, b):
        with open(os.path.join(d, n), 'wb') as f:
            f.write(b)
    put('ok.c', OK.encode())
    put('bytes.c', b'int main(void)\n{\n    return "\xff\xfe"[0] \x80;\n}\n')
    put('binary.c', bytes(range(256)) * 8)
    os.symlink('loop.c', d + '/loop.c')
    for src, out in [('nosuch.c', 'o1'), ('dir', 'o2'), ('bytes.c', 'o3'), ('binary.c', 'o5'), ('loop.c', 'o6'), ('ok.c/x.c', 'o7'), ('ok.c', 'nosuch/o8'), ('ok.c', 'dir'), ('ok.c', 'ok.c/o9')]:
        g = ctx.rng.randrange(16)
        rc, err = lib.compile_one(os.path.join(d, src), os.path.join(d, out), g)
        ctx.cov['rejections'] += 1
        ctx.cov['evaluations'] += 1
        obs = 'accepted' if rc == 0 else 'no answer' if rc == 'timeout' else 'no message' if not str(err).strip() else \
            'a module was written' if os.path.isfile(os.path.join(d, out)) else None
        if obs:
            ctx.violate('source %s, output %s: not an error (%s)' % (src, out, obs), dict(kind='file', source=src, out=out, observed=obs))
def replay(ctx, rep):
    files(ctx)

# ------------------------------------------------------------ every operator on every kind of operand
VALS = ['i', 'c', 'un', 'l', 'd', 'fl', 'p', 'q', 'vp', 's', 'u', 'ps', 'pu', 'a', 'm', 'f()', 'g', 'e', '0', 'pn', '"s"', '1.5', 'pp', 's.a', '*p', '&i', 'K', 'sa']
TOPS = ['int', 'char', 'unsigned long', 'double', 'int *', 'char *', 'void *', 'struct S', 'union U', 'struct S *', 'enum E', 'struct N *', 'void', 'int **', 'short']
TPRE = """struct S { int a; char b; };
union U { int a; double b; };
enum E { K, K2 };
struct N;
void f(void);
int g(int x);
int h(%s x);
void f(void)
{
}
int g(int x)
{
    return x;
}
int h(%s x)
{
    return 1;
}
"""
TDECL = """    int i = 1; char c = 2; unsigned int un = 3; long l = 4; double d = 5.5; float fl = 6.5f0; int *p = &i; char *q = &c;
    void *vp = p; struct S s; union U u; struct S *ps = &s; union U *pu = &u; int a[3]; int m[2][3]; enum E e = K; struct N *pn = 0; int **pp = &p; struct S sa[2];
    s.a = 1; u.a = 1; a[0] = 1; m[0][0] = 1; sa[0].a = 1;
""".replace('6.5f0', '6.5')
def table():
    B = ['+', '-', '*', '/', '%', '<<', '>>', '<', '>=', '==', '!=', '&', '^', '|', '&&', '||', ',', '=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '^=', '|=']
    U = ['+%s', '-%s', '~%s', '!%s', '&%s', '*%s', '++%s', '%s--', 'sizeof %s', '%s.a', '%s->a', '%s.zz', '%s->zz', '%s()', '%s(1)', '%s[0]', '**%s', '&*%s', '*&%s', '(%s) ? 1 : 2', '%s(1, 2)', '%s.a.a', '%s[0][0]']
    S = ['if (%s) ;', 'while (%s) break;', 'do ; while (%s && 0);', 'for (; %s; ) break;', 'switch (%s) { }', 'switch (i) { case %s: ; }', 'goto %s;', '{ int n = %s; }', '{ int n[3] = {%s}; }', '{ struct S n = {%s}; }',
         '{ char n[4] = %s; }', '{ int n[%s]; }', '{ enum { Z = %s }; }', '{ static int n = %s; }', '(void)%s;', '%s;', '{ union U n = {%s}; }', '{ int n[2][2] = {{%s}}; }', '{ int *n[2] = {%s}; }', '{ double n = %s; }', '{ int *n = %s; }', '{ struct S n[1] = {{%s}}; }']
    out = []
    for x in VALS:
        out += [('unary', u % x + ';', 'int') for u in U] + [('statement', t % x, 'int') for t in S]
        for y in VALS:
            out += [('binary', '%s %s %s;' % (x, o, y), 'int') for o in B]
            out.append(('index', '%s[%s];' % (x, y), 'int'))
            out.append(('conditional', 'i ? %s : %s;' % (x, y), 'int'))
            out.append(('conditional', '(%s) ? %s : %s;' % (x, y, y), 'int'))
        for t in TOPS:
            out += [('cast', '(%s)%s;' % (t, x), 'int'), ('argument', 'h(%s);' % x, t), ('return', 'return %s;' % x, t), ('initialiser', '{ %s n = %s; }' % (t, x), 'int')]
    return out
def table_program(what, stmt, t):
    if what == 'return':
        return TPRE % ('int', 'int') + '%s r(void)\n{\n%s    %s\n}\nint main(void)\n{\n    return 0;\n}\n' % (t, TDECL, stmt)
    return TPRE % (t, t) + 'int main(void)\n{\n%s    %s\n    return 0;\n}\n' % (TDECL, stmt)
def doubles():
    """every kind of declaration, twice"""
    D = ['int x;', 'char x;', 'int x = 1;', 'int *x;', 'int x[2];', 'int x(void);', 'int x(int);', 'typedef int x;', 'typedef char x;', 'enum { x };', 'enum { y, x };', 'static int x;', 'struct x { int a; };', 'struct x { char a; };',
         'struct x;', 'union x { int a; };', 'union x;', 'enum x { q1 };', 'enum x { q2 };', 'struct x { int a; } x;', 'int x(void) { return 1; }', 'int x(int a) { return a; }', 'char x(void) { return 1; }', 'int x(int, ...);', 'void x(void);']
    M = ['int x;', 'char x;', 'int *x;', 'int x[2];', 'struct T { int y; } x;', 'struct T { int x; } y;', 'union { int x; } y;', 'int y;', 'int a, x;', 'struct T *x;', 'enum { K1 } x;', 'double y;']
    P = ['int x', 'char x', 'int *x', 'int y', 'int x[]', 'double z']
    out = []
    for a in D:
        for b in D:
            out.append('%s\n%s\nint main(void)\n{\n    return 0;\n}\n' % (a, b))
            if '{ return' not in a + b:
                out.append('int main(void)\n{\n    %s\n    %s\n    return 0;\n}\n' % (a, b))
                out.append('int main(void)\n{\n    %s\n    {\n        %s\n    }\n    return 0;\n}\n' % (a, b))
                out.append('%s\nint main(void)\n{\n    %s\n    return 0;\n}\n' % (a, b))
                out.append('int f(int x)\n{\n    %s\n    return 0;\n}\nint main(void)\n{\n    return 0;\n}\n' % b)
    for k in ('struct', 'union'):
        for a in M:
            for b in M:
                for mid in ('', ' double zz;'):
                    out.append('%s S { %s%s %s };\nint main(void)\n{\n    return 0;\n}\n' % (k, a, mid, b))
    for a in P:
        for b in P:
            out.append('int f(%s, %s)\n{\n    return 1;\n}\nint main(void)\n{\n    return 0;\n}\n' % (a, b))
            out.append('int f(%s, %s);\nint main(void)\n{\n    return 0;\n}\n' % (a, b))
            out.append('int f(%s);\nint f(%s);\nint main(void)\n{\n    return 0;\n}\n' % (a, b))
            out.append('int f(%s);\nint f(%s)\n{\n    return 1;\n}\nint main(void)\n{\n    return 0;\n}\n' % (a, b))
    return sorted(set(out))
def systematic(ctx):
    t = table()
    d = doubles()
    if ctx.quick:
        big = [x for x in t if x[0] in ('binary', 'conditional', 'index')]
        small = [x for x in t if x[0] not in ('binary', 'conditional', 'index')]
        t = ctx.rng.sample(small, 500) + ctx.rng.sample(big, 500)
        d = ctx.rng.sample(d, 600)
    return [('table: %s: %s (%s)' % x, table_program(*x)) for x in t] + [('declared twice', p) for p in d]

def run(ctx):
    R = ctx.rng
    nb, per = (24, 24) if ctx.quick else (150, 60)
    bases = [_base('%s/%d/%d' % (ctx.prop, ctx.seed, i)) for i in range(nb)]
    bases += [c.src for c in random_programs(ctx, 4 if ctx.quick else 16, 'C18', [dict(funs=(1, 3), stmts=4, depth=2)])]
    bases = [b for b in bases if not re.search(r'^\s*#', b, re.M)]
    items = [('unchanged', b) for b in bases]
    seen = {b for b in bases}
    for b in bases:
        n = 0
        while n < per:
            m = mutate(R, b)
            if m and R.random() < .15:
                m2 = mutate(R, m[1]) if m[1].count('\n') > 2 else None
                m = (m[0] + ', ' + m2[0], m2[1]) if m2 else m
            n += 1
            if m and m[1] not in seen and 'main' in m[1]:
                seen.add(m[1])
                items.append((m[0] + ': ' + difference(b, m[1]) if len(difference(b, m[1])) else m[0], m[1]))
    for l in open(os.path.join(lib.VERIF, 'harness/data/invalid.txt')):
        n, s = l.rstrip('\n').split('|', 1)
        if '#' not in s:
            items.append((n, s.replace('@', '\n') + '\n'))
    for w, t in systematic(ctx):
        if t not in seen:
            seen.add(t)
            items.append((w, t))
    verdicts = judge(ctx, [t for _, t in items])
    reasons = {}
    rej, acc = [], []
    for (w, t), (v, why) in zip(items, verdicts):
        reasons[v + ': ' + why] = reasons.get(v + ': ' + why, 0) + 1
        if w == 'unchanged' and v != 'valid':
            raise lib.ToolError('a program that should be valid is %s (%s):\n%s' % (v, why, t))
        if v == 'invalid':
            rej.append(('%s (%s)' % (w, why), t, {}))
        elif v == 'valid':
            acc.append((w, t, {}))
    ctx.cov['verdicts'] = dict(sorted(reasons.items(), key=lambda x: -x[1]))
    ctx.cov['programs'] += len(items)
    rej += [('directive', t, f) for t, f in DIRECTIVES]
    engine.check_rejected(ctx, rej)
    files(ctx)
    engine.check_accepted(ctx, acc)
