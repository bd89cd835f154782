"""Source text is read as C: the values of constants, the longest tokens, the grouping of operators, layout and comments."""
from .common import *
import itertools
from .c14 import esc
import engine, lib, cparse, json, os, re
TECHNIQUE = 'TLA+/TLC: lexer and expression grammar (spec/Lex.tla) against the node tables, and trace validation of the compiled programs against spec/CSem.tla'
RULE = ('integer constants in all bases around every limit, floating constants in all forms, character constants and strings with every escape '
        'and byte; every pair (and random sequences) of binary operators, ?:, assignments, unary and postfix operators, casts and sizeof with the '
        'fewest parentheses, with operand values for which another grouping differs; tokens without space between them; programs laid '
        'out anew with comments, line breaks, spliced lines between all tokens; names that start with keywords; dangling else and declarators. '
        'The text of each expression is read by Lex.tla too. Non-trivial: at least 50 machine steps, distinct source.')
TOK = re.compile(r'''"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|\.?\d(?:[eE][+-]|[\w.])*|[A-Za-z_]\w*|<<=|>>=|\.\.\.|[-+*/%&^|]=|->|\+\+|--|<<|>>|[<>=!]=|&&|\|\||/\*|//|[^\s]''')

def tokens(s):
    return TOK.findall(s)

def merge_safe(a, b):
    return tokens(a + b) == [a, b] and not (a + b)[:2] in ('//', '/*') and not (a[-1] == '/' and b[0] in '/*')

def relaid(R, src, dense=False):
    pp = [l for l in src.split('\n') if l.startswith('#')]
    return ''.join(l + '\n' for l in pp) + layout(R, tokens('\n'.join(l for l in src.split('\n') if not l.startswith('#'))), dense)

def layout(R, ts, dense=False):
    """the tokens, with white space wherever it is needed and in other places"""
    out = ''
    for i, t in enumerate(ts):
        if i:
            ok = merge_safe(ts[i - 1], t)
            r = R.random()
            if dense and ok:
                sp = ''
            elif ok and r < .45:
                sp = ''
            elif r < .7 or dense:
                sp = ' '
            else:
                sp = R.choice(['\n', '\t', '  ', '/**/', '/* c */', ' /* * / " \' */ ', '// x "\n', ' \\\n ', '\n\n', '\v', '\f', '/*\n*/', '/*//*/', '//*\n', '\r\n', '/***/'])
            out += ' ' + sp if out[-1] == '/' and sp[:1] == '/' else sp
        out += t
    return out

# ------------------------------------------------------------ the node table in postfix form
CODE = {'void': 0, 'i8': 1, 'u8': 2, 'i16': 3, 'u16': 4, 'i32': 5, 'u32': 6, 'i64': 7, 'u64': 8, 'f32': 9, 'f64': 10}
def tcode(t):
    n = 0
    while t[0] == 'ptr':
        t, n = t[1], n + 1
    return [CODE[t[0]], n]
def postfix(N, x):
    n = N[x - 1]
    k = n['k']
    o = lambda *b: [{'o': k, 'b': list(b[0]) if b else []}]
    if k == 'num':
        return o(n['v'] + [n['dec']])
    if k == 'chr':
        return o(n['v'])
    if k == 'flt':
        return o(n['v'] + [n['d']])
    if k == 'str':
        return o(n['b'])
    if k == 'id':
        return o(n['n'].encode())
    if k == 'call':
        return sum((postfix(N, a) for a in n['as']), []) + o(list(n['f'].encode()) + [-len(n['as'])])
    if k in ('bin', 'asg'):
        return postfix(N, n['a']) + postfix(N, n['b']) + o(n['op'].encode())
    if k in ('and', 'or', 'comma', 'idx'):
        return postfix(N, n['a']) + postfix(N, n['b']) + o()
    if k == 'cond':
        return postfix(N, n['a']) + postfix(N, n['b']) + postfix(N, n['c']) + o()
    if k == 'inc':
        return postfix(N, n['a']) + o([ord(n['op']), int(n['pre'])])
    if k == 'un':
        return postfix(N, n['a']) + o(n['op'].encode())
    if k in ('mem', 'arrow'):
        return postfix(N, n['a']) + o(n['f'].encode())
    if k in ('addr', 'deref', 'sze'):
        return postfix(N, n['a']) + o()
    if k == 'cast':
        return postfix(N, n['a']) + o(tcode(n['t']))
    if k == 'szt':
        return o(tcode(n['t']))
    raise lib.ToolError('postfix ' + k)
def item(text):
    try:
        p = cparse.parse('void f(void)\n{\n(%s\n);\n}\n' % text)
    except Exception as e:
        raise lib.ToolError('the harness cannot read %r: %s' % (text, e))
    s = next(n for n in p['nodes'] if n['k'] == 'expr')
    return {'text': list(text.encode('utf-8')), 'tree': postfix(p['nodes'], s['e'])}

def check_lex(ctx, texts):
    """the specification's reading of each text is the one of the node table"""
    texts = sorted(set(texts))
    items = engine.pool_map(item, texts)
    # a table which differs in one place has to be refused
    bad = json.loads(json.dumps(items[len(items) // 2]))
    bad['tree'][0]['b'] = bad['tree'][0]['b'] + [1]
    f = os.path.join(ctx.scratch, 'lex.json')
    json.dump(items + [bad], open(f, 'w'))
    out, gen, dist = lib.tlc('Lex.tla', 'Lex.cfg', {'LEX_ITEMS': f})
    v = {int(a): b for a, b in re.findall(r'<<"LEX", (\d+), "(\w+)">>', out)}
    if len(v) != len(items) + 1 or v[len(items) + 1] == 'ok':
        raise lib.ToolError('Lex: %d verdicts of %d' % (len(v), len(items)))
    for i, t in enumerate(texts):
        if v[i + 1] != 'ok':
            raise lib.ToolError('the node table of %r is not what Lex.tla reads (%s)' % (t, v[i + 1]))
    ctx.cov['states'] += dist
    ctx.cov['transitions'] += gen
    ctx.cov['lexed_expressions'] = ctx.cov.get('lexed_expressions', 0) + len(texts)

# ------------------------------------------------------------ expressions with their values
PREC = {',': 1, '?': 3, '||': 4, '&&': 5, '|': 6, '^': 7, '&': 8, '==': 9, '!=': 9, '<': 10, '>': 10, '<=': 10, '>=': 10, '<<': 11, '>>': 11,
        '+': 12, '-': 12, '*': 13, '/': 13, '%': 13}
BINOPS = [o for o in PREC if o not in ',?']
class E:
    def __init__(self, toks, prec, v, t):
        self.toks, self.prec, self.v, self.t = toks, prec, v, t
VARS = [('a', I32), ('b', I32), ('c', I32), ('u', U32), ('l', I64), ('s', BYK['i16']), ('k', BYK['u8'])]
def paren(R, e, p):
    if e.prec < p or R.random() < .04:
        return ['('] + e.toks + [')']
    return e.toks
def leaf(R, env):
    if R.random() < .6:
        n, t = R.choice(VARS)
        return E([n], 16, env[n], t)
    v = R.choice([0, 1, 2, 3, 5, 7, 8, 10, 31, 100])
    return E([R.choice([str(v), '0x%x' % v, '0%o' % v]) if v else '0'], 16, v, I32)
def binop(R, op, l, r):
    if op in ('&&', '||'):
        v = (1 if l.v and r.v else 0) if op == '&&' else (1 if l.v or r.v else 0)
        t = I32
    else:
        x = apply(op, l.v, l.t, r.v, r.t)
        if x is None:
            return None
        v, t = x
    p = PREC[op]
    return E(paren(R, l, p) + [op] + paren(R, r, p + 1), p, v, t)
def unary(R, e):
    op = R.choice('-+~!' + '-~!' + 'c')
    if op == 'c':
        t = R.choice(ITYS)
        return E(['('] + t.c.split() + [')'] + paren(R, e, 14), 14, wrap(e.v, t), t)
    if op == '!':
        return E([op] + paren(R, e, 14), 14, int(e.v == 0), I32)
    t = promote(e.t)
    v = {'-': -e.v, '+': e.v, '~': ~e.v}[op]
    if t.signed and not t.lo <= v <= t.hi:
        return None
    return E([op] + paren(R, e, 14), 14, wrap(v, t), t)
def tree(R, env, n):
    if n <= 0:
        return leaf(R, env)
    for _ in range(30):
        r = R.random()
        if r < .12:
            e = unary(R, tree(R, env, n - 1))
        elif r < .2:
            c, a, b = tree(R, env, n // 3), tree(R, env, n // 3), tree(R, env, n // 3)
            t = uac(a.t, b.t)
            e = E(paren(R, c, 4) + ['?'] + paren(R, a, 1) + [':'] + paren(R, b, 3), 3, wrap(a.v if c.v else b.v, t), t)
        elif r < .23:
            a, b = tree(R, env, n // 2), tree(R, env, n // 2)
            e = E(paren(R, a, 1) + [','] + paren(R, b, 2), 1, b.v, b.t)
        else:
            i = R.randint(0, n - 1)
            e = binop(R, R.choice(BINOPS), tree(R, env, i), tree(R, env, n - 1 - i))
        if e:
            return e
    return leaf(R, env)
def envof(R):
    return {n: R.choice([x for x in [0, 1, 2, 3, 4, 5, 7, 9, 12, 31, 100, 255, -1, -2, -3, -8] if t.lo <= x]) for n, t in VARS}
def decls(env):
    return ' '.join('%s %s = %s;' % (t.c, n, env[n]) for n, t in VARS)

def pairs(R):
    """a op1 b op2 c, with values that tell the two groupings apart"""
    out = []
    for o1 in BINOPS:
        for o2 in BINOPS:
            best = None
            for _ in range(400):
                env = envof(R)
                x, y, z = [E([n], 16, env[n], t) for n, t in R.sample(VARS, 3)]
                l1 = binop(R, o1, x, y); r1 = binop(R, o2, y, z)
                ll = binop(R, o2, l1, z) if l1 else None
                rr = binop(R, o1, x, r1) if r1 else None
                want = ll if PREC[o1] >= PREC[o2] else rr
                if want is None:
                    continue
                best = best or (env, [x, y, z])
                other = rr if want is ll else ll
                if other is None or other.v != want.v or other.t is not want.t:
                    best = (env, [x, y, z])
                    break
            if best:
                env, (x, y, z) = best
                out.append((env, x.toks + [o1] + y.toks + [o2] + z.toks))
    return out

OTHER = '''a ? b : c ? l : u|a ? b ? c : l : u|a = b = c|a = b ? c : l|a += b = 3|a -= b -= 2|a ? b : c , l|a = 1 , b = 2|( a , b ) + c|a || b && c|a && b || c|a || b ? c : l
a == b ? c : l|a ? b , c : l|- a * b|- a + b|~ a & b|! a == b|! a && b|- a << 2|~ a >> 1|! ! a|- - a|~ - a|- ~ a|+ - + a|- + - a|a - - b|a - - - b|a + + + b|a - ~ b
sizeof a + b|sizeof ( a ) + b|sizeof ( int ) + b|sizeof ( char ) * 2|sizeof - a|sizeof ( int ) - 1|sizeof ( a ) * b|sizeof a * b|sizeof ( long ) / sizeof ( short )|sizeof ! a|sizeof ( a ) [ p ]|sizeof p [ 0 ]|sizeof * p|sizeof & a
( int ) a + b|( char ) a * b|( char ) ( a * b )|( short ) a << 8|( long ) a << 20|( a ) - b|( a ) + b|( a ) * b|( a ) & b|( char ) - a|- ( char ) a|( char ) ~ a|! ( char ) a|( int ) ( char ) a|( long ) ( a ) + b|( unsigned int ) a > b|( char ) a ++|( char ) p [ 1 ]|( unsigned char ) * p
a ++ + b|a -- - b|a + ++ b|a - -- b|a ++ + ++ b|a -- - -- b|- a ++|- -- a|! a ++|~ a --|a ++ * 2|++ a * 2|a ++ , a|a ++ && a|a ++ || a|a ++ ? a : b|sizeof a ++
* p ++|* ++ p|( * p ) ++|++ * p|* p + 1|* ( p + 1 )|* p * 2|- * p|! * p|& a == & b|* & a|& * p == p|* & * p|& p [ 1 ] - p|* p [ q ]|p [ 1 ] ++|- p [ 1 ]|- p [ 1 ] ++|++ p [ 1 ]|* p ++ = 3|p [ 0 ] = p [ 1 ] = 2|* p += * q|a = * p ++|a / * p
r -> x|r -> x + 1|- r -> x|r -> x ++|++ r -> x|* r -> y|r -> y [ 1 ]|* r -> y ++|& r -> x == & t . x|t . x * 2|- t . x|t . x ++|* t . y|( * r ) . x|t . y [ 1 ]|& t . x != 0|! r -> x|~ t . x|t . x ? 1 : 2|sizeof t . x|( char ) t . x|t . z . w|r -> z . w|r -> z . w ++|- r -> z . w + t . z . w
f ( a ) + b|- f ( a )|! f ( b )|f ( a , b ) * 2|f ( ( a , b ) )|f ( a ? b : c )|f ( a = 2 )|f ( f ( a ) )|f ( a ) [ p ]|p [ f ( 1 ) ]|* f2 ( p ) + 1|f2 ( p ) [ 1 ]|f2 ( p ) [ 1 ] ++|* f2 ( p ) ++|- * f2 ( p )|r2 ( r ) -> x|f ( a ) == 2 ? b : c|( char ) f ( 300 )|f ( - a )|f ( a ++ ) , a|f0 ( ) + f0 ( )|- f0 ( ) * 2
a < b < c|a > b > c|a == b == c|a < b == c|a == b < c|a & b == c|a == b & c|a ^ b & c|a | b ^ c|a << b + 1|a + b << 1|a << 1 << 2|a - b - c|a / b / c|a % b * c|a * b % c|a / b * c|a >> 1 >> 1|a && b | c|a || b | c
a <<= 1|a >>= 1|a += b|a -= b|a *= b|a |= b|a &= b|a ^= b|a /= 2|a %= 3|a = - b|a = + b|a = * p|a = & b == p|a = ! b|a = ~ b|a = b == c|a == ( b = c )|a += - b|a <<= b = 1|a = a == a|a = 1 ? 2 : 3|a *= b + 1|a = b << 1 | 1|a |= b == b|a -= - 1
a < - b|a > - b|a <= - b|a && & b|a & * p|a * * p|a * * & b|a - - 1|a - -1 * 2|a - > b|a --> b|a << - - 1|1 ? a : b|0 ? a : b|a - 1|a -1|2 * - 3|2 - - 3|2 + + 3'''

CSTS = '''.5|5.|0.5|1e3|1E3|1e+3|1e-3|1.5e2|.5e1|5.e1|00.5|010.5|1e0|0e0|0.|.0|1.e-2|123456789.125|0.1|1e22|1.7976931348623157e308|4.9e-324|3.14159265358979323846|08.5|09e1|1.0E+02'''
TYPED = {'.5': 1}

NAMES = '''int integer = 1, iff = 2, forx = 3, return1 = 4, whiler = 5, doubled = 6, sizeofx = 7, structure = 8, in = 9, d0 = 10, If = 11, INT = 12, _x = 13, x_1 = 14, __a = 15, elsewhere = 16, unsigned1 = 17, charx = 18, longer = 19, shorty = 20, gotox = 21, breakfast = 22, continued = 23, cases = 24, defaults = 25, voided = 26, constant = 27, enumx = 28, unionx = 29, typedefx = 30, staticx = 31, floaty = 32, signedx = 33, dot = 34, switchx = 35, registerx = 36, autox = 37, externx = 38, inlinex = 39, volatilex = 40; printf("%d", integer + iff * forx + return1 * whiler + doubled * sizeofx + structure * in + d0 * If + INT * _x + x_1 * __a + elsewhere * unsigned1); printf("%d", charx * longer + shorty * gotox + breakfast * continued + cases * defaults + voided * constant + enumx * unionx + typedefx * staticx + floaty * signedx + dot * switchx + registerx * autox + externx * inlinex * volatilex);
int aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffff1 = 1, aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffff2 = 2, a = 3, A = 4, aA = 5, Aa = 6, a1 = 7, a_1 = 8, a_ = 9, _ = 10, __ = 11; printf("%d %d %d", aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffff1, aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffff2, a * A + aA * Aa + a1 * a_1 + a_ * _ * __);
int x = 5, e1 = 2, x1 = 3, L = 4, u = 5, f = 6; printf("%d %d %d", x-1, x-e1, 0x1+x1); printf("%d %d", x+L-u*f, 1-L+x);
int a = 1, b = 2; if (a) if (b == 1) printf("1"); else printf("2"); if (!a) if (b) printf("3"); else printf("4"); if (a) { if (!b) printf("5"); } else printf("6"); if (!a) ; else if (b) printf("7"); else printf("8");
int a = 3; while (a) if (a-- == 2) printf("two"); else printf("%d", a); for (;;) if (a++ > 2) break; else continue; printf("%d", a);
int a = 1; switch (a) case 1: if (a) printf("x"); else printf("y"); do if (a) a = 0; else a = 5; while (a); printf("%d", a);
int *p, q = 3, **r, s[2], *t[2], (*v)[2]; p = &q; r = &p; s[0] = 1; s[1] = 2; t[0] = p; t[1] = s; v = &s; printf("%d %d %d %d %d %d", *p, **r, s[1], *t[1], (*v)[1], *t[0] + t[1][1]); printf("%d %d %d", sizeof t, sizeof v, sizeof s);
char *s = "/* no */ // no", c = '"', d = '\\'', e = '/', *f = "\\"'\\\\"; printf("%s%c%c%c%s", s, c, d, e, f); printf("%d", 1 /* a */ + /* " */ 2 // ' 
 * 3);
long unsigned int a = 1; int long b = 2; short int c = 3; unsigned short d = 4; char unsigned e = 255; int unsigned long f = 6; signed g = -7; unsigned h = 8; signed char i = -9; int short unsigned j = 65535; const int k = 3; int const l = 4; long signed m = -1; printf("%d %d %d %d %d %d %d %d", sizeof a, sizeof b, sizeof c, sizeof d, sizeof e, sizeof f, sizeof g, sizeof h); printf("%d %d %d %d %d", i, j, k, l, a - 2 > 0); printf("%d", m < 0);
int a = 1; ; ; { ; } { } if (a) ; for (a = 0; a < 3; a++) ; while (a-- > 0) ; do ; while (a++ < 0); printf("%d", a); goto x; x: ; y: z: printf("z"); if (a++ < 3) goto y;
int a[] = {1, 2, 3,}; int b[2][2] = {{1, 2,}, {3, 4},}; enum {P, Q = 5, S,}; printf("%d %d %d %d %d", sizeof a, b[1][0], P, Q, S);
int a = 5, b = 3; printf("%d %d %d", a+++b, a---b, a); printf("%d %d %d %d", a- -b, a+ +b, a-(-b), a - - - b); printf("%d%d%d", a<-b, a>-b, a--> b); printf("%d %d", a&&b, a& b);
int x = 4, y = 2, *p = &y; printf("%d %d", x/ *p, x/(*p)); x=-1; printf("%d", x); x=*p; printf("%d", x); x=&y==p; printf("%d", x); y=x<<=2; printf("%d%d", x, y); x>>=1; x|=8; x^=3; x%=7; printf("%d", x);'''

def const_lines(R):
    out = []
    for b in (0, 1, 7, 8, 9, 10, 15, 16, 63, 64, 127, 128, 255, 256, 8191, 8192, 32767, 32768, 65535, 65536, 2**20 - 1, 2**20, 2**27, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**35, 2**42 + 3,
              2**49, 2**56 - 1, 2**62, 2**63 - 1, 2**63, 2**64 - 1, 1234567890, 12345678901234567890, 0xdeadbeef, 0xabcdef):
        sp = [str(b)] if b < 2**63 else []
        h = '%x' % b
        sp += ['0x' + h, '0X' + h.upper(), '0' * R.randint(1, 5) + '%o' % b, '0x' + '0' * R.randint(1, 9) + ''.join(R.choice([c, c.upper()]) for c in h)]
        out += sp
    return out

def raw_bytes(R, n):
    """source text of a string literal, with its escapes"""
    s, i = '', 0
    while i < n:
        r = R.random()
        if r < .3:
            s += R.choice('abcxyz019 +-*/%&|^~!=<>()[]{};:,.@#$`_?')
        elif r < .5:
            s += '\\' + R.choice('ntrabvf\\\'"?')
        elif r < .65:
            s += R.choice(['\\%o', '\\%o', '\\%03o']) % R.choice([R.randint(0, 7), R.randint(8, 63), R.randint(64, 255)])
            if R.random() < .5:
                s += R.choice('89ax\\').replace('\\', '\\\\')
            elif len(s.split('\\')[-1]) < 3:
                s += R.choice('9 gz')
        elif r < .8:
            s += '\\%s%x' % ('x', R.randint(0, 255))
            s += R.choice(['g', ' ', 'z', '\\n', '\\x41', '"', '\\101']).replace('"', '\\"')
        elif r < .9:
            s += R.choice(['é', 'ß', '€', '漢', '😀', 'ÿ'])
        else:
            s += R.choice(['//', '/*', '*/', '??', '\\\\', "'", 'return', '%%'])
        i += 1
    return s.replace('??', '?x')

def exprs_program(R, es, dense):
    """es: (env, tokens)"""
    pre = body = ''
    texts = []
    for i, (env, ts) in enumerate(es):
        t = layout(R, ts, dense)
        texts.append(t)
        pre += 'void t%d(void)\n{\n    %s\n    %s\n}\n' % (i, decls(env), observe('\n' + t + '\n') if ',' not in ts else observe('(' + t + '\n)'))
        body += '    t%d();\n' % i
    return main(body, pre), texts
S2 = 'struct Z { char w; };\nstruct S { int x; int *y; struct Z z; };\nint f1(int a)\n{\n    return a + 1;\n}\nint f(int a)\n{\n    return a * 2;\n}\nint g2(int a, int b)\n{\n    return a * 10 + b;\n}\nint f0(void)\n{\n    return 3;\n}\nint *f2(int *p)\n{\n    return p;\n}\nstruct S *r2(struct S *r)\n{\n    return r;\n}\n'
def other_program(R, es, dense):
    pre = body = ''
    texts = []
    for i, ts in enumerate(es):
        ts = ['g2' if t == 'f' and ts[j:j + 4] == ['f', '(', 'a', ','] and ts[j + 4] == 'b' else t for j, t in enumerate(ts)]
        t = layout(R, ts, dense)
        texts.append(t)
        isp = ts in (['*', 'p', '[', 'q', ']'],)
        d = 'int a = 7, b = 3, c = -2, arr[4] = {5, 6, 7, 8}, brr[3] = {1, 2, 3}; unsigned int u = 9; long l = 40; int *p = arr + 1, *q = brr; struct S t; struct S *r = &t; t.x = 11; t.y = arr + 2; t.z.w = 66;'
        t1 = t
        pre += 'void t%d(void)\n{\n    %s\n    long v = (%s\n);\n    printf("%%ld %%d %%d %%d %%u %%ld", v, a, b, c, u, l);\n    for (int i = 0; i < 4; i++) printf(" %%d", arr[i]);\n    printf(" %%d %%d %%d %%d %%d %%d %%d\\n", brr[0], brr[1], (int)(p - arr), (int)(q - brr), t.x, (int)(t.y - arr), t.z.w);\n}\n' % (i, d, t1)
        body += '    t%d();\n' % i
    return main(body, S2 + pre), texts

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 6
    cases, texts = finding_cases(ctx), []
    # constants
    cs = const_lines(R)
    R.shuffle(cs)
    for ch in chunks(cs, 12):
        cases.append(Case(functions_main([observe(layout(R, [R.choice(['-', '~', '+', '+', '+']), c])) + ' printf("%%d\\n", -1 < %s);' % c for c in ch], 2), None, None, 'integer constants'))
        texts += ch
    fs = CSTS.split('|')
    for ch in chunks(fs, 9):
        cases.append(Case(functions_main(['printf("%%f %%ld %%d\\n", %s, (long)(%s * 1024), (int)sizeof(%s));' % (c, c if float(c) < 1e10 else '1.5', c) for c in ch], 2), None, None, 'floating constants'))
        texts += ch
    # character constants
    chs = ["'%s'" % c for c in [chr(x) for x in range(32, 127) if chr(x) not in "'\\"] + ['\\' + x for x in 'ntrabvf\\\'"?'] +
           ['\\%o' % x for x in (0, 1, 7, 8, 63, 64, 127, 128, 200, 255)] + ['\\0%o' % x for x in (0, 7, 9, 63)] + ['\\x%x' % x for x in (0, 1, 9, 10, 15, 16, 127, 128, 171, 255)] + ['\\xAb', '\\x0f', '\\x00a', '\\x0000041']]
    texts += chs
    for ch in chunks(chs, 24):
        cases.append(Case(functions_main(['printf("%%d %%d ", %s, (int)sizeof(%s));' % (c, c) for c in ch], 6), None, None, 'character constants'))
    for _ in range(10 * k):
        pre = body = ''
        for i in range(6):
            s = raw_bytes(R, R.randint(0, 14))
            q = '"%s"' % s
            texts.append(q)
            pre += 'void t%d(void)\n{\n    char a[] = %s;\n    char *p = %s;\n    int n = sizeof(a);\n    for (int i = 0; i < n; i++) printf("%%d ", a[i]);\n    for (int i = 0; i < n; i++) printf("%%d ", p[i] == a[i]);\n    printf("%%d %%s\\n", (int)sizeof(%s), %s);\n}\n' % (i, q, q, q, q)
            body += '    t%d();\n' % i
        cases.append(Case(main(body, pre), None, None, 'strings'))
    # numeric escapes of every length, and what comes after them
    es = ['\\' + ''.join(d) + e for n in (1, 2, 3, 4) for d in itertools.product('017', repeat=n) for e in ('', '8') if int(''.join(d[:3]), 8) < 256]
    es += ['\\x' + ''.join(d) + e for n in (1, 2, 3) for d in itertools.product('0aF', repeat=n) for e in ('', 'g') if int(''.join(d), 16) < 256]
    R.shuffle(es)
    for ch in chunks(es, 60):
        pre = body = ''
        for i, c in enumerate(chunks(ch, 12)):
            q = '"%s"' % ''.join(e + '|' for e in c)
            texts.append(q)
            pre += 'void t%d(void)\n{\n    char *p = %s;\n    for (int i = 0; i < %d && i < sizeof(%s); i++) printf("%%d ", p[i]);\n    printf("%%d\\n", (int)sizeof(%s));\n}\n' % (i, q, 99, q, q)
            body += '    t%d();\n' % i
        cases.append(Case(main(body, pre), None, None, 'numeric escapes'))
    # operators
    ps = pairs(R)
    R.shuffle(ps)
    n = len(ps) if not ctx.quick else 200
    for ch in chunks(ps[:n], 8):
        s, t = exprs_program(R, ch, R.random() < .5)
        cases.append(Case(s, None, None, 'pairs of operators')); texts += t
    for _ in range(70 * k):
        es = []
        for _ in range(4):
            env = envof(R)
            es.append((env, tree(R, env, R.randint(3, 9)).toks))
        s, t = exprs_program(R, es, R.random() < .4)
        cases.append(Case(s, None, None, 'operator sequences')); texts += t
    os_ = [e.split(' ') for l in OTHER.split('\n') for e in re.split(r'(?<=[^ |])[|](?=[^ |=])', l)]
    bad = {'a - > b', 'f ( a ) [ p ]', '* p [ q ]', 'p [ f ( 1 ) ]'}
    os_ = [o for o in os_ if ' '.join(o) not in bad]
    for d in (True, False):
        R.shuffle(os_)
        for ch in chunks(os_, 5):
            s, t = other_program(R, ch, d)
            cases.append(Case(s, None, None, 'operators of all kinds')); texts += t
    # names, statements and declarators
    names = NAMES.split('\n')
    joined = []
    for l in names:
        if l.startswith(' '):
            joined[-1] += '\n' + l
        else:
            joined.append(l)
    for s in joined:
        cases.append(Case(main('    ' + s), None, None, 'names, statements and declarators'))
    # layout
    progs = random_programs(ctx, 24 * k, 'C17', [dict(funs=(1, 2), stmts=4, depth=2, loops=.6, budget=80)])
    for c in progs:
        cases.append(Case(relaid(R, c.src, R.random() < .2) + R.choice(['', '\n', ' ', '//', '/**/']), None, None, 'layout', spec_src=c.src))
    for c in list(cases[-60:-24]):
        if c.note == 'names, statements and declarators':
            cases.append(Case(layout(R, tokens(cparse.preprocess(c.src))), None, None, 'layout', spec_src=c.src))
    check_lex(ctx, texts)
    engine.say('lexed at %.1f' % ctx.elapsed())
    check_cases(ctx, cases)
