"""strlen, strstr, strtol and strtoul give the results C defines, for every valid string, base and end pointer."""
from .common import *
from .c14 import esc
RULE = ('strtol and strtoul: all bases, signs, white space, prefixes (also incomplete ones), digits below, at and above the base in both '
        'cases, values around the limits of long and unsigned long, overflow, no number, null and non-null end pointers, strings in literals, '
        'arrays, allocated between guards and program arguments; strstr: partial and overlapping matches, empty strings, matches at both ends, '
        'bytes above 127, the same and overlapping operands; strlen of all lengths. Every result and the memory around the operands printed. '
        'Non-trivial: at least 50 machine steps, distinct source.')
DECL = '''#include <stdlib.h>
#include <string.h>
int printf(const char *format, ...);
'''
LIM = [0, 1, 7, 8, 9, 10, 35, 36, 255, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64, 2**64 + 1, 10**20, 10**30,
       2**53, 2**53 + 1, 9007199254740993, 123456789012345678, 2**62]
DIG = '0123456789abcdefghijklmnopqrstuvwxyz'

def inbase(n, b):
    s = ''
    while n:
        s, n = DIG[n % b] + s, n // b
    return s or '0'

def number(R, base):
    """a string near a number"""
    b = base or R.choice([8, 10, 10, 16])
    n = R.choice(LIM) if R.random() < .5 else R.randint(0, 2 ** R.randint(1, 70))
    s = inbase(n, b)
    s = ''.join(c.upper() if R.random() < .3 else c for c in s)
    r = R.random()
    if r < .15:
        s = '0' * R.randint(1, 25) + s
    p = ''
    if base in (0, 16) and (b == 16 or R.random() < .1):
        p = R.choice(['0x', '0X', '0x', ''])
    elif base == 0 and b == 8:
        p = '0'
    elif R.random() < .08:
        p = R.choice(['0x', '0', '0X', 'x', '0b'])
    if R.random() < .08:
        s = R.choice(['', DIG[min(b, 35)], '+', '-', ' ', 'g', 'x', '_', '.5', '/', ':', '@', '[', '`', '{'])
    t = R.choice(['', '', '', ' ', 'z', '.', '-', DIG[min(b, 35)], DIG[b - 1], '@', 'G', ':', '\x80', ' 1', 'x1'])
    return (R.choice(['', '', '', ' ', '  ', '\t', '\n', ' \t\n\v\f\r', '\x1f', '\xa0', '\x08', '\x0e']) + R.choice(['', '', '', '-', '+', '-', '--', '+-', '- ']) + p + s + t).encode('latin1')

def test(R, i, s, base):
    f = R.choice(['strtol', 'strtoul'])
    ty, fm = ('long', '%ld') if f == 'strtol' else ('unsigned long', '%lu')
    w = R.randrange(5)
    pre = ''
    if w == 0:
        p = 'char *s = %s;' % esc(s)
    elif w == 1:
        p = 'char s[] = %s;' % esc(s)
    elif w == 2:
        p = 'char b[%d] = %s; char *s = b + %d;' % (len(s) + 6, esc(b'zz' + s), 2)
    elif w == 3:
        pre = 'char g%d[] = %s;\n' % (i, esc(s))
        p = 'char *s = g%d;' % i
    else:
        p = 'static char b[] = %s; const char *s = &b[1];' % esc(b'q' + s)
    if R.random() < .2:
        bs = R.choice(['char bb = %d;' % base, 'long bb = %d;' % base, 'unsigned char bb = %d;' % base, 'int bb = %d;' % base])
        p += ' ' + bs
        base = 'bb'
    if R.random() < .15:
        return pre, p + ' printf("%s %%d\\n", %s(s, %s, %s), s[0]);' % (fm, f, R.choice(['NULL', '0', '(char **)0', '(void *)0']), base)
    r = R.randrange(4)
    if r == 0:
        e, ed = 'e', 'char *e = 0;'
    elif r == 1:
        e, ed = 'ee[1]', 'char *ee[3]; ee[0] = 0; ee[2] = 0; ee[1] = 0;'
    elif r == 2:
        e, ed = 'v.e', 'struct { char a; char *e; char z; } v; v.a = 1; v.z = 2; v.e = 0;'
    else:
        e, ed = '(*pe)', 'char *e2; char **pe = &e2;'
    u = '%s x = %s(s, &%s, %s); printf("%s %%d %%d\\n", x, (int)(%s - s), *%s);' % (ty, f, e, base, fm, e, e)
    if r == 1:
        u += ' printf("%d %d\\n", ee[0] == 0, ee[2] == 0);'
    if r == 2:
        u += ' printf("%d %d\\n", v.a, v.z);'
    if w == 2:
        u += ' printf("%%d %%d %%d\\n", b[0], b[1], b[%d]);' % (len(s) + 3)
    return pre, p + ' ' + ed + ' ' + u

def small(R):
    return bytes(R.choice(b'ab') if R.random() < .9 else R.choice(b'c\x80\xff a') for _ in range(R.randint(0, 9)))

def find(R, i):
    h = small(R)
    r = R.random()
    if r < .12:
        # a match after a partial one that overlaps it
        n = bytes(R.choice(b'ab') for _ in range(R.randint(2, 6)))
        h = b''.join(n[:R.randint(1, len(n))] for _ in range(R.randint(1, 3))) + n + h[:3]
    elif r < .3 and h:
        a = R.randint(0, len(h)); n = h[a:R.randint(a, len(h))]
    elif r < .4:
        n = h
    elif r < .5:
        n = h + b'a'
    elif r < .8:
        n = small(R)[:3]
    else:
        n = small(R)
    r = R.random()
    if r < .25:
        d, a, b = '', esc(h), esc(n)
        return '', 'char *s = %s; char *r = strstr(s, %s); printf("%%d %%d %%s\\n", r != 0, (int)(r ? r - s : -1), r ? r : "null");' % (a, b)
    if r < .5:
        return '', 'char s[] = %s, t[] = %s; char *r = strstr(s, t); printf("%%d\\n", (int)(r ? r - s : -1)); if (r) *r = 33; printf("%%s %%s\\n", s, t);' % (esc(h), esc(n))
    if r < .7:
        a, b = R.randint(0, len(h)), R.randint(0, len(h))
        return '', 'char s[] = %s; char *r = strstr(s + %d, s + %d); printf("%%d\\n", (int)(r ? r - s : -1));' % (esc(h), a, b)
    if r < .85:
        return 'char g%d[] = %s;\nchar *f%d(const char *t)\n{\n    return strstr(g%d, t);\n}\n' % (i, esc(h), i, i), \
            'char *r = f%d(%s); printf("%%d %%s\\n", (int)(r ? r - g%d : -1), r ? r : "-"); printf("%%d\\n", (int)strlen(g%d));' % (i, esc(n), i, i)
    return '', 'int k = 0; char *s = %s; const char *t = %s; while (*t && (s = strstr(s, t))) { k++; s++; if (k > 9) break; } printf("%%d\\n", k);' % (esc(h), esc(n))

# every string of up to 6 letters a and b, and every part of up to 3
ALL = DECL + '''void make(char *s, int n, int v)
{
    for (int i = 0; i < n; i++) s[i] = v & (1 << i) ? 'b' : 'a';
    s[n] = 0;
}
void parts(char *s)
{
    char t[4];
    for (int n = 0; n < 4; n++)
        for (int v = 0; v < 1 << n; v++)
        {
            make(t, n, v);
            char *r = strstr(s, t);
            printf("%%c", r ? '0' + (r - s) : '-');
        }
    printf("\\n");
}
int main(void)
{
    char s[8];
    for (int v = %d; v < %d; v++)
    {
        make(s, %d, v);
        parts(s);
    }
    return 0;
}
'''

def length(R):
    n = R.choice([0, 1, 2, 3, 9, 31, 127, 128, 255, 256, 300])
    s = bytes(R.randint(1, 255) for _ in range(min(n, 60)))
    r = R.randrange(4)
    if r == 0:
        return '', 'printf("%%d %%d\\n", (int)strlen(%s), strlen("") == 0);' % esc(s)
    if r == 1:
        return '', 'char s[] = %s; printf("%%u %%d", strlen(s), (int)sizeof(s)); s[%d] = 0; printf(" %%u\\n", strlen(s));' % (esc(s), len(s) // 2)
    if r == 2:
        return '', 'char s[%d]; for (int i = 0; i < %d; i++) s[i] = i | 1; s[%d] = 0; unsigned int l = strlen(s); printf("%%u %%u %%d\\n", l, strlen(s + l), strlen(s) - %d < 0);' % (n + 1, n, n, n + 1)
    return '', 'char *s = %s; long l = strlen(s) + 1; printf("%%ld %%d\\n", l, sizeof(strlen(s)));' % esc(s)

ARGV = DECL + '''int main(int argc, char *argv[])
{
    int b = strtol(argv[1], NULL, 10);
    for (int i = 2; i < argc; i++)
    {
        char *e = 0;
        long l = strtol(argv[i], &e, b);
        printf("%ld %d %s|", l, (int)(e - argv[i]), e);
        unsigned long u = strtoul(argv[i], &e, b);
        printf("%lu %d|", u, (int)(e - argv[i]));
        char *f = strstr(argv[i], argv[i - 1]);
        printf("%d %d\\n", (int)strlen(argv[i]), f ? (int)(f - argv[i]) : -1);
    }
    for (int i = 1; i < argc; i++) printf("%s,", argv[i]);
    return argc;
}
'''

def build(items):
    pre = body = ''
    for i, (p, s) in enumerate(items):
        pre += p + 'void t%d(void)\n{\n    %s\n}\n' % (i, s)
        body += '    t%d();\n' % i
    return DECL + pre + 'int main(void)\n{\n%s    return 0;\n}\n' % body

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 8
    cases = finding_cases(ctx)
    def group(n, per, make, note):
        i = [0]
        def one():
            i[0] += 1
            return make(i[0])
        for ch in chunks([one for _ in range(n)], per):
            i[0] = 0
            cases.append(Case(build([o() for o in ch]), None, None, note))
    group(420 * k, 7, lambda i: (lambda b: test(R, i, number(R, b), b))(R.choice([0, 0, 0, 10, 10, 16, 16, 8, 2, 36] + list(range(2, 37)))), 'numbers')
    # the limits, exactly
    lims = [(s, n, f) for s in ('', '-') for n in LIM for f in ('strtol', 'strtoul')]
    R.shuffle(lims)
    for ch in chunks(lims, 13):
        cases.append(Case(build([('', 'char *e; char *s = "%s%d"; %s x = %s(s, &e, %d); printf("%s %%d\\n", x, (int)(e - s));' % (
            s, n, 'long' if f == 'strtol' else 'unsigned long', f, R.choice([0, 10]), '%ld' if f == 'strtol' else '%lu')) for s, n, f in ch]), None, None, 'limits'))
    group(120 * k, 6, lambda i: find(R, i), 'strstr')
    for n, lo, hi in [(i, 0, 1 << i) for i in range(5)] + [(5, 0, 16), (5, 16, 32)] + [(6, i, i + 16) for i in range(0, 64, 16)]:
        cases.append(Case(ALL % (lo, hi, n), [R.randrange(16)], None, 'every short string'))
    group(24 * k, 6, lambda i: length(R), 'strlen')
    # every base and every digit, through the program arguments
    argl = []
    for b in [0] + list(range(2, 37)):
        d = DIG[:b or 10]
        argl.append([str(b), '-1' + d[-1] + d[-1].upper() + (DIG + '{')[b or 10], R.choice(' \t') + '+' + d[1:9], d[1:] and (d[-1] + (DIG + '[')[b or 10]).upper()])
    for _ in range(24 * k):
        b = R.choice([0, 10, 16, R.randint(2, 36)])
        argl.append([str(b)] + [''.join(chr(c) for c in number(R, b) if c < 128) for _ in range(R.randint(1, 5))])
    cases.append(Case(ARGV, None, argl, 'program arguments'))
    # every byte after a number, before one, and alone
    for lo in range(1, 256, 64):
        hi = min(lo + 64, 256)
        for b in (0, 10, 16, 36) if not ctx.quick else R.sample((0, 10, 16, 36), 2):
            cases.append(Case(build([('', 'for (int c = %d; c < %d; c++) { char s[4]; char *e; s[%d] = c; s[%d] = 49; s[2] = c; s[3] = 0; long x = strtol(s, &e, %d); printf("%%ld %%d ", x, (int)(e - s)); }' % (
                lo, hi, q, 1 - q, b)) for q in (0, 1)]), None, None, 'every byte'))
    check_cases(ctx, cases)
