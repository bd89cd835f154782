"""printf writes exactly the bytes that C defines, and returns how many they are."""
from .common import *
RULE = ('every conversion (d i u c s f % with h, l) with boundary values of its type and arguments of every narrower type; doubles of '
        'all magnitudes, halves, ties, huge and tiny ones; all byte values in formats, strings and %c; sequences of up to 14 '
        'conversions with plain bytes between; the result printed; formats and strings in arrays, static data and computed; calls nested '
        'in arguments, in recursion and as tail calls. Non-trivial: at least 50 machine steps, distinct source.')

def esc(b, R=None):
    """a string literal of these bytes"""
    s, hexed = '', False
    for c in b:
        o = None
        simple = {10: '\\n', 9: '\\t', 34: '\\"', 92: '\\\\', 7: '\\a', 8: '\\b', 12: '\\f', 13: '\\r', 11: '\\v'}
        if c in simple:
            s += simple[c]
            continue
        if 32 <= c < 127 and c != 63:
            s += chr(c)
        else:
            s += '\\%03o' % c
    return '"%s"' % s

DBL = ['0.0', '1.0', '0.5', '0.25', '1.5', '2.5', '0.1', '0.3', '3.14159265358979', '99.9999995', '99.9999985', '0.0000005', '0.0000015', '0.0000025',
       '0.00000049999', '1e-7', '1e-300', '5e-324', '2.2250738585072014e-308', '1e10', '123456789.123456789', '1e15', '9007199254740993.0',
       '1e22', '1e23', '1e100', '1.7976931348623157e308', '1e21', '999999.9999995', '0.9999995', '0.9999994', '0.1234565', '0.1234575', '1234567.0000005',
       '4503599627370495.5', '0.0000009765625', '0.00000762939453125', '2147483648.0', '18446744073709551616.0', '1.0000005', '8.0000015']
FLT = ['0.0', '1.0', '0.1', '3.3', '16777216.0', '1e30', '1e-30', '0.5', '255.9', '7.0000005', '123456.7']

def plain(R, n):
    r = R.random()
    if r < .3:
        return bytes(R.choice([c for c in range(1, 256) if c != 37]) for _ in range(R.randint(0, n)))
    return bytes(R.choice(b'abcxyzdiuchslf019 .,:-+#*\n') for _ in range(R.randint(0, n)))

class Fmt:
    """one printf call: its format bytes, arguments and what has to be declared before"""
    def __init__(self, R, uid):
        self.R, self.uid, self.decl, self.k = R, uid, [], 0
    def name(self):
        self.k += 1
        return 'v%d_%d' % (self.uid, self.k)
    def iarg(self, types):
        """an argument of one of these types"""
        R = self.R
        t = BYK[R.choice(types)]
        v = R.choice(edge(t, R, 8))
        r = R.random()
        e = lit(v)[0]
        if r < .5:
            n = self.name()
            self.decl.append('%s %s = %s;' % (t.c, n, e))
            return n
        if r < .6:
            n = self.name()
            self.decl.append('%s %s[2]; %s[1] = %s;' % (t.c, n, n, e))
            return n + '[1]'
        return '(%s)%s' % (t.c, e) if not e.startswith('(') else '(%s)%s' % (t.c, e)
    def sarg(self):
        R = self.R
        b = bytes(R.randint(1, 255) for _ in range(R.randint(0, 9))) if R.random() < .5 else plain(R, 12) + (b'%d%%' if R.random() < .3 else b'')
        if R.random() < .15:
            b = b * 9
        r = R.random()
        if r < .4:
            return esc(b)
        n = self.name()
        if r < .7:
            self.decl.append('char %s[] = %s;' % (n, esc(b)))
            return n if R.random() < .7 or not b else '%s + %d' % (n, R.randint(0, len(b)))
        if r < .85:
            self.decl.append('char *%s = %s;' % (n, esc(b)))
            return n
        self.decl.append('char %s[%d] = {%s};' % (n, len(b) + 2, ', '.join(str(c) for c in b) or '0'))
        return '&%s[%d]' % (n, R.randint(0, len(b)))
    def darg(self):
        R = self.R
        if R.random() < .25:
            n = self.name()
            self.decl.append('float %s = %s;' % (n, R.choice(FLT)))
            return R.choice(['', '-']) + n
        s = R.choice(DBL) if R.random() < .7 else '%d.%s' % (R.randint(0, 10 ** R.randint(1, 9)), R.randint(0, 10 ** R.randint(1, 9)))
        if R.random() < .4:
            n = self.name()
            self.decl.append('double %s = %s;' % (n, s))
            s = n
        return R.choice(['', '', '-']) + s
    def conv(self, c):
        if c == '%%':
            return b'%%', []
        if c in ('d', 'i'):
            a = self.iarg(['i8', 'u8', 'i16', 'u16', 'i32', 'i32', 'i32'])
        elif c == 'u':
            a = self.iarg(['u32', 'u32', 'u32', 'u8', 'u16'])
        elif c in ('hd', 'hi'):
            a = self.iarg(['i16', 'i16', 'i8', 'u8'])
        elif c == 'hu':
            a = self.iarg(['u16', 'u16', 'u8'])
        elif c in ('ld', 'li'):
            a = self.iarg(['i64'])
        elif c == 'lu':
            a = self.iarg(['u64'])
        elif c == 'c':
            a = self.R.choice([str(self.R.randint(1, 255)), self.iarg(['i8', 'u8', 'i32']), "'%s'" % self.R.choice('aZ09%')])
        elif c == 's':
            a = self.sarg()
        else:
            a = self.darg()
        return b'%' + c.encode(), [a]
    def call(self, convs):
        R = self.R
        f, args = plain(R, 4), []
        for c in convs:
            b, a = self.conv(c)
            f += b + plain(R, 3 if R.random() < .7 else 0)
            args += a
        fs = esc(f)
        r = R.random()
        if r < .12:
            n = self.name()
            self.decl.append('char %s[] = %s;' % (n, fs)); fs = n
        elif r < .24:
            n = self.name()
            self.decl.append('static char *%s = %s;' % (n, fs)); fs = n
        elif r < .3:
            n = self.name()
            self.decl.append('char *%s = %s;' % (n, esc(b'zz' + f))); fs = n + ' + 2'
        return 'printf(%s)' % ', '.join([fs] + args)

CONV = ['d', 'i', 'u', 'hd', 'hi', 'hu', 'ld', 'li', 'lu', 'c', 's', 'f', '%%']

def program(R, lists):
    pre, calls = '', ''
    for i, convs in enumerate(lists):
        F = Fmt(R, i)
        c = F.call(convs)
        r = R.random()
        if r < .55:
            use = 'printf("=%%d\\n", %s);' % c
        elif r < .7:
            use = '%s;' % c
        elif r < .85:
            use = 'int n = %s; return n;' % c
        else:
            use = 'return %s;' % c
        pre += 'int t%d(int k)\n{\n    %s\n    return k;\n}\n' % (i, '\n    '.join(F.decl + [use]))
        calls += '    printf("<%%d>\\n", t%d(%d));\n' % (i, i)
    return main(calls, pre)

SPECIAL = [
 'printf("");', 'printf("%s", "");', 'printf("%%");', 'printf("%%%%%d%%", 5);', 'printf("%d%d%d", 1, 2, 3);', 'printf("a%cb", 0); printf("%d", printf("%c%c", 0, 0));',
 'printf("%s%s%s", "%d", "%%", "\\\\n");', 'printf("%d %d\\n", printf("ab"), 3);', 'printf("%d\\n", printf("%d\\n", printf("%s\\n", "abc")));',
 'char *s = "x%dy"; printf(s, 7); printf(s + 1, 8);', 'char b[4]; b[0] = \'%\'; b[1] = \'l\'; b[2] = \'u\'; b[3] = 0; printf(b, (unsigned long)-1);',
 'printf("%d %ld %d %lu %hd %f %c %s|", -1, -1L0, 2, (unsigned long)-2, (short)-3, -0.5, 65, "q");'.replace('-1L0', '(long)-1'),
 'printf("%f %f %f", 0.1 + 0.2, 1.0 / 3.0, -1.0 / 0.0 + 0.0); printf("%f ", 1.0 / 0.0);',
 'double z = 0.0; printf("%f %f %d", -z, z, printf("%f", -z));', 'printf("line1\\nline2\\ttab\\"quote\\\\"); printf("\\0hidden");',
 'printf("%c%c%c%c", 127, 128, 255, 256 + 65);', 'char c = 200; unsigned char u = 200; printf("%d %d %c%c", c, u, c, u);',
 'short s = 40000; unsigned short u = 40000; printf("%d %d %hd %hu", s, u, s, u);', 'float f = 0.1; double d = f; printf("%f %f %f", f, d, f * 10);',
 'int a[3] = {1, 2, 3}; int i = 0; printf("%d %d", a[i] = 5, a[2]); printf(" %d", (i++, i));', 'struct { char c; long l; double d; } s; s.c = 1; s.l = -9; s.d = 2.25; printf("%d %ld %f", s.c, s.l, s.d);',
 'printf("%s", (char *)"cast"); printf("%s", 1 ? "yes" : "no"); printf("%d", 3 > 2 && 1);', 'long l = 5000000000; printf("%ld %d", l, l > 4294967295);',
 'for (int i = 0; i < 3; i++) printf("%d%s", i, i < 2 ? ", " : "\\n");', 'printf("%d", sizeof(printf("no")));',
]

def run(ctx):
    R = ctx.rng
    k = 2 if ctx.quick else 10
    cases = finding_cases(ctx)
    for ch in chunks(SPECIAL, 4):
        cases.append(Case(main('\n'.join('    t%d();\n    printf("\\n");' % i for i in range(len(ch))),
                               ''.join('void t%d(void)\n{\n    %s\n}\n' % (i, s) for i, s in enumerate(ch))), None, None, 'special formats'))
    # every pair of conversions, in one order and the other
    pairs = [[a, b] for a in CONV for b in CONV]
    for _ in range(k):
        R.shuffle(pairs)
        cases += [Case(program(R, ch), None, None, 'pairs of conversions') for ch in chunks(pairs, 6)]
    # every conversion with many values
    for _ in range(2 * k):
        singles = [[c] for c in CONV for _ in range(8)]
        R.shuffle(singles)
        cases += [Case(program(R, ch), None, None, 'single conversions') for ch in chunks(singles, 8)]
    # long sequences
    cases += [Case(program(R, [[R.choice(CONV) for _ in range(R.randint(3, 14))] for _ in range(R.randint(1, 4))]), None, None,
                   'sequences of conversions') for _ in range(60 * k)]
    # all bytes: in the format, in a string, by %c
    for b in range(1, 256, 51):
        bs = bytes(c for c in range(b, min(b + 51, 256)))
        lines = ['printf("%%d\\n", printf("%%s", %s));' % esc(bs), 'printf("%%d\\n", printf(%s));' % esc(bs.replace(b'%', b'%%'))]
        lines.append('for (int c = %d; c < %d; c++) printf("%%c.", c);' % (b, min(b + 51, 256)))
        cases.append(Case(functions_main(lines, 1), None, None, 'all bytes'))
    cases += [Case(main('    char s[%d];\n    int i;\n    for (i = 0; i < %d; i++) s[i] = i %% 26 + 97;\n    s[i] = 0;\n    printf("%%d\\n", printf("%%s-%%s", s, s + 3));' % (n + 1, n)),
                   None, None, 'long strings') for n in (3, 127, 128, 300)]
    # doubles of all magnitudes
    for _ in range(12 * k):
        vs = ['%s%d.%de%d' % (R.choice(['', '-']), R.randint(0, 9), R.randint(0, 10 ** 9), R.choice([R.randint(-12, 25), R.randint(-310, 300)])) for _ in range(8)]
        cases.append(Case(functions_main(['printf("%%f\\n", %s);' % v for v in vs], 4), None, None, 'doubles'))
    check_cases(ctx, cases)
