"""The discipline of the stack, and the log of the stack pointer."""
from .common import *
import stacklog
from stacklog import SCase
from . import c04, c05, c06, c07
TECHNIQUE = 'TLA+/TLC trace validation: CSem.tla replays the log of the stack pointer together with the behaviour; StackLog.tla checks its discipline'
RULE = ('programs with many calls (nested, recursive, in arguments and conditions, of library functions, returning from inside loops, '
        'with arrays, structures and variable sizes) are run with stack profiling. Without tail-call optimisation the abstract machine '
        'of CSem.tla replays the log of the stack pointer entry by entry together with the behaviour; with it, the log has to be a '
        'well-nested sequence (StackLog.tla). The same program with growing numbers of iterations has to stay within the same height, '
        'and profiling may not change the behaviour. Non-trivial: at least 50 machine steps, distinct source.')

KWS = [dict(calls=2, funs=(2, 5), stmts=3, depth=2, loops=.5, arrays=1, budget=70),
       dict(calls=1.5, funs=(2, 4), stmts=4, depth=2, loops=1, structs=.6, ptrs=1, budget=80),
       dict(calls=1.2, funs=(1, 4), stmts=4, depth=3, loops=.7, arrays=1.5, budget=80)]

# bodies of functions int f(int n, int a) that return in various ways, with {C} for a call with n - 1
RET = [
 'for (int i = 0; i < 9; i++) {\n        if (i == (a & 3)) return i + {C};\n    }\n    return a;',
 'while (1) {\n        {\n            char buf[5];\n            buf[a & 3] = n;\n            if (a++ & 1) return buf[(a - 1) & 3] + {C};\n        }\n    }',
 'switch (a & 3) {\n    case 0: return {C};\n    case 1: { long t[3]; t[1] = {C}; return (int)t[1] + 1; }\n    case 2: break;\n    default: return 1;\n    }\n    return 2;',
 'int r = {C} + {C};\n    if (r > 100) return r - 100;\n    return r + 1;',
 'return g2({C}, g1({C}), n);',
 'short s[4];\n    for (int i = 0; i < 4; i++) {\n        int t[2];\n        t[0] = i; t[1] = a;\n        s[i] = t[0] * t[1];\n    }\n    return s[3] + s[a & 3] + {C};',
 'struct P { char c; long l; int v[2]; } p;\n    p.l = {C};\n    p.v[1] = a;\n    p.c = p.l + p.v[1];\n    return p.c;',
 'int k = 0;\n    goto in;\nmore:\n    k += {C};\n    if (k > 50) return k & 15;\nin:\n    if (k++ < 1) goto more;\n    return k & 7;',
 'do {\n        a = a / 2 - 1;\n        if (a < 3) return {C} + a;\n    } while (a > 0);\n    return a & 31;',
 'int v = a > 3 && {C} > 2 || g1(a) < 9 ? {C} : g2(1, 2, 3);\n    return v & 63;',
 'n > 1 ? g0() : (void)g1(n);\n    return printf("%d,", a) + {C};',
 'char s[12] = "abc";\n    s[a & 1] = 0;\n    return (int)strlen(s) + {C};',
 'int m = 1 + (a & 3);\n    int z[m];\n    for (int i = 0; i < m; i++) z[i] = i + a;\n    return z[m - 1] + {C};',
 'int m = 1 + (a & 3), o = 2 + (n & 1);\n    short z[m][o];\n    char last[3];\n    z[m - 1][o - 1] = a;\n    last[1] = {C};\n    return z[m - 1][o - 1] + last[1];',
 'static int count;\n    static char big[30];\n    count++;\n    big[count % 30] = a;\n    return big[count % 30] + {C} + count;',
 'int *p = &a;\n    g3(p, n);\n    return *p % 17 + {C};',
]
PRE = ('unsigned int strlen(const char *s);\nint f(int n, int a);\n'
       'int total;\n'
       'void g0(void)\n{\n    total++;\n}\n'
       'char g1(int x)\n{\n    char c = x;\n    return c & 7;\n}\n'
       'long g2(char x, long y, short z)\n{\n    long u[2];\n    u[0] = x; u[1] = y + z;\n    return (u[0] ^ u[1]) & 15;\n}\n'
       'void g3(int *p, int n)\n{\n    if (n & 1) return;\n    *p += n;\n    g0();\n}\n')

def returns(R):
    """mutually recursive functions that return from everywhere"""
    k = R.randint(1, 3)
    fs = ['f'] + ['f%d' % i for i in range(1, k)]
    out = ''.join('int %s(int n, int a);\n' % f for f in fs[1:])
    for f in fs:
        b = R.choice(RET)
        while '{C}' in b:
            b = b.replace('{C}', '%s(n - 1, %s)' % (R.choice(fs), R.choice(['a + 1', 'a ^ n', '5', 'n', 'a / 2 + 1'])), 1)
        loc = R.choice(['', '', 'long w = a;\n    ', 'int l1 = n, l2 = a;\n    total += l1 ^ l2;\n    ', 'double d = a;\n    total += d > 2.0;\n    '])
        out += 'int %s(int n, int a)\n{\n    %sif (n <= 0) return %s;\n    %s\n}\n' % (f, loc, R.choice(['a', '3', 'g1(a)', 'strlen("xyz")']), b)
    body = '    printf("%%d\\n", f(%d, %d));\n' % (R.randint(1, 3), R.randint(0, 9))
    if R.random() < .5:
        body += '    int arr[%d];\n    arr[1] = f(2, %d);\n    printf("%%d %%d\\n", arr[1], total);\n' % (R.randint(2, 6), R.randint(0, 9))
    if R.random() < .4:
        body += '    for (int i = 0; i < 3; i++) if (f(1, i) > %d) return total & 127;\n' % R.randint(0, 5)
    return main(body, PRE + out)

# the body of a loop in int f(int n): neither calls nor arrays may use more stack with every iteration
LOOPS = [
 'int a[4]; a[i & 3] = i; t ^= a[i & 3];', 't ^= g1(i);', 't ^= (int)g2(i, t, 3);', 'char s[9] = "abcd"; s[i & 3] = 0; t += (int)strlen(s) & 1;',
 'if (i & 1) { long q[3]; q[1] = t; t = (int)(q[1] ^ i); }', 'struct P { int x; char c[7]; } p; p.x = i; p.c[1] = t; t = p.x ^ p.c[1];',
 'for (int j = 0; j < 2; j++) { short z[2][3]; z[j][1] = i; t ^= z[j][1] & 3; }', 'switch (i & 1) { case 0: g0(); break; default: g3(&t, i); }',
 'if (i % 3 == 0) continue; t ^= g1(g1(i) + g1(t));', 't ^= strlen(i & 1 ? "ab" : "abc") & 1;', 'int k = 0; again: g0(); if (k++ < 1) goto again;',
 'static int c[5]; c[i % 5] = t; t = c[i % 5] ^ 1;', 'int *p = &t; g3(p, 2); t &= 1023;', 't = i & 1 ? g1(t) : (int)g2(1, i, 1);',
]
HEADL = ['for (int i = 0; i < n; i++) {\n        %s\n    }', 'int i = 0;\n    while (i++ < n) {\n        %s\n    }',
         'int i = 0;\n    do {\n        %s\n    } while (++i < n);', 'int i = 0;\nstart:\n    {\n        %s\n    }\n    if (++i < n) goto start;']
def loops(R):
    b = R.choice(LOOPS)
    h = R.choice(HEADL)
    if 'continue' in b and 'goto start' in h or 'again' in b:
        h = HEADL[0]
    f = 'int f(int n, int a);\nint run(int n)\n{\n    int t = 1;\n    %s\n    return t;\n}\nint f(int n, int a)\n{\n    return n + a;\n}\n' % (h % b)
    return lambda n: main('    printf("%%d\\n", run(%d));\n    printf("%%d\\n", run(1));' % n, PRE + f)

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 6
    cfgs = lambda: [9, 9 + R.choice([2, 4, 6]), R.choice([1, 5]), 8 + R.choice([0, 2, 4, 6])]
    cases = finding_cases(ctx)
    rets = [returns(R) for _ in range(90 * k)]
    cases += [Case(s, cfgs(), None, 'returns from everywhere') for s in rets]
    others = [(c04.signatures(R), 'signatures') for _ in range(15 * k)] + [(c04.Graph(R).program(), 'random graphs') for _ in range(15 * k)] \
        + [(c05.Web().program(R), 'tail calls') for _ in range(15 * k)] + [(c05.escapes(R), 'escaping addresses') for _ in range(10 * k)] \
        + [(c06.patterns(R), 'patterns of lifetimes') for _ in range(10 * k)] + [(c07.Prog(R).text(), 'call graphs') for _ in range(10 * k)]
    cases += [Case(s, cfgs(), None, n) for s, n in others]
    rnd = random_programs(ctx, 40 * k, 'C19', KWS)
    for c in rnd:
        c.cfgs = cfgs()
    cases += rnd
    ls = [loops(R) for _ in range(24 * k)]
    cases += [Case(l(3), cfgs(), None, 'loops') for l in ls]
    check_cases(ctx, cases, log=True)
    sc = []
    for s in R.sample(rets + [s for s, _ in others] + [c.src for c in rnd], 120 * k):
        sc.append(SCase('log', [(s, 8 + R.choice([0, 0, 2, 4, 6]))], 'the log with tail-call optimisation'))
    for l in ls:
        g = 8 + R.choice([0, 1, 4, 5, 2])
        sc.append(SCase('flat', [(l(n), g) for n in (2, 30, 300)], 'loops of growing length'))
    # removing functions that aren't called changes nothing
    for s in R.sample(rets, 20 * k):
        g = 8 + R.choice([0, 1, 4, 5])
        sc.append(SCase('same', [(s, g), (s, g + 2)], 'with and without unused functions'))
    stacklog.check(ctx, sc)
