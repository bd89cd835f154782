"""The runtime gives main its arguments, and the process exits with main's result, after all output."""
from .common import *
import lib
TECHNIQUE = 'TLA+/TLC trace validation of processes of the real runtime and of the host against spec/CSem.tla'
RULE = ('programs of several forms (main with and without parameters; arguments printed byte by byte, modified in place, permuted, '
        'passed to functions, next to globals, static data, locals and deep calls) with vectors of 0 to 40 arguments of length 0 to 400, empty ones, '
        'blanks, quotes, option-like ones, non-ASCII text of 2 to 4 bytes a character; results of main of every integer type and at all boundaries '
        'modulo 256, through return in loops, switches, tail calls, and falling off the end; large outputs. Each run both in the process of the real '
        'node runtime/run.mjs (output and exit status of the process) and in the host. Non-trivial: at least 50 machine steps, distinct source and arguments.')
P = HEAD + '#include <string.h>\n#include <stdlib.h>\n'

ECHO = '''int main(int argc, char **argv)
{
    printf("%d %d\\n", argc, argv[argc] == 0);
    for (int i = 1; i < argc; i++)
    {
        printf("%d:", i);
        for (char *p = argv[i]; *p; p++) printf(" %d", *p);
        printf("[%s]\\n", argv[i]);
    }
    return argc;
}
'''
MODIFY = '''int count;
char text[8] = "global";
int change(char *s, int k)
{
    int n = 0;
    while (*s) { *s = *s ^ k; s++; n++; }
    return n;
}
int main(int argc, char *argv[])
{
    static char keep[4] = "abc";
    int before = 1234567;
    char *lit = "literal";
    for (int i = 1; i < argc; i++) count += change(argv[i], i);
    for (int i = 1; i < argc; i++) { for (int j = 0; argv[i][j]; j++) printf("%d ", argv[i][j]); printf("|"); }
    printf("%d %s %s %s %d\\n", count, text, keep, lit, before);
    for (int i = 1; i < argc; i++) change(argv[i], i);
    for (int i = argc - 1; i > 0; i--) printf("%s,", argv[i]);
    return count;
}
'''
PERMUTE = '''int main(int c, char *v[])
{
    for (int i = 1; i < c; i++)
        for (int j = i; j > 1 && v[j - 1][0] > v[j][0]; j--) { char *t = v[j]; v[j] = v[j - 1]; v[j - 1] = t; }
    v++;
    c--;
    while (c-- > 0) { printf("<%s %d>", *v, (int)strlen(*v)); v++; }
    printf("%d", *v == 0);
    return 3;
}
'''
DEEP = '''int g[20];
int deep(int n, char **v)
{
    int a[5];
    for (int i = 0; i < 5; i++) a[i] = n * i;
    if (n == 0) { printf("%s|", v[1]); return 0; }
    int r = deep(n - 1, v) + a[4];
    return r;
}
int main(int argc, char *argv[])
{
    for (int i = 0; i < 20; i++) g[i] = i;
    int r = argc > 1 ? deep(12, argv) : 0;
    for (int i = 1; i < argc; i++) printf("%s;", argv[i]);
    int s = 0;
    for (int i = 0; i < 20; i++) s += g[i];
    printf("%d %d\\n", r, s);
    return r;
}
'''
SUM = '''int main(int argc, char *argv[])
{
    long s = 0;
    for (int i = 1; i < argc; i++) { char *e; s += strtol(argv[i], &e, 10); printf("%ld%s ", s, e); }
    return s;
}
'''
OVERLAP = '''int main(int argc, char *argv[])
{
    char local[16] = "local";
    for (int i = 1; i < argc; i++)
    {
        int n = strlen(argv[i]);
        for (int j = 0; j < n; j++) argv[i][j] = 65 + i;
    }
    for (int i = 1; i < argc; i++) printf("%s/", argv[i]);
    printf("%s %d", local, argc);
    for (int i = 1; i < argc; i++) argv[i] = local;
    for (int i = 1; i < argc; i++) printf("%s", argv[i]);
    argc = 300;
    return argc;
}
'''
NAME = '''int main(int argc, char *argv[])
{
    char *s = argv[0];
    int n = strlen(s);
    printf("%d %s", n > 5, strstr(s, ".wasm"));
    return s[n - 1];
}
'''
PROGS = [ECHO, MODIFY, PERMUTE, DEEP, SUM, OVERLAP, NAME]

def word(R):
    r = R.random()
    if r < .12:
        return ''
    if r < .4:
        return ''.join(R.choice('abcXYZ0189_-./=') for _ in range(R.randint(1, 12)))
    if r < .55:
        return ''.join(R.choice(' \t\n"\'\\$*?;&|<>~#%!`()[]{}') for _ in range(R.randint(1, 6)))
    if r < .75:
        return ''.join(chr(R.choice([R.randint(0x80, 0xff), R.randint(0x100, 0x7ff), R.randint(0x800, 0xd7ff), R.randint(0x10000, 0x10ffff), 0x7f, 0x41])) for _ in range(R.randint(1, 7)))
    if r < .85:
        return R.choice(['--help', '--version', '-v', '--', '-', '-e', '--prof-stack', '-o', '--inspect-no', '=', '%d', '%s%s', '\\n', 'a b'])
    if r < .95:
        return str(R.randint(-10 ** R.randint(1, 12), 10 ** R.randint(1, 12)))
    return R.choice('xyz') * R.choice([31, 63, 127, 128, 255, 256, 400])

def vector(R):
    n = R.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 17, 40])
    ws = [word(R) for _ in range(n)]
    return [w if len(ws) < 9 else w[:20] for w in ws]

TAILS = [
 ('int', 'return {v};'), ('int', 'int x = {v}; return x;'), ('int', 'for (int i = 0; i < 5; i++) if (i == 3) return {v}; return 9;'),
 ('int', 'switch (argc > 0) {{ case 1: return {v}; default: return 8; }}'), ('int', 'return f({v});'), ('int', 'if (f({v}) == f({v})) return f({v}); else return 4;'),
 ('int', 'goto out; return 5; out: return {v};'), ('int', 'long l = {v}; return l;'), ('int', 'while (1) {{ do {{ if (argc) return {v}; }} while (1); }}'),
 ('int', 'printf("x"); return printf("%d", {v}) * 0 + {v};'), ('int', 'printf("no newline at the end"); exitv = {v}; return exitv;'),
]
def exits(R):
    t = R.choice(ITYS)
    v = R.choice([0, 1, -1, 2, 127, 128, 255, 256, 257, 511, 512, 1000, -128, -255, -256, -257, 65535, 65536, 2**31 - 1, 2**31 - 2**8, -2**31, R.randint(-2**31, 2**31 - 1)])
    ret, b = R.choice(TAILS)
    sig = R.choice(['int argc, char **argv', 'int argc, char *argv[]'])
    return P + 'int exitv;\nint f(int x)\n{\n    return x;\n}\nint main(%s)\n{\n    printf("%%d\\n", argc);\n    %s\n}\n' % (sig, b.format(v='(%d)' % v if v != -2**31 else '(-2147483647 - 1)'))
NOARG = [
 'int main(void)\n{\n    printf("a");\n}\n', 'int main()\n{\n    printf("b");\n    return 7;\n}\n', 'int main(void)\n{\n    int x = 5;\n    x++;\n}\n',
 'int main(void)\n{\n    for (int i = 0; i < 3; i++) { if (i == 5) return 3; }\n}\n', 'int g(void)\n{\n    return 77;\n}\nint main(void)\n{\n    return g();\n}\n',
 'int main(void)\n{\n    if (printf("q") == 2) return 3;\n}\n', 'int main(void)\n{\n    static int n = 0;\n    n++;\n    if (n < 4) { int r = main(); printf("%d ", r); return r + n; }\n    return 10;\n}\n',
 'int main(void)\n{\n    char c = -3;\n    return c;\n}\n', 'int main(void)\n{\n    double d = 65.9;\n    return d;\n}\n', 'int main(void)\n{\n    unsigned long u = 0 - (unsigned long)1;\n    return u;\n}\n',
 'int main(void)\n{\n    short s = -300;\n    printf("%d\\n", s);\n    return s * 1;\n}\n', 'int main(int argc, char **argv)\n{\n    if (argc < 4) { printf("%d", argc); return main(argc + 1, argv) + 20; }\n    return argc;\n}\n',
 'int main(int a, char **b)\n{\n    while (a) { a--; }\n}\n', 'void f(void)\n{\n    printf("f");\n}\nint main(void)\n{\n    f();\n    return 0 - 1;\n}\n',
 'int main(void)\n{\n    switch (3) { case 1: return 1; case 3: break; default: return 2; }\n}\n', 'int x;\nint main(void)\n{\n    return x = 300;\n}\n',
]
BIG = 'char s[600];\nint main(int argc, char **argv)\n{\n    int i;\n    for (i = 0; i < 599; i++) s[i] = i %% 26 + 97;\n    for (i = 0; i < %d; i++) printf("%%s%%d", s, i);\n    return i;\n}\n'

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 6
    progs = [(p, 'arguments') for p in PROGS]
    cases, procs = finding_cases(ctx), []
    for p, note in progs:
        cases.append(Case(P + p, sorted(R.sample(range(16), 3)), [vector(R) for _ in range(12 * k)] + [[]], note))
        procs.append(Case(P + p, [R.randrange(16)], [vector(R) for _ in range(10 * k)] + [[]], note + ', own process'))
    procs.append(Case(P + ECHO, [0], [[chr(c) for c in range(lo, lo + 32)] for lo in (1, 33, 65, 97, 128, 160, 192, 224)] + [['a' * n, 'b'] for n in (1, 2, 3, 4, 5, 300)], 'every character'))
    procs += [Case(P + s, [R.randrange(16)], [[]], 'main without arguments') for s in NOARG]
    cases += [Case(P + s, None, [[], ['a', 'bc']], 'main without arguments') for s in NOARG]
    procs += [Case(exits(R), [R.randrange(16)], [vector(R)], 'exit status') for _ in range(40 * k)]
    # every status, by an argument
    procs.append(Case(P + SUM, [R.randrange(16)], [[str(v)] for v in (range(-2, 258, 5) if ctx.quick else range(-260, 520))], 'every status'))
    procs.append(Case(P + BIG % (40 if ctx.quick else 400), [0, 7], [[]], 'large output'))
    # generated programs, in their own process
    procs += random_programs(ctx, 20 * k, 'C16', [dict(funs=(1, 3), stmts=5, depth=2, loops=.6, budget=120)], [R.randrange(16)])
    check_cases(ctx, cases)
    check_cases(ctx, procs, runner=lib.run_processes)
