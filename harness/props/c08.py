"""All sixteen combinations of the flags, and repeated compilations, give the behaviour of the abstract machine."""
from .common import *
from . import c02, c03, c04, c05, c06, c07
RULE = ('programs of the generators of the other checks (integers, side effects, control flow, calls, tail calls, lifetimes, call '
        'graphs, pointers, structures, static data, unused functions), each compiled under all 16 combinations of the flags, '
        'two combinations a second time, and run with the runtime; every distinct behaviour is validated. '
        'Non-trivial: at least 50 machine steps, distinct source.')

KWS = [dict(calls=1.5, funs=(2, 5), stmts=4, depth=2, loops=.8, structs=.5, ptrs=1, arrays=1, budget=110),
       dict(calls=1, funs=(1, 4), stmts=6, depth=2, loops=1, gotos=.7, budget=110),
       dict(calls=1, funs=(1, 3), globals=(3, 8), stmts=5, depth=3, budget=110)]

# more than one optimisation on the same function, and what profiling could disturb
MIXED = [
 'int dead(int n)\n{\n    return n ? dead(n - 1) : 0;\n}\nint live(int n, int a, int b)\n{\n    int t = a ^ b;\n    int u = t * 3;\n    if (n == 0) return u;\n    return live(n - 1, b & 255, t & 255);\n}\n'
 'int only_dead(void)\n{\n    return live(1, 2, 3) + dead(4);\n}\n|    printf("%%d\\n", live(%(n)d, %(a)d, %(b)d));',
 'int last(int x, int y)\n{\n    return x * 10 + y;\n}\nint mid(int x)\n{\n    int big[5];\n    for (int i = 0; i < 5; i++) big[i] = x + i;\n    return last(big[%(i)d], big[4]);\n}\n|    int r = mid(%(a)d);\n    printf("%%d %%d\\n", r, mid(r & 7));',
 'int g;\nint count(int n)\n{\n    g++;\n    return n < 1 ? g : count(n - 1) + printf("%%d ", n);\n}\n|    printf("%%d\\n", count(%(n)d));\n    return g;',
 'int even(int n);\nint odd(int n)\n{\n    if (n == 0) return 0;\n    return even(n - 1);\n}\nint even(int n)\n{\n    if (n == 0) return 1;\n    return odd(n - 1);\n}\n|    printf("%%d%%d%%d\\n", even(%(n)d), odd(%(a)d), even(%(b)d));',
 'int x = %(a)d;\nint get(void)\n{\n    return x;\n}\nint set(int v)\n{\n    x = v;\n    return get();\n}\n|    int a = get(), b = set(%(b)d), c = get();\n    printf("%%d %%d %%d %%d\\n", a, b, c, x);',
 'char f(int n, char c)\n{\n    if (n <= 0) return c;\n    char d = c + 100;\n    return f(n - 1, d);\n}\nlong h(int n)\n{\n    return f(n, %(a)d);\n}\n|    printf("%%ld %%d\\n", h(%(n)d), f(%(n)d, 1));',
 'unsigned char z(long a, char b, short c)\n{\n    static int calls;\n    calls++;\n    if (calls > 6) return b;\n    return z(c, a, b);\n}\n|    printf("%%d\\n", z(%(a)d, %(b)d, 300));',
 'int find(const char *s, char c, int at)\n{\n    if (*s == 0) return -1;\n    if (*s == c) return at;\n    return find(s + 1, c, at + 1);\n}\n|    printf("%%d %%d %%d\\n", find("hello world", \'w\', 0), find("abc", \'z\', %(a)d), find("q", \'q\', %(b)d));',
]
def mixed(R):
    pre, body = '', ''
    f, b = R.choice(MIXED).split('|    ', 1)
    d = dict(n=R.randint(3, 7), a=R.randint(1, 9), b=R.randint(1, 60), i=R.randrange(5))
    return main('    ' + b % d, f % d)

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 6
    allc = list(range(16))
    def cfgs():
        return allc + [16 + R.randrange(16), 32 + R.randrange(16)]
    cases = finding_cases(ctx)
    gens = [(26, lambda: HEAD + c05.self_tail(R), 'tail calls'), (20, lambda: c05.Web().program(R), 'tail calls of others'),
            (10, lambda: c05.escapes(R), 'escaping addresses'), (26, lambda: c06.lifetimes(R), 'lifetimes'),
            (20, lambda: c06.patterns(R), 'patterns of lifetimes'), (20, lambda: c07.Prog(R).text(), 'call graphs'),
            (20, lambda: c04.signatures(R), 'signatures'), (16, lambda: c04.Graph(R).program(), 'random graphs'), (20, lambda: mixed(R), 'mixed')]
    for n, g, note in gens:
        cases += [Case(g(), cfgs(), None, note) for _ in range(n * k)]
    rnd = random_programs(ctx, 45 * k, 'C08', KWS)
    for c in rnd:
        c.cfgs = cfgs()
    cases += rnd
    check_cases(ctx, cases)
