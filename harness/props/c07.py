"""Unreachable-procedure elimination keeps exactly the functions that main may reach."""
import os, json, re
from concurrent.futures import ThreadPoolExecutor
from .common import *
import lib, engine, cparse
from lib import ToolError
RULE = ('call graphs of up to 40 functions (chains, trees, dead and live cycles, self recursion, dead callers of live functions, any '
        'order of definitions and prototypes), with the calls in every position of expressions, initialisers, conditions, '
        'loop heads, switches, arguments, subscripts and nested blocks. Every function carries a constant of its own, by which '
        'it is found in the code section; spec/Reach.tla marks the functions and compares. The programs are also run with and '
        'without the elimination and validated. Non-trivial: at least 50 machine steps, distinct source.')
TECHNIQUE = 'TLA+/TLC: marking model (spec/Reach.tla) over the code sections, and trace validation against spec/CSem.tla'

# places for a call C whose value is an int; each is a statement
PLACES = [
 '{C};', 'x = {C};', 'int v{N} = {C}; x ^= v{N};', 'x ^= {C} + 1;', 'x = 3 - {C};', 'if ({C}) x ^= 1;', 'if (x == -7777) {C};',
 'if (x != -7777) x ^= 2; else {C};', 'if (x == -7777) { x = 1; } else if (x == -7778) { {C}; }', 'while ({C} == -7777) x++;',
 'do { x ^= 4; } while ({C} == -7777);', 'for (int i = {C}; i == -7777; i++) x++;', 'for (int i = 0; i < 1 && {C} != -7777; i++) x ^= 8;',
 'for (int i = 0; i < 1; i += 1 + ({C} & 1)) x ^= 16;', 'for (int i = 0; i < 0; i++) { {C}; }', 'switch ({C} & 3) { case 0: x ^= 32; break; default: x ^= 64; }',
 'switch (x & 1) { case 0: {C}; break; case 1: {C}; }', 'switch (x) { case -7777: {C}; default: ; }', 'x ^= x == -7777 ? {C} : 1;', 'x ^= x != -7777 ? 1 : {C};',
 'x ^= {C} ? 3 : 5;', 'x ^= (x == -7777 && {C});', 'x ^= (x != -7777 || {C});', 'x ^= ({C} && 1);', 'x ^= (1, {C});', 'x ^= ({C}, 2);',
 'x ^= !{C};', 'x ^= ~{C};', 'x ^= -({C} & 255);', 'x ^= (int)(char){C};', 'a[{C} & 1] ^= 1;', 'x ^= a[{C} & 1];', 'a[0] = {C};',
 '{ int b{N}[2] = {0, {C}}; x ^= b{N}[1]; }', '{ struct P q{N} = {1, {C}}; x ^= q{N}.b; }', '*(a + ({C} & 1)) ^= 1;', 'pt->a = {C};', 'x ^= plus({C}, 1);',
 'x ^= plus(1, plus({C}, 2));', 'printf("%d ", {C});', '{ { { int d{N} = 1; d{N} += {C}; x ^= d{N}; } } }', 'goto l{N}; x++; l{N}: {C};', 'if (x == -7777) goto m{N}; x ^= 1; m{N}: x ^= {C};', 'if (x == -7777) { x ^= 2; goto o{N}; } else { o{N}: {C}; }',
 '{ long w{N} = {C}; x ^= w{N} > 5; }', '{ double fd{N} = {C}; x ^= fd{N} > 5.0; }', '{ int z{N}[({C} & 3) + 1]; z{N}[0] = 1; x ^= z{N}[0]; }', 'x ^= {C} < {C};', 'x <<= {C} & 1;', 'x ^= {C} % 7 * 2;',
 'static int s{N}; s{N} = {C}; x ^= s{N};', 'while (1) { if (x == -7777) continue; {C}; break; }', 'for (;;) { switch (x & 0) { case 0: {C}; } break; }', 'do { if (x != -7777) break; {C}; } while (0);',
]
def marker(i):
    return 1515870810 + i * 1009

class Prog:
    def __init__(self, R, calls=None, n=None, returns=False):
        """calls: edges by number (0 is main)"""
        self.R = R
        self.n = n if n is not None else R.randint(3, 14)
        n = self.n
        if calls is None:
            calls = {i: set() for i in range(n)}
            live = set(range(0, max(2, n - R.randint(0, n // 2))))
            # live functions get a caller of a smaller number, the rest only dead ones
            for i in range(1, n):
                if i in live:
                    calls[R.choice([j for j in live if j < i])].add(i)
                elif R.random() < .6:
                    dead = [j for j in range(n) if j not in live]
                    calls[R.choice(dead)].add(i)
            for _ in range(R.randint(0, n)):
                a, b = R.randrange(n), R.randrange(1, n)
                if a in live and b not in live:
                    continue
                calls[a].add(b)
        self.calls = calls
        self.serial = 0
    def ctx(self, c):
        """a statement with the call, in some position"""
        R = self.R
        self.serial += 1
        p = R.choice(PLACES) if R.random() < .93 else 'x ^= sizeof({C}) & 3;' 
        return p.replace('{C}', c).replace('{N}', str(self.serial))
    def fn(self, i):
        R = self.R
        stm = []
        for j in sorted(self.calls[i]):
            # calls go down in n, so that recursion ends
            c = 'f%d(%s)' % (j, 'n - 1' if i else str(R.randint(1, 3)))
            stm.append(self.ctx(c))
        R.shuffle(stm)
        if i == 0:
            return ('int main(void)\n{\n    int x = 1, n = 3;\n    int a[2] = {4, 5};\n    struct P p = {1, 2};\n    struct P *pt = &p;\n    %s\n'
                    '    printf("%%d %%d %%d\\n", x, a[0] + a[1], pt->a);\n    return 0;\n}\n') % '\n    '.join(stm)
        last = ''
        if stm and R.random() < .3:
            last = '    if (x == -7779) return f%d(n - 1);\n' % R.choice(sorted(self.calls[i]))
        return ('int f%d(int n)\n{\n    int x = %d;\n    seen = %d;\n    int a[2] = {1, 2};\n    struct P p = {3, 4};\n    struct P *pt = &p;\n    if (n <= 0) return n;\n'
                '    %s\n%s    return (x ^ a[0] ^ pt->a) & 255;\n}\n') % (i, i, marker(i), '\n    '.join(stm), last)
    def text(self):
        R = self.R
        fs = [self.fn(i) for i in range(self.n)]
        protos = ['int f%d(int n);\n' % i for i in range(1, self.n)]
        R.shuffle(protos)
        R.shuffle(fs)
        unused = 'long never_defined(int a, char *b);\n' if R.random() < .3 else ''
        return (HEAD + unused + 'struct P { int a; int b; };\nint seen;\nint plus(int a, int b)\n{\n    return a + b * 3 + (a == %d);\n}\n' % marker(999)) + ''.join(protos) + ''.join(fs)

def sleb(v):
    out = []
    while True:
        b = v & 0x7f
        v >>= 7
        if (v == 0 and not b & 0x40) or (v == -1 and b & 0x40):
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)

def code_section(w):
    i = 8
    def leb(i):
        r = s = 0
        while True:
            b = w[i]
            i += 1
            r |= (b & 127) << s
            s += 7
            if not b & 128:
                return r, i
    while i < len(w):
        t = w[i]
        n, i = leb(i + 1)
        if t == 10:
            return w[i:i + n]
        i += n
    return b''

def presence(ctx, srcs):
    """compile with and without the elimination, find the functions, compare with the model"""
    parsed = engine.pool_map(engine._parse, srcs)
    jobs = [(i, g) for i in range(len(srcs)) for g in (0, 2)]
    def comp(j):
        i, g = j
        src = os.path.join(ctx.scratch, 'r%d.c' % i)
        w = os.path.join(ctx.scratch, 'r%d_%d.wasm' % (i, g))
        open(src, 'w').write(srcs[i])
        rc, err = lib.compile_one(src, w, g | (ctx.seed % 2), timeout=60)
        return open(w, 'rb').read() if rc == 0 and os.path.exists(w) else None
    for i, p in enumerate(parsed):
        if isinstance(p, str):
            raise ToolError(p + '\n' + srcs[i])
        open(os.path.join(ctx.scratch, 'r%d.c' % i), 'w').write(srcs[i])
    with ThreadPoolExecutor(lib.NCPU) as ex:
        ws = list(ex.map(comp, jobs))
    ctx.cov['compilations'] += len(jobs)
    runs, back = [], []
    for (i, g), w in zip(jobs, ws):
        if w is None:
            continue        # reported by the behavioural part
        code = code_section(w)
        names = [parsed[i]['nodes'][x - 1]['n'] for x in parsed[i]['top'] if parsed[i]['nodes'][x - 1]['k'] == 'fdef']
        mark = lambda f: marker(999) if f == 'plus' else marker(int(f[1:]))
        pres = [f for f in names if f == 'main' or sleb(mark(f)) in code]
        runs.append(dict(p=i + 1, elim=g == 0, present=pres))
        back.append((i, g))
    if not runs:
        return
    ctl = [dict(runs[0], present=runs[0]['present'][:-1]), dict(runs[0], present=[x for x in runs[0]['present'] if x != 'main'])]
    pf, rf = os.path.join(ctx.scratch, 'rp.json'), os.path.join(ctx.scratch, 'rr.json')
    json.dump(parsed, open(pf, 'w')); json.dump(runs + ctl, open(rf, 'w'))
    out, gen, dist = lib.tlc('Reach.tla', 'Reach.cfg', {'CSEM_PROGS': pf, 'CSEM_RUNS': rf})
    v = dict((int(a), b) for a, b in re.findall(r'<<"REACH", (\d+), "([^"]*)">>', out))
    if len(v) != len(runs) + len(ctl):
        raise ToolError('Reach gave %d of %d verdicts' % (len(v), len(runs)))
    ctx.cov['states'] += dist; ctx.cov['transitions'] += gen
    for k, (i, g) in enumerate(back):
        ctx.cov['traces_validated_against_impl'] += 1
        ctx.cov['evaluations'] += 1
        if v[k + 1] != 'ok':
            ctx.violate('functions in the module under %s: %s' % (lib.cfg_name(g), v[k + 1]),
                        dict(kind='reach', source=srcs[i], cfg=g, present=runs[k]['present'], observed=v[k + 1]))
    if v[1] == 'ok':
        for k in range(len(ctl)):
            ctx.cov['negative_controls'] += 1
            if v[len(runs) + 1 + k] == 'ok':
                raise ToolError('negative control: a missing function was accepted')

def replay(ctx, rep):
    presence(ctx, [rep['source']])

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 6
    srcs = []
    # every place once, in a chain of its own
    for c in chunks(PLACES, 6):
        for shift in range(1 if ctx.quick else 3):
            pr = Prog(R, {i: {i + 1} if i < len(c) else set() for i in range(len(c) + 2)}, len(c) + 2)
            it = iter(c)
            def ctxf(call, it=it, pr=pr):
                pr.serial += 1
                p = next(it)
                return p.replace('{C}', call).replace('{N}', str(pr.serial))
            pr.ctx = ctxf
            srcs.append(pr.text())
    srcs += [Prog(R).text() for _ in range(150 * k)]
    for n in (20, 30, 40):
        srcs.append(Prog(R, {i: {i + 1} if i < n - 3 else set() for i in range(n)}, n).text())
        srcs.append(Prog(R, {i: {j for j in (2 * i + 1, 2 * i + 2) if j < n - 4} for i in range(n)}, n).text())
        # dead cycles, and a dead chain that calls live functions
        srcs.append(Prog(R, {0: {1}, **{i: {i % (n - 1) + 1 if i > 5 else i + 1 if i < 5 else 1} for i in range(1, n)}}, n).text())
    presence(ctx, srcs)
    cases = finding_cases(ctx)
    cases += [Case(s, [0, 2, R.choice([1, 3, 4, 5, 6])], None, 'call graph') for s in srcs]
    cases += random_programs(ctx, 40 * k, 'C07', [dict(calls=1.5, funs=(3, 7), stmts=3, depth=2, budget=90)], cfgs=[0, 2])
    check_cases(ctx, cases)
