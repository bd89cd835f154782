"""Control flow: nested structured statements, switch, and goto graphs of any shape."""
import itertools
import re
from .common import *
RULE = ('random nests of if, loops, switch (fall through, default anywhere, labels in nested statements), break, continue, '
        'return and goto whose conditions are read from a bit stream; switches whose case and default labels stand anywhere in nested branches, blocks and loops, past declarations; control flow graphs written with goto (sampled from, '
        'in thorough mode enumerated over, all graphs of three nodes with two successors, and random larger ones); random programs with gotos. '
        'Every executed statement prints a tag. Non-trivial: at least 50 machine steps, distinct source.')

PRE = '''int seed;
int fuel;
int b(int m)
{
    seed = (seed * 75 + 74) % 65537;
    return (seed >> 4) % m;
}
void t(int k)
{
    printf("%d ", k);
}
'''

class Ctl:
    def __init__(self, R, gotos):
        self.R, self.gotos = R, gotos
        self.tag = 0
        self.labels = []            # all labels of the function
        self.used = []
        self.n = 0
    def t(self):
        self.tag += 1
        return 't(%d);' % self.tag
    def cond(self):
        R = self.R
        return R.choice(['b(2)', 'b(3)', '!b(3)', 'b(2) && b(3)', 'b(3) || b(2)', 'b(5) > 1', '(t(%d), b(2))' % (self.tag + 50), 'b(2) ? b(2) : b(3)'])
    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)
    def stmts(self, d, n, loop, sw):
        return ' '.join(self.stmt(d, loop, sw) for _ in range(n))
    def blk(self, d, loop, sw):
        if self.R.random() < 0.2:
            s = self.stmt(0, loop, sw)
            return s
        return '{ %s }' % self.stmts(d, self.R.randint(0 if self.R.random() < 0.15 else 1, 3), loop, sw)
    def label(self):
        if self.gotos and self.R.random() < 0.25:
            l = self.name('L')
            self.labels.append(l)
            return l + ': '
        return ''
    def stmt(self, d, loop, sw):
        return self.label() + self.stmt0(d, loop, sw)
    def stmt0(self, d, loop, sw):
        R = self.R
        if d <= 0 or R.random() < 0.2:
            r = R.random()
            if loop and r < 0.12:
                return 'break;' if R.random() < 0.4 else 'continue;'
            if sw and r < 0.2:
                return 'break;'
            if loop and r < 0.35:
                return 'if (%s) %s' % (self.cond(), R.choice(['break;', 'continue;', '{ %s continue; }' % self.t(), '{ %s break; }' % self.t()]))
            if r < 0.4:
                return 'if (%s) return %d;' % (self.cond(), R.randint(0, 99))
            if self.gotos and r < 0.65:
                self.used.append(None)
                return 'if (%s) @G@' % self.cond() if R.random() < 0.8 else '@G@'
            if r < 0.7:
                return ';'
            return self.t()
        r = R.randrange(12)
        G = 'if (--fuel < 0) return 77; '
        if r <= 1:
            return 'if (%s) %s' % (self.cond(), self.blk(d - 1, loop, sw)) + ''
        if r <= 3:
            return 'if (%s) { %s } else %s' % (self.cond(), self.stmts(d - 1, R.randint(0, 2), loop, sw), self.blk(d - 1, loop, sw))
        if r == 4:
            return 'while (%s) { %s%s }' % (self.cond(), G, self.stmts(d - 1, R.randint(1, 3), True, False))
        if r == 5:
            return 'do { %s%s } while (%s);' % (G, self.stmts(d - 1, R.randint(1, 3), True, False), self.cond())
        if r == 6:
            i = self.name('i')
            h = R.choice(['int %s = 0; %s < %d; %s++' % (i, i, R.randint(1, 3), i), 'int %s = 0; %s < 3; t(%d), %s++' % (i, i, self.tag + 70, i)])
            if self.gotos:
                h = 'k[%d] = 0; k[%d] < 3; k[%d]++' % ((self.n % 8,) * 3)
            return 'for (%s) { %s%s }' % (h, G, self.stmts(d - 1, R.randint(1, 3), True, False))
        if r == 7:
            return 'for (;%s;) { %s%s %s }' % (R.choice(['', self.cond()]), G, self.stmts(d - 1, R.randint(1, 2), True, False), R.choice(['', 'if (b(2)) break;']))
        if r == 8:
            return '{ %s }' % self.stmts(d - 1, R.randint(1, 3), loop, sw)
        return self.switch(d, loop)
    def switch(self, d, loop):
        R = self.R
        ks = R.sample([0, 1, 2, 3, 4, -1, 7, 100, -100, 300], R.randint(1, 5))
        items = []
        dpos = R.randrange(len(ks) + 1) if R.random() < 0.7 else -1
        for i, k in enumerate(ks + [None]):
            if i == dpos:
                items.append('default: ' + self.stmts(d - 1, R.randint(0, 2), loop, True) + R.choice([' break;', ' ;', '']))
            if k is None:
                break
            lab = R.choice(['case %d: ', 'case %d: ', 'case %d: ', 'case (%d): ', 'case 1 + %d - 1: ']) % k
            body = self.stmts(d - 1, R.randint(0, 2), loop, True)
            if R.random() < 0.15:
                # a label inside a nested statement
                body += R.choice([' if (b(2)) { t(%d); case %d: t(%d); }', ' { t(%d); case %d: t(%d); }',
                                  ' while (b(2)) { if (--fuel < 0) return 77; t(%d); case %d: t(%d); break; }']) % (
                                  self.tag + 200, 1000 + self.n, self.tag + 201)
                self.n += 1
            items.append(lab + body + R.choice([' break;', ' break;', ' ;', '']))
        if items[-1].rstrip().endswith(':'):
            items[-1] += ' ;'
        items = [x + ' ;' if x.rstrip().endswith(':') else x for x in items]
        sel = R.choice(['b(5)', 'b(4) - 1', 'b(2) * 100', '(char)b(6)', '(long)b(5)', '(unsigned char)(b(5))', 'b(3) ? b(4) : 300', '1000 + b(%d)' % max(1, self.n)])
        if '(unsigned' in sel or '(char)' in sel or '(long)' in sel:
            pass
        return 'switch (%s) { %s }' % (sel, ' '.join(items))
    def function(self, name, d, n):
        body = self.stmts(d, n, False, False)
        while '@G@' in body:
            if self.labels:
                body = body.replace('@G@', '{ if (--fuel < 0) return 78; goto %s; }' % self.R.choice(self.labels), 1)
            else:
                body = body.replace('@G@', self.t(), 1)
        for l in self.labels:
            # a label may be the last of a block
            body = body.replace(l + ': }', l + ': ; }')
        # a declaration can't follow a label
        decl = 'int k[8] = {0, 0, 0, 0, 0, 0, 0, 0}; ' if self.gotos else ''
        return 'int %s(void)\n{\n    %s%s\n    t(999);\n    return 5;\n}\n' % (name, decl, body)

def nested(R, gotos, size=1000):
    pre = PRE
    calls = []
    for i in range(2):
        while True:
            c = Ctl(R, gotos)
            f = c.function('f%d' % i, R.randint(2, 4 - gotos), R.randint(1, 4 - gotos))
            if len(f) < size:
                break
        pre += f
        for s in R.sample(range(1, 9999), 4):
            calls.append('    seed = %d; fuel = %d; printf("= %%d\\n", f%d());' % (s, R.randint(6, 14), i))
    return main('\n'.join(calls), pre)

def graph_fn(name, succ, exits, style):
    """succ[i]: successors of node i; the successor -1 leaves"""
    out = []
    n = len(succ)
    go = lambda j: 'goto N%d;' % j if j >= 0 else ('goto end;' if exits else 'return;')
    for i, ss in enumerate(succ):
        body = 't(%d); if (--fuel < 0) %s ' % (i, go(-1))
        if len(ss) == 1:
            body += go(ss[0]) if ss[0] != i + 1 else ''
        elif len(ss) == 2:
            if style == 0:
                body += 'if (b(2)) %s else %s' % (go(ss[0]), go(ss[1]))
            elif style == 1:
                body += 'if (b(2)) { %s } %s' % (go(ss[0]), go(ss[1]) if ss[1] != i + 1 else '')
            else:
                body += 'if (!b(2)) { t(%d); %s } t(%d); %s' % (50 + i, go(ss[0]), 60 + i, go(ss[1]))
        else:
            body += 'switch (b(%d)) { %s }' % (len(ss), ' '.join('case %d: %s' % (j, go(x)) for j, x in enumerate(ss)))
        out.append('N%d: %s' % (i, body))
    return 'void %s(void)\n{\n    %s\n%s}\n' % (name, '\n    '.join(out), '    end: t(99);\n' if exits else '')

def graphs(R, succs, nseeds):
    pre, calls = PRE, []
    for i, s in enumerate(succs):
        ex = R.random() < 0.5
        # the function must not run off its end in the middle
        pre += graph_fn('f%d' % i, s, ex, R.randrange(3))
        for q in R.sample(range(1, 9999), nseeds):
            calls.append('    seed = %d; fuel = %d; f%d(); printf("\\n");' % (q, R.randint(5, 9), i))
    return main('\n'.join(calls), pre)

def random_graph(R):
    n = R.randint(2, 7)
    return [[R.randrange(-1, n) for _ in range(R.choice([1, 2, 2, 2, 3]))] for _ in range(n)]

def label_tree(c, d, loop):
    """statements with a slot @ for a label of the switch in front of each"""
    R, out = c.R, []
    for _ in range(R.randint(1, 3)):
        k = R.randrange(9) if d > 0 else R.randrange(2)
        sub = lambda l: label_tree(c, d - 1, l)
        G = 'if (--fuel < 0) return 77; '
        if k == 0:
            out.append(c.t())
        elif k == 1:
            out.append(R.choice([c.t(), 'if (b(3)) break;', 'if (b(2)) continue;' if loop else 'break;', 'if (!b(3)) return %d;' % R.randint(1, 9), ';']))
        elif k == 2:
            out.append('if (%s) { %s }' % (c.cond(), sub(loop)))
        elif k == 3:
            out.append('if (%s) { %s } else { %s }' % (c.cond(), sub(loop), sub(loop)))
        elif k == 4:
            out.append('{ %s }' % sub(loop))
        elif k == 5:
            out.append('while (%s) { %s%s }' % (c.cond(), G, sub(True)))
        elif k == 6:
            out.append('do { %s%s } while (%s);' % (G, sub(True), c.cond()))
        elif k == 7:
            out.append('for (%s; %s; %s) { %s%s }' % (R.choice(['', 't(%d)' % (c.tag + 70)]), c.cond(), R.choice(['', 't(%d)' % (c.tag + 80)]), G, sub(True)))
        else:
            # the labels of an inner switch are its own
            out.append('switch (b(3)) { case 0: %s case 1: %s default: %s }' % (c.t(), c.t(), c.t()))
    return ' '.join('@ ' + x for x in out)

def inner_labels(R):
    """switches whose labels are anywhere in the statements of the body, also in loops"""
    pre, calls = PRE, []
    for i in range(4):
        c = Ctl(R, False)
        while True:
            c.tag = 0
            body = label_tree(c, 3, False)
            n = body.count('@')
            if 5 <= n <= 24:
                break
        labs = ['case %d:' % k for k in range(R.randint(2, 5))] + ['default:'] * (R.random() < .85)
        at = dict(zip(R.sample(range(n), min(n, len(labs))), labs))
        parts = body.split('@')
        body = parts[0] + ''.join(at.get(j, '') + x for j, x in enumerate(parts[1:]))
        outer = R.random() < .3
        if R.random() < .4:
            # the jump passes the declaration of a variable, which every label assigns to
            body = re.sub(r'(case (\d+)|default):', lambda m: '%s: q = q%d = %s; t(q + q%d);' % (m.group(1), i, m.group(2) or '8', i), body)
            body = '%s %s; %s t(q * 2);' % (R.choice(['int q = 9,', 'long q; int', 'int q = b(2); char']), 'q%d' % i, body)
            body = body.replace('t(q', 't((int)q')
        body = 'switch (n) { %s }' % body
        if outer:
            body = 'do { if (--fuel < 0) return 78; %s t(500); n = n + 1; } while (b(2));' % body
        pre += 'int f%d(int n)\n{\n    %s\n    t(999);\n    return 5;\n}\n' % (i, body)
        for k in range(6):
            calls.append('    seed = %d; fuel = %d; printf("= %%d\\n", f%d(%d));' % (R.randint(1, 9999), R.randint(3, 7), i, k))
    return main('\n'.join(calls), pre)

KWS = [dict(gotos=0.15, decl_top=True, shadow=0, switches=1.5, loops=1.5, stmts=5, depth=2, calls=0.2, structs=0, budget=120),
       dict(gotos=0.0, switches=2, loops=1.5, stmts=5, nest=3, depth=2, calls=0.3, structs=0, arrays=0.2, ptrs=0.2, budget=150),
       dict(gotos=0.25, decl_top=True, shadow=0, switches=0.8, loops=1.0, stmts=6, depth=1, calls=0, structs=0, arrays=0.2, ptrs=0, budget=100)]

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 5
    cases = finding_cases(ctx)
    cases += [Case(nested(R, i % 3 == 0, 1000 if ctx.quick else 1600), note='nested statements') for i in range(240 * k)]
    cases += [Case(inner_labels(R), note='labels in nested statements') for i in range(60 * k)]
    three = [[list(x) for x in g] for g in itertools.product(itertools.product(range(-1, 3), repeat=2), repeat=3)]
    three = [g for g in three if any(-1 in x for x in g)]
    if ctx.quick:
        three = R.sample(three, 200)
    cases += [Case(graphs(R, c, 2), note='graphs of 3 nodes') for c in chunks(three, 5)]
    cases += [Case(graphs(R, [random_graph(R) for _ in range(3)], 3), note='random graphs') for _ in range(60 * k)]
    cases += random_programs(ctx, 90 * k, 'C03', KWS)
    check_cases(ctx, cases)
