"""Integer expressions: every operator on every pair of types, conversions, compound assignment, ++ and --."""
from .common import *
RULE = ('every binary operator x pair of integer types, every cast and unary operator, compound assignments and ++/-- '
        'of every type, with boundary values, as variables and as constants; and random nested expressions. '
        'Non-trivial: a program of at least 50 machine steps, distinct source.')

def operand(ctx, v, t, decls, names):
    """an expression of type t with value v"""
    R = ctx.rng
    r = R.random()
    lt = None
    try:
        s, lt = lit(v)
    except ValueError:
        s = None
    if s is not None and lt is t and r < 0.25:
        return s
    if r < 0.75 or s is None:
        n = 'x%d' % len(names)
        names.append(n)
        if s is None:
            s = hex(v)
        decls.append('%s %s = %s;' % (t.c, n, s))
        return n
    return '(%s)%s' % (t.c, s)

def binary(ctx, per):
    R = ctx.rng
    out = []
    for op in BIN:
        for ta in ITYS:
            for tb in ITYS:
                va, vb = edge(ta), edge(tb)
                if op in ('<<', '>>'):
                    b = promote(ta).bits
                    vb = [x for x in (0, 1, 2, 7, 8, 15, 16, 31, b - 1, 32, 33, 62) if 0 <= x < b and x <= tb.hi]
                got = []
                tries = 0
                while len(got) < per and tries < 60:
                    tries += 1
                    a, b = R.choice(va), R.choice(vb)
                    if R.random() < 0.3:
                        a = R.randint(ta.lo, ta.hi)
                    if R.random() < 0.3 and op not in ('<<', '>>'):
                        b = R.randint(tb.lo, tb.hi)
                    if apply(op, a, ta, b, tb) is not None and (a, b) not in got:
                        got.append((a, b))
                for a, b in got:
                    d, n = [], []
                    x = operand(ctx, a, ta, d, n)
                    y = operand(ctx, b, tb, d, n)
                    e = '%s %s %s' % (x, op, y)
                    out.append((d, e))
    return out

def others(ctx, per):
    R = ctx.rng
    out = []
    for ta in ITYS:
        for v in edge(ta, R, per * 2):
            for tb in ITYS:
                d, n = [], []
                out.append((d, '(%s)%s' % (tb.c, operand(ctx, v, ta, d, n))))
            d, n = [], []
            out.append((d, '~%s' % operand(ctx, v, ta, d, n)))
            d, n = [], []
            out.append((d, '!%s' % operand(ctx, v, ta, d, n)))
            d, n = [], []
            out.append((d, '+%s' % operand(ctx, v, ta, d, n)))
            if not (promote(ta).signed and v == promote(ta).lo):
                d, n = [], []
                out.append((d, '-%s' % operand(ctx, v, ta, d, n)))
        for tb in ITYS:
            for c in (0, 1, 2):
                d, n = [], []
                a = operand(ctx, R.choice(edge(ta)), ta, d, n)
                b = operand(ctx, R.choice(edge(tb)), tb, d, n)
                d.append('int c = %d;' % (c and 5))
                out.append((d, 'c ? %s : %s' % (a, b)))
    return out

def effects(ctx, per):
    """assignments: value of the expression and value stored"""
    R = ctx.rng
    out = []
    for ta in ITYS:
        for tb in ITYS:
            for op in BIN[:10]:
                for _ in range(per):
                    for _ in range(20):
                        a, b = R.choice(edge(ta)), R.choice(edge(tb))
                        if op in ('<<', '>>'):
                            b = R.choice([0, 1, 3, 7, 8, 15, 31, promote(ta).bits - 1])
                            if b > tb.hi or b >= promote(ta).bits:
                                continue
                        if apply(op, a, ta, b, tb) is not None:
                            break
                    else:
                        continue
                    d, n = [], []
                    y = operand(ctx, b, tb, d, n)
                    d.append('%s v = %s;' % (ta.c, lit(a)[0]))
                    form = R.randrange(4)
                    if form == 0:
                        out.append((d, None, 'v %s= %s;' % (op, y), 'v'))
                    elif form == 1:
                        d.append('%s *p = &v;' % ta.c)
                        out.append((d, None, 'long r = (*p %s= %s); %s' % (op, y, observe('r')), 'v'))
                    elif form == 2:
                        out.append((d, None, '%s r = (v %s= %s); %s' % (tb.c, op, y, observe('r')), 'v'))
                    else:
                        d.append('%s arr[3] = {1, 2, 3}; arr[1] = v;' % ta.c)
                        out.append((d, None, 'arr[1] %s= %s; v = arr[1]; %s %s' % (op, y, observe('arr[0]'), observe('arr[2]')), 'v'))
            a, b = R.choice(edge(ta)), R.choice(edge(tb))
            d, n = [], []
            y = operand(ctx, b, tb, d, n)
            d.append('%s v = %s;' % (ta.c, lit(a)[0]))
            out.append((d, None, 'long r = (v = %s); %s' % (y, observe('r')), 'v'))
        for v in edge(ta, R, 2 + per) + [ta.lo, ta.hi]:
            for f in ('++v', 'v++', '--v', 'v--'):
                t = promote(ta)
                w = v + (1 if '+' in f else -1)
                if t.signed and not t.lo <= w <= t.hi:
                    continue
                d = ['%s v = %s;' % (ta.c, lit(v)[0])]
                if R.random() < 0.3:
                    d.append('%s *p = &v;' % ta.c)
                    f = f.replace('v', '(*p)')
                out.append((d, None, 'long r = (%s); %s printf("%%d\\n", (int)sizeof(%s));' % (f, observe('r'), f), 'v'))
    return out

def conversions(ctx):
    """to a parameter, a result, a variable"""
    R = ctx.rng
    out = []
    for ta in ITYS:
        for tb in ITYS:
            vs = edge(ta, R, 4) + [ta.lo, ta.hi]
            body = []
            for v in vs:
                s = lit(v)[0]
                body.append('    { %s x = %s; long r = f(x); %s r = f(%s); %s %s y = x; %s y = 1; y = x; %s }' % (
                    ta.c, s, observe('r'), s, observe('r'), tb.c, observe('y'), observe('y')))
                body.append('    { %s x = %s; %s }' % (ta.c, s, observe('g(x)')))
            pre = ('long f(%s p)\n{\n    %s\n    return p;\n}\n%s g(%s p)\n{\n    return p;\n}\n' % (
                   tb.c, observe('p + 0'), tb.c, ta.c))
            out.append(Case(functions_main(body).replace('void t0', pre + 'void t0', 1), note='conversion %s to %s' % (ta.c, tb.c)))
    return out

def program_of(items):
    lines = []
    for it in items:
        d = ' '.join(it[0])
        if it[1] is not None:
            lines.append('    { %s %s }' % (d, observe(it[1])))
        else:
            lines.append('    { %s %s %s }' % (d, it[2], observe(it[3])))
    return functions_main(lines)

KWS = [dict(arrays=0, ptrs=0, structs=0, calls=0, depth=4, stmts=2, nest=1, funs=(1, 2), globals=(1, 3), assign_expr=0.05,
            loops=0.2, cond=0.5),
       dict(arrays=0, ptrs=0, structs=0, calls=0.3, depth=4, stmts=2, nest=1, funs=(1, 2), globals=(1, 3),
            assign_expr=0.25, incdec=0.6, loops=0.3),
       dict(arrays=0.2, ptrs=0.3, structs=0.2, calls=0.3, depth=3, stmts=3, nest=1, funs=(1, 2), loops=0.3)]

def run(ctx):
    k = 1 if ctx.quick else 6
    cases = finding_cases(ctx)
    items = binary(ctx, 6 if ctx.quick else 16) + others(ctx, 3 * k) + effects(ctx, k)
    ctx.rng.shuffle(items)
    cfgs = [0] if ctx.quick else None
    cases += [Case(program_of(c), cfgs=[0, 7] if i % 8 == 0 else [0], note='operator table') for i, c in enumerate(chunks(items, 12))]
    cases += conversions(ctx)
    cases += random_programs(ctx, 200 * k, 'C01', KWS)
    check_cases(ctx, cases)
