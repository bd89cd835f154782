"""Building blocks of the generators."""
import random
import gen
from gen import ITYS, BYK, FMT, promote, uac, wrap, lit, I32, I64, U32, U64
from engine import Case, check_cases, finding_cases

def edge(t, rng=None, n=None):
    """interesting values of an integer type"""
    b = t.bits
    vs = {0, 1, 2, t.hi, t.hi - 1, t.lo, t.lo + 1, 1 << (b - 2), (1 << (b - 1)) - 1, 7, 100}
    if t.signed:
        vs |= {-1, -2, -7, -100}
    for k in (7, 8, 15, 16, 31, 32, 63):
        for d in (-1, 0, 1):
            vs.add((1 << k) + d)
            vs.add(-(1 << k) + d)
    vs = sorted(v for v in vs if t.lo <= v <= t.hi)
    if rng is not None and n is not None:
        vs = rng.sample(vs, min(n, len(vs)))
        if rng.random() < 0.7:
            vs.append(rng.randint(t.lo, t.hi))
    return vs

def apply(op, a, ta, b, tb):
    """the value and type of a op b, or None if it isn't defined"""
    if op in ('<<', '>>'):
        t = promote(ta)
        if not 0 <= b < t.bits:
            return None
        if op == '>>':
            return a >> b, t
        if t.signed and (a < 0 or a << b > t.hi):
            return None
        return wrap(a << b, t), t
    t = uac(ta, tb)
    a, b = wrap(a, t), wrap(b, t)
    if op in ('<', '>', '<=', '>=', '==', '!='):
        return int({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]), I32
    if op in '/%':
        if b == 0:
            return None
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        r = q if op == '/' else a - q * b
        if not t.lo <= q <= t.hi:
            return None
    else:
        r = {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b}[op]
    if t.signed and not t.lo <= r <= t.hi:
        return None
    return wrap(r, t), t

BIN = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '>', '<=', '>=', '==', '!=']
HEAD = 'int printf(const char *format, ...);\n'
HEADS = HEAD

def observe(e):
    """print the value, sign and size of expression e"""
    return 'printf("%%lu %%d %%d\\n", (unsigned long)(%s), (%s) < 0, (int)sizeof(%s));' % (e, e, e)

def main(body, pre='', args='void'):
    return HEAD + pre + 'int main(%s)\n{\n%s\n    return 0;\n}\n' % (args, body)

def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]

def random_programs(ctx, n, base, kws, cfgs=None, note='random program'):
    """n programs of gen.py, with the feature weights of kws in turn"""
    import engine
    jobs = [(('%s/%d/%d' % (base, ctx.seed, i)), kws[i % len(kws)]) for i in range(n)]
    srcs = engine.pool_map(_gen, jobs)
    return [Case(s, cfgs, None, note) for s in srcs]
def _gen(job):
    seed, kw = job
    return gen.program(seed, **kw)

def functions_main(lines, per=3):
    """a program that executes the lines in small functions (the compiler is slow on long ones)"""
    pre, calls = '', []
    for i, c in enumerate(chunks(lines, per)):
        pre += 'void t%d(void)\n{\n%s\n}\n' % (i, '\n'.join(c))
        calls.append('    t%d();' % i)
    return main('\n'.join(calls), pre)
