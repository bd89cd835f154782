"""Random C programs whose behaviour is defined.

Values are tracked as intervals, so that the programs have no overflow, no
division by zero and no access outside an object; effects are tracked as sets
of tokens, so that unsequenced operands don't conflict.  None of this is
trusted: the specification discards a program whose behaviour is undefined.
"""
import random

class Ty:
    def __init__(self, k, c, bits, signed):
        self.k, self.c, self.bits, self.signed = k, c, bits, signed
        self.lo = -(1 << bits - 1) if signed else 0
        self.hi = (1 << bits - (1 if signed else 0)) - 1
    def __repr__(self):
        return self.k
I8, U8 = Ty('i8', 'char', 8, True), Ty('u8', 'unsigned char', 8, False)
I16, U16 = Ty('i16', 'short', 16, True), Ty('u16', 'unsigned short', 16, False)
I32, U32 = Ty('i32', 'int', 32, True), Ty('u32', 'unsigned int', 32, False)
I64, U64 = Ty('i64', 'long', 64, True), Ty('u64', 'unsigned long', 64, False)
ITYS = [I8, U8, I16, U16, I32, U32, I64, U64]
BYK = {t.k: t for t in ITYS}
FMT = {'i8': '%d', 'u8': '%d', 'i16': '%d', 'u16': '%d', 'i32': '%d', 'u32': '%u', 'i64': '%ld', 'u64': '%lu'}
RANK = {8: 1, 16: 2, 32: 3, 64: 4}

def promote(t):
    return I32 if t.bits < 32 else t
def uac(a, b):
    a, b = promote(a), promote(b)
    if a is b:
        return a
    if a.signed == b.signed:
        return a if a.bits > b.bits else b
    u, s = (a, b) if not a.signed else (b, a)
    return s if s.bits > u.bits else u
def wrap(v, t):
    v &= (1 << t.bits) - 1
    return v - (1 << t.bits) if t.signed and v >> (t.bits - 1) else v
def conv(lo, hi, t):
    if lo >= t.lo and hi <= t.hi:
        return lo, hi
    if hi - lo < 1 << t.bits:
        a, b = wrap(lo, t), wrap(hi, t)
        if a <= b:
            return a, b
    return t.lo, t.hi
def in_range(lo, hi, t):
    return t.lo <= lo and hi <= t.hi

def lit(v, rng=None):
    """an expression for v, and its type"""
    if v < 0:
        if v == -(1 << 63):
            return '(-9223372036854775807 - 1)', I64
        s, t = lit(-v)
        if t is U64:
            raise ValueError
        if v == -(1 << 31):
            return '(-2147483647 - 1)', I32
        return '(-%s)' % s, t
    t = I32 if v < 1 << 31 else I64 if v < 1 << 63 else U64
    if rng is not None and t is I32 and rng.random() < 0.15:
        return rng.choice([hex(v), '0%o' % v if v else '0']), t
    return (hex(v) if t is U64 else str(v)), t

NONE = frozenset()
class E:
    __slots__ = ('s', 't', 'lo', 'hi', 'r', 'w')
    def __init__(self, s, t, lo=None, hi=None, r=NONE, w=NONE):
        self.s, self.t = s, t
        self.lo = t.lo if lo is None else lo
        self.hi = t.hi if hi is None else hi
        self.r, self.w = r, w
def conflict(a, b):
    return bool(a.w & (b.r | b.w) or b.w & a.r)

class Var:
    """a scalar lvalue, an array, a pointer or a structure"""
    def __init__(self, name, kind, t=None, lo=None, hi=None, dims=None, tok=None, const=False, st=None):
        self.name, self.kind, self.t = name, kind, t
        self.lo = lo if lo is not None or t is None or not isinstance(t, Ty) else t.lo
        self.hi = hi if hi is not None or t is None or not isinstance(t, Ty) else t.hi
        self.dims, self.tok, self.const, self.st = dims, tok, const, st

class Fun:
    def __init__(self, name, ret, params, r=NONE, w=NONE, cost=10, lo=None, hi=None):
        self.name, self.ret, self.params, self.r, self.w, self.cost = name, ret, params, r, w, cost
        self.lo, self.hi = lo, hi

class Struct:
    def __init__(self, tag, union, members):
        self.tag, self.union, self.members = tag, union, members   # members: [(name, kind, type, dims)]

DEFAULT = dict(types=ITYS, arrays=0.5, ptrs=0.4, structs=0.3, gotos=0.0, switches=0.5, loops=1.0, calls=0.6,
               shadow=0.2, assign_expr=0.15, incdec=0.3, depth=3, stmts=6, funs=(1, 4), budget=250, printf_args=3,
               call_io=0.5, statics=0.2, globals=(1, 5), cond=0.3, comma=0.1, late=0.3, recursion=0.3, big_const=0.2,
               floats=0.0, block=0.2, nest=3, ret_inside=0.15)

class Gen:
    def __init__(self, rng, **kw):
        self.R = rng
        self.F = dict(DEFAULT); self.F.update(kw)
        self.n = 0
        self.out = []
        self.funs = []
        self.structs = []
        self.scopes = [{}]
        self.fn = None
        self.loop = 0
        self.cost = 1
        self.spent = 0
        self.infn_w = set(); self.infn_r = set()
        self.labels = []

    # ---- small helpers
    def p(self, x):
        return self.R.random() < x
    def flag(self, k):
        return self.R.random() < self.F[k]
    def fresh(self, b='v'):
        self.n += 1
        return '%s%d' % (b, self.n)
    def visible(self):
        seen, out = set(), []
        for s in reversed(self.scopes):
            for n, v in s.items():
                if n not in seen:
                    seen.add(n); out.append(v)
        return out
    def ity(self):
        return self.R.choice(self.F['types'])
    def interval(self, t):
        """an invariant for a variable of type t"""
        r = self.R.random()
        if r < 0.3:
            return t.lo, t.hi
        if r < 0.65:
            k = self.R.choice([1, 3, 7, 15, 63, 127] + ([255, 1023, 32767] if t.bits > 8 else []))
            return 0, min(k, t.hi)
        k = self.R.choice([1, 9, 100] + ([1000, 30000] if t.bits > 8 else []))
        return (-k, k) if t.signed else (0, 127)

    def newname(self):
        if self.flag('shadow'):
            vs = [v.name for v in self.visible() if v.name not in self.scopes[-1] and not v.const and v.kind != 'fuel'
                  and v.name not in getattr(self, 'noshadow', ())]
            if vs:
                return self.R.choice(vs)
        return self.fresh()

    def const(self, t=None, lo=None, hi=None):
        R = self.R
        if lo is None:
            if t is None:
                t = I32
            if self.flag('big_const'):
                c = R.choice([t.lo, t.hi, t.hi - 1, t.lo + 1, t.hi // 2, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 63, 64])
            else:
                c = R.randint(-20, 60)
            c = max(t.lo, min(t.hi, c))
        else:
            c = R.randint(lo, hi)
        s, tt = lit(c, R)
        return E(s, tt, c, c)

    def fit(self, e, t, lo, hi):
        """e, changed so that converted to t it is in [lo, hi] (an interval of interval())"""
        a, b = conv(e.lo, e.hi, t)
        if a >= lo and b <= hi:
            return e
        if lo == t.lo and hi == t.hi:
            return e
        if lo == 0 and (hi & (hi + 1)) == 0:
            s, ct = lit(hi)
            rt = uac(e.t, ct)
            return E('(%s & %s)' % (e.s, s), rt, 0, hi, e.r, e.w)
        if lo == -hi:
            s, ct = lit(hi + 1)
            rt = uac(e.t, ct)
            if not rt.signed and True:
                return E('(%s %% %s)' % (e.s, s), rt, 0, hi, e.r, e.w)
            return E('(%s %% %s)' % (e.s, s), rt, -hi, hi, e.r, e.w)
        if lo == 0:
            s, ct = lit(hi + 1)
            u = self.cast(e, U32)
            return E('(%s %% %s)' % (u.s, s), U32, 0, hi, e.r, e.w)
        # shift an interval
        s, ct = lit(lo)
        f = self.fit(e, U32, 0, hi - lo)
        f = self.cast(f, I32)
        return E('(%s + %s)' % (f.s, s), I32, lo, hi, f.r, f.w)

    def cast(self, e, t):
        lo, hi = conv(e.lo, e.hi, t)
        return E('(%s)%s' % (t.c, e.s if e.s[0] == '(' or e.s.isalnum() else '(' + e.s + ')'), t, lo, hi, e.r, e.w)

    # ---- lvalues
    def lvalues(self, depth, writable=False):
        """candidates: functions giving (text, type, lo, hi, reads, tok)"""
        out = []
        for v in self.visible():
            if writable and v.const:
                continue
            if v.kind == 'int':
                out.append((1.0, lambda v=v: (v.name, v.t, v.lo, v.hi, NONE, v.tok)))
            elif v.kind == 'arr':
                out.append((0.8, lambda v=v: self.elem(v, v.name, v.dims, depth)))
            elif v.kind == 'ptr':
                out.append((0.8, lambda v=v: self.deref(v, depth)))
            elif v.kind == 'st':
                out.append((0.9, lambda v=v: self.member(v.name, '.', v.st, v.tok, depth, NONE)))
            elif v.kind == 'stp':
                out.append((0.7, lambda v=v: self.member(v.name, '->', v.st, 'M', depth, frozenset([v.tok]))))
        return out
    def elem(self, v, base, dims, depth):
        s, r = base, set()
        for d in dims:
            i = self.index(d, depth)
            s += '[%s]' % i.s
            r |= i.r
        return (s, v.t, v.lo, v.hi, frozenset(r), v.tok)
    def index(self, d, depth):
        if depth <= 0 or self.p(0.4):
            return self.const(None, 0, d - 1)
        for _ in range(5):
            e = self.expr(depth - 1)
            if e.w:
                continue
            k = 1
            while k * 2 <= d:
                k *= 2
            if e.t.bits == 64 or self.p(0.3):
                e = self.cast(e, self.R.choice([I32, U32, U8]))
            return self.fit(e, I32, 0, k - 1)
        return self.const(None, 0, d - 1)
    def deref(self, v, depth):
        if v.dims == 1 and self.p(0.8):
            return ('*' + v.name, v.t, v.lo, v.hi, frozenset([v.tok]), 'M')
        i = self.index(v.dims, depth)
        if self.p(0.5):
            return ('%s[%s]' % (v.name, i.s), v.t, v.lo, v.hi, i.r | {v.tok}, 'M')
        return ('*(%s + %s)' % (v.name, i.s), v.t, v.lo, v.hi, i.r | {v.tok}, 'M')
    def member(self, base, op, st, tok, depth, r):
        ms = st.members if not st.union else st.members[:1]
        n, kind, t, dims = self.R.choice(ms)
        s = base + op + n
        if kind == 'int':
            lo, hi = t.lo, t.hi
            return (s, t, lo, hi, r, tok)
        if kind == 'arr':
            i = self.index(dims[0], depth)
            return ('%s[%s]' % (s, i.s), t, t.lo, t.hi, r | i.r, tok)
        if kind == 'st':
            return self.member(s, '.', t, tok, depth, r)
        raise ValueError(kind)
    def pick_lv(self, depth, writable=False):
        c = self.lvalues(depth, writable)
        if not c:
            return None
        return self.R.choices([f for _, f in c], [w for w, _ in c])[0]()

    # ---- expressions
    def expr(self, depth=None):
        if depth is None:
            depth = self.F['depth']
        R = self.R
        if depth <= 0 or self.p(0.15):
            return self.leaf(depth)
        k = R.random()
        F = self.F
        if F['calls'] and self.p(0.12 * F['calls']):
            e = self.call(depth - 1)
            if e is not None:
                return e
        if self.p(F['assign_expr'] * 0.5):
            return self.assign(depth - 1)
        if self.p(F['cond'] * 0.3):
            return self.cond(depth)
        if self.p(F['comma'] * 0.4):
            a, b = self.expr(depth - 1), self.expr(depth - 1)
            return E('(%s, %s)' % (a.s, b.s), b.t, b.lo, b.hi, a.r | b.r, a.w | b.w)
        if k < 0.08:
            return self.unary(depth)
        if k < 0.16:
            return self.cast(self.expr(depth - 1), self.ity())
        if k < 0.24:
            return self.logic(depth)
        for _ in range(6):
            a, b = self.expr(depth - 1), self.expr(depth - 1)
            if conflict(a, b):
                continue
            if k < 0.36:
                op = R.choice(['<', '>', '<=', '>=', '==', '!='])
                return E('(%s %s %s)' % (a.s, op, b.s), I32, 0, 1, a.r | b.r, a.w | b.w)
            return self.arith(R.choice(['+', '-', '*', '+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']), a, b)
        return self.leaf(0)

    def leaf(self, depth):
        if self.p(0.35):
            return self.const(self.ity())
        lv = self.pick_lv(depth - 1)
        if lv is None:
            return self.const(self.ity())
        s, t, lo, hi, r, tok = lv
        return E(s, t, lo, hi, r | {tok} if tok else r)

    def arith(self, op, a, b):
        r, w = a.r | b.r, a.w | b.w
        if op in ('<<', '>>'):
            t = promote(a.t)
            k = self.R.choice([3, 7, 15, t.bits - 1])
            b = self.fit(b, b.t, 0, k)
            if b.t.bits == 64 and self.p(0.5):
                b = self.cast(b, I32)
            if op == '<<':
                if t.signed:
                    a = self.fit(a, a.t, 0, min(127, a.t.hi))
                    b = self.fit(b, b.t, 0, 15)
                    hi = a.hi << 15
                    if hi > t.hi:
                        a = self.fit(a, a.t, 0, 1)
                    return E('(%s << %s)' % (a.s, b.s), t, 0, min(t.hi, max(a.hi, 0) << 15), r, w)
                return E('(%s << %s)' % (a.s, b.s), t, None, None, r, w)
            lo, hi = conv(a.lo, a.hi, t)
            return E('(%s >> %s)' % (a.s, b.s), t, min(lo, 0), max(hi, 0), r, w)
        t = uac(a.t, b.t)
        if op in ('/', '%'):
            if self.p(0.5):
                c = self.R.choice([1, 2, 3, 5, 7, 10, 16, 100, 127, 1000])
                s, ct = lit(c)
                b = E(s, ct, c, c)
            else:
                k = self.R.choice([1, 7, 31])
                f = self.fit(b, b.t, 0, min(k, b.t.hi))
                b = E('(%s + 1)' % f.s, uac(f.t, I32), 1, f.hi + 1, f.r, f.w)
            r, w = a.r | b.r, a.w | b.w
            t = uac(a.t, b.t)
            lo, hi = conv(a.lo, a.hi, t)
            if op == '/':
                return E('(%s / %s)' % (a.s, b.s), t, min(lo, 0), max(hi, 0), r, w)
            m = b.hi - 1
            return E('(%s %% %s)' % (a.s, b.s), t, max(lo, -m) if lo < 0 else 0, min(m, hi) if hi > 0 else 0, r, w)
        if op in '&|^':
            (al, ah), (bl, bh) = conv(a.lo, a.hi, t), conv(b.lo, b.hi, t)
            if al >= 0 and bl >= 0:
                lo, hi = 0, (1 << max(ah, bh).bit_length()) - 1
            else:
                k = max(abs(al), abs(ah) + 1, abs(bl), abs(bh) + 1)
                k = 1 << (k - 1).bit_length()
                lo, hi = max(t.lo, -k), min(t.hi, k - 1)
            return E('(%s %s %s)' % (a.s, op, b.s), t, lo, hi, r, w)
        for _ in range(3):
            t = uac(a.t, b.t)
            (al, ah), (bl, bh) = conv(a.lo, a.hi, t), conv(b.lo, b.hi, t)
            if op == '+':
                lo, hi = al + bl, ah + bh
            elif op == '-':
                lo, hi = al - bh, ah - bl
            else:
                q = [al * bl, al * bh, ah * bl, ah * bh]
                lo, hi = min(q), max(q)
            if in_range(lo, hi, t) or not t.signed:
                lo, hi = conv(lo, hi, t)
                return E('(%s %s %s)' % (a.s, op, b.s), t, lo, hi, r, w)
            if ah - al > bh - bl:
                a = self.small(a, 30000)
            else:
                b = self.small(b, 30000)
        a, b = self.small(a, 1000), self.small(b, 1000)
        t = uac(a.t, b.t)
        return E('(%s %s %s)' % (a.s, op, b.s), t, -1000000 if t.signed else None, 1000000 if t.signed else None, r, w)

    def small(self, e, k):
        if e.lo >= -k and e.hi <= k:
            return e
        c = self.R.random()
        if c < 0.3:
            t = self.R.choice([I8, U8])
            return self.cast(e, t)
        if c < 0.6:
            return self.fit(e, e.t, 0, 127)
        return self.fit(e, promote(e.t), -k + 1, k - 1) if promote(e.t).signed else self.fit(e, e.t, 0, 127)

    def unary(self, depth):
        a = self.expr(depth - 1)
        op = self.R.choice(['-', '~', '!', '+'])
        t = promote(a.t)
        lo, hi = conv(a.lo, a.hi, t)
        if op == '!':
            return E('(!%s)' % a.s, I32, 0, 1, a.r, a.w)
        if op == '~':
            lo, hi = (-hi - 1, -lo - 1) if t.signed else (None, None)
        elif op == '-':
            if t.signed and lo == t.lo:
                a = self.small(a, 30000)
                t = promote(a.t)
                lo, hi = conv(a.lo, a.hi, t)
            lo, hi = (-hi, -lo) if t.signed else (None, None)
        elif op == '+':
            return E('(+%s)' % a.s, t, lo, hi, a.r, a.w)
        sp = ' ' if a.s[0] in '+-' else ''
        return E('(%s%s%s)' % (op, sp, a.s), t, lo, hi, a.r, a.w)

    def logic(self, depth):
        a, b = self.expr(depth - 1), self.expr(depth - 1)
        return E('(%s %s %s)' % (a.s, self.R.choice(['&&', '||']), b.s), I32, 0, 1, a.r | b.r, a.w | b.w)

    def cond(self, depth):
        c, a, b = self.expr(depth - 1), self.expr(depth - 1), self.expr(depth - 1)
        t = uac(a.t, b.t)
        (al, ah), (bl, bh) = conv(a.lo, a.hi, t), conv(b.lo, b.hi, t)
        return E('(%s ? %s : %s)' % (c.s, a.s, b.s), t, min(al, bl), max(ah, bh), c.r | a.r | b.r, c.w | a.w | b.w)

    def assign(self, depth):
        """an assignment, compound assignment or increment, as an expression"""
        for _ in range(8):
            lv = self.pick_lv(depth - 1, True)
            if lv is None:
                break
            s, t, lo, hi, r, tok = lv
            w = frozenset([tok]) if tok else NONE
            self.infn_w |= w
            if self.flag('incdec') and lo == t.lo and hi == t.hi and (not t.signed or t.bits < 32):
                op = self.R.choice(['++', '--'])
                if '->' in s or '[' in s or s[0] == '*' or '.' in s:
                    s = '(%s)' % s
                return E('(%s%s)' % ((s, op) if self.p(0.5) else (op, s)), t, None, None, r | w, w)
            e = self.expr(depth)
            if e.w & (w | r) or (w & e.r and False):
                continue
            if e.w & r:
                continue
            if self.p(0.35) and lo == t.lo and hi == t.hi:
                op = self.R.choice(['+', '-', '*', '&', '|', '^', '/', '%', '<<', '>>'])
                if op in '&|^':
                    return E('(%s %s= %s)' % (s, op, e.s), t, None, None, r | w | e.r, e.w | w)
                if op in ('/', '%'):
                    c = self.R.choice([1, 2, 3, 7, 10])
                    return E('(%s %s= %d)' % (s, op, c), t, None, None, r | w, w)
                if op == '>>':
                    f = self.fit(e, e.t, 0, 7)
                    return E('(%s >>= %s)' % (s, f.s), t, None, None, r | w | e.r, e.w | w)
                if not uac(t, e.t).signed:
                    if op == '<<':
                        if promote(t).signed:
                            continue
                        e = self.fit(e, e.t, 0, 7)
                    return E('(%s %s= %s)' % (s, op, e.s), t, None, None, r | w | e.r, e.w | w)
                if uac(t, e.t).bits > t.bits and op != '<<':
                    f = self.fit(e, e.t, -100, 100) if e.t.signed else self.fit(e, e.t, 0, 63)
                    if op != '*' or t.bits < 32:
                        return E('(%s %s= %s)' % (s, op, f.s), t, None, None, r | w | e.r, e.w | w)
                continue
            e = self.fit(e, t, lo, hi)
            if e.w & (w | r):
                continue
            return E('(%s = %s)' % (s, e.s), t, lo, hi, r | e.r, e.w | w)
        return self.leaf(0)

    def call(self, depth):
        fs = [f for f in self.funs if f.ret is not None and self.cost * f.cost + self.spent < self.F['budget'] * 4]
        if not fs:
            return None
        f = self.R.choice(fs)
        e = self.call_to(f, depth)
        return E(e.s, f.ret, f.lo, f.hi, e.r, e.w) if e else None

    def call_to(self, f, depth):
        for _ in range(6):
            args, es = [], []
            ok = True
            for pv in f.params:
                e = self.arg(pv, depth)
                if e is None:
                    return None
                if any(conflict(e, x) for x in es):
                    ok = False
                    break
                es.append(e); args.append(e.s)
            if not ok:
                depth = 0
                continue
            r, w = set(f.r), set(f.w)
            for e in es:
                r |= e.r; w |= e.w
            self.spent += self.cost * f.cost
            self.infn_w |= f.w; self.infn_r |= f.r
            return E('%s(%s)' % (f.name, ', '.join(args)), I32, 0, 0, frozenset(r), frozenset(w))
        return None

    def arg(self, pv, depth):
        if pv.kind == 'int':
            e = self.expr(depth)
            return self.fit(e, pv.t, pv.lo, pv.hi)
        if pv.kind == 'ptr':
            return self.pointer(pv.t, pv.lo, pv.hi, pv.dims)
        if pv.kind == 'stp':
            c = []
            for v in self.visible():
                if v.kind == 'st' and v.st is pv.st and v.tok == 'M':
                    c.append(E('&' + v.name, I32, 0, 0))
                if v.kind == 'stp' and v.st is pv.st:
                    c.append(E(v.name, I32, 0, 0, frozenset([v.tok])))
            return self.R.choice(c) if c else None

    def pointer(self, t, lo, hi, dims):
        """a pointer expression to dims elements of type t whose values stay in [lo, hi]"""
        c = []
        for v in self.visible():
            if v.t is not t or v.lo != lo or v.hi != hi or (v.tok != 'M' and v.kind != 'ptr') or v.const:
                continue
            if v.kind == 'int' and dims == 1:
                c.append(E('&' + v.name, I32, 0, 0))
            if v.kind == 'arr' and len(v.dims) == 1 and v.dims[0] >= dims:
                k = v.dims[0] - dims
                o = self.R.randint(0, k)
                c.append(E('&%s[%d]' % (v.name, o) if o or self.p(0.3) else v.name, I32, 0, 0))
                c.append(E('(%s + %d)' % (v.name, o), I32, 0, 0))
            if v.kind == 'arr' and len(v.dims) == 2 and v.dims[1] >= dims:
                c.append(E('%s[%d]' % (v.name, self.R.randint(0, v.dims[0] - 1)), I32, 0, 0))
            if v.kind == 'ptr' and v.dims >= dims:
                o = self.R.randint(0, v.dims - dims)
                c.append(E('(%s + %d)' % (v.name, o) if o else v.name, I32, 0, 0, frozenset([v.tok])))
        return self.R.choice(c) if c else None

    # ---- statements
    def emit(self, s, ind):
        self.out.append('    ' * ind + s)
    def add(self, v):
        self.scopes[-1][v.name] = v
        return v

    def show(self, e):
        if e.t.k in ('i8', 'u8', 'i16', 'u16') or e.t.k in FMT:
            return FMT[e.t.k], e.s

    def printf(self, ind):
        es = []
        for _ in range(self.R.randint(1, self.F['printf_args'])):
            e = self.expr(2) if self.p(0.5) else self.leaf(1)
            if 'IO' in e.w or any(conflict(e, x) for x in es):
                continue
            es.append(e)
        tag = self.fresh('')
        if not es:
            self.emit('printf("%s\\n");' % tag, ind)
        else:
            self.emit('printf("%s %s\\n", %s);' % (tag, ' '.join(FMT[e.t.k] for e in es), ', '.join(e.s for e in es)), ind)
        self.infn_w.add('IO')
        for e in es:
            self.infn_r |= e.r
            self.infn_w |= e.w

    def decl(self, ind, top=False):
        """declare (and initialise) a variable"""
        R, F = self.R, self.F
        r = R.random()
        glob = len(self.scopes) == 1
        static = not glob and self.flag('statics') and self.p(0.3)
        pre = 'static ' if static else ''
        tokof = lambda name: 'G' if glob or static else 'L:' + name
        if r < 0.25 * F['arrays']:
            name = self.newname()
            t = self.ity(); lo, hi = self.interval(t)
            dims = [R.choice([1, 2, 4, 8, 3, 5, 7, 16])] if self.p(0.7) else [R.choice([1, 2, 3, 4]), R.choice([1, 2, 4, 3])]
            tok = 'M'
            v = Var(name, 'arr', t, lo, hi, dims, tok)
            if glob or static:
                self.emit('%s%s %s%s = %s;' % (pre, t.c, name, ''.join('[%d]' % d for d in dims), self.arrinit(dims, lo, hi)), ind)
                self.add(v)
            elif len(dims) == 1 and self.p(0.5):
                self.emit('%s %s[%d];' % (t.c, name, dims[0]), ind)
                self.add(v); 
                i = self.fresh('i')
                e = self.fit(E('(%s * %d + %d)' % (i, R.randint(-3, 9), R.randint(-5, 9)), I32, -300, 300), t, lo, hi)
                self.emit('for (int %s = 0; %s < %d; %s++) %s[%s] = %s;' % (i, i, dims[0], i, name, i, e.s), ind)
                self.spent += self.cost * dims[0]
            else:
                self.emit('%s %s%s = %s;' % (t.c, name, ''.join('[%d]' % d for d in dims), self.arrinit(dims, lo, hi)), ind)
                self.add(v)
            return
        if r < 0.25 * F['arrays'] + 0.25 * F['ptrs'] and not glob and not static:
            t = self.ity()
            c = [v for v in self.visible() if (v.kind in ('int', 'arr', 'ptr') and isinstance(v.t, Ty) and (v.tok == 'M' or v.kind == 'ptr') and not v.const)]
            if c:
                v = R.choice(c)
                name = self.newname()
                if name == v.name:
                    name = self.fresh()
                if v.kind == 'int':
                    d = 1
                elif v.kind == 'arr':
                    d = R.randint(1, v.dims[-1])
                else:
                    d = R.randint(1, v.dims)
                e = self.pointer(v.t, v.lo, v.hi, d)
                if e is not None and not any(name in (x[2:] for x in e.r if x.startswith('L:')) for _ in [0]) and name not in e.s.replace('&', ' ').replace('(', ' ').replace('[', ' ').split():
                    self.emit('%s *%s = %s;' % (v.t.c, name, e.s), ind)
                    self.add(Var(name, 'ptr', v.t, v.lo, v.hi, d, 'L:' + name))
                    return
        if r > 1 - 0.2 * F['structs'] and self.structs:
            st = R.choice(self.structs)
            name = self.newname()
            kw = 'union' if st.union else 'struct'
            if glob or static:
                self.emit('%s%s %s %s;' % (pre, kw, st.tag, name), ind)
                self.add(Var(name, 'st', None, tok='M', st=st))
            else:
                if self.p(0.3) and not st.union:
                    self.emit('%s %s %s = %s;' % (kw, st.tag, name, self.stinit(st)), ind)
                else:
                    self.emit('%s %s %s;' % (kw, st.tag, name), ind)
                    for l in self.stassign(name, st):
                        self.emit(l, ind)
                self.add(Var(name, 'st', None, tok='M', st=st))
            if not glob and not static and self.p(0.5):
                q = self.fresh('p')
                self.emit('%s %s *%s = &%s;' % (kw, st.tag, q, name), ind)
                self.add(Var(q, 'stp', None, tok='L:' + q, st=st))
            return
        t = self.ity(); lo, hi = self.interval(t)
        # the initialiser is in the scope of the name
        e = self.expr(F['depth'] - 1) if not (glob or static) else self.const(t)
        name = self.newname()
        tries = 0
        while ('L:' + name) in e.r or ('L:' + name) in e.w or any(x == name for x in self.words(e.s)):
            tries += 1
            name = self.newname() if tries < 5 else self.fresh()
        addr = self.p(0.3 * F['ptrs'])
        v = Var(name, 'int', t, lo, hi, tok='M' if addr else tokof(name))
        e = self.fit(e, t, lo, hi)
        if glob or static:
            c = self.R.randint(max(lo, -(1 << 40)), min(hi, 1 << 40))
            if self.p(0.2) and lo <= 0 <= hi:
                self.emit('%s%s %s;' % (pre, t.c, name), ind)
            else:
                self.emit('%s%s %s = %s;' % (pre, t.c, name, lit(c)[0].strip('()') if '- 1' not in lit(c)[0] else lit(c)[0]), ind)
        elif self.flag('late') and not e.w:
            self.emit('%s %s;' % (t.c, name), ind)
            c = self.expr(1)
            if c.w or any(x == name for x in self.words(c.s)):
                c = self.const()
            e2 = self.fit(self.const(t), t, lo, hi)
            self.emit('if (%s) %s = %s; else %s = %s;' % (c.s, name, e.s, name, e2.s), ind)
        else:
            self.emit('%s %s = %s;' % (t.c, name, e.s), ind)
            self.infn_w |= e.w
        self.infn_r |= e.r
        self.add(v)

    @staticmethod
    def words(s):
        w, out = '', []
        for ch in s + ' ':
            if ch.isalnum() or ch == '_':
                w += ch
            else:
                if w:
                    out.append(w)
                w = ''
        return out

    def val(self, lo, hi):
        return lit(self.R.randint(lo, hi) if self.p(0.7) else self.R.choice([lo, hi, max(lo, min(hi, 0))]))[0]
    def arrinit(self, dims, lo, hi):
        n = dims[0]
        if len(dims) == 1:
            k = n if self.p(0.7) or not lo <= 0 <= hi else self.R.randint(1, n)
            return '{' + ', '.join(self.val(lo, hi) for _ in range(k)) + '}'
        k = n if self.p(0.8) or not lo <= 0 <= hi else self.R.randint(1, n)
        return '{' + ', '.join(self.arrinit(dims[1:], lo, hi) for _ in range(k)) + '}'
    def stinit(self, st):
        xs = []
        for n, kind, t, dims in st.members:
            if kind == 'int':
                xs.append(self.val(max(t.lo, -1000), min(t.hi, 1000)))
            elif kind == 'arr':
                xs.append(self.arrinit(dims, max(t.lo, -1000), min(t.hi, 1000)))
            elif kind == 'st':
                xs.append(self.stinit(t))
        return '{' + ', '.join(xs) + '}'
    def stassign(self, path, st):
        out = []
        ms = st.members if not st.union else st.members[:1]
        for n, kind, t, dims in ms:
            if kind == 'int':
                out.append('%s.%s = %s;' % (path, n, self.val(t.lo, t.hi)))
            elif kind == 'arr':
                for i in range(dims[0]):
                    out.append('%s.%s[%d] = %s;' % (path, n, i, self.val(t.lo, t.hi)))
            elif kind == 'st':
                out += self.stassign('%s.%s' % (path, n), t)
        return out

    def stmt(self, ind, nest):
        R, F = self.R, self.F
        self.spent += self.cost
        r = R.random()
        if self.fn_gotos and self.p(F['gotos']):
            return self.goto(ind)
        if nest > 0:
            if r < 0.12:
                return self.if_(ind, nest)
            if r < 0.12 + 0.15 * F['loops'] and self.cost * 3 + self.spent < F['budget']:
                return self.loop_(ind, nest)
            if r < 0.3 + 0.06 * F['switches'] and r >= 0.3:
                return self.switch(ind, nest)
            if 0.4 < r < 0.4 + 0.1 * F['block']:
                self.emit('{', ind)
                self.body(ind + 1, nest - 1, R.randint(1, 3))
                self.emit('}', ind)
                return
        if self.loop and self.p(0.06):
            c = self.expr(2)
            k = R.choice(['break', 'continue'] if self.loop_kinds[-1] == 'loop' else ['break'])
            self.emit('if (%s) %s;' % (c.s, k), ind)
            self.infn_r |= c.r; self.infn_w |= c.w
            return
        if self.fn and self.flag('ret_inside') and nest < F['nest'] and self.p(0.25):
            c = self.expr(2)
            self.emit('if (%s) return%s;' % (c.s, self.retexpr()), ind)
            self.infn_r |= c.r; self.infn_w |= c.w
            return
        if 0.5 < r < 0.65:
            return self.printf(ind)
        if 0.65 < r < 0.72 and not F.get('decl_top'):
            return self.decl(ind)
        if F['calls'] and r > 0.9:
            fs = [f for f in self.funs if self.cost * f.cost + self.spent < F['budget'] * 4]
            if fs:
                e = self.call_to(R.choice(fs), 2)
                if e:
                    self.emit(e.s + ';', ind)
                    self.infn_r |= e.r; self.infn_w |= e.w
                    return
        e = self.assign(F['depth'])
        s = e.s
        if s.startswith('(') and s.endswith(')') and self.p(0.9):
            s = self.strip(s)
        self.emit(s + ';', ind)
        self.infn_r |= e.r; self.infn_w |= e.w

    @staticmethod
    def strip(s):
        d = 0
        for i, c in enumerate(s):
            d += c == '('
            d -= c == ')'
            if d == 0 and i < len(s) - 1:
                return s
        return s[1:-1] if s[0] == '(' else s

    def retexpr(self):
        f = self.fn
        if f.ret is None:
            return ''
        e = self.fit(self.expr(2), f.ret, f.lo, f.hi)
        self.infn_r |= e.r; self.infn_w |= e.w
        return ' ' + e.s

    def cond_expr(self, d=2):
        c = self.expr(d)
        self.infn_r |= c.r; self.infn_w |= c.w
        return self.strip(c.s)

    def block(self, ind, nest, n):
        """a statement that is a child of another one"""
        if self.p(0.15):
            self.scopes.append({})
            k = len(self.out)
            e = self.assign(2)
            self.emit(self.strip(e.s) + ';', ind + 1)
            self.infn_r |= e.r; self.infn_w |= e.w
            self.scopes.pop()
            return
        self.out[-1] += ' {'
        self.body(ind + 1, nest, n)
        self.emit('}', ind)

    def body(self, ind, nest, n):
        self.scopes.append({})
        if self.p(0.35) and not self.F.get('decl_top'):
            self.decl(ind)
        for _ in range(n):
            self.stmt(ind, nest)
        self.scopes.pop()

    def if_(self, ind, nest):
        self.emit('if (%s)' % self.cond_expr(), ind)
        self.block(ind, nest - 1, self.R.randint(1, 3))
        if self.p(0.55):
            self.emit('else', ind)
            if self.p(0.3) and nest > 1:
                self.out[-1] += ' {'
                self.if_(ind + 1, nest - 1)
                self.emit('}', ind)
            else:
                self.block(ind, nest - 1, self.R.randint(1, 3))

    def loop_(self, ind, nest):
        R = self.R
        n = R.randint(1, 4)
        k = R.random()
        c = self.fresh('c')
        old = self.cost
        cond = self.cond_expr(1) if self.p(0.25) else None
        if cond is not None and ('=' in cond.replace('==', '').replace('<=', '').replace('>=', '').replace('!=', '') or '++' in cond or '--' in cond):
            cond = None
        top = self.F.get('decl_top')
        if k < 0.5:
            up = self.p(0.6)
            st = R.choice([1, 1, 2])
            decl = '' if top else 'int '
            if top:
                self.tops.append('int %s = 0;' % c)
            if up:
                h = '%s%s = 0; %s < %d%s; %s' % (decl, c, c, n * st, ' && (%s)' % cond if cond else '',
                                             '%s++' % c if st == 1 else '%s += %d' % (c, st))
            else:
                h = '%s%s = %d; %s > 0%s; %s' % (decl, c, n * st, c, ' && (%s)' % cond if cond else '',
                                             R.choice(['%s--' % c, '--%s' % c]) if st == 1 else '%s -= %d' % (c, st))
            self.emit('for (%s)' % h, ind)
            self.scopes.append({c: Var(c, 'int', I32, 0, n * st, tok='L:' + c, const=True)})
            post = None
        else:
            if top:
                self.tops.append('int %s = 0;' % c)
                self.emit('%s = %d;' % (c, n), ind)
            else:
                self.emit('int %s = %d;' % (c, n), ind)
            self.scopes[-1][c] = Var(c, 'int', I32, -1, n, tok='L:' + c, const=True)
            self.scopes.append({})
            if k < 0.75:
                self.emit('while (%s-- > 0%s)' % (c, ' && (%s)' % cond if cond else ''), ind)
                post = None
            else:
                self.emit('do', ind)
                post = 'while (--%s > 0%s);' % (c, ' && (%s)' % cond if cond else '')
        self.cost = old * n
        self.loop += 1
        self.loop_kinds.append('loop')
        self.block(ind, nest - 1, R.randint(1, 3))
        self.loop_kinds.pop()
        self.loop -= 1
        self.cost = old
        self.scopes.pop()
        if post:
            self.emit(post, ind)

    def switch(self, ind, nest):
        R = self.R
        e = self.expr(2)
        self.infn_r |= e.r; self.infn_w |= e.w
        m = R.choice([3, 7])
        e = self.fit(e, e.t, 0, m)
        self.emit('switch (%s) {' % self.strip(e.s), ind)
        vals = R.sample(range(0, m + 1), R.randint(1, min(5, m + 1)))
        if self.p(0.1):
            vals.append(R.choice([100, -1, 1000]))
        items = [('case %d:' % v) for v in vals]
        if self.p(0.7):
            items.insert(R.randint(0, len(items)), 'default:')
        self.loop += 1
        self.loop_kinds.append('loopsw' if not self.loop_kinds else 'loop' if self.loop_kinds[-1] == 'loop' and False else 'sw')
        for it in items:
            self.emit(it, ind)
            self.scopes.append({})
            if self.p(0.8):
                old = self.F.get('decl_top')
                # no declarations between the labels
                self.F['decl_top'] = True
                for _ in range(R.randint(1, 2)):
                    if old or nest <= 1:
                        self.simple(ind + 1)
                    else:
                        self.F['decl_top'] = old
                        self.emit('{', ind + 1)
                        self.body(ind + 2, nest - 1, 1)
                        self.emit('}', ind + 1)
                self.F['decl_top'] = old
                if old is None:
                    del self.F['decl_top']
            self.scopes.pop()
            if self.p(0.6):
                self.emit('break;', ind + 1)
            elif 'loop' in self.loop_kinds[:-1] and self.p(0.1):
                self.emit('continue;', ind + 1)
        self.emit('    ;', ind)
        self.loop_kinds.pop()
        self.loop -= 1
        self.emit('}', ind)

    def simple(self, ind):
        if self.p(0.3):
            return self.printf(ind)
        e = self.assign(2)
        self.emit(self.strip(e.s) + ';', ind)
        self.infn_r |= e.r; self.infn_w |= e.w

    # ---- gotos: labels L0.. of the function; backward ones use up fuel
    def goto(self, ind):
        R = self.R
        if self.p(0.5):
            l = self.fresh('L')
            self.label_todo.append(l)
            self.labels_def.append(l)
            self.emit('%s: ;' % l, ind)
            self.printf(ind)
        else:
            l = R.choice(self.labels_def) if self.labels_def and self.p(0.5) else None
            if l is None:
                l = '@%d' % R.randint(0, 999)        # any label, resolved at the end
            c = self.cond_expr(1)
            if self.p(0.3):
                self.emit('if (fuel-- > 0) goto %s;' % l, ind)
            else:
                self.emit('if ((%s) && fuel-- > 0) goto %s;' % (c, l), ind)

    # ---- functions
    def new_struct(self, depth=0):
        R = self.R
        ms = []
        union = depth == 0 and self.p(0.2)
        for i in range(R.randint(1, 5)):
            k = R.random()
            t = self.ity()
            if k < 0.65:
                ms.append(('m%d' % i, 'int', t, None))
            elif k < 0.85:
                ms.append(('m%d' % i, 'arr', t, [R.choice([2, 4, 3, 8])]))
            elif self.structs and not union:
                s = R.choice(self.structs)
                if s.union:
                    ms.append(('m%d' % i, 'int', t, None))
                else:
                    ms.append(('m%d' % i, 'st', s, None))
            else:
                ms.append(('m%d' % i, 'int', t, None))
        st = Struct(self.fresh('S'), union, ms)
        self.emit('%s %s {' % ('union' if union else 'struct', st.tag), 0)
        for n, kind, t, dims in ms:
            if kind == 'int':
                self.emit('%s %s;' % (t.c, n), 1)
            elif kind == 'arr':
                self.emit('%s %s[%d];' % (t.c, n, dims[0]), 1)
            else:
                self.emit('struct %s %s;' % (t.tag, n), 1)
        self.emit('};', 0)
        self.structs.append(st)

    def function(self, main=False):
        R, F = self.R, self.F
        self.noshadow = set()
        name = 'main' if main else self.fresh('f')
        params = []
        ret = I32 if main else (None if self.p(0.15) else self.ity())
        lo, hi = (I32.lo, I32.hi) if main else self.interval(ret) if ret else (None, None)
        if not main:
            for _ in range(R.choice([0, 1, 1, 2, 2, 3, 4, 6])):
                k = R.random()
                pn = self.fresh('a')
                if k < 0.15 * F['ptrs'] + 0.1 * F['arrays']:
                    # a pointer parameter of the shape of something that exists
                    c = [v for v in self.scopes[0].values() if v.kind == 'arr' and len(v.dims) == 1]
                    if c:
                        v = R.choice(c)
                        params.append(Var(pn, 'ptr', v.t, v.lo, v.hi, R.randint(1, v.dims[0]), 'L:' + pn))
                        continue
                if k > 1 - 0.15 * F['structs']:
                    c = [v for v in self.scopes[0].values() if v.kind == 'st']
                    if c:
                        v = R.choice(c)
                        params.append(Var(pn, 'stp', None, tok='L:' + pn, st=v.st))
                        continue
                t = self.ity(); l, h = self.interval(t)
                params.append(Var(pn, 'int', t, l, h, tok='L:' + pn))
        f = Fun(name, ret, params, lo=lo, hi=hi)
        self.fn = f
        self.infn_w, self.infn_r = set(), set()
        self.cost, self.spent = 1, 0
        self.loop, self.loop_kinds = 0, []
        self.fn_gotos = self.F['gotos'] > 0
        self.label_todo, self.labels_def, self.tops = [], [], []
        ps = []
        for v in params:
            if v.kind == 'int':
                ps.append('%s %s' % (v.t.c, v.name))
            elif v.kind == 'ptr':
                ps.append('%s *%s' % (v.t.c, v.name) if self.p(0.7) else '%s %s[]' % (v.t.c, v.name))
            else:
                ps.append('%s %s *%s' % ('union' if v.st.union else 'struct', v.st.tag, v.name))
        self.emit('%s %s(%s) {' % ('int' if main else ret.c if ret else 'void', name, ', '.join(ps) or R.choice(['void', ''])), 0)
        start = len(self.out)
        self.scopes.append({v.name: v for v in params})
        if self.fn_gotos:
            self.scopes[-1]['fuel'] = Var('fuel', 'fuel', const=True)
            self.noshadow.add('fuel')
        rec = None
        if not main and self.flag('recursion') and params and ret and params[0].kind == 'int' and not self.fn_gotos:
            # recursion on a counter: the first parameter
            v = params[0]
            if v.lo <= 0 and v.hi >= 3:
                v.const = True
                rec = v
        for _ in range(R.randint(1, 4)):
            self.decl(1)
        if rec:
            self.emit('if (%s <= 0)' % rec.name, 1)
            self.emit('    return%s;' % self.retexpr(), 1)
        n = R.randint(2, F['stmts'])
        at = R.randint(0, n) if rec else None
        for i in range(n):
            if i == at:
                self.reccall(f, rec)
            self.stmt(1, F['nest'])
        if at == n:
            self.reccall(f, rec)
        if main:
            self.final()
            e = self.expr(2)
            self.emit('return %s;' % self.strip(self.fit(e, I32, 0, 127).s), 1)
        elif ret:
            self.emit('return%s;' % self.retexpr(), 1)
        self.scopes.pop()
        self.emit('}', 0)
        if self.fn_gotos:
            labs = self.labels_def
            body = self.out[start:]
            for i, l in enumerate(body):
                while '@' in l:
                    j = l.index('@'); k = j + 1
                    while k < len(l) and l[k].isdigit():
                        k += 1
                    if labs:
                        l = l[:j] + labs[int(l[j + 1:k]) % len(labs)] + l[k:]
                    else:
                        l = l[:l.index('goto')] + ';'
                body[i] = l
            self.out[start:] = ['    int fuel = %d;' % R.randint(2, 8)] + ['    ' + t for t in self.tops] + body
        elif self.tops:
            self.out[start:start] = ['    ' + t for t in self.tops]
        f.r = frozenset(x for x in self.infn_r if not x.startswith('L:'))
        f.w = frozenset(x for x in self.infn_w if not x.startswith('L:'))
        f.cost = max(5, self.spent + 5) * (4 if rec else 1) * (4 if self.fn_gotos and self.labels_def else 1)
        self.fn = None
        if not main:
            self.funs.append(f)

    def reccall(self, f, rec):
        """v = f(n - 1, ...), or a branching call"""
        c = [v for v in self.visible() if v.kind == 'int' and not v.const and v.t and conv(f.lo, f.hi, v.t) == (max(f.lo, v.lo), min(f.hi, v.hi))]
        args = ['(%s < 4 ? %s : 4) - 1' % (rec.name, rec.name)]
        for pv in f.params[1:]:
            e = self.arg(pv, 1)
            tries = 0
            while e is not None and e.w and tries < 20:
                e = self.arg(pv, 0); tries += 1
            if e is None or e.w:
                return
            args.append(e.s)
        s = '%s(%s)' % (f.name, ', '.join(args))
        if c and self.p(0.7):
            v = self.R.choice(c)
            self.emit('%s = %s;' % (v.name, s), 1)
            self.infn_w.add(v.tok)
        else:
            e = self.fit(E(s, f.ret, f.lo, f.hi), f.ret, f.lo, f.hi)
            self.emit('printf("%s\\n", %s);' % (FMT[f.ret.k], s), 1)
            self.infn_w.add('IO')
        self.infn_w |= {'G', 'M'}; self.infn_r |= {'G', 'M'}

    def final(self):
        """print everything that is visible"""
        for v in self.visible():
            if v.kind == 'int' and v.t:
                self.emit('printf("%s=%s\\n", %s);' % (v.name, FMT[v.t.k], v.name), 1)
            elif v.kind == 'arr' and len(v.dims) == 1:
                i = self.fresh('i')
                self.emit('for (int %s = 0; %s < %d; %s++) printf("%s ", %s[%s]);' % (i, i, v.dims[0], i, FMT[v.t.k], v.name, i), 1)
            elif v.kind == 'arr':
                i, j = self.fresh('i'), self.fresh('j')
                self.emit('for (int %s = 0; %s < %d; %s++) for (int %s = 0; %s < %d; %s++) printf("%s ", %s[%s][%s]);' % (
                    i, i, v.dims[0], i, j, j, v.dims[1], j, FMT[v.t.k], v.name, i, j), 1)
            elif v.kind == 'st':
                self.final_st(v.name, v.st)
    def final_st(self, path, st):
        ms = st.members if not st.union else st.members[:1]
        for n, kind, t, dims in ms:
            if kind == 'int':
                self.emit('printf("%s ", %s.%s);' % (FMT[t.k], path, n), 1)
            elif kind == 'arr':
                for i in range(dims[0]):
                    self.emit('printf("%s ", %s.%s[%d]);' % (FMT[t.k], path, n, i), 1)
            else:
                self.final_st('%s.%s' % (path, n), t)

    def program(self):
        R, F = self.R, self.F
        self.fn_gotos = False
        self.label_todo, self.labels_def, self.tops, self.loop_kinds = [], [], [], []
        self.emit('#include <stdio.h>', 0)
        if F['structs']:
            for _ in range(R.randint(0, 3)):
                self.new_struct()
        for _ in range(R.randint(*F['globals'])):
            self.decl(0)
        for _ in range(R.randint(*F['funs'])):
            self.function()
        self.function(main=True)
        return '\n'.join(self.out) + '\n'

def program(seed, **kw):
    return Gen(random.Random(seed), **kw).program()

if __name__ == '__main__':
    import sys
    print(program(int(sys.argv[1]) if len(sys.argv) > 1 else 1))
