"""Pointers, arrays, subscripts, address-of and pointer arithmetic reach exactly the designated bytes."""
from .common import *
RULE = ('for every element type: arrays of one to three dimensions written and read through subscripts, pointers, pointers to rows '
        'and arrays, byte views, differences, comparisons; random walks of pointers over several arrays, globals, statics, structures '
        'and arrays of pointers with stores of every width between guards, the whole memory printed at the end; arrays whose '
        'size is computed; subscripts of every integer type, negative ones too. Non-trivial: at least 50 machine steps, distinct source.')

class T:
    """an element type"""
    def __init__(self, c, fmt, show, vals):
        self.c, self.fmt, self.show, self.vals = c, fmt, show, vals
INTS = [T(t.c, FMT[t.k], '%s', [lit(v)[0] for v in edge(t)]) for t in ITYS]
FLTS = [T(c, '%ld', '(long)((%s) * 4)', ['%d.%s' % (i, f) for i in range(-9, 40, 3) for f in ('0', '25', '5')]) for c in ('float', 'double')]
ALL = INTS + FLTS

# {T} the element type, {V0} .. values, <x> shows x
SWEEP = [
 '{T} a[5]; {T} *p = a;\n    for (int i = 0; i < 5; i++) *p++ = i + 1;\n    a[2] = {V0};\n    for (p = a; p < a + 5; p++) <*p>\n    <a[4]> <*(a + 2)> <*(2 + a)> <p[-1]> <*(p - 5)>\n    printf("%d %d %d", (int)(p - a), (int)sizeof(a), (int)sizeof(a[0]));',
 '{T} a[3][4]; {T} n = 0;\n    for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) { a[i][j] = n; n = n + 1; }\n    a[1][3] = {V0}; a[2][0] = {V1};\n    <a[0][3]> <a[1][3]> <a[2][0]> <a[1][0]> <*(*(a + 1) + 2)> <(*(a + 2))[1]> <*a[2]>\n    printf("%d %d", (int)sizeof(a), (int)sizeof(a[1]));',
 '{T} a[2][2][3]; {T} *p = &a[0][0][0];\n    for (int i = 0; i < 12; i++) p[i] = i;\n    a[1][0][2] = {V0}; a[0][1][0] = {V1};\n    for (int i = 0; i < 12; i++) <p[i]>\n    <a[1][1][1]> <*(*(*(a + 1) + 1) + 2)> <(&a[0][0][0])[7]>\n    printf("%d %d %d", (int)sizeof(a), (int)sizeof(a[0]), (int)sizeof(a[0][0]));',
 '{T} a[2][3] = {{{V0}, {V1}, {V2}}, {{V3}, {V4}, {V5}}}; {T} (*r)[3] = a; {T} (*w)[2][3] = &a;\n    <r[1][0]> r++; <(*r)[2]> <r[-1][1]> <(*w)[0][2]> (*w)[1][1] = {V0}; <a[1][1]>\n    printf("%d %d %d", (int)(r - a), (int)sizeof(*r), (int)sizeof(*w));',
 '{T} x = {V0}, y = {V1}, z = {V2}; {T} *p = &y; {T} **q = &p; {T} ***t = &q;\n    *p = {V3}; <y> **q = {V4}; <y> *q = &x; <*p> ***t = {V5}; <x> **t = &z; <**q> <*p>\n    <x> <y> <z> printf("%d %d %d", p == &z, *q == p, p != &x);',
 '{T} a[4] = {{V0}, {V1}, {V2}, {V3}}; {T} *p = a, *q = a + 3;\n    while (p < q) { {T} t = *p; *p++ = *q; *q-- = t; }\n    for (int i = 0; i < 4; i++) <a[i]>\n    printf("%d %d %d %d %d", p < q, p <= q, p > q, p >= q, (int)(q - p));',
 '{T} a[6]; {T} *p = a + 2; int i = 0;\n    a[0] = {V0}; *(p + 1) = {V1}; p[2] = {V2}; p[-1] = {V3}; *p = {V4}; *(p + 3) = {V5};\n    p += 2; <*p> p -= 3; <*p> <*++p> <*p++> <*p--> <*--p> i = p - a; printf("%d ", i);\n    for (i = 0; i < 6; i++) <a[i]>',
 '{T} a[3] = {{V0}, {V1}, {V2}}; unsigned char *b = (unsigned char *)a;\n    int n = sizeof(a);\n    for (int i = 0; i < n; i++) printf("%d ", b[i]);\n    b[sizeof({T})] ^= 1; b[n - 1] ^= 2;\n    for (int i = 0; i < n; i++) printf("%d ", *b++);',
 '{T} a[3] = {{V0}, {V1}, {V2}}; void *v = a + 1; {T} *p = v; char *c = (char *)v;\n    <*p> <*({T} *)(c + sizeof({T}))> <*({T} *)(c - sizeof({T}))> printf("%d %d", v == a + 1, (int)(c - (char *)a));',
 '{T} *ps[3]; {T} x = {V0}, y = {V1}, z = {V2};\n    ps[0] = &x; ps[1] = &y; ps[2] = &z;\n    {T} **q = ps;\n    *ps[1] = {V3}; <y> <**q> <**++q> <*q[1]> <*q[-1]> *q = ps[2]; <*ps[1]> *ps[0] = *ps[2]; <x>\n    printf("%d %d", ps[1] == ps[2], (int)sizeof(ps));',
 'struct S { char c; {T} m[3]; {T} *p; } s[2]; struct S *q = s;\n    for (int i = 0; i < 2; i++) { s[i].c = i + 65; for (int j = 0; j < 3; j++) s[i].m[j] = i * 3 + j; s[i].p = &s[1 - i].m[i]; }\n    s[0].m[2] = {V0}; q[1].m[0] = {V1};\n    <*q->p> <*(q + 1)->p> q++; <q->m[0]> <q[-1].m[2]> <*(q->m + 1)> *q->p = {V2}; <s[0].m[1]> <s[0].m[0]> <q->p[1]>\n    printf("%c%c %d", s[0].c, q->c, (int)(q - s));',
 'int n = 3; {T} a[n]; {T} b[n + 2]; {T} *p = b;\n    for (int i = 0; i < n; i++) a[i] = i;\n    for (int i = 0; i < n + 2; i++) b[i] = i + 4;\n    a[n - 1] = {V0}; b[n] = {V1}; n = 1;\n    <a[0]> <a[2]> <b[0]> <b[3]> <b[4]> <p[3]>\n    printf("%d %d", (int)sizeof(a), (int)sizeof(b));',
 'int n = 2, m = 3; {T} a[n][m]; {T} (*r)[m] = a;\n    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) a[i][j] = i * 4 + j;\n    a[1][0] = {V0}; r[0][2] = {V1}; n = 0; m = 0;\n    <a[0][0]> <a[0][2]> <a[1][0]> <a[1][2]> <r[1][1]>\n    printf("%d %d", (int)sizeof(a), (int)sizeof(a[0]));',
 '{T} a[4] = {{V0}, {V1}}; {T} b[4] = {{V2}, {V3}, {V4}};\n    {T} *p = a + 1, *q = b;\n    *p = *q; <a[1]> p[1] = q[2]; <a[2]> *p++ = *++q; <a[1]> <*p> <*q> p = &*p; q = &q[1]; <*p> <*q> *&a[3] = *&*q; <a[3]>\n    for (int i = 0; i < 4; i++) { <a[i]> <b[i]> }',
 'static {T} a[3] = {{V0}, {V1}, {V2}}; static {T} *p = 0;\n    if (!p) p = a; else p++;\n    <*p> <p[1]> *p = {V3}; <a[0]> <a[1]> printf("%d %d", p == a, p ? 1 : 0);',
 '{T} a[5] = {{V0}, {V1}, {V2}, {V3}, {V4}}; {T} *lo = a, *hi = a + 4, *mid; int k = 0;\n    while (lo <= hi) { mid = lo + (hi - lo) / 2; <*mid> if (k++ % 2 + (mid == a)) lo = mid + 1; else hi = mid - 1; }\n    printf("%d %d", (int)(lo - a), (int)(hi - a + 1));',
 '{T} a[4] = {{V0}, {V1}, {V2}, {V3}}; {T} *p = a; int i = 0;\n    a[i++] = {V4}; <a[0]> a[i] = a[i + 1]; <a[1]> *(p + i++) = a[3]; <a[1]> *p++ = *p; <a[0]> (*p)++; <*p> ++*p; <*p> -- * p; <*p++> <*p>',
 '{T} a[3] = {{V0}, {V1}, {V2}};\n    char c = 1; unsigned char uc = 2; short s = 1; unsigned short us = 2; long l = 1; unsigned long ul = 2; unsigned int u = 0; {T} *p = a + 2; char m = -1; long ml = -2; short ms = -1;\n    <a[c]> <a[uc]> <a[s]> <a[us]> <a[l]> <a[ul]> <a[u]> <p[m]> <p[ml]> <*(p + ms)> <*(p - c)> <*(p - ul)> p += m; <*p> p -= s; <*p> p -= ml; <*p>'.replace("p -= ml; <*p>", "p += l; <*p>"),
]
FUNCS = [
 'void swap({T} *x, {T} *y)\n{\n    {T} t = *x;\n    *x = *y;\n    *y = t;\n}\n|{T} a[3] = {{V0}, {V1}, {V2}}; swap(a, a + 2); swap(&a[1], &a[2]); for (int i = 0; i < 3; i++) <a[i]>',
 '{T} *at({T} *p, int i)\n{\n    return p + i;\n}\n|{T} a[4] = {{V0}, {V1}, {V2}, {V3}}; *at(a, 1) = {V4}; <*at(a, 1)> at(a, 2)[1] = {V5}; <a[3]> <at(at(a, 3), -1)[0]> printf("%d", (int)(at(a, 3) - at(a, 1)));',
 'int fill({T} a[], int n, {T} v)\n{\n    for (int i = 0; i < n; i++) a[i] = v;\n    return sizeof(a);\n}\n|{T} a[4] = {{V0}, {V1}, {V2}, {V3}}; printf("%d ", fill(a + 1, 2, {V4})); for (int i = 0; i < 4; i++) <a[i]>',
 '{T} get({T} a[2][3], int i, int j)\n{\n    a[i][j] = {V3};\n    return a[1 - i][j];\n}\n|{T} a[2][3] = {{{V0}, {V1}, {V2}}, {{V3}, {V4}, {V5}}}; <get(a, 1, 2)> <get(a, 0, 0)> for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) <a[i][j]>',
 '{T} row({T} (*r)[2], int k)\n{\n    return r[k][1];\n}\n|{T} a[3][2] = {{{V0}, {V1}}, {{V2}, {V3}}, {{V4}, {V5}}}; <row(a, 0)> <row(a, 2)> <row(a + 1, 0)> <row(&a[2], -1)>',
 'void set({T} **pp, {T} *to)\n{\n    *pp = to;\n}\n|{T} x = {V0}, y = {V1}; {T} *p = &x; set(&p, &y); *p = {V2}; <x> <y> set(&p, &x); *p = {V3}; <x> <y> printf("%d", p == &x);',
 '{T} g[3] = {{V0}, {V1}, {V2}};\n{T} *gp = g + 1;\n{T} *next(void)\n{\n    return gp++;\n}\n|<*next()> <*gp> <gp[-2]> *gp = {V3}; <g[2]> gp = g; *next() = {V4}; <g[0]> <*gp>',
 'long sum({T} *b, {T} *e)\n{\n    long s = 0;\n    while (b != e) s += (long)*b++ & 255;\n    return s;\n}\n|{T} a[4] = {{V0}, {V1}, {V2}, {V3}}; printf("%ld %ld %ld", sum(a, a + 4), sum(a + 1, &a[2]), sum(a, a));',
 'struct N { {T} v; struct N *next; };\nstruct N *push(struct N *h, struct N *n, {T} v)\n{\n    n->v = v;\n    n->next = h;\n    return n;\n}\n|struct N s[3]; struct N *h = 0; for (int i = 0; i < 3; i++) h = push(h, s + i, i); h->next->v = {V0}; (*h).v = {V1}; while (h) { <h->v> printf("(%d)", (int)(h - s)); h = h->next; }',
 'int find({T} *a, int n, {T} v)\n{\n    {T} *p = a;\n    while (p - a < n && *p != v) ++p;\n    return p == a + n ? -1 : p - a;\n}\n|{T} a[4] = {{V0}, {V1}, {V2}, {V3}}; printf("%d %d %d", find(a, 4, {V2}), find(a, 2, {V3}), find(a + 1, 3, {V0}));',
]
def fill(R, s, t):
    import re
    vs = R.sample(t.vals, min(6, len(t.vals)))
    for i in range(6):
        s = s.replace('{V%d}' % i, vs[i % len(vs)])
    s = s.replace('{T}', t.c)
    return re.sub(r'(?<!\S)<(\S(?:[^<]*?\S)?)>(?=\s|$)', lambda m: 'printf("%s ", %s);' % (t.fmt, t.show % m.group(1)), s)

def sweeps(R, items):
    """items: (template, type)"""
    pre, body = '', ''
    for i, (s, t) in enumerate(items):
        f = ''
        if '\n|' in s:
            f, s = s.split('\n|', 1)
            f += '\n'
            # its names get a suffix
        import re
        f, s = fill(R, f, t) if f else '', fill(R, s, t)
        for n in ('swap', 'at', 'fill', 'get', 'row', 'set', 'g', 'gp', 'next', 'sum', 'N', 'push', 'find'):
            if re.search(r'\b%s\b' % n, f) and not re.search(r'(\.|->)%s\b' % n, '' if n != 'next' else s + f):
                f, s = re.sub(r'\b%s\b' % n, '%s%d' % (n, i), f), re.sub(r'\b%s\b' % n, '%s%d' % (n, i), s)
        s = re.sub(r'\bstruct S\b', 'struct S%d' % i, s)
        pre += f + 'void t%d(void)\n{\n    %s\n    printf("\\n");\n}\n' % (i, s)
        body += '    t%d();\n' % i
    return main(body, pre)

def ok_template(s, t):
    # float elements have no ^, and ++ on a char at its limit is fine
    return True

class Walk:
    def __init__(self, R):
        self.R = R
    def program(self):
        R = self.R
        t = R.choice(ALL)
        types = [t, t, R.choice(ALL)]
        arrs, decl, glob = [], [], []
        for i in range(R.randint(2, 4)):
            ty = R.choice(types)
            dims = R.choice([[R.randint(2, 7)], [R.randint(2, 7)], [2, 3], [3, 2], [4, 2], [2, 2, 2], [1, 5], [3, 1, 2]])
            n = 1
            for d in dims:
                n *= d
            name = 'a%d' % i
            where = R.randrange(4)
            d = '%s %s%s;' % (ty.c, name, ''.join('[%d]' % d for d in dims))
            if where == 0:
                glob.append(d)
            elif where == 1:
                decl.append('static ' + d)
            elif where == 2 and len(dims) == 1:
                decl.append('int n%d = %d;' % (i, n))
                decl.append('%s %s[n%d];' % (ty.c, name, i))
            else:
                decl.append(d)
            arrs.append((name, ty, dims, n))
            if R.random() < .4:
                decl.append('%s guard%d = %d;' % (R.choice(ITYS).c, i, R.randint(1, 99)))
        # every element gets a value first
        init = []
        for name, ty, dims, n in arrs:
            idx, loops = '', ''
            for k, d in enumerate(dims):
                loops += 'for (int i%d = 0; i%d < %d; i%d++) ' % (k, k, d, k)
                idx += '[i%d]' % k
            init.append('%s%s%s = %s;' % (loops, name, idx, ' + '.join('i%d * %d' % (k, 10 ** (len(dims) - 1 - k)) for k in range(len(dims)))))
        ptrs = {}
        for i in range(R.randint(2, 4)):
            name, ty, dims, n = R.choice(arrs)
            o = R.randrange(n)
            decl.append('%s *p%d;' % (ty.c, i))
            init.append('p%d = &%s;' % (i, self.elem(name, dims, o)))
            ptrs['p%d' % i] = [name, o]
        self.A = {a[0]: a for a in arrs}
        ivars = {}
        for i in range(R.randint(1, 3)):
            it = R.choice(ITYS)
            v = R.randint(0, 3) if not it.signed or R.random() < .6 else R.randint(-3, 3)
            decl.append('%s k%d = %d;' % (it.c, i, v))
            ivars['k%d' % i] = (v, it.signed)
        self.iv = ivars
        ops = []
        for _ in range(R.randint(10, 22)):
            self.op(ops, arrs, ptrs)
        fin = []
        for name, ty, dims, n in arrs:
            idx, loops = '', ''
            for k, d in enumerate(dims):
                loops += 'for (int i%d = 0; i%d < %d; i%d++) ' % (k, k, d, k)
                idx += '[i%d]' % k
            fin.append('%sprintf("%s ", %s); printf("\\n");' % (loops, ty.fmt, ty.show % (name + idx)))
        fin += ['printf("%%d ", (int)guard%d);' % i for i in range(len(arrs)) if any('guard%d ' % i in d for d in decl)]
        pieces = chunks(ops, 30)
        return HEAD + '\n'.join(glob) + '\nint main(void)\n{\n    %s\n    printf("\\n");\n    return 0;\n}\n' % '\n    '.join(decl + init + ops + fin)
    def elem(self, name, dims, o):
        R = self.R
        idx = []
        for d in reversed(dims):
            idx.append(o % d)
            o //= d
        idx.reverse()
        if len(dims) > 1 and R.random() < .2:
            return '(*(%s + %d))%s' % (name, idx[0], ''.join('[%d]' % i for i in idx[1:]))
        return name + ''.join('[%s]' % self.num(i) for i in idx)
    def num(self, v):
        R = self.R
        for k, (x, signed) in sorted(getattr(self, 'iv', {}).items()):
            if R.random() < .3 and (signed or v >= 0):
                d = v - x
                return k if d == 0 else '%s %s %d' % (k, '+' if d > 0 else '-', abs(d))
        return str(v)
    def ptr(self, ptrs, p):
        """an lvalue through p: *p, p[k], *(p + k)"""
        R = self.R
        name, o = ptrs[p]
        n = self.A[name][3]
        if R.random() < .4:
            return '*' + p, o
        k = R.randint(-o, n - 1 - o)
        r = R.randrange(4)
        if r == 0:
            return '%s[%s]' % (p, self.num(k)), o + k
        if r == 1:
            return '*(%s + %s)' % (p, '(' + self.num(k) + ')'), o + k
        if r == 2:
            return '*(%s - (%s))' % (p, self.num(-k)), o + k
        return '(&%s[%s])[%s]' % (p, self.num(k), '0'), o + k
    def op(self, ops, arrs, ptrs):
        R = self.R
        p = R.choice(sorted(ptrs))
        name, o = ptrs[p]
        _, ty, dims, n = self.A[name]
        r = R.randrange(13)
        if r < 3:
            l, _ = self.ptr(ptrs, p)
            ops.append('%s = %s;' % (l, R.choice(ty.vals)))
        elif r == 3:
            a = R.choice(arrs)
            ops.append('%s = %s;' % (self.elem(a[0], a[2], R.randrange(a[3])), R.choice(a[1].vals)))
        elif r == 4:
            a = R.choice(arrs)
            e = self.elem(a[0], a[2], R.randrange(a[3]))
            ops.append('printf("%s ", %s);' % (a[1].fmt, a[1].show % e))
        elif r == 5:
            l, _ = self.ptr(ptrs, p)
            ops.append('printf("%s ", %s);' % (ty.fmt, ty.show % ('(' + l + ')')))
        elif r == 6:
            k = R.randint(-o, n - 1 - o)
            ptrs[p][1] += k
            ops.append(R.choice(['%s += %s;' % (p, self.num(k)), '%s = %s + (%s);' % (p, p, self.num(k)), '%s -= %s;' % (p, self.num(-k)),
                                 '%s = &%s[%s];' % (p, p, self.num(k))]))
        elif r == 7:
            if o + 1 < n:
                ptrs[p][1] += 1
                ops.append(R.choice(['%s++;' % p, '++%s;' % p, '*%s++ = %s;' % (p, R.choice(ty.vals)), '*++%s = %s;' % (p, R.choice(ty.vals)),
                                     'printf("%s ", %s);' % (ty.fmt, ty.show % ('*%s++' % p))]))
        elif r == 8:
            if o > 0:
                ptrs[p][1] -= 1
                ops.append(R.choice(['%s--;' % p, '--%s;' % p, '*%s-- = %s;' % (p, R.choice(ty.vals)), '*--%s = %s;' % (p, R.choice(ty.vals)),
                                     'printf("%s ", %s);' % (ty.fmt, ty.show % ('*--%s' % p))]))
        elif r == 9:
            q = R.choice(sorted(ptrs))
            if ptrs[q][0] == name:
                ops.append('printf("%%d %%d %%d %%d ", (int)(%s - %s), %s %s %s, %s == %s, %s %s %s);' % (
                    p, q, p, R.choice(['<', '<=', '>', '>=']), q, p, q, p, R.choice(['<', '>=', '!=']), q))
            elif self.A[ptrs[q][0]][1] is ty:
                ops.append('printf("%%d %%d ", %s == %s, %s != %s);' % (p, q, q, p))
        elif r == 10:
            q = R.choice(sorted(ptrs))
            if self.A[ptrs[q][0]][1] is ty and p != q:
                ptrs[p] = list(ptrs[q])
                ops.append('%s = %s;' % (p, q))
        elif r == 11:
            same = [a for a in arrs if a[1] is ty]
            a = R.choice(same)
            k = R.randrange(a[3])
            ptrs[p] = [a[0], k]
            ops.append('%s = &%s;' % (p, self.elem(a[0], a[2], k)))
        else:
            q = R.choice(sorted(ptrs))
            l, _ = self.ptr(ptrs, p)
            m, _ = self.ptr(ptrs, q)
            if ty in INTS and self.A[ptrs[q][0]][1] in INTS and R.random() < .6:
                ops.append('%s %s= %s;' % (l, R.choice('^&|'), m))
            elif ty in INTS or self.A[ptrs[q][0]][1] not in INTS:
                if not (ty in INTS and self.A[ptrs[q][0]][1] in FLTS):
                    ops.append('%s = %s;' % (l, m))

KWS = [dict(ptrs=2.5, arrays=2, funs=(1, 3), stmts=5, depth=2, loops=.6, budget=120),
       dict(ptrs=2, arrays=1.5, structs=1, globals=(2, 6), funs=(1, 3), stmts=5, depth=2, loops=.6, budget=120)]

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 6
    cases = finding_cases(ctx)
    items = [(s, t) for s in SWEEP + FUNCS for t in ALL]
    if ctx.quick:
        items = [(s, t) for s in SWEEP + FUNCS for t in R.sample(ALL, 6)]
    for _ in range(1 if ctx.quick else 3):
        R.shuffle(items)
        cases += [Case(sweeps(R, c), None, None, 'element types') for c in chunks(items, 3)]
    cases += [Case(Walk(R).program(), None, None, 'pointer walks') for _ in range(170 * k)]
    cases += random_programs(ctx, 60 * k, 'C09', KWS)
    check_cases(ctx, cases)
