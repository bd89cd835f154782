"""Structures and unions: members are separate, contiguous and shared as the type says, through every way to reach them."""
from .common import *
from .c09 import INTS, FLTS, T
RULE = ('random structure and union types (nested, tagged, anonymous, typedef\'d, self-referential, with arrays, strings, enumerations and '
        'pointers) of objects of every storage duration, with and without initialisers; every scalar leaf written and read through v.m, '
        '(*p).m, p->m, a[i].m, (a+i)->m, pointers to inner objects and functions; sizes, offsets, byte views; unions seen through '
        'other members; members of every type initialised with values of every type; templates of linked lists, trees and tagged unions. Non-trivial: at least 50 machine steps, distinct source.')

class Leaf:
    def __init__(self, t):
        self.t = t
class Arr:
    def __init__(self, el, n):
        self.el, self.n = el, n
class Ptr:
    """a pointer to an aggregate"""
    def __init__(self, to):
        self.to = to
class Agg:
    def __init__(self, union, spell, members):
        self.union, self.spell, self.ms = union, spell, members
ENUM = T('enum E', '%d', '(int)(%s)', ['E1', 'E2', 'E3'])

def declare(t, name):
    """a declaration of name as a t"""
    if isinstance(t, Leaf):
        return '%s %s' % (t.t.c, name)
    if isinstance(t, Arr):
        dims = ''
        while isinstance(t, Arr):
            dims, t = dims + '[%d]' % t.n, t.el
        if isinstance(t, Ptr):
            return declare(Agg(t.to.union, t.to.spell, ()), '*%s%s' % (name, dims))
        return declare(t, name + dims)
    if isinstance(t, Ptr):
        return '%s *%s' % (t.to.spell, name)
    return '%s %s' % (t.spell, name)

class Prog:
    def __init__(self, R, small=False):
        self.R, self.n, self.defs, self.small = R, 0, [], small
        self.lt = [Leaf(t) for t in R.sample(INTS, R.randint(2, 4)) + R.sample(FLTS, R.randint(0, 1))]
        self.names = []
    def leaf(self):
        if self.R.random() < .08:
            return Leaf(ENUM)
        return self.R.choice(self.lt)
    def mtype(self, depth, aggs, me):
        R = self.R
        r = R.random()
        if r < .5:
            return self.leaf()
        if r < .65:
            t = Arr(self.leaf(), R.randint(1, 3))
            return Arr(t, 2) if R.random() < .25 else t
        if r < .72 and me is not None:
            return Ptr(me)
        if r < .78 and aggs:
            return Ptr(R.choice(aggs))
        if r < .93 and aggs:
            t = R.choice(aggs)
            return Arr(t, R.randint(1, 2)) if R.random() < .3 else t
        if depth:
            return self.agg(depth - 1, aggs, inline=True)
        return self.leaf()
    def agg(self, depth, aggs, inline=False):
        R = self.R
        union = R.random() < (.3 if aggs or inline else .2)
        self.n += 1
        tag = 'T%d' % self.n
        kw = 'union' if union else 'struct'
        if inline:
            spell = None
        elif R.random() < .3:
            spell = 'Name%d' % self.n
        else:
            spell = '%s %s' % (kw, tag)
        me = Agg(union, spell, [])
        self_ok = not inline and spell.startswith(kw)
        for i in range(R.randint(1 if union else 2, 3 if inline or union else 5)):
            # names are shared between types
            name = 'abcdefgh'[(i * 3 + R.randrange(3)) % 8] if R.random() < .5 else 'm%d' % i
            if any(x == name for x, _ in me.ms):
                name = 'x%d' % i
            t = self.mtype(depth, aggs, me if self_ok else None)
            me.ms.append((name, t))
        body = '%s %s{ %s }' % (kw, tag + ' ' if not inline and (spell.startswith(kw) or R.random() < .5) else '',
                                 ' '.join(declare(t, n) + ';' for n, t in me.ms))
        if inline:
            me.spell = body
        elif spell.startswith(kw):
            self.defs.append(body + ';')
        else:
            self.defs.append('typedef %s %s;' % (body, spell))
        return me
    def leaves(self, t, path, act):
        """(path, leaf type) of the scalars of t; act: which member of a union, by path"""
        if isinstance(t, Arr):
            return [x for i in range(t.n) for x in self.leaves(t.el, path + (i,), act)]
        if isinstance(t, Agg):
            ms = t.ms
            if t.union:
                ms = [t.ms[act.setdefault(path, self.R.randrange(len(t.ms)))]]
            return [x for n, m in ms for x in self.leaves(m, path + (n,), act)]
        return [(path, t)]
    def access(self, base, path, plain=False):
        """an lvalue: base followed by path; base is (text, is pointer)"""
        R = self.R
        s, ptr = base
        # ptr: s points to the object
        for i, e in enumerate(path):
            simple = 1 if plain else R.random()
            if isinstance(e, int):
                if ptr:
                    s, ptr = '(*%s)' % s, False
                if simple > .25:
                    s = '%s[%d]' % (s, e)
                elif simple > .1 or i + 1 == len(path):
                    s = '(*(%s + %d))' % (s, e)
                else:
                    s, ptr = '(%s + %d)' % (s, e), True
            else:
                if ptr:
                    s = '%s->%s' % (s, e) if simple > .2 else '(*%s).%s' % (s, e)
                elif simple < .1:
                    s = '(&%s)->%s' % (s, e)
                else:
                    s = '%s.%s' % (s, e)
                ptr = False
        return '(*%s)' % s if ptr else s
    def value(self, t):
        R = self.R
        if isinstance(t, Ptr):
            xs = [o for o in self.objs if o[1] is t.to]
            if not xs or R.random() < .2:
                return '0'
            return '&' + R.choice(xs)[0]
        return R.choice(t.t.vals)
    def init(self, t, glob):
        """an initialiser"""
        R = self.R
        if isinstance(t, Arr):
            k = t.n if R.random() < .7 else R.randint(1, t.n)
            if isinstance(t.el, Leaf) and t.el.t.c == 'char' and R.random() < .5:
                return '"%s"' % ('xyzuvw'[:t.n - 1])
            return '{%s}' % ', '.join(self.init(t.el, glob) for _ in range(k))
        if isinstance(t, Agg):
            if t.union:
                return '{%s}' % self.init(t.ms[0][1], glob)
            k = len(t.ms) if R.random() < .7 else R.randint(1, len(t.ms))
            return '{%s}' % ', '.join(self.init(m, glob) for _, m in t.ms[:k])
        return self.value(t)
    def first(self, t, path, act):
        """the members that an initialiser gives a value are the first ones"""
        if isinstance(t, Arr):
            for i in range(t.n):
                self.first(t.el, path + (i,), act)
        elif isinstance(t, Agg):
            if t.union:
                act[path] = 0
            for n, m in t.ms:
                self.first(m, path + (n,), act)
    def show(self, lv, t):
        if isinstance(t, Ptr):
            xs = [o for o in self.objs if o[1] is t.to]
            return 'printf("%s ", %s);' % (' '.join(['%d'] * (1 + len(xs))), ', '.join(['%s == 0' % lv] + ['%s == &%s' % (lv, o[0]) for o in xs]))
        return 'printf("%s ", %s);' % (t.t.fmt, t.t.show % lv)
    def program(self):
        R = self.R
        aggs = []
        for _ in range(R.randint(1, 2 if self.small else 4)):
            aggs.append(self.agg(1, aggs))
        self.objs, glob, decl, ops = [], [], [], []
        objs = []
        for i in range(R.randint(1, 3)):
            a = R.choice(aggs[-2:]) if R.random() < .7 else R.choice(aggs)
            t = a if R.random() < .6 else Arr(a, R.randint(2, 3))
            name = 'v%d' % i
            where = R.choice(['global', 'static', 'auto', 'auto'])
            act = {}
            if R.random() < .6:
                self.first(t, (), act)
                d = '%s = %s;' % (declare(t, name), self.init(t, where != 'auto'))
                init = True
            else:
                d = declare(t, name) + ';'
                init = where != 'auto'
                if init:
                    self.first(t, (), act)
            (glob if where == 'global' else decl).append(('static ' if where == 'static' else '') + d)
            ls = self.leaves(t, (), act)
            if where == 'global':
                if isinstance(t, Arr):
                    self.objs += [('%s[%d]' % (name, k), a) for k in range(t.n)]
                else:
                    self.objs.append((name, a))
            objs.append((name, t, a, ls, init, act))
        # pointers to the objects
        bases = {}
        for name, t, a, ls, init, act in objs:
            bs = [(name, False)]
            if R.random() < .6:
                if isinstance(t, Arr):
                    decl.append('%s (*p%s)[%d] = &%s;' % (a.spell, name, t.n, name))
                else:
                    decl.append('%s *p%s = &%s;' % (a.spell, name, name))
                bs.append(('p' + name, True))
            bases[name] = bs
        for name, t, a, ls, init, act in objs:
            if not init:
                for path, lt in ls:
                    ops.append('%s = %s;' % (self.access(R.choice(bases[name]), path), self.value(lt)))
        pool = [(name, path, lt, a) for name, t, a, ls, init, act in objs for path, lt in ls]
        for i in range(R.randint(6, 14)):
            name, path, lt, a = R.choice(pool)
            lv = self.access(R.choice(bases[name]), path)
            r = R.randrange(10)
            if r < 3:
                ops.append('%s = %s;' % (lv, self.value(lt)))
            elif r == 3:
                ops.append(self.show(lv, lt))
            elif r == 4 and isinstance(lt, Leaf) and lt.t in INTS:
                ops.append('%s %s= %s;' % (lv, R.choice('^|&'), R.randint(1, 90)))
            elif r == 5 and isinstance(lt, Leaf):
                # a pointer to the scalar
                ops.append('{ %s *q = &%s; *q = %s; }' % (lt.t.c, lv, R.choice(lt.t.vals)))
            elif r == 6 and isinstance(lt, Leaf):
                n2, p2, t2, _ = R.choice(pool)
                if isinstance(t2, Leaf) and (t2.t is lt.t or lt.t in INTS and t2.t in INTS):
                    ops.append('%s = %s;' % (lv, self.access(R.choice(bases[n2]), p2)))
            elif r == 7 and isinstance(lt, Ptr) and any(o[1] is lt.to for o in self.objs):
                o = R.choice([o for o in self.objs if o[1] is lt.to])
                sub = [(p, l) for n2, p, l, a2 in pool if n2 == o[0] and isinstance(l, Leaf)]
                if sub:
                    p, l = R.choice(sub)
                    ops.append('%s = &%s;' % (lv, o[0]))
                    ops.append('%s = %s;' % (self.access((lv, True), p), R.choice(l.t.vals)))
            else:
                # a pointer to an inner aggregate of a named type
                t = dict((o[0], o[1]) for o in objs)[name]
                cuts = []
                for k, e in enumerate(path):
                    t = t.el if isinstance(t, Arr) else dict(t.ms)[e]
                    if isinstance(t, Agg) and ' {' not in t.spell:
                        cuts.append((k + 1, t))
                if cuts and isinstance(lt, Leaf):
                    k, t = R.choice(cuts)
                    outer = self.access(R.choice(bases[name]), path[:k])
                    inner = self.access(('q', True), path[k:])
                    if R.random() < .5:
                        ops.append('{ %s *q = &%s; %s = %s; }' % (t.spell, outer, inner, R.choice(lt.t.vals)))
                    else:
                        f = 'f%d' % i
                        ret = R.random() < .5
                        self.defs.append('%s %s(%s *q, %s x)\n{\n    %s = x;%s\n}' % (
                            (t.spell + ' *') if ret else 'void', f, t.spell, lt.t.c, inner, '\n    return q;' if ret else ''))
                        ops.append('%s(&%s, %s);' % (f, outer, R.choice(lt.t.vals)))
                        if ret:
                            ops.append(self.show(self.access(('%s(&%s, %s)' % (f, outer, R.choice(lt.t.vals)), True), path[k:]), lt))
        fin = []
        for name, t, a, ls, init, act in objs:
            for c in chunks(ls, 4):
                fin.append(' '.join(self.show(self.access(R.choice(bases[name]), p, plain=True), l) for p, l in c))
            fin.append('printf("\\n");')
        sizes = []
        for name, t, a, ls, init, act in objs[:2]:
            sizes.append('printf("%%d %%d\\n", (int)sizeof(%s), (int)sizeof(%s));' % (R.choice([name, a.spell, declare(t, '') if isinstance(t, Agg) else name]), R.choice([a.spell, name])))
            p, l = R.choice(ls)
            lv = self.access(R.choice(bases[name]), p)
            sizes.append('printf("%%d %%d\\n", (int)((char *)&%s - (char *)&%s), (int)sizeof(%s));' % (lv, name, lv))
        defs, funs = [d for d in self.defs if '\n' not in d], [d for d in self.defs if '\n' in d]
        enum = 'enum E { E1 = -3, E2, E3 = 70000 };\n'
        return HEAD + enum + '\n'.join(defs + glob + funs) + '\nint main(void)\n{\n    %s\n    printf("\\n");\n    %s\n    return 0;\n}\n' % (
            '\n    '.join(decl + ops), '\n    '.join(fin + sizes))

# {T}, {U} two element types, {V0} .. values of {T}, {W0} .. of {U}
TEMPLATES = [
 # every byte of a structure belongs to one member
 'struct S { {T} a; {U} b; {T} c; char d; {U} e; } s[2];\n|s[0].a = {V0}; s[0].b = {W0}; s[0].c = {V1}; s[0].d = 1; s[0].e = {W1}; s[1].a = {V2}; s[1].e = {W2}; s[0].b = {W3}; s[1].d = 2;\n'
 '    <s[0].a> <<s[0].b>> <s[0].c> printf("%d ", s[0].d); <<s[0].e>> <s[1].a> printf("%d ", s[1].d); <<s[1].e>>\n'
 '    printf("%d %d %d", &s[0].a < (({T} *)&s[0].c), (char *)&s[0].e - (char *)&s[0].d, (char *)&s[1] - (char *)&s[0] == sizeof(struct S));',
 'struct P { {T} x; {U} y; };\nstruct L { struct P a; struct P b; struct P *to; } l, m;\n|l.a.x = {V0}; l.a.y = {W0}; l.b.x = {V1}; l.b.y = {W1}; l.to = &l.a; m.to = &l.b; m.a.x = {V2}; m.b.y = {W2};\n'
 '    l.to->x = {V3}; <l.a.x> m.to->y = {W3}; <<l.b.y>> l.to = &m.b; l.to->x = {V4}; <m.b.x> <<(*l.to).y>> <l.b.x> <<l.a.y>> <m.a.x>',
 'struct N { {T} v; struct N *l, *r; } n[5];\n{T} first(struct N *t)\n{\n    return t->l ? first(t->l) : t->v;\n}\nvoid walk(struct N *t)\n{\n    if (!t) return;\n    walk(t->l);\n    <t->v>\n    walk(t->r);\n}\n'
 '|n[0].v = {V0}; n[1].v = {V1}; n[2].v = {V2}; n[3].v = {V3}; n[4].v = {V4}; n[0].l = n + 1; n[0].r = &n[2]; n[1].r = n + 3; n[2].l = &n[4];\n    walk(n); <first(n)> n->l->r->v = {V5}; walk(n->l); n[0].l = 0; walk(&n[0]); <first(n + 2)>',
 'union V { {T} a; {U} b; char c[8]; };\n|union V u, w; u.a = {V0}; <u.a> u.b = {W0}; <<u.b>> w.b = {W1}; u.a = {V1}; <u.a> <<w.b>> u.c[0] = 65; u.c[7] = 66; printf("%d %d ", u.c[0], u.c[7]); w.a = u.a = {V2}; <w.a> <u.a>\n'
 '    printf("%d %d", (void *)&u.a == (void *)&u.b, (int)sizeof(union V));',
 'union B { {T} v; unsigned char b[8]; };\n|union B u; for (int i = 0; i < 8; i++) u.b[i] = 0; u.v = {V0}; for (int i = 0; i < 8; i++) printf("%d ", u.b[i]); u.v = {V1}; u.b[0] = u.b[sizeof({T}) - 1]; for (int i = 0; i < sizeof({T}); i++) printf("%d ", u.b[i]);',
 'struct G { int tag; union { {T} t; {U} u; struct { {T} x; {U} y; } p; } d; };\nvoid show(struct G *g)\n{\n    switch (g->tag)\n    {\n    case 0:\n        <g->d.t> break;\n    case 1:\n        <<g->d.u>> break;\n    default:\n        <g->d.p.x> <<g->d.p.y>>\n    }\n}\n'
 '|struct G a[3]; for (int i = 0; i < 3; i++) a[i].tag = i; a[0].d.t = {V0}; a[1].d.u = {W0}; a[2].d.p.x = {V1}; a[2].d.p.y = {W1}; for (int i = 0; i < 3; i++) show(a + i); a[0].tag = 2; a[0].d.p.y = {W2}; a[0].d.p.x = {V2}; a[2].tag = 1; a[2].d.u = {W3}; show(a); show(&a[2]); show(a + 1);',
 'struct Q { struct Q *next; {T} v; };\nstruct Q *rev(struct Q *h)\n{\n    struct Q *p = 0;\n    while (h) { struct Q *n = h->next; h->next = p; p = h; h = n; }\n    return p;\n}\n'
 '|struct Q q[4]; struct Q *h = 0; for (int i = 0; i < 4; i++) { q[i].next = h; h = q + i; } q[0].v = {V0}; q[1].v = {V1}; q[2].v = {V2}; q[3].v = {V3}; h = rev(h); for (struct Q *p = h; p; p = p->next) <p->v> h->next->next = 0; h = rev(h); <h->v> <h->next->v> printf("%d", h->next->next == 0);',
 'struct M { {T} m[2][3]; {U} k[2]; char s[4]; };\n|struct M a = {{{{V0}, {V1}, {V2}}, {{V3}}}, {{W0}}, "ab"}, *p = &a; <p->m[0][2]> <p->m[1][0]> <p->m[1][2]> <<a.k[0]>> <<a.k[1]>> printf("%s %d ", p->s, a.s[3]); {T} *r = p->m[1]; r[1] = {V4}; <a.m[1][1]> p->k[1] = {W1}; <<a.k[1]>> p->s[2] = 99; printf("%s ", a.s); <a.m[1][2]> printf("%d %d %d", (int)sizeof(a.m), (int)sizeof(p->k), (int)sizeof a.s);',
 'struct I { {T} a; };\nstruct J { struct I i; {U} b; };\nstruct K { {U} c; struct J j[2]; };\nstruct K g = { {W0}, { { { {V0} }, {W1} }, { { {V1} }, {W2} } } };\n{T} *reach(struct K *k, int n)\n{\n    return &k->j[n].i.a;\n}\n'
 '|static struct K s; s.c = {W3}; s.j[1].i.a = {V2}; s.j[0].b = g.j[1].b; <g.j[0].i.a> <<g.j[0].b>> <*reach(&g, 1)> *reach(&s, 0) = {V3}; <s.j[0].i.a> <s.j[1].i.a> <<s.j[1].b>> <<s.c>> <<s.j[0].b>> struct J *j = g.j + 1; j->i.a = {V4}; <g.j[1].i.a> (--j)->b = {W3}; <<g.j[0].b>> struct I *i = &j[1].i; <i->a> <<g.c>>',
 'struct C { {T} n; {U} *p; {T} a[2]; };\n|{U} x = {W0}, y[2] = {{W1}, {W2}}; struct C c = { {V0}, &x, {{V1}, {V2}} }, d[2] = { { {V3} }, { {V4}, y + 1, {{V5}} } }; <c.n> <<*c.p>> <c.a[1]> <d[0].n> printf("%d ", d[0].p == 0); <d[0].a[0]> <<*d[1].p>> <<d[1].p[-1]>> <d[1].a[0]> <d[1].a[1]> *d[1].p = *c.p; <<y[1]>> d->p = d[1].p - 1; <<*d->p>> *(c.a + 1) = (*d).n; <c.a[1]>',
 'struct F;\nstruct H { struct F *f; {T} h; };\nstruct F { struct H *h; {U} f; };\n|struct H h; struct F f; h.f = &f; f.h = &h; h.h = {V0}; f.f = {W0}; <f.h->h> <<h.f->f>> h.f->h->f->f = {W1}; <<f.f>> f.h->f->h->h = {V1}; <h.h>',
 'struct A { {T} x; {U} y; };\nvoid add(struct A *d, struct A *s)\n{\n    d->x = s->x;\n    d->y = s->y;\n}\nstruct A *pick(struct A *a, int n, {T} k)\n{\n    for (int i = 0; i < n; i++) if (a[i].x == k) return &a[i];\n    return 0;\n}\n|struct A a[3] = {{{V0}, {W0}}, {{V1}, {W1}}, {{V2}, {W2}}}; add(&a[0], a + 2); <a[0].x> <<a->y>> struct A *p = pick(a, 3, a[1].x); if (p) { <p->x> p->y = {W3}; } <<a[1].y>> <<a[0].y>> <<a[2].y>> printf("%d", (int)(p - a));',
 # the same names in different scopes and types
 'struct a { {T} a; } a;\n|a.a = {V0}; { struct a { {U} a; {T} b; } a; a.a = {W0}; a.b = {V1}; <<a.a>> <a.b> printf("%d ", (int)sizeof(struct a)); } <a.a> printf("%d ", (int)sizeof(struct a)); { struct a *a1 = &a; a1->a = {V2}; } <a.a>',
 'struct S { {T} i; {U} j; } s = {{V0}, {W0}};\n|int i = 0; struct S *p = &s; struct S **q = &p; (*q)->i = {V1}; (**q).j = {W1}; <s.i> <<s.j>> struct S t[3], *ps[3]; for (i = 0; i < 3; i++) { ps[i] = t + (2 - i); ps[i]->i = i; ps[i]->j = i + 3; } <t[0].i> <<t[2].j>> <ps[1]->i> *q = ps[0]; <p->i> printf("%d %d", p == &t[2], (int)(ps[0] - ps[2]));',
]
def template(R, s, i):
    import re
    ts = [R.choice(INTS + FLTS), R.choice(INTS + FLTS)]
    for k, (t, l) in enumerate(zip(ts, 'VW')):
        vs = R.sample(t.vals, min(6, len(t.vals)))
        for j in range(6):
            s = s.replace('{%s%d}' % (l, j), vs[j % len(vs)])
        s = s.replace('{%s}' % 'TU'[k], t.c)
    def pr(t):
        return lambda m: 'printf("%s ", %s);' % (t.fmt, t.show % m.group(1))
    s = re.sub(r'(?<![^\s|])<<(\S(?:[^<]*?\S)?)>>(?=\s|$)', pr(ts[1]), s)
    s = re.sub(r'(?<![^\s|])<(\S(?:[^<]*?\S)?)>(?=\s|$)', pr(ts[0]), s)
    pre, body = s.split('\n|', 1)
    return pre + '\nvoid t%d(void)\n{\n    %s\n    printf("\\n");\n}\n' % (i, body), '    t%d();\n' % i

def sized(R):
    """a program that doesn't take long to compile"""
    while True:
        s = Prog(R).program()
        if len(s) < 4500:
            return s

NUMS = [(t.c, FMT[t.k]) for t in ITYS] + [('float', '%f'), ('double', '%f')]
def initialisers(auto):
    """members of every type, initialised with values (auto) or constants (static) of every type"""
    out = []
    for m, f in NUMS:
        pre, body = '', ''
        for i, (v, g) in enumerate(NUMS):
            val = ['v', 'w', 'v + w'] if auto else {'float': ['7.0', '100.5', '3.25'], 'double': ['7.0', '100.5', '-0.0'], 'char': ["'a'", "'~'", "'\\n'"], 'long': ['4294967303', '-3000000000', '127']}.get(v, ['7', '200', '-0'])
            pick = lambda j: val[j % 3]
            if not auto and m in ('char', 'signed char', 'unsigned char', 'short', 'unsigned short') and v == 'long':
                val = ['65', '66', '127']
            d = ('struct S%d { %s m; char c; %s k[2]; struct { char d; %s n; } i; %s l; };\nunion U%d { %s m; char c[8]; };\n' % (i, m, m, m, m, i, m))
            o = ('%s%s a[3] = {%s, 2, %s};\n    %s%s b[2][2] = {{%s, %s}, {%s}};\n    %sstruct S%d s = {%s, 66, {%s, %s}, {67, %s}, %s}, t = {%s};\n    %sunion U%d u = {%s};\n    %sstruct S%d r[2] = {{%s}, {1, 68, {%s}}};\n    %s%s x = %s;\n' % (
                '', m, pick(0), pick(1), '', m, pick(1), pick(0), pick(2), '', i, pick(0), pick(1), pick(2), pick(0), pick(1), pick(2), '', i, pick(0), '', i, pick(1), pick(0), '', m, pick(2)))
            use = 'a[0] a[1] a[2] b[0][0] b[0][1] b[1][0] b[1][1] s.m s.k[0] s.k[1] s.i.n s.l t.m t.k[1] t.l u.m r[0].m r[0].k[0] r[1].m r[1].k[0] r[1].l x'.split()
            pr = ''.join('    printf("%s\\n", %s);\n' % (' '.join([f] * len(c)), ', '.join(c)) for c in chunks(use, 6)) + '    printf("%d %d %d %d\\n", s.c, s.i.d, t.c, r[1].c);\n'
            pre += d
            if auto:
                pre += 'void f%d(%s v, %s w)\n{\n    %s%s}\n' % (i, v, v, o, pr)
                body += '    f%d(%s);\n' % (i, {'float': '5.75, 120.25', 'double': '6.5, 121.5', 'unsigned char': '200, 17', 'char': "'c', 1", 'unsigned int': '3000000000, 2' if m not in ('float', 'double') else '16777217, 2'}.get(v, '77, 33'))
            else:
                pre += 'void f%d(void)\n{\n    %s%s}\n' % (i, ''.join('static ' + x.strip() + '\n    ' for x in o.strip().split('\n')), pr)
                body += '    f%d();\n' % i
            if i % 5 == 4:
                out.append((pre, body))
                pre, body = '', ''
    res = []
    for pre, body in out:
        res.append(main(body, pre))
    return res

KWS = [dict(structs=2.5, arrays=1, ptrs=1, funs=(1, 3), stmts=5, depth=2, loops=.5, budget=110),
       dict(structs=2, globals=(2, 6), funs=(1, 3), stmts=4, depth=2, loops=.5, budget=110)]

def run(ctx):
    R = ctx.rng
    k = 1 if ctx.quick else 6
    cases = finding_cases(ctx)
    for _ in range(4 * k):
        for s in TEMPLATES:
            pre, call = template(R, s, 0)
            cases.append(Case(main(call, pre), None, None, 'templates'))
    tab = initialisers(True)
    cases += [Case(s, [0, 7] if ctx.quick else None, None, 'initialisers') for s in tab]
    cases += [Case(sized(R), None, None, 'random types') for _ in range(110 * k)]
    cases += random_programs(ctx, 40 * k, "C10", KWS)
    check_cases(ctx, cases)
