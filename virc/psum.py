"""Prefix sums.  PS_T(n) denotes  sum_{0<=k<n} T(k)  for a summand term T over the bound index K!.
The lemmas below are instantiated on the ground terms of each query; they are stated and proved in lemmas/PrefixSum.lean."""
import z3
from .dom import *

K = z3.Int('K!')
MAXTERMS = 14


def register(E, T, facts):
    """T: Int term over K; facts: valid consequences over K"""
    if isinstance(T, int):
        T = z3.IntVal(T)
    T = z3.simplify(T)
    key = T.get_id()
    r = E.ps.get(key)
    if r is None:
        i = len(E.pslist)
        f = z3.Function('PS%d' % i, z3.IntSort(), z3.IntSort())
        r = E.ps[key] = {'id': i, 'f': f, 'T': T, 'facts': [], 'fids': set(), 'cache': {}}
        E.pslist.append(r)
        E.psver = getattr(E, 'psver', 0) + 1
    return r


def apply(r, n):
    if isinstance(n, int):
        if n <= 0:
            return 0
        n = z3.IntVal(n)
    return r['f'](n)


def sum_words(E, p, n):
    st = E.st
    if isinstance(n, int):
        tot = 0
        for i in range(n):
            from .ir import INT
            v = E.load(INT(64), E.padd(p, 8 * i))
            tot = E.o_add(tot, v)
        return tot
    E.access(p, E.o_mulc(n, 8), 'vf_sum')
    o = st.mem[p.o]
    if o.chain is None:
        o = E.tochain(p.o)
    k = K
    cond = z3.And(k >= 0, k < n)
    n0 = len(st.pc)
    v = E.under(cond, lambda: E.chain_load(o.chain, E.o_add(p.off, norm(k * 8)), 8))
    # facts about the generic K say nothing about the path
    for c in st.pc[n0:]:
        st.pcset.discard(c.get_id())
    del st.pc[n0:]
    r = register(E, v if not isinstance(v, int) else z3.IntVal(v), [])
    return apply(r, n)


def has_K(e):
    return True


def ufapps(E, e):
    out = {}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        j = x.get_id()
        if j in seen or not z3.is_app(x):
            continue
        seen.add(j)
        if x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in E.dom.sym_bounds:
            out[j] = x
        st.extend(x.children())
    return list(out.values())


def inst(E, r, t):
    """T at t, with side facts"""
    if isinstance(t, int):
        t = z3.IntVal(t)
    key = t.get_id()
    c = r['cache'].get(key)
    if c is None:
        v = z3.simplify(z3.substitute(r['T'], (K, t)))
        fs = []
        for a in ufapps(E, v):
            fs.extend(E.uf_facts(a))
        c = r['cache'][key] = (t, v, fs)
    return c[1], c[2]


def apps(E, e):
    cache = E.lemcache.setdefault('apps', {})
    i = e.get_id()
    c = cache.get(i)
    if c is not None:
        return c[1]
    out = {}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_quantifier(x):
            continue
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1:
            nm = d.name()
            if nm.startswith('PS') and nm[2:].isdigit():
                out[j] = (int(nm[2:]), x.arg(0))
        st.extend(x.children())
    c = (e, list(out.values()))
    cache[i] = c
    return c[1]


def instantiate(E, pc, extra):
    terms = {}

    def addt(i, t):
        t = z3.simplify(norm(t) if not isinstance(t, int) else z3.IntVal(t)) if not isinstance(norm(t), int) else z3.IntVal(norm(t))
        d = terms.setdefault(i, {})
        d[t.get_id()] = t
    for c in pc:
        for i, t in apps(E, c):
            addt(i, t)
    if extra is not None:
        for i, t in apps(E, extra):
            addt(i, t)
    if not terms:
        return []
    key = tuple(sorted((i, tuple(sorted(d))) for i, d in terms.items()))
    lc = E.lemcache.setdefault('lem', {})
    r = lc.get(key)
    if r is not None:
        return r[0]
    ids = sorted(terms)
    base = {i: dict(terms[i]) for i in ids}
    L = []
    sk = [0]
    kid = E.lemcache.setdefault('lemno', [0])
    kid[0] += 1

    def skol():
        sk[0] += 1
        return z3.Int('sk!%d_%d' % (kid[0], sk[0]))

    def T(i, t):
        v, fs = inst(E, E.pslist[i], t)
        L.extend(fs)
        return v
    cross = {}
    for i in ids:
        for j in ids:
            if i == j:
                continue
            fi, fj = E.pslist[i]['f'], E.pslist[j]['f']
            for a in list(base[i].values()):
                if z3.is_int_value(a) and a.as_long() <= 0:
                    continue
                k = skol()
                L.append(z3.Or(z3.And(k >= 0, k < a, T(i, k) != T(j, k)), fi(a) == fj(a)))
                cross.setdefault(j, []).append(a)
                # shift by one:  PSi(a) = PSj(a+1) - Tj(0)
                k = skol()
                a1 = norm_t(a + 1)
                L.append(z3.Or(a < 0, z3.And(k >= 0, k < a, T(i, k) != T(j, norm_t(k + 1))), fi(a) == fj(a1) - T(j, 0)))
                cross.setdefault(j, []).append(a1)
                if i < j:
                    k = skol()
                    # reversal over the whole range
                    L.append(z3.Or(z3.And(k >= 0, k < a, T(i, k) != T(j, norm_t(a - 1 - k))), fi(a) == fj(a)))
    for i in ids:
        f = E.pslist[i]['f']
        b0 = dict(base[i])
        for a in cross.get(i, ()):
            b0.setdefault(a.get_id(), a)
        one = z3.IntVal(1)
        b0.setdefault(one.get_id(), one)
        bts = list(b0.values())
        ts = dict(b0)
        for t in list(base[i].values()):
            if not z3.is_int_value(t):
                t1 = norm_t(t + 1)
                ts.setdefault(t1.get_id(), t1)
        ts = list(ts.values())
        L.append(f(z3.IntVal(0)) == 0)
        L.append(f(z3.IntVal(1)) == T(i, 0))
        for a in ts:
            if z3.is_int_value(a):
                if a.as_long() <= 0:
                    L.append(f(a) == 0)
            else:
                L.append(z3.Implies(a <= 0, f(a) == 0))
        for a in ts:
            for b in ts:
                if a is b:
                    continue
                d = norm(b - a)
                if isinstance(d, int):
                    if d == 1:
                        if z3.is_int_value(a) and a.as_long() < 0:
                            continue
                        L.append(z3.Implies(a >= 0, f(b) == f(a) + T(i, a)))
                    if d <= 0 or d == 1:
                        continue
                if b.get_id() not in b0:
                    continue
                if not isinstance(d, int) and a.get_id() in b0:
                    L.append(z3.Implies(z3.And(a >= 0, b == a + 1), f(b) == f(a) + T(i, a)))
                k = skol()
                L.append(z3.Implies(z3.And(a >= 0, a <= b), z3.Or(z3.And(k >= a, k < b, T(i, k) < 0), f(b) >= f(a))))
        for b in bts:
            k = skol()
            L.append(z3.Implies(b >= 0, z3.Or(z3.And(k >= 0, k < b, T(i, k) < 0), f(b) >= 0)))
    seen = set()
    L2 = []
    for x in L:
        if x.get_id() not in seen:
            seen.add(x.get_id())
            L2.append(x)
    L = [z3.And(L2)]
    E.stats['maxlem'] = max(E.stats.get('maxlem', 0), len(L2))
    lc[key] = (L, dict((i, dict(terms[i])) for i in ids))
    return L


def norm_t(e):
    r = norm(e)
    return z3.IntVal(r) if isinstance(r, int) else r
