"""Inductive loop treatment.

A loop whose exit test is symbolic is replaced by an inductive invariant that is inferred and then *checked*:
  head(N):   every location the body changes is either havocked or has a closed form in the iteration number N
             (x0 + c*N, or x0 + sum_{k<N} T(k)); bulk stores become a range map; and for N>=1 the condition B(N-1) under
             which iteration N-1 went round again holds.
  init:      head(0) is the entry state (by construction of the forms).
  step:      every back-edge path from head(N) re-establishes head(N+1) and B(N)  -- obligations 'loop-invariant'.
The body's own obligations are discharged for the arbitrary iteration N."""
import z3
from .ir import *
from .dom import *
from .psum import register, apply, ufapps, K


def names(E, e):
    cache = E.lemcache.setdefault('names', {})
    i = e.get_id()
    c = cache.get(i)
    if c is not None:
        return c[1]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            st.extend(x.children())
    cache[i] = (e, out)
    return out


class Head:
    pass


def sub1(e, a, b):
    if not is_sym(e):
        return e
    if isinstance(b, int):
        b = z3.IntVal(b)
    return z3.simplify(z3.substitute(e, (a, b)))


def invariant_loop(E, st, fr, src, header):
    if E.dom.bv:
        raise Unsupported('inductive loop in bit-vector mode')
    fn = fr.fn
    body = fn.loops[header]
    depth = len(st.frames) - 1
    phis = fn.blocks[header].phis
    init = {}
    ptype = {}
    for ph in phis:
        init[('phi', ph.dest)] = E.val(fr, ph.ty, ph.a[src])
        ptype[('phi', ph.dest)] = ph.ty
    base = st
    outer = (E.stop, E.curwork, E.muted)
    forms = {}
    N = None
    created0 = None
    Bprev = None
    Bid = None
    stable = False
    for rnd in range(10):
        mark = len(E.created)
        N = z3.Int(E.newname('N'))
        E.dom.sym_bounds[N.decl().name()] = (0, None)
        H, head = make_head(E, base, depth, header, init, forms, N, Bprev, body, src)
        hmark = len(E.created)
        E.muted = 1
        try:
            backs, exits = run_body(E, H.clone(), depth, header, body)
        finally:
            E.stop, E.curwork, E.muted = outer
        newforms, B = analyse(E, base, H, head, backs, init, forms, N, ptype, mark, depth, header)
        same = forms_equal(newforms, forms)
        if same and Bprev is not None and bsame(B, Bprev):
            stable = True
            break
        if same and not backs:
            stable = True
            break
        forms = newforms
        Bprev = B
    if not stable and rnd >= 9:
        # keep going with what we have; the step obligations decide
        pass
    # relations between havocked locations: guess, then keep the largest inductive subset (Houdini)
    cands = guess(E, base, H, head, backs, init, forms, N, depth, header, ptype, mark)
    if E.opts.get('verbose'):
        print('guess', cands)
    while cands:
        mark = len(E.created)
        N = z3.Int(E.newname('N'))
        E.dom.sym_bounds[N.decl().name()] = (0, None)
        H, head = make_head(E, base, depth, header, init, forms, N, Bprev, body, src, cands)
        E.muted = 1
        try:
            backs, exits = run_body(E, H.clone(), depth, header, body)
        finally:
            E.stop, E.curwork, E.muted = outer
        keep = [c for c in cands if all(cand_holds(E, s, c, H, base, init, depth, header) for s in backs)]
        if E.opts.get('verbose'):
            print('keep', keep)
        if len(keep) == len(cands):
            break
        cands = keep
    if not cands:
        if H_has_cands(H):
            N = z3.Int(E.newname('N'))
            E.dom.sym_bounds[N.decl().name()] = (0, None)
            H, head = make_head(E, base, depth, header, init, forms, N, Bprev, body, src)
    # final pass: obligations on
    E.st = H
    if not E.muted:
        E.loops_proved.add((fn.name, E.mod.loc(fn.blocks[header].ins[0].dbg)))
    E.loop_forms[(fn.name, header)] = {str(k): str(v[0]) for k, v in forms.items()}
    try:
        backs, exits = run_body(E, H.clone(), depth, header, body)
    finally:
        E.stop, E.curwork, E.muted = outer
    for bs in backs:
        E.st = bs
        check_step(E, bs, H, head, forms, N, Bprev, depth, header)
        for c in cands:
            E.st = bs
            E.oblige('loop-invariant', cand_term(E, c, lambda l: back_value(E, bs, H, l, depth, header), base, init, None), 'relation')
    for xs, target in exits:
        E.st = xs
        resolve_count(E, xs, N, len(H.pc))
        xs.pending = target
    E.st = st
    for xs, target in exits:
        outer[1].append(xs)


def resolve_count(E, st, N, npc):
    """at a loop exit: when the path condition determines the iteration count, replace it by its value"""
    nm = N.decl().name()
    for c in st.pc[npc:]:
        while z3.is_not(c):
            c = c.arg(0)
        if not (z3.is_app(c) and c.num_args() == 2 and z3.is_arith(c.arg(0))):
            continue
        d = norm(c.arg(0) - c.arg(1))
        if isinstance(d, int):
            continue
        at, k = lin(d)
        x = at.get(N.get_id())
        if x is None or abs(x[1]) != 1:
            continue
        rest = {i: (a, -co * x[1]) for i, (a, co) in at.items() if i != N.get_id()}
        base = -k * x[1]
        for dd in (0, 1, -1):
            cand = from_lin(rest, base + dd)
            if is_sym(cand) and nm in names(E, cand):
                continue
            if E.entailed(N == cand):
                subst_state(E, st, N, cand)
                return


def subst_state(E, st, N, v):
    nm = N.decl().name()
    vt = z3.IntVal(v) if isinstance(v, int) else v
    memo = {}
    keep = []

    def ex(e):
        if not is_sym(e):
            if isinstance(e, Ptr):
                o = ex(e.off)
                return e if o is e.off else Ptr(e.o, o)
            if isinstance(e, list):
                return [ex(x) for x in e]
            if isinstance(e, tuple) and len(e) == 2 and is_sym(e[1]):
                return (e[0], ex(e[1]))
            return e
        if nm not in names(E, e):
            return e
        r = z3.substitute(e, (N, vt))
        if z3.is_bool(r):
            return z3.simplify(r)
        return norm(r)

    def ch(c):
        if c is None or c[0] == 'base':
            return c
        m = memo.get(id(c))
        if m is None:
            m = (c[0],) + tuple(ch(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in
                                ('st', 'cp', 'set', 'fillw', 'fillb', 'map', 'fillh', 'base') else ex(x) for x in c[1:])
            if all(a is b for a, b in zip(m, c)):
                m = c
            memo[id(c)] = m
            keep.append(c)
        return m
    for fr in st.frames:
        for k, x in fr.regs.items():
            y = ex(x)
            if y is not x:
                fr.regs[k] = y
    for oid, o in list(st.mem.items()):
        nc = ch(o.chain)
        cells = {}
        diff = nc is not o.chain
        for off, (sz, x) in o.cells.items():
            y = ex(x)
            if y is not x:
                diff = True
            cells[off] = (sz, y)
        size = ex(o.size)
        if diff or size is not o.size:
            o = E.wobj(oid)
            o.chain = nc
            o.cells = cells
            o.size = size
    st.inputs = [tuple(ex(x) if not isinstance(x, tuple) else tuple(ex(y) for y in x) for x in r) if True else r for r in st.inputs]
    pc = []
    seen = set()
    for c in st.pc:
        d = ex(c)
        if z3.is_true(d) or d.get_id() in seen:
            continue
        seen.add(d.get_id())
        pc.append(d)
    st.pc = pc
    st.pcset = seen
    st.model = None


def bsame(a, b):
    return a[1] == b[1]


def forms_equal(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if x[0] != y[0]:
            return False
        if x[0] == 'havoc':
            continue
        if x[0] == 'lin' and x[2] != y[2]:
            return False
        if x[0] == 'ps' and not x[2].eq(y[2]):
            return False
        if x[0] == 'map' and not (x[3] is not None and y[3] is not None and x[3].eq(y[3])):
            return False
    return True


def tkey(x):
    return x


def form_value(E, f, N, head, loc, bits):
    k = f[0]
    if k == 'lin':
        return norm(E.dom.toterm(f[1]) + f[2] * N)
    if k == 'ps':
        r = register(E, f[2], f[3])
        return norm(E.dom.toterm(f[1]) + apply(r, N))
    raise Unsupported(k)


def H_has_cands(H):
    return getattr(H, 'hascands', False)


def scalar(v):
    return isinstance(v, (bool, int)) or (is_sym(v) and (z3.is_bool(v) or z3.is_int(v)))


def asint(E, v):
    if isinstance(v, bool):
        return 1 if v else 0
    if is_sym(v) and z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def entry_value(base, init, loc):
    return init[loc] if loc[0] == 'phi' else base_cell(base, loc)


def back_value(E, s, H, loc, depth, header):
    if loc[0] == 'phi':
        return back_phi(E, s, depth, header, loc[1])
    c = s.mem[loc[1]].cells.get(loc[2]) if loc[1] in s.mem else None
    if c is None or c[0] != loc[3]:
        return UNDEF
    return c[1]


def guess(E, base, H, head, backs, init, forms, N, depth, header, ptype, mark):
    if not backs:
        return []
    fresh = set(E.created[mark:])
    locs = []
    for loc, f in forms.items():
        if f[0] == 'havoc' and loc[0] in ('phi', 'cell') and scalar(entry_value(base, init, loc)):
            locs.append(loc)
    out = []
    E.st = base
    for loc in locs:
        v0 = entry_value(base, init, loc)
        out.append(('eq0', loc))
        if not (isinstance(v0, bool) or (is_sym(v0) and z3.is_bool(v0))):
            out.append(('ge0', loc))
            out.append(('le0', loc))
            if (width(loc, ptype, None) if loc[0] == 'phi' else loc[3] * 8) == 64:
                out.append(('lec', loc, 1 << 48))
                out.append(('lec', loc, 1 << 62))
        t = back_value(E, backs[0], H, loc, depth, header)
        if scalar(t):
            t = asint(E, t)
            if not is_sym(t) or not (names(E, t) & fresh):
                out.append(('eqv1', loc, t))
    if len(locs) <= 16:
        for i, a in enumerate(locs):
            for b in locs[:i]:
                wa = width(a, ptype, None) if a[0] == 'phi' else a[3] * 8
                wb = width(b, ptype, None) if b[0] == 'phi' else b[3] * 8
                if wa != wb and {wa, wb} != {1, 8}:
                    continue
                x, y = asint(E, entry_value(base, init, a)), asint(E, entry_value(base, init, b))
                if isinstance(x, int) and isinstance(y, int):
                    eq = x == y
                else:
                    eq = E.entailed(E.dom.toterm(x) == E.dom.toterm(y))
                out.append(('eq' if eq else 'eq1', a, b))
    return out


def cand_term(E, c, val, base, init, N):
    """N: guard for the candidates that hold from the first iteration on (None: at a back edge)"""
    a = asint(E, val(c[1])) if scalar(val(c[1])) else None
    if a is None:
        return False
    k = c[0]
    if k in ('eq', 'eq1'):
        b = val(c[2])
        if not scalar(b):
            return False
        b = asint(E, b)
    elif k in ('eqv1', 'lec'):
        b = c[2]
    else:
        b = asint(E, entry_value(base, init, c[1]))
    if isinstance(a, int) and isinstance(b, int):
        r = a >= b if k == 'ge0' else a <= b if k in ('le0', 'lec') else a == b
        r = z3.BoolVal(r)
    else:
        x, y = E.dom.toterm(a), E.dom.toterm(b)
        r = x >= y if k == 'ge0' else x <= y if k in ('le0', 'lec') else x == y
    if k in ('eqv1', 'eq1') and N is not None:
        r = z3.Implies(N >= 1, r)
    return r


def cand_holds(E, s, c, H, base, init, depth, header):
    E.st = s
    t = cand_term(E, c, lambda l: back_value(E, s, H, l, depth, header), base, init, None)
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return E.entailed(t)


def make_head(E, base, depth, header, init, forms, N, B, body, src, cands=()):
    H = base.clone()
    E.st = H
    H.add_fact(N >= 0)
    head = {}
    fr = H.frames[depth]
    fr.prev = src
    fr.blk = header
    fr.ip = 0
    for loc, v0 in init.items():
        f = forms.get(loc)
        if f is None:
            v = v0
        else:
            v = inst_form(E, f, v0, N, loc)
        head[loc] = v
        fr.regs[loc[1]] = v
    for loc, f in forms.items():
        if loc[0] == 'cell':
            o = E.wobj(loc[1])
            v = inst_form(E, f, f[-1], N, loc)
            head[loc] = v
            o.cells[loc[2]] = (loc[3], v)
        elif loc[0] == 'chain':
            E.tochain(loc[1])
            o = E.wobj(loc[1])
            if f[0] == 'map':
                o0, es, T = f[1], f[2], f[3]
                if T is None:
                    uf = E.newname('MU')
                    E.dom.sym_bounds[uf] = (-(1 << (8 * es - 1)), (1 << (8 * es - 1)) - 1)
                    u = z3.Function(uf, z3.IntSort(), z3.IntSort())

                    def fn(rel, u=u, es=es):
                        return u(divexact(rel, es))
                else:
                    def fn(rel, T=T, es=es):
                        k = divexact(rel, es)
                        v = sub1(T, K, k)
                        if is_sym(v):
                            for a in ufapps(E, v):
                                for x in E.uf_facts(a):
                                    E.st.add_fact(x)
                        return v
                o.chain = ('map', o.chain, o0, N, es, fn)
            else:
                o.chain = ('base', 'sym', E.newname('havoc'), {})
            head[loc] = o.chain
    if B is not None and B[0] is not None:
        b = sub1(B[0], B[2], N - 1)
        # values that are not functions of the iteration number: existentially abstracted
        ren = []
        for n in names(E, b):
            if n in B[3]:
                ren.append((B[3][n], z3.Const(E.newname(n.split('#')[0]), B[3][n].sort())))
        if ren:
            b = z3.substitute(b, *ren)
        H.add_fact(z3.Implies(N >= 1, b))
        H.model = None
    if cands:
        for loc, f in forms.items():
            if f[0] == 'havoc' and loc in head and scalar(head[loc]):
                v0 = entry_value(base, init, loc)
                if scalar(v0):
                    H.add_fact(z3.Implies(N == 0, E.dom.toterm(asint(E, head[loc])) == E.dom.toterm(asint(E, v0))))
    for c in cands:
        t = cand_term(E, c, lambda l: head[l], base, init, N)
        if not isinstance(t, bool):
            H.add_fact(t)
    if cands:
        H.model = None
        H.hascands = True
    return H, head


def divexact(rel, es):
    if es == 1:
        return rel
    if isinstance(rel, int):
        if rel % es:
            raise Unsupported('misaligned access to summarised stores')
        return rel // es
    at, c = lin(rel)
    if c % es or any(co % es for _, co in at.values()):
        raise Unsupported('misaligned access to summarised stores')
    r = from_lin({i: (a, co // es) for i, (a, co) in at.items()}, c // es)
    return r


def inst_form(E, f, v0, N, loc):
    if f[0] == 'havoc':
        return havoc_like(E, v0, f)
    if isinstance(v0, Ptr):
        return Ptr(v0.o, form_value(E, f, N, None, loc, 64))
    return form_value(E, f, N, None, loc, None)


def havoc_like(E, v0, f):
    if f[1] == 'ptroff':
        return Ptr(v0.o, E.dom.fresh(64, 'off'))
    if f[1] == 'bool':
        return E.dom.fresh(1, 'b')
    if f[1] == 'str':
        s = z3.String(E.newname('hs'))
        return ('S', s)
    if f[1] == 'undef':
        return UNDEF
    return E.dom.fresh(f[1], 'x')


def run_body(E, H, depth, header, body):
    backs = []
    exits = []

    def stop(s, fr, src, target):
        d = len(s.frames) - 1
        if d == depth:
            if target == header and src in body:
                s.backsrc = src
                backs.append(s)
                return True
            if src in body and target not in body:
                exits.append((s, target))
                return True
            return False
        if d < depth:
            exits.append((s, target))
            return True
        return False
    E.explore([H], stop)
    return backs, exits


def back_phi(E, s, depth, header, dest):
    fr = s.frames[depth]
    for ph in fr.fn.blocks[header].phis:
        if ph.dest == dest:
            return E.val(fr, ph.ty, ph.a[s.backsrc])
    raise KeyError


def same_val(E, s, a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o == b.o and same_val(E, s, a.off, b.off)
    if isinstance(a, FuncPtr) or isinstance(b, FuncPtr):
        return isinstance(a, FuncPtr) and isinstance(b, FuncPtr) and a.name == b.name
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] != b[0]:
            return False
        x, y = a[1], b[1]
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        if isinstance(x, str) or isinstance(y, str):
            return False
        return x.eq(y)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_val(E, s, x, y) for x, y in zip(a, b))
    if is_sym(a) and is_sym(b):
        if a.sort() != b.sort():
            return False
        if a.eq(b):
            return True
        E.st = s
        return E.entailed(a == b)
    if is_sym(a) or is_sym(b):
        x, y = (a, b) if is_sym(a) else (b, a)
        if isinstance(y, (int, bool)) and (z3.is_bool(x) == isinstance(y, bool)):
            E.st = s
            return E.entailed(x == y)
        return False
    return type(a) == type(b) and a == b


def analyse(E, base, H, head, backs, init, forms, N, ptype, mark, depth, header):
    """returns new forms and the back-edge condition B (over N)"""
    new = dict(forms)
    # names introduced since the head was built (except N) are not functions of the iteration number
    fresh = set(E.created[mark:]) - {N.decl().name()}
    npc = len(H.pc)
    conds = []
    for s in backs:
        conds.append([c for c in s.pc[npc:]])
    vals = {}   # loc -> list of back values
    for s in backs:
        E.st = s
        for loc in init:
            vals.setdefault(loc, []).append((s, back_phi(E, s, depth, header, loc[1])))
        for oid, o in H.mem.items():
            o2 = s.mem.get(oid)
            if o2 is o:
                continue
            if o2 is None or o2.alive != o.alive:
                if o.kind == 'string':
                    continue
                raise Unsupported('object freed inside a summarised loop')
            if o.chain is None and o2.chain is not None:
                new[('chain', oid)] = ('mapcand',)
                vals.setdefault(('chain', oid), []).append((s, None))
                continue
            if o2.chain is not None:
                if o2.chain is not o.chain:
                    vals.setdefault(('chain', oid), []).append((s, o2.chain))
                continue
            for off in set(o.cells) | set(o2.cells):
                c1, c2 = o.cells.get(off), o2.cells.get(off)
                if c1 is c2:
                    continue
                if c1 is not None and c2 is not None and c1[0] == c2[0]:
                    vals.setdefault(('cell', oid, off, c1[0]), []).append((s, c2[1]))
                else:
                    sz = (c1 or c2)[0]
                    loc = ('cell', oid, off, sz)
                    if c1 is None:
                        # location not yet written at the head: dead scratch (treated as uninitialised at the head)
                        ov = [k for k, (cs, _) in o.cells.items() if k < off + sz and k + cs > off]
                        if ov or o.base != 'undef':
                            raise Unsupported('loop changes cell layout')
                        continue
                    if c2 is None:
                        ov = [k for k, (cs, _) in o2.cells.items() if k < off + sz and k + cs > off]
                        if ov:
                            raise Unsupported('loop changes cell layout')
                        new[loc] = ('havoc', 'undef', c1[1])
                        continue
    # evaluate
    for loc, lst in vals.items():
        if loc[0] == 'chain':
            new[loc] = analyse_chain(E, base, H, loc, lst, forms.get(loc), N, fresh, conds, backs)
            continue
        h = head.get(loc)
        if h is None:
            h = H.mem[loc[1]].cells[loc[2]][1] if loc[0] == 'cell' else init[loc]
        f = forms.get(loc)
        v0 = init[loc] if loc[0] == 'phi' else base_cell(base, loc)
        if f is None:
            if all(same_val(E, s, h, v) for s, v in lst) and (loc[0] == 'phi' or len(lst) >= 1):
                continue
            new[loc] = seed_form(E, v0, h, [v for _, v in lst], ptype.get(loc), loc)
            continue
        if f[0] == 'havoc' and f[1] in ('undef', 'bool', 'str'):
            continue
        # recurrence
        ds = []
        ok = True
        for s, v in lst:
            a, b = (v.off, h.off) if isinstance(v, Ptr) and isinstance(h, Ptr) and v.o == h.o else (v, h)
            if isinstance(a, (Ptr, FuncPtr, list, tuple)) or a is UNDEF or (is_sym(a) and z3.is_bool(a)):
                ok = False
                break
            ds.append((s, norm(E.dom.toterm(a) - b)))
        # back edges that leave the cell untouched
        if ok and loc[0] == 'cell' and len(lst) < len(backs):
            seen = {id(s) for s, _ in lst}
            for s in backs:
                if id(s) not in seen:
                    ds.append((s, 0))
        if not ok or not ds:
            continue
        x0 = v0.off if isinstance(v0, Ptr) else v0
        if x0 is UNDEF:
            continue
        d0 = ds[0][1]
        if isinstance(d0, int) and all(isinstance(d, int) and d == d0 for _, d in ds):
            nf = ('lin', x0, d0, v0)
            new[loc] = nf
            continue
        allowed = True
        for _, d in ds:
            if is_sym(d) and (names(E, d) & fresh):
                allowed = False
        if not allowed:
            if f[0] != 'havoc':
                new[loc] = ('havoc', 'ptroff' if isinstance(v0, Ptr) else width(loc, ptype, v0), v0)
            continue
        T = E.dom.toterm(ds[-1][1])
        for s, d in reversed(ds[:-1]):
            if same_expr(d, T):
                continue
            i = backs.index(s)
            cs = conds[i]
            if any(names(E, c) & fresh for c in cs):
                cs2 = [c for c in cs if not (names(E, c) & fresh)]
                # dropping a conjunct would be unsound for the split
                allowed = False
                break
            T = z3.If(z3.And(cs) if cs else z3.BoolVal(True), E.dom.toterm(d), T)
        if not allowed:
            continue
        TK = sub1(T, N, K)
        facts = []
        new[loc] = ('ps', x0, TK, facts, v0)
    B = mkB(E, backs, conds, fresh, N)
    return new, B


def same_expr(a, b):
    if isinstance(a, int):
        a = z3.IntVal(a)
    if isinstance(b, int):
        b = z3.IntVal(b)
    return z3.simplify(a).eq(z3.simplify(b))


def width(loc, ptype, v0):
    if loc[0] == 'phi':
        return ptype[loc].n
    return loc[3] * 8


def gfacts(E, backs, conds, fresh, N):
    """facts over K valid for every completed iteration K<N"""
    ds = []
    for cs in conds:
        cs = [c for c in cs if not (names(E, c) & fresh)]
        ds.append(z3.And(cs) if cs else z3.BoolVal(True))
    if not ds:
        return []
    b = ds[0] if len(ds) == 1 else z3.Or(ds)
    b = sub1(b, N, K)
    return [z3.Implies(z3.And(K >= 0, K < N), b)]


def mkB(E, backs, conds, fresh, N):
    ds = []
    for cs in conds:
        ds.append(z3.And(cs) if cs else z3.BoolVal(True))
    if not ds:
        return (None, 'none', N, {})
    b = ds[0] if len(ds) == 1 else z3.Or(ds)
    fs = {}
    for e in ds:
        collect_consts(e, fresh, fs)
    key = canon(E, b, N, fs)
    return (b, key, N, fs)


def collect_consts(e, fresh, out):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            d = x.decl()
            if x.num_args() == 0 and d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in fresh:
                out[d.name()] = x
            st.extend(x.children())


def canon(E, b, N, fs):
    import re
    s = z3.simplify(z3.substitute(b, (N, K))).sexpr()
    m = {}

    def rn(x):
        t = x.group(0)
        if t not in m:
            m[t] = '%s#%d' % (t.split('#')[0], len(m))
        return m[t]
    return re.sub(r'\|?[\w.!]+#\d+\|?', rn, s)


def base_cell(base, loc):
    return base.mem[loc[1]].cells[loc[2]][1]


def seed_form(E, v0, h, vs, pty, loc):
    if isinstance(v0, tuple) and v0[0] == 'S':
        return ('havoc', 'str', v0)
    if isinstance(v0, Ptr):
        if v0.o != 0 and all(isinstance(v, Ptr) and v.o == v0.o for v in vs):
            return ('havoc', 'ptroff', v0)
        raise Unsupported('pointer changes object in a summarised loop')
    if isinstance(v0, FuncPtr):
        raise Unsupported('function pointer changes in loop')
    if v0 is UNDEF:
        if loc[0] == 'phi' and pty.k == 'ptr':
            raise Unsupported('undef pointer phi')
        return ('havoc', 'undef', v0)
    if isinstance(v0, bool) or (is_sym(v0) and z3.is_bool(v0)):
        return ('havoc', 'bool', v0)
    if any(isinstance(v, (Ptr, FuncPtr, tuple, list)) for v in vs):
        raise Unsupported('loop changes the kind of a location')
    if loc[0] == 'phi':
        if pty.k != 'int':
            raise Unsupported('loop phi type')
        return ('havoc', pty.n, v0)
    return ('havoc', loc[3] * 8, v0)


def analyse_chain(E, base, H, loc, lst, f, N, fresh, conds, backs):
    oid = loc[1]
    if f is not None and f[0] == 'havocchain':
        return f
    hc = H.mem[oid].chain
    if hc is None:
        return ('mapcand', None)
    if len(lst) != 1 or len(backs) != 1:
        return ('havocchain', None)
    c = lst[0][1]
    if c[0] != 'st' or c[1] is not hc:
        return ('havocchain', None)
    _, _, off, size, v = c
    if not is_sym(off):
        return ('havocchain', None)
    at, k0 = lin(off)
    n = N.get_id()
    if n not in at:
        # index not yet in closed form: retry next round
        return ('mapcand', None)
    co = at[n][1]
    rest = {i: x for i, x in at.items() if i != n}
    o0 = from_lin(rest, k0)
    if is_sym(o0) and names(E, o0) & fresh:
        return ('mapcand', None)
    if co != size or isinstance(v, (Ptr, FuncPtr, tuple, list)) or v is UNDEF:
        return ('havocchain', None)
    v = E.dom.toterm(v)
    bad = names(E, v) & fresh
    if bad:
        if f is not None and f[0] == 'map' and f[3] is not None:
            return ('havocchain', None)
        if f is not None and f[0] == 'map':
            return ('havocchain', None)
        return ('map', o0, size, None, [])
    return ('map', o0, size, sub1(v, N, K), [])


def check_step(E, s, H, head, forms, N, B, depth, header):
    """obligations: the back-edge state satisfies head(N+1)"""
    E.st = s
    N1 = N + 1
    fr = s.frames[depth]
    for loc, h in list(head.items()):
        f = forms.get(loc)
        if loc[0] == 'phi':
            v = back_phi(E, s, depth, header, loc[1])
        elif loc[0] == 'cell':
            v = s.mem[loc[1]].cells.get(loc[2], (0, UNDEF))[1]
        else:
            continue
        if f is None:
            E.oblige('loop-invariant', same_val(E, s, h, v), 'unchanged %s' % (loc,))
            continue
        if f[0] == 'havoc':
            continue
        v0 = f[-1]
        if isinstance(v0, Ptr):
            if not (isinstance(v, Ptr) and v.o == v0.o):
                E.oblige('loop-invariant', False, 'pointer %s' % (loc,))
                continue
            v = v.off
        want = form_value(E, f, N1, None, loc, None)
        E.oblige('loop-invariant', E.dom.toterm(v) == want, 'closed form')
    # all other locations unchanged
    for oid, o in H.mem.items():
        o2 = s.mem.get(oid)
        if o2 is o or o.kind == 'string':
            continue
        if o2 is None or o2.alive != o.alive:
            E.oblige('loop-invariant', False, 'object lifetime')
            continue
        if o.chain is None and o2.chain is None:
            for off, (sz, v) in o.cells.items():
                loc = ('cell', oid, off, sz)
                if loc in forms:
                    continue
                c2 = o2.cells.get(off)
                if c2 is None or c2[0] != sz or not same_val(E, s, v, c2[1]):
                    E.oblige('loop-invariant', False, 'unchanged %s+%d' % (o.name, off))
            continue
        f = forms.get(('chain', oid))
        if f is None:
            if o.chain is not o2.chain:
                E.oblige('loop-invariant', False, 'bulk memory of %s' % o.name)
            continue
        if f[0] == 'map':
            c = o2.chain
            ok = c[0] == 'st' and c[1] is o.chain and c[3] == f[2]
            if ok:
                E.oblige('loop-invariant', z3.And(E.dom.toterm(c[2]) == norm(E.dom.toterm(f[1]) + f[2] * N),
                                                  E.dom.toterm(c[4]) == sub1(f[3], K, N) if f[3] is not None else z3.BoolVal(False)),
                         'range map')
            else:
                E.oblige('loop-invariant', False, 'range map of %s' % o.name)
    if B is not None and B[0] is not None and B[2] is not N:
        b = sub1(B[0], B[2], N)
        # the condition was computed in an earlier round: it must be implied (modulo existentials, which are skipped)
        if not any(n in B[3] for n in names(E, b)):
            E.oblige('loop-invariant', b, 'iteration condition')
