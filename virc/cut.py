"""Loops cut by a stated invariant.

The harness states the invariant in three functions:
  bool vfx_loop_idle()   does the stated invariant apply to a loop entered in this state?  (otherwise: automatic treatment)
  void vfx_loop_check()  asserts the invariant
  void vfx_loop_havoc()  makes the state the invariant speaks about arbitrary, subject to the invariant
The verifier checks the invariant on entry, continues from an arbitrary state satisfying it, and checks it again at every back edge.
The frame condition is checked too: memory the harness did not make arbitrary must be unchanged at the back edge; local variables of
the function changed by the body are made arbitrary (or uninitialised) automatically.  Heap objects allocated by an iteration and
still alive at its end are reported as leaked."""
import itertools
import z3
from .ir import *
from .dom import *
from .sym import PathEnd
from .loops import run_body, same_val, back_phi


class SyncMark:
    op = 'sync'
    dest = None

    def __init__(self):
        self.results = []



def sync(E, st, fname):
    """run a harness function on st; returns [(state, value)]"""
    outer = (E.stop, E.curwork)
    s = st.clone()
    E.st = s
    m = SyncMark()
    E.pushframe(E.mod.func(fname), [], m)
    E.nosync += 1
    try:
        E.explore([s], None)
    finally:
        E.nosync -= 1
        E.stop, E.curwork = outer
        E.st = st
    if fname == 'vfx_loop_havoc':
        n = len(st.inputs)
        for r, _ in m.results:      # not part of a native run
            r.inputs = r.inputs[:n]
    return m.results


def is_idle(E, st):
    rs = sync(E, st, 'vfx_loop_idle')
    vs = set()
    for s, v in rs:
        if is_sym(v):
            raise Unsupported('symbolic vfx_loop_idle')
        vs.add(bool(v))
    if len(vs) != 1:
        raise Unsupported('vfx_loop_idle does not decide')
    return vs.pop()


def fresh_like(E, v, nm):
    if isinstance(v, tuple) and v and v[0] == 'S':
        return ('S', z3.String(E.newname('ls')))
    if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
        return E.dom.fresh(1, nm)
    return None


def snapshot(st):
    return {oid: (o, dict(o.cells), o.chain) for oid, o in st.mem.items()}


def cut_loop(E, st, fr, src, header):
    fn = fr.fn
    body = fn.loops[header]
    depth = len(st.frames) - 1
    outer = (E.stop, E.curwork, E.muted)
    phis = fn.blocks[header].phis
    # entry (the harness may also drop ghost state that is no longer needed)
    for s, _ in sync(E, st, 'vfx_loop_check'):
        cut_from(E, s, depth, fn, header, src, body, phis, outer)
    E.st = st


def cut_from(E, st, depth, fn, header, src, body, phis, outer):
    E.st = st
    fr = st.frames[depth]
    local = set(fr.allocas)
    key = (fr.ctx, fn.name, header)
    S, P = E.cut_cache.get(key, ({}, set()))    # (oid, off, size) -> 'any' | 'undef';  phis that change
    known = key in E.cut_cache
    S = {k: v for k, v in S.items() if k[0] in st.mem}
    P = {(d, k) for d, k in P if k == 'int' or k in st.mem}
    was = outer[2]
    for rnd in range(14):
        muted = 1 if was or not known else 0
        heads = make_heads(E, st, depth, header, src, phis, S, P)
        ns, np = {}, set()
        done = []
        E.muted = muted
        try:
            for H, decl in heads:
                p0 = E.stats['paths']
                E.st = H
                backs, exits = run_body(E, H.clone(), depth, header, body)
                if E.opts.get('verbose'):
                    print('  cut %s %s round %d%s: %d backs %d exits %d paths; S=%s' % (fn.name, E.mod.loc(fn.blocks[header].ins[0].dbg), rnd, 'm' if muted else '', len(backs), len(exits), E.stats['paths'] - p0, {(E.st.mem[k[0]].name,) + k[1:]: v for k, v in S.items()}), flush=True)
                b2s = []
                for b in backs:
                    for b2, _ in sync(E, b, 'vfx_loop_check'):
                        changed(E, st, H, b2, decl, local, ns, np, depth, header, phis, src)
                        b2s.append(b2)
                done.append((H, decl, b2s, exits))
        finally:
            E.stop, E.curwork, E.muted = outer
        grow = False
        for k, v in ns.items():
            if S.get(k) != v and S.get(k) != 'undef':
                S[k] = v
                grow = True
        if np - P:
            P |= np
            grow = True
        if grow:
            known = False
            continue
        E.cut_cache[key] = (dict(S), set(P))
        known = True
        if muted == (1 if was else 0):
            break
    else:
        raise Unsupported('no stable set of modified locals')
    if not E.muted:
        E.loops_proved.add((fn.name, E.mod.loc(fn.blocks[header].ins[0].dbg) + ' (stated invariant)'))
    for H, decl, b2s, exits in done:
        for b2 in b2s:
            E.st = b2
            try:
                frame_check(E, st, H, b2, decl, local, S, P, depth, header, phis, src)
            except PathEnd:
                pass
        for xs, target in exits:
            xs.pending = target
            outer[1].append(xs)
    E.st = st


def make_heads(E, st, depth, header, src, phis, S, P):
    """P: the loop values that change: (value, 'int'), or (value, object) for a pointer that is as on entry or into that object"""
    out = []
    ptrs = [(d, k) for d, k in P if k != 'int']
    names = sorted({d for d, _ in ptrs})
    for pick in itertools.product(*[[None] + sorted(k for d, k in ptrs if d == n) for n in names]):
        out += make_head(E, st, depth, header, src, phis, S, P, dict(zip(names, pick)))
    return out


def make_head(E, st, depth, header, src, phis, S, P, pick):
    H = st.clone()
    E.st = H
    fr = H.frames[depth]
    for ph in phis:
        v = E.val(fr, ph.ty, ph.a[src])
        if (ph.dest, 'int') in P:
            v = E.dom.fresh(ph.ty.n, 'lp')
        elif pick.get(ph.dest) is not None:
            v = Ptr(pick[ph.dest], E.dom.fresh_range(64, 'lp', 0, H.mem[pick[ph.dest]].size))
        fr.regs[ph.dest] = v
    fr.prev = src
    fr.blk = header
    fr.ip = 0
    for (oid, off, sz), how in S.items():
        o = E.wobj(oid)
        if off is None:
            o.cells = {}
            o.chain = None
            continue
        c = o.cells.get(off)
        if c is None:
            continue
        if how == 'undef':
            del o.cells[off]
            continue
        v = fresh_like(E, c[1], 'ls')
        if v is None:
            if isinstance(c[1], (Ptr, FuncPtr, list, tuple)) or c[1] is UNDEF:
                raise Unsupported('pointer changes in a cut loop (%s+%s)' % (o.name, off))
            v = E.dom.fresh(8 * sz, 'ls')
        o.cells[off] = (sz, v)
    pre = snapshot(H)
    out = []
    H.mods = frozenset()
    for s, _ in sync(E, H, 'vfx_loop_havoc'):
        decl = set(s.mods)
        s.mods = frozenset()
        for oid, o in s.mem.items():
            p = pre.get(oid)
            if p is None:
                decl.add((oid, 'new'))
                continue
            if p[0] is o:
                continue
            if o.chain is not None:
                if o.chain is not p[2]:
                    decl.add((oid, None))
                continue
            for off in set(o.cells) | set(p[1]):
                a, b = o.cells.get(off), p[1].get(off)
                if a is b or (a and b and a[0] == b[0] and a[1] is b[1]):
                    continue
                decl.add((oid, off))
        fr = s.frames[depth]
        fr.lit[header] = 0
        fr.lf[header] = 0
        s.heaphead = set(oid for oid, o in s.mem.items() if o.alive and o.kind == 'heap')
        out.append((s, decl))
    E.st = st
    return out


def phi_entry(E, st, depth, ph, src):
    return E.val(st.frames[depth], ph.ty, ph.a[src])


def celldiff(E, b, o, o2):
    for off in sorted(set(o.cells) | set(o2.cells)):
        c1, c2 = o.cells.get(off), o2.cells.get(off)
        if c1 is c2:
            continue
        if c1 is not None and c2 is not None and c1[0] == c2[0]:
            if not same_val(E, b, c1[1], c2[1]):
                yield off, c1[0], ('undef' if c2[1] is UNDEF else 'any'), c1[1]
        elif c1 is None:
            if o.base != 'undef' and not (isinstance(c2[1], int) and c2[1] == 0 and o.base == 'zero'):
                yield off, c2[0], 'new', None
            # uninitialised at the head: dead scratch, any read before a write is reported
        else:
            yield off, c1[0], 'undef', c1[1]


def changed(E, st, H, b, decl, local, ns, np, depth, header, phis, src):
    E.st = b
    for ph in phis:
        v = back_phi(E, b, depth, header, ph.dest)
        if not same_val(E, b, H.frames[depth].regs[ph.dest], v) and not (isinstance(v, Ptr) and same_val(E, b, phi_entry(E, st, depth, ph, src), v)):
            if ph.ty.k == 'int':
                np.add((ph.dest, 'int'))
            elif isinstance(v, Ptr) and v.o in st.mem:
                np.add((ph.dest, v.o))
            else:
                raise Unsupported('pointer changes in a cut loop')
    for oid, o in H.mem.items():
        if oid not in local:
            continue
        o2 = b.mem.get(oid)
        if o2 is o or o2 is None:
            continue
        if o.chain is not None or o2.chain is not None:
            if o.chain is not o2.chain:
                ns[(oid, None, None)] = 'undef'
            continue
        for off, sz, how, _ in celldiff(E, b, o, o2):
            if (oid, off) in decl:
                continue
            ns[(oid, off, sz)] = 'undef' if how == 'new' else how


def frame_check(E, st, H, b, decl, local, S, P, depth, header, phis, src):
    bad = None
    for ph in phis:
        v = back_phi(E, b, depth, header, ph.dest)
        if (ph.dest, 'int') in P or same_val(E, b, H.frames[depth].regs[ph.dest], v):
            continue
        if isinstance(v, Ptr) and same_val(E, b, phi_entry(E, st, depth, ph, src), v):
            continue
        if isinstance(v, Ptr) and (ph.dest, v.o) in P:
            E.st = b
            lo, sz = E.dom.toterm(v.off), b.mem[v.o].size
            if E.entailed(z3.And(lo >= 0, lo <= sz)):
                continue
        bad = 'loop value %s' % ph.dest
    dead = {k[0] for k, v in S.items() if k[1] is None}
    for oid, o in H.mem.items():
        o2 = b.mem.get(oid)
        if o2 is o or o.kind == 'string' or oid in dead or (oid, 'new') in decl:
            continue
        if o2 is None or o2.alive != o.alive:
            bad = 'lifetime of %s' % o.name
            continue
        if o.chain is not None or o2.chain is not None:
            if o.chain is not o2.chain and (oid, None) not in decl:
                bad = 'bulk memory of %s' % o.name
            continue
        for off, sz, how, v in celldiff(E, b, o, o2):
            if (oid, off) in decl or (oid, off, sz) in S:
                continue
            if E.opts.get('verbose'):
                print('   frame: %s+%d head %r back %r' % (o.name, off, o.cells.get(off), o2.cells.get(off)))
            bad = '%s+%d' % (o.name, off)
    E.oblige('loop-frame', bad is None, bad or 'unchanged outside the stated invariant')
    new = {oid for oid, o in b.mem.items() if o.alive and o.kind == 'heap' and oid not in H.heaphead}
    if new:
        todo = [oid for oid, o in b.mem.items() if o.alive and oid not in new]
        while todo and new:
            for sz, v in list(b.mem[todo.pop()].cells.values()):
                for q in v if isinstance(v, (list, tuple)) else (v,):
                    if isinstance(q, Ptr) and q.o in new:
                        new.discard(q.o)
                        todo.append(q.o)
    leak = ['%s#%d' % (b.mem[oid].name, oid) for oid in sorted(new)]
    E.oblige('memory-leak', not leak, 'allocated by an iteration and lost: ' + ','.join(leak[:4]) if leak else 'an iteration leaks nothing')
