"""Verification-condition generator: symbolic execution of LLVM IR with function-by-function composition through contract
stubs, automatic inductive loop invariants (loops.py) and a z3 back end."""
import os
import re
import subprocess
import time
import z3
from .ir import *
from .dom import *


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Restart(Exception):
    pass


class PathEnd(Exception):
    pass


class Budget(Exception):
    pass


class Throw(Exception):
    """a builtin throws a C++ exception (already materialised)"""

    def __init__(self, ptr, tinfo):
        self.ptr = ptr
        self.tinfo = tinfo


VERIFDIR = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/'


def cuttable(path):
    """the loops of the code under proof (not those of the harness or of the C++ library)"""
    return path.startswith('/') and not path.startswith(('/usr/', VERIFDIR))


class Obj:
    __slots__ = ('id', 'size', 'kind', 'alive', 'cells', 'chain', 'name', 'ro', 'base', 'meta')

    def __init__(self, id, size, kind, name, base='undef'):
        self.id = id
        self.size = size
        self.kind = kind      # stack heap global string fn
        self.alive = True
        self.cells = {}
        self.chain = None
        self.name = name
        self.ro = False
        self.base = base
        self.meta = None

    def copy(self):
        o = Obj.__new__(Obj)
        o.id = self.id
        o.size = self.size
        o.kind = self.kind
        o.alive = self.alive
        o.cells = dict(self.cells)
        o.chain = self.chain
        o.name = self.name
        o.ro = self.ro
        o.base = self.base
        o.meta = self.meta
        return o


class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'prev', 'ip', 'allocas', 'call', 'lf', 'lit', 'ctx', 'skiploop', 'hooked')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.regs = dict(self.regs)
        f.blk = self.blk
        f.prev = self.prev
        f.ip = self.ip
        f.allocas = list(self.allocas)
        f.call = self.call
        f.lf = dict(self.lf)
        f.lit = dict(self.lit)
        f.ctx = self.ctx
        f.skiploop = self.skiploop
        f.hooked = self.hooked
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.own = set()
        self.pc = []
        self.pcset = set()
        self.model = None
        self.inputs = []
        self.exc = None
        self.caught = []
        self.done = None
        self.steps = 0
        self.covers = set()
        self.oblsite = None
        self.pending = None
        self.backsrc = None
        self.watch = None
        self.mods = frozenset()

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.model = self.model
        s.inputs = list(self.inputs)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.done = self.done
        s.steps = self.steps
        s.covers = set(self.covers)
        s.oblsite = self.oblsite
        s.pending = self.pending
        s.backsrc = self.backsrc
        s.watch = self.watch
        s.mods = self.mods
        return s

    def add_fact(self, c):
        if c is True:
            return
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        i = c.get_id()
        if i in self.pcset:
            return
        self.pcset.add(i)
        self.pc.append(c)
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if not z3.is_true(v):
                self.model = None


class Obl:
    __slots__ = ('name', 'kind', 'loc', 'fn', 'inst', 'failed', 'ms', 'trivial', 'backend')


def counts_for(ob, prop):
    if ob['kind'] in ('contract', 'reach'):
        p = re.findall(r'[A-Z]\d\d', ob['name'].split(':')[0].split('/')[0]) if '/' in ob['name'] else []
        return (not p) or (prop in p)
    if ob['kind'] == 'memory-leak':
        return prop == 'C15'
    return True


class Failure:
    def __init__(self, key, kind, name, loc, fn, status, inputs, detail, trace):
        self.key = key
        self.kind = kind
        self.name = name
        self.loc = loc
        self.fn = fn
        self.status = status
        self.inputs = inputs
        self.detail = detail
        self.trace = trace


class Engine:
    def __init__(self, mod, mode='int', timeout=None, max_paths=20000, opts=None):
        self.mod = mod
        self.opts = opts or {}
        self.mode = mode
        self.max_paths = max_paths
        self.t0 = time.time()
        self.timeout = timeout
        self.demangled = demangle_all(mod)
        self.inv_loops = set()
        self.cut_loops = set()
        self.cut_cache = {}
        self.nosync = 0
        self.unroll_max = self.opts.get('unroll', 6)
        self.q_timeout = self.opts.get('q_timeout', 4000)
        self.q_rlimit = self.opts.get('q_rlimit', 1500000)
        self.o_timeout = self.opts.get('o_timeout', 15000)
        self.stats = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'instrs': 0, 'forks': 0}
        self.callees = set()
        self.contracts_used = set()
        self.imprecisions = {}
        self.mulatoms = {}
        self.bounded = self.opts.get('bounded', 0)
        from . import builtins as B
        self.B = B
        self.builtin_cache = {}
        self.reset()

    def reset(self):
        self.ncount = {}
        self.created = []
        self.loops_proved = set()
        self.loop_forms = {}
        self.curwork = None
        self.stop = None
        self.dom = BVDom(self) if self.mode == 'bv' else IntDom(self)
        self.globids = {}
        self.globnames = {}
        self.strb = {}
        self.fpext_of = {}
        self.slens = {}
        self.slenof = {}
        self.slenvars = {}
        self.nextid = 1
        self.solver = z3.Solver()
        self.stack = []
        self.obls = {}
        self.failures = {}
        self.muted = 0
        self.covers = {}
        self.asserts_seen = set()
        self.ps = {}
        self.pslist = []
        self.strlits = {}
        self.lemcache = {}
        self.ufb = {}
        self.uffc = {}
        self.loopsyms = {}
        self.quant = []
        self.imprecisions = {}
        self.callees = set()
        self.summarised = {}
        self.cut_cache = {}

    # ------------------------------------------------------------ names
    def newname(self, base):
        n = self.ncount.get(base, 0)
        self.ncount[base] = n + 1
        nm = '%s#%d' % (base, n)
        self.created.append(nm)
        return nm

    # ------------------------------------------------------------ solver
    def sync(self, st, upto=None):
        pc = st.pc
        n = len(pc) if upto is None else upto
        s = self.stack
        i = 0
        m = min(len(s), n)
        while i < m and s[i] is pc[i]:
            i += 1
        if len(s) > i:
            self.solver.pop(len(s) - i)
            del s[i:]
        while i < n:
            self.solver.push()
            self.solver.add(pc[i])
            s.append(pc[i])
            i += 1

    def links(self, pc, extra):
        """the lengths used in a query, as lengths of their strings"""
        if not self.slenvars:
            return []
        cache = self.lemcache.setdefault('links', {})
        out = set()
        for e in list(pc) + ([extra] if extra is not None else []):
            c = cache.get(e.get_id())
            if c is None:
                vs = set()
                seen = set()
                todo = [e]
                while todo:
                    x = todo.pop()
                    if x.get_id() in seen:
                        continue
                    seen.add(x.get_id())
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        if x.decl().name() in self.slenvars:
                            vs.add(x.decl().name())
                    elif z3.is_app(x):
                        todo.extend(x.children())
                c = cache[e.get_id()] = (e, vs)
            out |= c[1]
        return [z3.Length(self.slenvars[n]) == z3.Int(n) for n in sorted(out)]

    def check(self, st, extra=None, timeout=None, want_model=False):
        self.stats['queries'] += 1
        t = time.time()
        if self.timeout and t - self.t0 > self.timeout:
            raise Budget('time budget')
        self.sync(st)
        s = self.solver
        s.set('timeout', int(timeout or self.q_timeout))
        s.set('rlimit', 0 if timeout else self.q_rlimit)
        s.push()
        try:
            if extra is not None:
                s.add(extra)
            r = s.check()
            if r != z3.unsat and self.pslist:
                lem = self.lemmas(st.pc, extra)
                if lem:
                    s.add(*lem)
                    r = s.check()
            mdl = s.model() if r == z3.sat else None
        finally:
            s.pop()
            self.stats['solver_s'] += time.time() - t
        return r, mdl

    def lemmas(self, pc, extra):
        if not self.pslist:
            return []
        from .psum import instantiate
        return instantiate(self, pc, extra)

    def entailed(self, c):
        """is c implied by the path condition?  (c: bool or z3 Bool)"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        st = self.st
        if c.get_id() in st.pcset:
            return True
        if st.model is not None:
            if not z3.is_true(st.model.eval(c, model_completion=True)) and not self.pslist:
                return False
        r, m = self.check(st, z3.Not(c))
        if r == z3.sat:
            if not self.pslist:
                st.model = m
            return False
        return r == z3.unsat

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        st = self.st
        if c.get_id() in st.pcset:
            return True
        nc = z3.simplify(z3.Not(c))
        if nc.get_id() in st.pcset:
            return False
        can_t = can_f = None
        if st.model is not None and not self.pslist:
            v = st.model.eval(c, model_completion=True)
            if z3.is_true(v):
                can_t = True
            elif z3.is_false(v):
                can_f = True
        if can_t is None:
            r, m = self.check(st, c)
            if r == z3.unsat:
                st.add_fact(nc)
                return False
            if m is not None and not self.pslist:
                st.model = m
        if can_f is None:
            r, m = self.check(st, nc)
            if r == z3.unsat:
                st.add_fact(c)
                return True
        raise Fork(c)

    def decide_assume(self, c):
        """assume c; False if infeasible"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.st.add_fact(c)
        return self.feasible()

    def feasible(self):
        st = self.st
        if st.model is not None:
            return True
        r, m = self.check(st)
        if m is not None:
            st.model = m
        return r != z3.unsat

    # ------------------------------------------------------------ obligations
    def site(self):
        st = self.st
        if not st.frames:
            return '?', '?'
        for f in reversed(st.frames):
            ins = f.fn.blocks[f.blk].ins
            if f.ip < len(ins):
                d = ins[f.ip].dbg
                if d:
                    return f.fn.name, self.mod.loc(d)
        return st.frames[-1].fn.name, '?'

    def oblige(self, kind, cond, name=''):
        """prove cond under the current path condition; afterwards assume it"""
        st = self.st
        if self.muted:
            if isinstance(cond, bool):
                if not cond:
                    raise PathEnd('muted failure')
                return
            st.add_fact(cond)
            return
        fn, loc = self.site()
        key = (kind, name, fn, loc)
        o = self.obls.get(key)
        if o is None:
            o = self.obls[key] = Obl()
            o.name, o.kind, o.loc, o.fn, o.inst, o.failed, o.ms, o.trivial = name, kind, loc, fn, 0, 0, 0.0, 0
            o.backend = set()
        o.inst += 1
        if isinstance(cond, bool):
            c = z3.BoolVal(cond)
        else:
            c = z3.simplify(cond)
        if z3.is_true(c):
            o.trivial += 1
            return
        t = time.time()
        nc = z3.Not(c)
        r, m = self.check(st, nc, timeout=self.o_timeout)
        if r != z3.unsat:
            lk = self.links(st.pc, nc)
            if lk:
                r2, m2 = self.check(st, z3.And(nc, *lk), timeout=self.o_timeout)
                if r2 != z3.unknown:
                    r, m = r2, m2
        if r == z3.unknown:
            r, m = self.fresh_check(st, nc)
        o.ms += (time.time() - t) * 1000
        if r == z3.unsat:
            o.backend.add('z3')
            if self.opts.get('smtdump') is not None:
                self.opts['smtdump'].append((key, list(st.pc), nc, self.lemmas(st.pc, nc)))
            st.add_fact(c)
            return
        o.failed += 1
        if key not in self.failures:
            status = 'refuted' if r == z3.sat else 'unknown'
            inp = self.model_inputs(m) if m is not None else None
            det = ''
            if m is not None:
                det = '; '.join('%s=%s' % (n, v) for n, v in (inp or [])[:60] if not isinstance(v, (list, bytes)))
            tr = ['%s %s' % (f.fn.name, self.mod.loc(f.fn.blocks[f.blk].ins[min(f.ip, len(f.fn.blocks[f.blk].ins) - 1)].dbg)) for f in st.frames]
            self.failures[key] = Failure(key, kind, name, loc, fn, status, inp, det, tr)
            if self.opts.get('verbose'):
                print('FAIL', key, status, det)
            if status == 'refuted' and self.timeout and self.decides(kind, name):
                self.timeout = min(self.timeout, time.time() - self.t0 + 60)      # the answer is known: spend little more on it
        if self.opts.get('stop_on_fail'):
            raise Budget('stopped at first failure')
        # continue under the assumption that it held
        if z3.is_false(c):
            raise PathEnd('failed obligation')
        st.model = None
        st.add_fact(c)
        if not self.feasible():
            raise PathEnd('failed obligation')

    def decides(self, kind, name):
        """does a failure of this obligation violate the property being checked?"""
        prop = self.opts.get('prop')
        return bool(prop) and counts_for({'kind': kind, 'name': name}, prop)

    def fresh_check(self, st, nc):
        t = time.time()
        s = z3.Solver()
        s.set('timeout', self.o_timeout)
        s.add(*st.pc)
        s.add(nc)
        lem = self.lemmas(st.pc, nc)
        if lem:
            s.add(*lem)
        r = s.check()
        self.stats['solver_s'] += time.time() - t
        self.stats['queries'] += 1
        return r, (s.model() if r == z3.sat else None)

    def imprecise(self, what):
        fn, loc = self.site()
        self.imprecisions[(what, fn, loc)] = self.imprecisions.get((what, fn, loc), 0) + 1

    def model_inputs(self, m):
        out = []
        for rec in self.st.inputs:
            kind, name, v = rec[0], rec[1], rec[2]
            if kind in ('int', 'bool'):
                if isinstance(v, (int, bool)):
                    out.append((name, int(v)))
                else:
                    e = m.eval(v, model_completion=True)
                    if z3.is_int_value(e):
                        out.append((name, e.as_long()))
                    elif z3.is_bv_value(e):
                        out.append((name, e.as_signed_long()))
                    else:
                        out.append((name, 1 if z3.is_true(e) else 0))
            elif kind == 'str':
                if isinstance(v, str):
                    out.append((name, v.encode('latin1', 'replace')))
                else:
                    e = m.eval(v, model_completion=True)
                    try:
                        out.append((name, zstr(e).encode('latin1', 'replace')))
                    except Exception:
                        out.append((name, b''))
            elif kind in ('words', 'bytes'):
                uf, off, n = v
                nn = n if isinstance(n, int) else m.eval(n, model_completion=True)
                try:
                    nn = nn if isinstance(nn, int) else nn.as_long()
                    oo = off if isinstance(off, int) else m.eval(off, model_completion=True).as_long()
                except Exception:
                    nn = 0
                    oo = 0
                if nn > 4096:
                    nn = 4096
                step = 8 if kind == 'words' else 1
                vals = []
                for i in range(nn):
                    e = m.eval(uf(self.offterm(oo + i * step)), model_completion=True)
                    try:
                        vals.append(e.as_long() if z3.is_int_value(e) else e.as_signed_long())
                    except Exception:
                        vals.append(0)
                out.append((name, vals))
        return out

    def offterm(self, o):
        if isinstance(o, int):
            return z3.BitVecVal(o, 64) if self.dom.bv else z3.IntVal(o)
        return o

    # ------------------------------------------------------------ memory
    def newobj(self, size, kind, name, base='undef'):
        i = self.nextid
        self.nextid += 1
        o = Obj(i, size, kind, name, base)
        self.st.mem[i] = o
        self.st.own.add(i)
        return o

    def wobj(self, i):
        st = self.st
        o = st.mem[i]
        if i not in st.own:
            o = o.copy()
            st.mem[i] = o
            st.own.add(i)
        return o

    def globobj(self, name):
        i = self.globids.get(name)
        if i is None:
            i = self.globids[name] = self.nextid
            self.globnames[i] = name
            self.nextid += 1
        if i not in self.st.mem:
            g = self.mod.glob(name)
            if g is None:
                # function or unknown external
                o = Obj(i, 8, 'global', name)
            else:
                sz = self.mod.size(g.ty)
                o = Obj(i, sz, 'global', name, 'zero')
                if g.linkage == 'external':
                    o.base = 'ext'
                    h = self.B.EXT_GLOBALS.get(name)
                    if h is not None:
                        h(self, o)
                self.st.mem[i] = o
                self.st.own.add(i)
                if g.init is not None:
                    self.initglobal(o, 0, g.ty, g.init)
                o.ro = g.const
            self.st.mem[i] = o
        return i

    def initglobal(self, o, off, ty, op):
        k = op[0]
        if k == 'z':
            return
        if k == 'undef':
            return
        t = self.mod.resolve(ty)
        if k == 'agg':
            if t.k == 'struct':
                offs = self.mod.offsets(t)
                for (et, ev), eo in zip(op[1], offs):
                    self.initglobal(o, off + eo, et, ev)
            else:
                es = self.mod.size(t.e)
                for j, (et, ev) in enumerate(op[1]):
                    self.initglobal(o, off + j * es, et, ev)
            return
        if k == 'str':
            for j, b in enumerate(op[1]):
                o.cells[off + j] = (1, sgn(b, 8))
            return
        o.cells[off] = (self.mod.size(t), self.const(t, op))

    def gptr(self, name):
        if name in self.mod.funcs or name in self.mod.decls:
            return FuncPtr(name)
        g = self.mod.glob(name)
        if g is not None and g.linkage == 'alias':
            return self.const(PTR, g.init)
        return Ptr(self.globobj(name), 0)

    def const(self, ty, op):
        k = op[0]
        if k == 'i':
            if ty.k == 'int' and ty.n == 1:
                return bool(op[1] & 1)
            return sgn(op[1], ty.n)
        if k == 'b':
            return op[1]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.gptr(op[1])
        if k == 'z':
            return self.zero(ty)
        if k == 'undef':
            t = self.mod.resolve(ty)
            if t.k == 'struct':
                return [self.const(e, ('undef', e)) for e in t.e]
            if t.k == 'arr':
                return [self.const(t.e, ('undef', t.e)) for _ in range(t.n)]
            return UNDEF
        if k == 'agg':
            return [self.const(t, v) for t, v in op[1]]
        if k == 'str':
            return [sgn(b, 8) for b in op[1]]
        if k == 'f':
            return fconst(op[1], op[2])
        if k == 'meta':
            return None
        if k == 'ce':
            o = op[1]
            if o == 'gep':
                args = [(t, self.const(t, v)) for t, v in op[3]]
                return self.gep(op[2], args)
            if o in ('bitcast', 'addrspacecast'):
                return self.const(op[2], op[3])
            if o == 'ptrtoint':
                v = self.const(op[2], op[3])
                return self.ptr2int(v)
            if o == 'inttoptr':
                v = self.const(op[2], op[3])
                return self.int2ptr(v)
            if o == 'bin':
                a = self.const(op[3], op[4])
                b = self.const(op[3], op[5])
                if o == 'bin' and op[2] == 'icmp':
                    raise Unsupported('ce icmp')
                return self.arith(op[2], op[3].n, a, b, ())
            if o in ('trunc', 'zext', 'sext'):
                v = self.const(op[2], op[3])
                return getattr(self.dom, o)(v, op[2].n, op[4].n)
        raise Unsupported('const %r' % (op,))

    def zero(self, ty):
        t = self.mod.resolve(ty)
        if t.k == 'int':
            return False if t.n == 1 else 0
        if t.k == 'ptr':
            return NULL
        if t.k == 'struct':
            return [self.zero(e) for e in t.e]
        if t.k in ('arr', 'vec'):
            return [self.zero(t.e) for _ in range(t.n)]
        if t.k in ('float', 'double', 'x86_fp80'):
            return 0
        raise Unsupported('zero %r' % t)

    def ptr2int(self, v):
        if v is UNDEF:
            return v
        if isinstance(v, Ptr) and v.o == 0:
            return v.off
        return v

    def int2ptr(self, v):
        if isinstance(v, (Ptr, FuncPtr)) or v is UNDEF:
            return v
        return Ptr(0, v)

    def o_add(self, a, b):
        if isinstance(a, int):
            if isinstance(b, int):
                return a + b
            a, b = b, a
        if isinstance(b, int) and b == 0:
            return a
        r = a + b
        if self.dom.bv:
            return self.dom.cn(r)
        return norm(r)

    def gep(self, bt, args):
        base = args[0][1]
        if isinstance(base, list):
            raise Unsupported('vector gep')
        if isinstance(base, FuncPtr):
            return base
        if base is UNDEF:
            return UNDEF
        off = base.off
        t = bt
        first = True
        for ity, iv in args[1:]:
            if first:
                sz = self.mod.size(t)
                first = False
            else:
                rt = self.mod.resolve(t)
                if rt.k == 'struct':
                    off = self.o_add(off, self.mod.offsets(rt)[iv])
                    t = rt.e[iv]
                    continue
                t = rt.e
                sz = self.mod.size(t)
            if iv is UNDEF:
                return UNDEF
            if isinstance(iv, int):
                d = iv * sz
            elif isinstance(iv, (Ptr, FuncPtr)):
                raise Unsupported('gep by ptr')
            else:
                if self.dom.bv:
                    if iv.size() < 64:
                        iv = z3.SignExt(64 - iv.size(), iv)
                    d = self.dom.cn(iv * z3.BitVecVal(sz, 64))
                else:
                    d = norm(iv * sz)
            off = self.o_add(off, d)
        return Ptr(base.o, off)

    def chkptr(self, p, what):
        if p is UNDEF:
            self.oblige('uninitialised-pointer', False, what)
            raise PathEnd('undef ptr')
        if isinstance(p, FuncPtr):
            raise Unsupported('data access through function pointer')
        if not isinstance(p, Ptr):
            p = self.int2ptr(p)
            if not isinstance(p, Ptr):
                raise Unsupported('ptr %r' % (p,))
        if p.o == 0:
            self.oblige('null-dereference', False, what)
            raise PathEnd('null deref')
        return p

    def access(self, p, size, what, write=False):
        p = self.chkptr(p, what)
        o = self.st.mem.get(p.o)
        if o is None:
            raise Unsupported('object vanished')
        if not o.alive:
            self.oblige('use-after-free', False, what + ' ' + str(o.kind))
            raise PathEnd('dead object')
        if o.kind == 'string' and write:
            self.oblige('write-to-string-buffer', False, what)
            raise PathEnd('ro')
        if write and o.ro:
            self.oblige('write-to-constant', False, what)
            raise PathEnd('ro')
        off = p.off
        if isinstance(off, int) and isinstance(size, int) and isinstance(o.size, int):
            if off < 0 or off + size > o.size:
                self.oblige('out-of-bounds', False, what)
                raise PathEnd('oob')
            self.count_trivial('out-of-bounds', what)
        else:
            c = z3.And(off >= 0, self.o_add(off, size) <= o.size)
            if self.dom.bv and not isinstance(self.o_add(off, size), int) and not isinstance(size, int):
                c = z3.And(off >= 0, size >= 0, self.o_add(off, size) <= o.size, self.o_add(off, size) >= off)
            self.oblige('out-of-bounds', c, what)
        return p, o

    def count_trivial(self, kind, name):
        if self.muted:
            return
        st = self.st
        f = st.frames[-1]
        d = f.fn.blocks[f.blk].ins[f.ip].dbg
        key = (kind, name, f.fn.name, self.mod.loc(d) if d else '?')
        o = self.obls.get(key)
        if o is None:
            o = self.obls[key] = Obl()
            o.name, o.kind, o.loc, o.fn, o.inst, o.failed, o.ms, o.trivial = name, kind, key[3], key[2], 0, 0, 0.0, 0
            o.backend = set()
        o.inst += 1
        o.trivial += 1

    def load(self, ty, p):
        t = self.mod.resolve(ty)
        if t.k == 'struct':
            offs = self.mod.offsets(t)
            return [self.load(e, self.padd(p, o)) for e, o in zip(t.e, offs)]
        if t.k in ('arr', 'vec'):
            es = self.mod.size(t.e)
            return [self.load(t.e, self.padd(p, j * es)) for j in range(t.n)]
        size = self.mod.size(t)
        p, o = self.access(p, size, 'load')
        v = self.load_raw(o, p.off, size, t)
        return self.typed(v, t, size)

    def typed(self, v, t, size):
        if v is UNDEF:
            return v
        if t.k == 'ptr':
            if isinstance(v, (Ptr, FuncPtr)):
                return v
            return self.int2ptr(v)
        if t.k == 'int':
            if t.n == 1:
                if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)):
                    return v
                return self.dom.trunc(v, 8, 1)
            if isinstance(v, bool):
                return int(v)
            if is_sym(v) and z3.is_bool(v):
                return self.dom.zext(v, 1, t.n)
            if isinstance(v, Ptr) and v.o == 0:
                return v.off
            return v
        return v

    def padd(self, p, d):
        if d == 0:
            return p
        if isinstance(p, FuncPtr) or p is UNDEF:
            return p
        return Ptr(p.o, self.o_add(p.off, d))

    def load_raw(self, o, off, size, t=None):
        if o.chain is None:
            if isinstance(off, int):
                return self.cell_load(o, off, size)
            if o.kind == 'string':
                return self.string_load(o, off, size)
            o = self.tochain(o.id)
        return self.chain_load(o.chain, off, size)

    def string_load(self, o, off, size):
        # characters of a string buffer: (content, nul)
        s = o.meta
        if size != 1:
            raise Unsupported('wide load from string buffer')
        self.imprecise('string byte')
        return self.dom.fresh(8, 'strbyte')

    def cell_load(self, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if o.kind == 'string':
            s = o.meta
            if isinstance(s, str):
                bs = (s.encode('latin1') + b'\0')[off:off + size]
                return sgn(int.from_bytes(bs, 'little'), 8 * size)
            return self.string_load(o, off, size)
        # gather
        parts = []
        i = off
        end = off + size
        hit = []
        for co, (cs, cv) in o.cells.items():
            if co < end and co + cs > off:
                hit.append((co, cs, cv))
        if not hit:
            if o.base == 'zero':
                return 0
            if o.base == 'sym':
                v = self.dom.fresh(8 * size, 'mem')
                self.wobj(o.id).cells[off] = (size, v)
                return v
            if o.base == 'ext':
                self.imprecise('external global %s' % o.name)
                v = self.dom.fresh(8 * size, 'ext')
                self.wobj(o.id).cells[off] = (size, v)
                return v
            return UNDEF
        hit.sort()
        for co, cs, cv in hit:
            if co > i:
                if o.base == 'zero':
                    parts.append((0, 8 * (co - i)))
                elif o.base == 'sym':
                    v = self.dom.fresh(8 * (co - i), 'mem')
                    self.wobj(o.id).cells[i] = (co - i, v)
                    parts.append((v, 8 * (co - i)))
                else:
                    return UNDEF
                i = co
            if cv is UNDEF:
                return UNDEF
            if isinstance(cv, bool) or (is_sym(cv) and z3.is_bool(cv)):
                cv = self.dom.zext(cv, 1, 8)
            if isinstance(cv, Ptr) and cv.o == 0:
                cv = cv.off
            if isinstance(cv, (Ptr, FuncPtr, tuple, list)):
                raise Unsupported('partial load of %r' % (cv,))
            lo = i - co
            hi = min(co + cs, end) - co
            if lo == 0 and hi == cs:
                parts.append((cv, 8 * cs))
            else:
                parts.append((self.dom.extract(cv, 8 * cs, 8 * lo, 8 * (hi - lo)), 8 * (hi - lo)))
            i = co + hi
        if i < end:
            if o.base == 'zero':
                parts.append((0, 8 * (end - i)))
            elif o.base == 'sym':
                v = self.dom.fresh(8 * (end - i), 'mem')
                self.wobj(o.id).cells[i] = (end - i, v)
                parts.append((v, 8 * (end - i)))
            else:
                return UNDEF
        if len(parts) == 1:
            return parts[0][0]
        return self.dom.concat(parts)

    def store(self, ty, v, p):
        t = self.mod.resolve(ty)
        if t.k == 'struct':
            for e, o, x in zip(t.e, self.mod.offsets(t), v):
                self.store(e, x, self.padd(p, o))
            return
        if t.k in ('arr', 'vec'):
            es = self.mod.size(t.e)
            for j in range(t.n):
                self.store(t.e, v[j], self.padd(p, j * es))
            return
        size = self.mod.size(t)
        p, o = self.access(p, size, 'store', True)
        if t.k == 'int' and t.n == 1:
            v = self.dom.zext(v, 1, 8) if v is not UNDEF else v
        self.store_raw(p.o, p.off, size, v)

    def store_raw(self, oid, off, size, v):
        o = self.wobj(oid)
        if o.chain is None and isinstance(off, int):
            self.clear_cells(o, off, size)
            o.cells[off] = (size, v)
            return
        if o.chain is None:
            o = self.tochain(oid)
        o.chain = ('st', o.chain, off, size, v)

    def clear_cells(self, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            del o.cells[off]
            return
        end = off + size
        for co in [k for k, (cs, cv) in o.cells.items() if k < end and k + cs > off]:
            cs, cv = o.cells[co]
            if co >= off and co + cs <= end:
                del o.cells[co]
                continue
            # partial: split
            if isinstance(cv, bool) or (is_sym(cv) and z3.is_bool(cv)):
                cv = self.dom.zext(cv, 1, 8)
            if isinstance(cv, Ptr) and cv.o == 0:
                cv = cv.off
            if isinstance(cv, (Ptr, FuncPtr, tuple, list)):
                del o.cells[co]
                for z in range(co, co + cs):
                    if z < off or z >= end:
                        o.cells[z] = (1, UNDEF)
                continue
            del o.cells[co]
            if co < off:
                w = off - co
                o.cells[co] = (w, cv if cv is UNDEF else self.dom.extract(cv, 8 * cs, 0, 8 * w))
            if co + cs > end:
                w = co + cs - end
                o.cells[end] = (w, cv if cv is UNDEF else self.dom.extract(cv, 8 * cs, 8 * (cs - w), 8 * w))

    # chain memory -------------------------------------------------------
    def tochain(self, oid):
        o = self.wobj(oid)
        if o.chain is None:
            if o.kind == 'string':
                raise Unsupported('symbolic access to string buffer')
            o.chain = ('base', o.base, o.id, {})
            for co in sorted(o.cells):
                cs, cv = o.cells[co]
                o.chain = ('st', o.chain, co, cs, cv)
            o.cells = {}
        return o

    def chain_chars(self, node, off, n):
        """the abstract string stored at [off, off+n), or None"""
        ent = self.entailed
        while True:
            k = node[0]
            if k == 'st':
                parent, d, ln = node[1], node[2], node[3]
            elif k == 'cp' or k == 'set' or k == 'fillb':
                parent, d, ln = node[1], node[2], node[3]
            elif k == 'fillw' and not self.dom.bv:
                parent, d, ln = node[1], node[2], norm(node[3] * 8) if not isinstance(node[3], int) else node[3] * 8
            elif k == 'map':
                parent, d, ln = node[1], node[2], self.o_mulc(node[3], node[4])
            else:
                return None
            rel = self.odiff(off, d)
            end = self.o_add(rel, n)
            if ent(self.bOr(end <= 0, rel >= ln)):
                node = parent
                continue
            if not ent(self.bAnd(rel >= 0, end <= ln)):
                return None
            if k == 'cp':
                off = self.o_add(node[5], rel)
                node = node[4]
                continue
            if k == 'fillb' and node[4] in self.strb:
                from .builtins import sterm, slen
                s, so = self.strb[node[4]]
                a = self.o_add(so, rel)
                if ent(a == 0 if is_sym(a) else a == 0) and ent(slen(self, s) == n):
                    return s
                return z3.SubString(sterm(s), a, n)
            return None

    def odiff(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a - b
        d = self.o_add(a, -b if not isinstance(b, int) else -b)
        return d

    def chain_load(self, node, off, size):
        """value of `size` bytes at `off`"""
        ent = self.entailed
        pend = []   # [(cond, val)]
        while True:
            k = node[0]
            if k == 'st':
                _, parent, o2, s2, v = node
                d = self.odiff(off, o2)
                if isinstance(d, int):
                    if d == 0 and size == s2:
                        r = v
                        break
                    if d >= s2 or d + size <= 0:
                        node = parent
                        continue
                    if 0 <= d and d + size <= s2:
                        if v is UNDEF:
                            r = UNDEF
                        else:
                            r = self.dom.extract(v, 8 * s2, 8 * d, 8 * size)
                        break
                    # value straddles: byte by byte
                    r = self.bytes_load(node, off, size)
                    break
                dis = z3.Or(d >= s2, d + size <= 0)
                if ent(dis):
                    node = parent
                    continue
                if size == s2:
                    hit = d == 0
                    if ent(hit):
                        r = v
                        break
                    if not ent(z3.Or(dis, hit)):
                        raise Fork(z3.simplify(dis))
                    pend.append((hit, v))
                    node = parent
                    continue
                if size == 1:
                    # byte of a wider store
                    bv = self.byteof(v, s2, d)
                    ins = z3.And(d >= 0, d < s2)
                    if ent(ins):
                        r = bv
                        break
                    pend.append((ins, bv))
                    node = parent
                    continue
                if ent(z3.Not(dis)):
                    r = self.bytes_load(node, off, size)
                    break
                raise Fork(z3.simplify(dis))
            elif k in ('cp', 'set', 'fillw', 'fillb', 'map', 'fillh'):
                if k == 'cp':
                    _, parent, d, n, sn, s = node
                    ln = n
                elif k == 'set':
                    _, parent, d, n, c = node
                    ln = n
                elif k == 'fillw':
                    _, parent, d, n, uf, lo, hi = node
                    ln = n * 8 if isinstance(n, int) else norm(n * 8) if not self.dom.bv else n * 8
                elif k == 'map':
                    _, parent, d, n, es, fn = node
                    ln = self.o_mulc(n, es)
                else:
                    _, parent, d, n, uf = node
                    ln = n
                rel = self.odiff(off, d)
                end = self.o_add(rel, size)
                ins = self.bAnd(rel >= 0, end <= ln)
                out = self.bOr(end <= 0, rel >= ln)
                if size == 1 and not isinstance(ins, bool):
                    out = z3.Not(ins)
                if ent(out):
                    node = parent
                    continue
                ein = ent(ins)
                if not ein and not ent(self.bOr(ins, out)):
                    if size > 1 and not isinstance(ins, bool) and ent(z3.Not(ins)):
                        # value straddles: byte by byte
                        r = self.bytes_load(node, off, size)
                        break
                    raise Fork(z3.simplify(ins))
                if not ein:
                    # value inside is only meaningful under `ins`
                    sv = self.under(ins, lambda: self.link_val(node, k, rel, off, size))
                    pend.append((ins, sv))
                    node = parent
                    continue
                if k == 'cp':
                    off = self.o_add(node[5], rel)
                    node = node[4]
                    continue
                r = self.link_val(node, k, rel, off, size)
                break
            elif k == 'base':
                if node[1] == 'zero':
                    r = 0
                elif node[1] in ('undef', 'ext') and not pend:
                    r = UNDEF
                else:
                    r = self.uf_load(('B%d' % node[2]), off, size, None)
                break
            else:
                raise Unsupported('chain ' + k)
        for c, v in reversed(pend):
            if v is UNDEF or r is UNDEF or isinstance(v, (Ptr, FuncPtr, tuple)) or isinstance(r, (Ptr, FuncPtr, tuple)):
                raise Fork(z3.simplify(c))
            if self.dom.bv:
                r = z3.If(c, self.dom.term(v, 8 * size), self.dom.term(r, 8 * size))
            else:
                r = z3.If(c, self.dom.toterm(v), self.dom.toterm(r))
        return r

    def under(self, cond, f):
        st = self.st
        n = len(st.pc)
        saved = st.model
        st.pc.append(cond)
        st.model = None
        had = cond.get_id() in st.pcset
        st.pcset.add(cond.get_id())
        try:
            v = f()
        finally:
            # keep the facts added (all are valid facts or consequences); guard them by cond
            extra = st.pc[n + 1:]
            del st.pc[n:]
            if not had:
                st.pcset.discard(cond.get_id())
            st.model = saved
            for c in extra:
                st.pcset.discard(c.get_id())
                st.add_fact(z3.Implies(cond, c))
        return v

    def bAnd(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return z3.And(a, b)

    def bOr(self, a, b):
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        return z3.Or(a, b)

    def o_mulc(self, n, c):
        if isinstance(n, int):
            return n * c
        return norm(n * c) if not self.dom.bv else n * c

    def link_val(self, node, k, rel, off, size):
        if k == 'cp':
            return self.chain_load(node[4], self.o_add(node[5], rel), size)
        if k == 'set':
            return self.dom.byterep(node[4], size)
        if k == 'fillw':
            _, parent, d, n, uf, lo, hi = node
            if size != 8:
                if size == 1:
                    return self.uf_load(uf + 'b', off, 1, None)
                raise Unsupported('odd load from word array')
            self.ufb.setdefault('%s_8' % uf, {})[0] = (d, n, lo, hi)
            v = self.uf_load(uf, off, 8, None)
            return v
        if k == 'fillb':
            if size == 1:
                return self.uf_load(node[4], off, 1, None)
            return self.dom.concat([(self.uf_load(node[4], self.o_add(off, i), 1, None), 8) for i in range(size)])
        if k == 'fillh':
            return self.uf_load(node[4], off, size, None)
        if k == 'map':
            _, parent, d, n, es, fn = node
            if size != es:
                raise Unsupported('odd load from summarised loop store')
            return fn(rel)
        raise Unsupported(k)

    def uf_load(self, uf, off, size, _):
        name = '%s_%d' % (uf, size)
        bits = 8 * size
        if self.dom.bv:
            f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(bits))
            return f(self.offterm(off))
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        self.dom.sym_bounds[name] = (lo, hi)
        v = f(self.offterm(off))
        for c in self.uf_facts(v):
            self.st.add_fact(c)
        return v

    def uf_facts(self, v):
        """facts that hold of one application of a memory function, whatever the path"""
        nm = v.decl().name()
        b = self.dom.sym_bounds.get(nm)
        out = []
        if b is None:
            return out
        c = self.uffc.get(v.get_id())
        if c is not None:
            return c[1]
        out.append(z3.And(v >= b[0], v <= b[1]))
        w = self.ufb.get(nm)
        if w is not None:
            d, n, lo, hi = w[0]
            off = norm(v.arg(0))
            rel = self.odiff(off, d)
            al = rel % 8 == 0 if isinstance(rel, int) else lin(rel)[1] % 8 == 0 and all(k % 8 == 0 for _, k in lin(rel)[0].values())
            if al:
                g = self.bAnd(rel >= 0, rel < self.o_mulc(n, 8))
                if g is not False:
                    r = z3.And(v >= lo, v <= hi)
                    out.append(r if g is True else z3.Implies(g, r))
        self.uffc[v.get_id()] = (v, out)
        return out

    def byteof(self, v, size, d):
        if isinstance(d, int):
            return self.dom.extract(v, 8 * size, 8 * d, 8)
        if isinstance(v, int) and v == 0:
            return 0
        if self.dom.bv:
            t = self.dom.term(v, 8 * size)
            r = z3.Extract(7, 0, t)
            for i in range(1, size):
                r = z3.If(d == i, z3.Extract(8 * i + 7, 8 * i, t), r)
            return r
        f = z3.Function('byteof%d' % size, z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.dom.sym_bounds['byteof%d' % size] = (-128, 127)
        return f(self.dom.toterm(v), d)

    def bytes_load(self, node, off, size):
        parts = []
        for i in range(size):
            b = self.chain_load(node, self.o_add(off, i), 1)
            if b is UNDEF:
                return UNDEF
            parts.append((b, 8))
        return self.dom.concat(parts)

    # ---- bulk operations
    def memcpy(self, dst, src, n, move, what):
        if n is UNDEF:
            self.oblige('uninitialised-length', False, what)
            raise PathEnd('undef')
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int):
            if not self.dom.bv:
                self.oblige('negative-length', n >= 0, what)
        elif n < 0:
            self.oblige('negative-length', False, what)
            raise PathEnd('neg')
        if not isinstance(n, int) and (not isinstance(dst, Ptr) or dst.o == 0 or not isinstance(src, Ptr) or src.o == 0):
            if not self.decide(n != 0):
                return
        dst, do = self.access(dst, n, what + ' dst', True)
        src, so = self.access(src, n, what + ' src')
        if not move and dst.o == src.o:
            a, b = dst.off, src.off
            c = self.bOr(self.o_add(a, n) <= b, self.o_add(b, n) <= a)
            if not isinstance(n, int):
                c = self.bOr(c, n == 0)
            self.oblige('memcpy-overlap', c, what)
        if isinstance(n, int) and isinstance(dst.off, int) and isinstance(src.off, int) and do.chain is None and so.chain is None:
            self.cell_copy(dst, src, n)
            return
        if so.kind == 'string':
            self.str_to_mem(dst, src, n)
            return
        so = self.tochain(src.o)
        sn = so.chain
        do = self.tochain(dst.o)
        do = self.wobj(dst.o)
        do.chain = ('cp', do.chain, dst.off, n, sn, src.off)

    def str_to_mem(self, dst, src, n):
        """bytes of an abstract string copied into raw memory: keep the abstract value as a tagged cell"""
        so = self.st.mem[src.o]
        do = self.tochain(dst.o)
        nm = self.newname('strb')
        self.strb[nm] = (so.meta, src.off)
        do = self.wobj(dst.o)
        do.chain = ('fillb', do.chain, dst.off, n, nm)

    def cell_copy(self, dst, src, n):
        so = self.st.mem[src.o]
        a = src.off
        if so.kind == 'string':
            if not isinstance(so.meta, str):
                do = self.wobj(dst.o)
                self.clear_cells(do, dst.off, n)
                for i in range(n):
                    do.cells[dst.off + i] = (1, self.dom.fresh(8, 'strbyte'))
                return
            bs = (so.meta.encode('latin1') + b'\0')[a:a + n]
            do = self.wobj(dst.o)
            self.clear_cells(do, dst.off, n)
            for i, b in enumerate(bs):
                do.cells[dst.off + i] = (1, sgn(b, 8))
            return
        new = []
        cov = a
        for co in sorted(k for k, (cs, cv) in so.cells.items() if k < a + n and k + cs > a):
            cs, cv = so.cells[co]
            if co > cov:
                self._gap(so, new, cov, co)
            lo = max(co, a)
            hi = min(co + cs, a + n)
            if lo == co and hi == co + cs:
                new.append((co, cs, cv))
            elif isinstance(cv, (Ptr, FuncPtr, tuple, list)):
                raise Unsupported('partial copy of pointer')
            else:
                if isinstance(cv, bool) or (is_sym(cv) and z3.is_bool(cv)):
                    cv = self.dom.zext(cv, 1, 8)
                new.append((lo, hi - lo, cv if cv is UNDEF else self.dom.extract(cv, 8 * cs, 8 * (lo - co), 8 * (hi - lo))))
            cov = hi
        if cov < a + n:
            self._gap(so, new, cov, a + n)
        do = self.wobj(dst.o)
        self.clear_cells(do, dst.off, n)
        for co, cs, cv in new:
            if cv is UNDEF and do.base == 'undef':
                continue
            do.cells[co - a + dst.off] = (cs, cv)

    def _gap(self, so, new, x, y):
        if so.base in ('sym', 'ext'):
            so = self.wobj(so.id)
        while x < y:
            w = 8 if (x % 8 == 0 and y - x >= 8) else 1
            if so.base == 'zero':
                v = 0
            elif so.base in ('sym', 'ext'):
                v = self.dom.fresh(8 * w, 'mem')
                so.cells[x] = (w, v)
            else:
                v = UNDEF
            new.append((x, w, v))
            x += w

    def memset(self, dst, c, n, what):
        if isinstance(n, int) and n == 0:
            return
        if n is UNDEF:
            self.oblige('uninitialised-length', False, what)
            raise PathEnd('undef')
        if not isinstance(n, int) and not self.dom.bv:
            self.oblige('negative-length', n >= 0, what)
        dst, do = self.access(dst, n, what, True)
        if isinstance(n, int) and isinstance(dst.off, int) and do.chain is None:
            do = self.wobj(dst.o)
            self.clear_cells(do, dst.off, n)
            x, y = dst.off, dst.off + n
            while x < y:
                w = 8 if (x % 8 == 0 and y - x >= 8) else 1
                do.cells[x] = (w, self.dom.byterep(c, w))
                x += w
            return
        do = self.tochain(dst.o)
        do = self.wobj(dst.o)
        do.chain = ('set', do.chain, dst.off, n, c)

    # ------------------------------------------------------------ arithmetic on mixed values
    def arith(self, op, bits, a, b, flags):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, (Ptr, FuncPtr)) or isinstance(b, (Ptr, FuncPtr)):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                return self.odiff(a.off, b.off)
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.o, self.o_add(a.off, b))
            if op == 'sub' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.o, self.o_add(a.off, -b))
            if op == 'and' and isinstance(a, FuncPtr) and b == 1:
                return 0
            if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and isinstance(a.off, int):
                # alignment test: object bases are 16-byte aligned
                if 0 <= b < 16:
                    return a.off & b
                if -16 <= b < 0:
                    return Ptr(a.o, a.off & b)
            if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and not self.dom.bv:
                if 0 < b < 16 and (b + 1) & b == 0:
                    return a.off % (b + 1)
                if -16 <= b < 0 and -b & (-b - 1) == 0:
                    return Ptr(a.o, norm(a.off - a.off % -b) if b != -1 else a.off)
            raise Unsupported('pointer arithmetic %s %r %r' % (op, a, b))
        if bits == 1:
            ca, cb = isinstance(a, (bool, int)), isinstance(b, (bool, int))
            if ca and cb:
                a, b = bool(a), bool(b)
                return {'xor': a != b, 'or': a or b, 'and': a and b, 'add': a != b, 'sub': a != b, 'mul': a and b}[op]
            if op in ('xor', 'add', 'sub'):
                if ca:
                    return z3.Not(b) if a else b
                if cb:
                    return z3.Not(a) if b else a
                return z3.Xor(a, b)
            if op == 'or':
                return self.bOr(bool(a) if ca else a, bool(b) if cb else b)
            if op in ('and', 'mul'):
                return self.bAnd(bool(a) if ca else a, bool(b) if cb else b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        return self.dom.binop(op, bits, a, b, flags)

    def icmp(self, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        pa, pb = isinstance(a, (Ptr, FuncPtr)), isinstance(b, (Ptr, FuncPtr))
        if pa or pb:
            if not pa:
                a = self.int2ptr(a)
            if not pb:
                b = self.int2ptr(b)
            if isinstance(a, FuncPtr) or isinstance(b, FuncPtr):
                eq = isinstance(a, FuncPtr) and isinstance(b, FuncPtr) and a.name == b.name
                if pred == 'eq':
                    return eq
                if pred == 'ne':
                    return not eq
                raise Unsupported('fn ptr order')
            if a.o == b.o:
                return self.dom.icmp(pred, 64, a.off, b.off)
            if pred == 'eq':
                return False
            if pred == 'ne':
                return True
            if a.o == 0 and isinstance(a.off, int) and a.off == 0:
                return pred in ('ult', 'ule')
            if b.o == 0 and isinstance(b.off, int) and b.off == 0:
                return pred in ('ugt', 'uge')
            # order of unrelated objects: unspecified, but constant
            r = a.o < b.o
            return r if pred in ('ult', 'ule', 'slt', 'sle') else not r
        bits = ty.n
        if bits == 1:
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                return conc_cmp(pred, 1, -int(a) if pred[0] == 's' else int(a), -int(b) if pred[0] == 's' else int(b))
            ta = z3.BoolVal(bool(a)) if isinstance(a, (bool, int)) else a
            tb = z3.BoolVal(bool(b)) if isinstance(b, (bool, int)) else b
            if pred == 'eq':
                return ta == tb
            if pred == 'ne':
                return z3.Xor(ta, tb)
            if pred == 'ult':
                return z3.And(z3.Not(ta), tb)
            if pred == 'ugt':
                return z3.And(ta, z3.Not(tb))
            raise Unsupported('i1 cmp')
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        return self.dom.icmp(pred, bits, a, b)

    # ------------------------------------------------------------ execution
    def val(self, fr, ty, op):
        if op[0] == 'r':
            return fr.regs[op[1]]
        if op[0] == 'i' and ty.k == 'int' and ty.n != 1:
            return sgn(op[1], ty.n)
        return self.const(ty, op)

    def pushframe(self, fn, args, call):
        st = self.st
        f = Frame()
        f.fn = fn
        f.regs = {}
        f.blk = fn.entry
        f.prev = None
        f.ip = 0
        f.allocas = []
        f.call = call
        f.lf = {}
        f.lit = {}
        f.skiploop = None
        f.hooked = None
        f.ctx = (st.frames[-1].ctx + (st.frames[-1].fn.name,))[-4:] if st.frames else ()
        if len(st.frames) > 200:
            raise Unsupported('recursion depth')
        for (t, nm, at), v in zip(fn.params, args):
            if 'byval' in at:
                raise Unsupported('byval')
            f.regs[nm] = v
        st.frames.append(f)
        self.callees.add(fn.name)
        return f

    def popframe(self):
        st = self.st
        f = st.frames.pop()
        for a in f.allocas:
            if a in st.mem:
                del st.mem[a]
        return f

    def run_main(self, entry):
        """verify one harness; returns when all paths are explored"""
        while True:
            self.reset()
            try:
                self._run_main(entry)
                return
            except Restart:
                continue

    def _run_main(self, entry):
        st = State()
        self.st = st
        fn = self.mod.func(entry)
        if fn is None:
            raise Unsupported('no harness ' + entry)
        self.entry = entry
        self.pushframe(fn, [], None)
        self.globals_init()
        self.explore([st], None)

    def globals_init(self):
        pass

    def explore(self, work, stop):
        """run states to completion.  stop(st, target, frm) is consulted at block transfers"""
        while work:
            st = work.pop()
            self.run_state(st, work, stop)
            if self.stats['paths'] > self.max_paths:
                raise Budget('path budget')

    def run_state(self, st, work, stop):
        self.st = st
        self.stop = stop
        self.curwork = work
        while True:
            try:
                if st.pending is not None:
                    self.goto(st, st.frames[-1], st.pending)
                    st.pending = None
                self.step_loop(st, work)
                return
            except Fork as e:
                self.stats['forks'] += 1
                self.note_fork(st)
                s2 = st.clone()
                c = e.cond
                s2.add_fact(z3.simplify(z3.Not(c)))
                st.add_fact(c)
                ok2 = s2.model is not None
                if not ok2:
                    self.st = s2
                    ok2 = self.feasible()
                    self.st = st
                if ok2:
                    work.append(s2)
                if not self.feasible():
                    self.stats['paths'] += 1
                    return
                continue
            except Throw as e:
                try:
                    self.throw(e.ptr, e.tinfo)
                    continue
                except PathEnd:
                    self.stats['paths'] += 1
                    return
            except PathEnd as e:
                self.stats['paths'] += 1
                return

    def note_fork(self, st):
        """a symbolic branch inside a loop that is being unrolled"""
        for fr in st.frames:
            hs = fr.fn.inloops.get(fr.blk)
            if not hs:
                continue
            for h in hs:
                if (fr.ctx, fr.fn.name, h) in self.inv_loops or (fr.ctx, fr.fn.name, h) in self.cut_loops:
                    continue
                if fr is not st.frames[-1]:
                    continue
                ins = fr.fn.blocks[fr.blk].ins[fr.ip]
                body = fr.fn.loops[h]
                if ins.op not in ('br', 'switch'):
                    continue
                if all(s in body for s in fr.fn.succs(fr.blk)):
                    continue
                n = fr.lf.get(h, 0) + 1
                fr.lf[h] = n
                if n > self.unroll_max:
                    if self.bounded:
                        # bounded mode: cut the path
                        raise PathEnd('unroll bound')
                    self.inv_loops.add((fr.ctx, fr.fn.name, h))
                    if self.opts.get('verbose'):
                        print('loop -> invariant mode', fr.fn.name, h, fr.ctx)
                    raise Restart()

    def goto(self, st, fr, target):
        """transfer control inside a frame; returns False if the path is handed over"""
        src = fr.blk
        fn = fr.fn
        if self.stop is not None:
            if self.stop(st, fr, src, target):
                raise PathEnd('stopped')
        loops = fn.loops
        if target in loops:
            body = loops[target]
            if src in body:
                n = fr.lit.get(target, 0) + 1
                fr.lit[target] = n
                if n > 5000:
                    raise Unsupported('concrete loop too long')
            else:
                fr.lit[target] = 0
                fr.lf[target] = 0
                if 'vfx_loop_idle' in self.mod.funcs and not self.nosync and cuttable(self.mod.srcfile(fn.name)):
                    from . import cut
                    if cut.is_idle(self, st):
                        self.cut_loops.add((fr.ctx, fn.name, target))
                        cut.cut_loop(self, st, fr, src, target)
                        raise PathEnd('loop cut')
                    self.cut_loops.discard((fr.ctx, fn.name, target))
                if (fr.ctx, fn.name, target) in self.inv_loops:
                    from .loops import invariant_loop
                    invariant_loop(self, st, fr, src, target)
                    raise PathEnd('loop summarised')
        self.enter(fr, src, target)

    def enter(self, fr, src, target):
        b = fr.fn.blocks[target]
        if b.phis:
            vals = []
            for ph in b.phis:
                if src not in ph.a:
                    raise Unsupported('phi')
                vals.append((ph.dest, self.val(fr, ph.ty, ph.a[src])))
            for d, v in vals:
                fr.regs[d] = v
        fr.prev = src
        fr.blk = target
        fr.ip = 0

    def step_loop(self, st, work):
        frames = st.frames
        while True:
            if not frames:
                self.finish(st)
                raise PathEnd('done')
            fr = frames[-1]
            ins = fr.fn.blocks[fr.blk].ins[fr.ip]
            st.steps += 1
            self.stats['instrs'] += 1
            if st.steps & 1023 == 0 and self.timeout and time.time() - self.t0 > self.timeout:
                raise Budget('time budget')
            op = ins.op
            h = DISPATCH.get(op)
            if h is None:
                raise Unsupported('instruction ' + op)
            if h(self, st, fr, ins):
                fr.ip += 1

    def finish(self, st):
        st.done = True

    # ---- exceptions
    def throw(self, ptr, tinfo):
        st = self.st
        # find handler
        depth = len(st.frames) - 1
        target = None
        while depth >= 0:
            fr = st.frames[depth]
            ins = fr.fn.blocks[fr.blk].ins[fr.ip]
            if ins.op == 'invoke':
                lp = fr.fn.blocks[ins.a['unwind']]
                pad = lp.ins[0]
                sel = self.match_pad(pad, tinfo)
                if sel is not None:
                    target = (depth, ins.a['unwind'], sel)
                    break
            depth -= 1
        if target is None:
            self.oblige('uncaught-exception', False, tinfo)
            raise PathEnd('uncaught')
        d, lab, sel = target
        while len(st.frames) - 1 > d:
            self.popframe()
        fr = st.frames[-1]
        st.exc = (ptr, tinfo, sel)
        self.goto(st, fr, lab)

    def match_pad(self, pad, tinfo):
        cleanup = False
        for c in pad.a:
            if c[0] == 'cleanup':
                cleanup = True
            elif c[0] == 'catch':
                if c[1][0] == 'null':
                    return -1
                cn = c[1][1]
                if self.B.derives(self, tinfo, cn):
                    return self.typeid(cn)
            else:
                return -1
        return 0 if cleanup else None

    def typeid(self, name):
        k = ('typeid', name)
        if k not in self.lemcache:
            self.lemcache[k] = len([x for x in self.lemcache if isinstance(x, tuple) and x[0] == 'typeid']) + 1
        return self.lemcache[k]

    # ---- calls
    def call(self, st, fr, ins):
        a = ins.a
        cal = a['callee']
        if cal[0] == 'g':
            name = cal[1]
            g = self.mod.gtext.get(name)
            if g is not None and name not in self.mod.funcs:
                v = self.gptr(name)
                if isinstance(v, FuncPtr):
                    name = v.name
        else:
            v = self.val(fr, PTR, cal)
            if v is UNDEF:
                self.oblige('uninitialised-pointer', False, 'indirect call')
                raise PathEnd('undef')
            if not isinstance(v, FuncPtr):
                self.oblige('bad-function-pointer', False, 'indirect call')
                raise PathEnd('bad fn')
            name = v.name
        h = self.builtin_cache.get(name, 0)
        if h == 0:
            h = self.B.lookup(self, name)
            self.builtin_cache[name] = h
        if isinstance(h, str):
            name = h
            h = None
        if h is not None:
            args = [self.val(fr, t, v) if t.k != 'metadata' else None for t, v, at in a['args']]
            r = h(self, st, ins, args)
            if r is self.B.NORET:
                return False
            if ins.dest is not None:
                fr.regs[ins.dest] = r
            if ins.op == 'invoke':
                self.goto(st, fr, a['normal'])
                return False
            return True
        fn = self.mod.func(name)
        if fn is None:
            raise Unsupported('external function %s (%s)' % (name, self.demangled.get(name, '')))
        args = []
        for t, v, at in a['args']:
            x = self.val(fr, t, v)
            if 'byval' in at:
                # private copy
                bt = P(self.mod, at['byval']).type()
                sz = self.mod.size(bt)
                o = self.newobj(sz, 'stack', 'byval')
                self.cell_copy(Ptr(o.id, 0), x, sz)
                x = Ptr(o.id, 0)
                fr.allocas.append(o.id)
            args.append(x)
        while len(args) < len(fn.params):
            args.append(0)
        f = Frame()
        f.fn = fn
        f.regs = {}
        f.blk = fn.entry
        f.prev = None
        f.ip = 0
        f.allocas = []
        f.call = ins
        f.lf = {}
        f.lit = {}
        f.skiploop = None
        f.hooked = None
        f.ctx = (fr.ctx + (fr.fn.name,))[-4:]
        if len(st.frames) > 200:
            raise Unsupported('recursion depth')
        for (t, nm, at), v in zip(fn.params, args):
            f.regs[nm] = v
        st.frames.append(f)
        self.callees.add(name)
        return False

    def do_ret(self, st, v):
        f = self.popframe()
        if not st.frames:
            return
        fr = st.frames[-1]
        ins = f.call
        if ins is None:
            return
        if ins.op == 'sync':
            ins.results.append((st, v))
            raise PathEnd('sync')
        if ins.op == 'hook':
            return
        if ins.dest is not None:
            fr.regs[ins.dest] = v
        if ins.op == 'invoke':
            self.goto(st, fr, ins.a['normal'])
        else:
            fr.ip += 1


def fconst(ty, tx):
    import struct
    if ty.k == 'float':
        if tx.startswith('0x'):
            d = struct.unpack('>d', bytes.fromhex(tx[2:].rjust(16, '0')))[0]
        else:
            d = float(tx)
        return sgn(struct.unpack('<I', struct.pack('<f', d))[0], 32)
    if ty.k == 'double':
        if tx.startswith('0x'):
            return sgn(int(tx[2:], 16), 64)
        return sgn(struct.unpack('<Q', struct.pack('<d', float(tx)))[0], 64)
    return UNDEF


def zstr(e):
    s = e.as_string()
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def demangle_all(mod):
    names = [n for n in list(mod.funcs) + list(mod.decls) if n.startswith('_Z')]
    if not names:
        return {}
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


# ---------------------------------------------------------------- instruction semantics
def i_br(E, st, fr, ins):
    if len(ins.a) == 1:
        E.goto(st, fr, ins.a[0])
        return False
    c = E.val(fr, INT(1), ins.a[0])
    if c is UNDEF:
        E.oblige('uninitialised-value', False, 'branch')
        raise PathEnd('undef')
    E.goto(st, fr, ins.a[1] if E.decide(c) else ins.a[2])
    return False


def i_switch(E, st, fr, ins):
    v = E.val(fr, ins.ty, ins.a[0])
    if v is UNDEF:
        E.oblige('uninitialised-value', False, 'switch')
        raise PathEnd('undef')
    for c, l in ins.a[2]:
        c = sgn(c, ins.ty.n)
        if isinstance(v, int):
            if v == c:
                E.goto(st, fr, l)
                return False
    if isinstance(v, int):
        E.goto(st, fr, ins.a[1])
        return False
    # group by target
    groups = {}
    for c, l in ins.a[2]:
        groups.setdefault(l, []).append(sgn(c, ins.ty.n))
    for l, cs in groups.items():
        if E.decide(z3.Or([v == c for c in cs]) if len(cs) > 1 else v == cs[0]):
            E.goto(st, fr, l)
            return False
    E.goto(st, fr, ins.a[1])
    return False


def i_ret(E, st, fr, ins):
    v = E.val(fr, ins.ty, ins.a[0]) if ins.a else None
    E.do_ret(st, v)
    return False


def i_bin(E, st, fr, ins):
    op = ins.op
    a = E.val(fr, ins.ty, ins.a[0])
    b = E.val(fr, ins.ty, ins.a[1])
    if op[0] == 'f':
        fr.regs[ins.dest] = E.B.fp_bin(E, op, ins.ty, a, b)
        return True
    if ins.ty.k == 'vec':
        raise Unsupported('vector op')
    fr.regs[ins.dest] = E.arith(op, ins.ty.n, a, b, ins.flags)
    return True


def i_icmp(E, st, fr, ins):
    a = E.val(fr, ins.ty, ins.a[1])
    b = E.val(fr, ins.ty, ins.a[2])
    if ins.ty.k == 'vec':
        raise Unsupported('vector icmp')
    fr.regs[ins.dest] = E.icmp(ins.a[0], ins.ty, a, b)
    return True


def i_fcmp(E, st, fr, ins):
    a = E.val(fr, ins.ty, ins.a[1])
    b = E.val(fr, ins.ty, ins.a[2])
    fr.regs[ins.dest] = E.B.fp_cmp(E, ins.a[0], ins.ty, a, b)
    return True


def i_cast(E, st, fr, ins):
    t, v = ins.a
    x = E.val(fr, t, v)
    op = ins.op
    if x is UNDEF:
        fr.regs[ins.dest] = UNDEF
        return True
    if op in ('trunc', 'zext', 'sext'):
        if isinstance(x, (Ptr, FuncPtr)):
            raise Unsupported('cast of pointer bits')
        fr.regs[ins.dest] = getattr(E.dom, op)(x, t.n, ins.ty.n)
    elif op == 'ptrtoint':
        fr.regs[ins.dest] = E.ptr2int(x)
    elif op == 'inttoptr':
        fr.regs[ins.dest] = E.int2ptr(x)
    elif op in ('bitcast', 'addrspacecast'):
        fr.regs[ins.dest] = x
    else:
        fr.regs[ins.dest] = E.B.fp_cast(E, op, t, ins.ty, x)
    return True


class HookCall:
    op = 'hook'
    dest = None
    a = {}
    dbg = None


def watched(E, st, fr, p):
    """a watched location is about to be accessed: run the hook of the harness first"""
    w = st.watch
    if not isinstance(p, Ptr) or p.o != w[0] or not isinstance(p.off, int) or not w[1] <= p.off < w[1] + w[2]:
        return False
    at = (fr.blk, fr.ip)
    if fr.hooked == at:
        return False
    fr.hooked = at
    f = E.mod.func('vfx_watch')
    E.pushframe(f, [], HookCall())
    return True


def i_load(E, st, fr, ins):
    p = E.val(fr, PTR, ins.a[0])
    if st.watch is not None and watched(E, st, fr, p):
        return False
    fr.regs[ins.dest] = E.load(ins.ty, p)
    return True


def i_store(E, st, fr, ins):
    v = E.val(fr, ins.ty, ins.a[0])
    p = E.val(fr, PTR, ins.a[1])
    if st.watch is not None and watched(E, st, fr, p):
        return False
    E.store(ins.ty, v, p)
    return True


def i_alloca(E, st, fr, ins):
    cnt = 1
    if ins.a[0] is not None:
        cnt = E.val(fr, *ins.a[0])
    sz = E.mod.size(ins.ty)
    sz = sz * cnt if isinstance(cnt, int) else E.o_mulc(cnt, sz)
    o = E.newobj(sz, 'stack', '%s:%s' % (fr.fn.name, ins.dest))
    fr.allocas.append(o.id)
    fr.regs[ins.dest] = Ptr(o.id, 0)
    return True


def i_gep(E, st, fr, ins):
    args = [(t, E.val(fr, t, v)) for t, v in ins.a]
    fr.regs[ins.dest] = E.gep(ins.ty, args)
    return True


def i_select(E, st, fr, ins):
    c = E.val(fr, INT(1), ins.a[0])
    a = E.val(fr, ins.ty, ins.a[1])
    b = E.val(fr, ins.ty, ins.a[2])
    if c is UNDEF:
        fr.regs[ins.dest] = UNDEF
        return True
    if isinstance(c, (bool, int)):
        fr.regs[ins.dest] = a if c else b
        return True
    simple = ins.ty.k == 'int' and not isinstance(a, (Ptr, FuncPtr)) and not isinstance(b, (Ptr, FuncPtr)) and a is not UNDEF and b is not UNDEF
    if simple:
        if ins.ty.n == 1:
            ta = z3.BoolVal(bool(a)) if isinstance(a, (bool, int)) else a
            tb = z3.BoolVal(bool(b)) if isinstance(b, (bool, int)) else b
            fr.regs[ins.dest] = z3.simplify(z3.If(c, ta, tb))
        elif E.dom.bv:
            fr.regs[ins.dest] = E.dom.cn(z3.If(c, E.dom.term(a, ins.ty.n), E.dom.term(b, ins.ty.n)))
        else:
            fr.regs[ins.dest] = z3.If(c, E.dom.toterm(a), E.dom.toterm(b))
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and not E.dom.bv:
        fr.regs[ins.dest] = Ptr(a.o, z3.If(c, E.dom.toterm(a.off), E.dom.toterm(b.off)))
        return True
    fr.regs[ins.dest] = a if E.decide(c) else b
    return True


def i_call(E, st, fr, ins):
    return E.call(st, fr, ins)


def i_landingpad(E, st, fr, ins):
    ptr, tinfo, sel = st.exc
    fr.regs[ins.dest] = [ptr, sel]
    return True


def i_resume(E, st, fr, ins):
    v = E.val(fr, ins.ty, ins.a[0])
    ptr, tinfo, sel = st.exc
    # the resumed exception is the one carried by the value
    tinfo = E.B.exc_type(E, v[0], tinfo)
    E.popframe_for_resume = True
    E.popframe()
    if not st.frames:
        E.oblige('uncaught-exception', False, tinfo)
        raise PathEnd('uncaught')
    E.throw(v[0], tinfo)
    return False


def i_extractvalue(E, st, fr, ins):
    v = E.val(fr, ins.ty, ins.a[0])
    for i in ins.a[1]:
        v = v[i] if v is not UNDEF else UNDEF
    fr.regs[ins.dest] = v
    return True


def i_insertvalue(E, st, fr, ins):
    v = E.val(fr, ins.ty, ins.a[0])
    x = E.val(fr, ins.a[1], ins.a[2])
    idx = ins.a[3]
    if v is UNDEF:
        v = E.const(ins.ty, ('undef', ins.ty))

    def rec(v, idx):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = rec(v[idx[0]], idx[1:])
        return v
    fr.regs[ins.dest] = rec(v, idx)
    return True


def i_freeze(E, st, fr, ins):
    v = E.val(fr, ins.ty, ins.a[0])
    if v is UNDEF and ins.ty.k == 'int':
        v = E.dom.fresh(ins.ty.n, 'freeze')
    fr.regs[ins.dest] = v
    return True


def i_unreachable(E, st, fr, ins):
    E.oblige('unreachable', False, '')
    raise PathEnd('unreachable')


def i_nop(E, st, fr, ins):
    return True


def i_atomicrmw(E, st, fr, ins):
    o, pa, v = ins.a
    p = E.val(fr, PTR, pa)
    x = E.val(fr, ins.ty, v)
    if st.watch is not None and watched(E, st, fr, p):
        return False
    old = E.load(ins.ty, p)
    if o == 'xchg':
        new = x
    elif o in ('add', 'sub', 'and', 'or', 'xor'):
        new = E.arith(o, ins.ty.n, old, x, ())
    else:
        raise Unsupported('atomicrmw ' + o)
    E.store(ins.ty, new, p)
    fr.regs[ins.dest] = old
    return True


def i_cmpxchg(E, st, fr, ins):
    pa, c, n = ins.a
    p = E.val(fr, PTR, pa)
    cv = E.val(fr, ins.ty, c)
    nv = E.val(fr, ins.ty, n)
    if st.watch is not None and watched(E, st, fr, p):
        return False
    old = E.load(ins.ty, p)
    eq = E.icmp('eq', ins.ty, old, cv)
    if E.decide(eq):
        E.store(ins.ty, nv, p)
        fr.regs[ins.dest] = [old, True]
    else:
        fr.regs[ins.dest] = [old, False]
    return True


def i_fneg(E, st, fr, ins):
    a = E.val(fr, ins.ty, ins.a[0])
    bits = 32 if ins.ty.k == 'float' else 64
    if isinstance(a, int):
        fr.regs[ins.dest] = sgn(uns(a, bits) ^ (1 << (bits - 1)), bits)
        return True
    raise Unsupported('fneg')


DISPATCH = {'br': i_br, 'switch': i_switch, 'ret': i_ret, 'icmp': i_icmp, 'fcmp': i_fcmp, 'load': i_load,
            'store': i_store, 'alloca': i_alloca, 'gep': i_gep, 'select': i_select, 'call': i_call, 'invoke': i_call,
            'landingpad': i_landingpad, 'resume': i_resume, 'extractvalue': i_extractvalue,
            'insertvalue': i_insertvalue, 'freeze': i_freeze, 'unreachable': i_unreachable, 'nop': i_nop,
            'atomicrmw': i_atomicrmw, 'cmpxchg': i_cmpxchg, 'fneg': i_fneg}
for _o in BINOPS:
    DISPATCH[_o] = i_bin
for _o in CASTS:
    DISPATCH[_o] = i_cast
