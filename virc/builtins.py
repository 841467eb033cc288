"""Semantics of externals: compiler intrinsics, C/C++ runtime, the abstract std::string and the vf_* specification calls."""
import re
import struct
import z3
from .ir import *
from .dom import *

NORET = object()
TABLE = {}
PATTERNS = []


def bi(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


EXT_GLOBALS = {}


def _one(E, o):
    o.cells[0] = (1, 0)


EXT_GLOBALS['__libc_single_threaded'] = _one


def lookup(E, name):
    """None: execute the body; str: execute that function instead; callable: builtin"""
    if name.startswith('llvm.'):
        return llvm(E, name)
    a = 'vfx_' + name
    if a in E.mod.funcs:
        E.contracts_used.add(name)
        return a
    if name in TABLE:
        return TABLE[name]
    dm = E.demangled.get(name)
    if dm:
        if STRCLS in dm.split('(')[0] or dm.startswith('std::') or dm.startswith('bool std::') or '__gnu_cxx' in dm:
            d = norm_dm(dm)
            for rx, f in PATTERNS:
                if rx.match(d):
                    return f
            if d.startswith('std::string::') or d.startswith('std::string std::'):
                if name not in E.mod.funcs or d.startswith('std::string::'):
                    from .dom import Unsupported as U
                    raise U('std::string function ' + d)
    return None


STRCLS = 'basic_string<char'
STRFULL = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'


def norm_dm(d):
    d = d.replace(STRFULL, 'std::string')
    d = d.replace('std::string::basic_string', 'std::string::string').replace('std::string::~basic_string', 'std::string::~string')
    return d


# ------------------------------------------------------------------ llvm intrinsics
def nop(E, st, ins, a):
    return None


def lifetime(E, st, ins, a):
    """the object's content is indeterminate before and after its lifetime"""
    p = a[1]
    if isinstance(p, Ptr) and p.o in st.mem and p.off == 0:
        o = st.mem[p.o]
        if o.kind == 'stack' and (o.cells or o.chain is not None):
            o = E.wobj(p.o)
            o.cells = {}
            o.chain = None
    return None


def llvm(E, name):
    p = name.split('.')
    k = p[1]
    if k in ('lifetime', 'dbg', 'assume', 'donothing', 'prefetch', 'stackrestore', 'invariant', 'experimental', 'va_start',
             'va_end', 'va_copy'):
        if k == 'experimental' and p[2] == 'noalias':
            return nop
        if k == 'lifetime':
            return lifetime
        return nop
    if k == 'stacksave':
        return lambda E, st, ins, a: NULL
    if k in ('memcpy', 'memmove'):
        mv = k == 'memmove'
        return lambda E, st, ins, a: E.memcpy(a[0], a[1], a[2], mv, k)
    if k == 'memset':
        return lambda E, st, ins, a: E.memset(a[0], a[1], a[2], 'memset')
    if k == 'expect':
        return lambda E, st, ins, a: a[0]
    if k == 'launder' or k == 'strip':
        return lambda E, st, ins, a: a[0]
    if k == 'threadlocal':
        return lambda E, st, ins, a: a[0]
    if k == 'eh' and p[2] == 'typeid':
        def f(E, st, ins, a):
            op = ins.a['args'][0][1]
            return E.typeid(op[1])
        return f
    if k in ('umax', 'umin', 'smax', 'smin'):
        def f(E, st, ins, a):
            x, y = a
            pr = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k]
            c = E.icmp(pr, ins.ty, x, y)
            if isinstance(c, bool):
                return x if c else y
            b = ins.ty.n
            if E.dom.bv:
                return z3.If(c, E.dom.term(x, b), E.dom.term(y, b))
            return z3.If(c, E.dom.toterm(x), E.dom.toterm(y))
        return f
    if k == 'abs':
        def f(E, st, ins, a):
            x = a[0]
            b = ins.ty.n
            if isinstance(x, int):
                return sgn(abs(x), b)
            return z3.If(x < 0, -x, x)
        return f
    if k in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul') and p[2] == 'with':
        op = k[1:]
        sg = k[0] == 's'
        bits = int(p[-1][1:])

        def f(E, st, ins, a):
            x, y = a
            if isinstance(x, int) and isinstance(y, int):
                if not sg:
                    x, y = uns(x, bits), uns(y, bits)
                e = x + y if op == 'add' else x - y if op == 'sub' else x * y
                ov = (sgn(e, bits) != e) if sg else not (0 <= e < (1 << bits))
                return [sgn(e, bits), ov]
            if E.dom.bv:
                X, Y = E.dom.term(x, bits), E.dom.term(y, bits)
                ext = z3.SignExt if sg else z3.ZeroExt
                xx, yy = ext(bits, X), ext(bits, Y)
                w = xx + yy if op == 'add' else xx - yy if op == 'sub' else xx * yy
                r = z3.Extract(bits - 1, 0, w)
                return [E.dom.cn(r), z3.simplify(ext(bits, r) != w)]
            if not sg:
                x, y = E.dom.unsig(x, bits), E.dom.unsig(y, bits)
            e = (norm(x + y) if op == 'add' else norm(x - y) if op == 'sub' else E.dom.mul(x, y))
            if sg:
                rc = E.dom.rangecond(e, bits) if is_sym(e) else True
                ov = False if rc is True else z3.Not(rc)
            else:
                ov = z3.Or(E.dom.toterm(e) < 0, E.dom.toterm(e) >= (1 << bits))
            return [E.dom.wrap(e, bits, 'mul'), z3.simplify(ov) if not isinstance(ov, bool) else ov]
        return f
    if k == 'bswap':
        def f(E, st, ins, a):
            x = a[0]
            b = ins.ty.n
            if x is UNDEF:
                return UNDEF
            parts = [(E.dom.extract(x, b, 8 * i, 8), 8) for i in range(b // 8)]
            return E.dom.concat(parts[::-1])
        return f
    if k == 'objectsize':
        return lambda E, st, ins, a: -1
    if k == 'is':
        return lambda E, st, ins, a: False
    if k in ('ctlz', 'cttz', 'ctpop', 'fshl', 'fshr'):
        def f(E, st, ins, a):
            x = a[0]
            b = ins.ty.n
            if isinstance(x, int):
                u = uns(x, b)
                if k == 'ctpop':
                    return bin(u).count('1')
                if k == 'ctlz':
                    return b - u.bit_length()
                if k == 'cttz':
                    return (u & -u).bit_length() - 1 if u else b
            E.imprecise(k)
            return E.dom.fresh(b, k)
        return f
    if k == 'trap' or k == 'ubsantrap':
        def f(E, st, ins, a):
            E.oblige('trap', False, '')
            from .sym import PathEnd
            raise PathEnd('trap')
        return f
    if k in ('trunc', 'floor', 'ceil', 'fabs', 'round', 'rint'):
        def f(E, st, ins, a):
            E.imprecise(k)
            return E.dom.fresh(64 if ins.ty.k == 'double' else 32, 'fp')
        return f
    raise Unsupported(name)


# ------------------------------------------------------------------ allocation
def alloc(E, n, name, base='undef'):
    if n is UNDEF:
        E.oblige('uninitialised-value', False, name)
    o = E.newobj(n, 'heap', name, base)
    return Ptr(o.id, 0)


@bi('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnwmSt11align_val_t')
def b_new(E, st, ins, a):
    p = alloc(E, a[0], 'new')
    return p


@bi('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def b_delete(E, st, ins, a):
    return do_free(E, a[0], 'new', 'delete')


def do_free(E, p, nm, what):
    from .sym import PathEnd
    if p is UNDEF:
        E.oblige('uninitialised-pointer', False, what)
        raise PathEnd('undef')
    if isinstance(p, Ptr) and p.o == 0:
        if isinstance(p.off, int) and p.off == 0:
            return None
        if not E.decide(p.off != 0):
            return None
    if isinstance(p, FuncPtr):
        E.oblige('bad-free', False, what)
        raise PathEnd('bad free')
    o = E.st.mem.get(p.o)
    if o is None or not o.alive:
        E.oblige('double-free', False, what)
        raise PathEnd('double free')
    if o.kind != 'heap' or not (isinstance(p.off, int) and p.off == 0) or (o.name.split(':')[0] != nm):
        E.oblige('bad-free', False, '%s of %s' % (what, o.name))
        raise PathEnd('bad free')
    E.count_trivial('free-valid', what)
    o = E.wobj(p.o)
    o.alive = False
    o.cells = {}
    o.chain = None
    return None


@bi('malloc', 'vf_count_malloc')
def b_malloc(E, st, ins, a):
    return alloc(E, a[0], 'malloc')


@bi('calloc')
def b_calloc(E, st, ins, a):
    n = E.arith('mul', 64, a[0], a[1], ())
    return alloc(E, n, 'malloc', 'zero')


@bi('realloc')
def b_realloc(E, st, ins, a):
    p, n = a
    if isinstance(p, Ptr) and p.o == 0:
        return alloc(E, n, 'malloc')
    o = E.st.mem.get(p.o)
    if o is None or not o.alive or o.kind != 'heap' or o.name != 'malloc':
        do_free(E, p, 'malloc', 'realloc')
    new = alloc(E, n, 'malloc')
    if isinstance(n, int) and isinstance(o.size, int):
        m = min(n, o.size)
    else:
        m = o.size
        if not E.entailed(E.offterm(o.size) <= n):
            c = E.offterm(o.size) <= n
            m = o.size if E.decide(c) else n
    E.memcpy(new, p, m, True, 'realloc')
    do_free(E, p, 'malloc', 'realloc')
    return new


@bi('free', 'vf_count_free')
def b_free(E, st, ins, a):
    return do_free(E, a[0], 'malloc', 'free')


@bi('memcpy')
def b_memcpy(E, st, ins, a):
    E.memcpy(a[0], a[1], a[2], False, 'memcpy')
    return a[0]


@bi('memmove')
def b_memmove(E, st, ins, a):
    E.memcpy(a[0], a[1], a[2], True, 'memmove')
    return a[0]


@bi('memset')
def b_memset(E, st, ins, a):
    c = a[1]
    c = E.dom.trunc(c, 32, 8)
    E.memset(a[0], c, a[2], 'memset')
    return a[0]


@bi('strlen')
def b_strlen(E, st, ins, a):
    s = read_cstr(E, a[0])
    return slen(E, s)


@bi('memcmp', 'bcmp')
def b_memcmp(E, st, ins, a):
    p, q, n = a
    so, to = E.st.mem.get(p.o), E.st.mem.get(q.o)
    if isinstance(n, int):
        if n == 0:
            return 0
        r = None
        xs = []
        for i in range(n):
            x = E.load(INT(8), E.padd(p, i))
            y = E.load(INT(8), E.padd(q, i))
            xs.append((x, y))
        if all(isinstance(x, int) and isinstance(y, int) for x, y in xs):
            for x, y in xs:
                if x != y:
                    return -1 if uns(x, 8) < uns(y, 8) else 1
            return 0
        eqs = []
        for x, y in xs:
            e = E.dom.icmp('eq', 8, x, y)
            if e is False:
                return 1 if not eqs else z3.If(z3.And(eqs), E.offt32(1), E.offt32(1))
            if e is not True:
                eqs.append(e)
        if E.decide(z3.And(eqs)):
            return 0
        return 1
    raise Unsupported('memcmp symbolic length')


@bi('abort', 'exit', '_exit')
def b_abort(E, st, ins, a):
    from .sym import PathEnd
    E.oblige('process-abort', False, '')
    raise PathEnd('abort')


@bi('_ZSt9terminatev', '__clang_call_terminate')
def b_terminate(E, st, ins, a):
    from .sym import PathEnd
    E.oblige('std-terminate', False, '')
    raise PathEnd('terminate')


@bi('__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort')
def b_atexit(E, st, ins, a):
    return 0


@bi('__cxa_guard_acquire')
def b_guard(E, st, ins, a):
    return 1


@bi('__cxa_pure_virtual')
def b_pure(E, st, ins, a):
    from .sym import PathEnd
    E.oblige('pure-virtual-call', False, '')
    raise PathEnd('pure')


@bi('__errno_location')
def b_errno(E, st, ins, a):
    i = E.globids.get('#errno')
    if i is None:
        i = E.globids['#errno'] = E.nextid
        E.nextid += 1
    if i not in st.mem:
        from .sym import Obj
        o = Obj(i, 4, 'global', 'errno', 'sym')
        st.mem[i] = o
        st.own.add(i)
    return Ptr(i, 0)


# ------------------------------------------------------------------ exceptions
@bi('__cxa_allocate_exception')
def b_exalloc(E, st, ins, a):
    p = alloc(E, a[0], 'exception')
    return p


@bi('__cxa_free_exception')
def b_exfree(E, st, ins, a):
    do_free(E, a[0], 'exception', 'free_exception')


@bi('__cxa_throw')
def b_throw(E, st, ins, a):
    op = ins.a['args'][1][1]
    tn = op[1]
    o = E.wobj(a[0].o)
    o.name = 'exception:' + tn
    E.throw(a[0], tn)
    return NORET


@bi('__cxa_begin_catch')
def b_begin(E, st, ins, a):
    p = a[0]
    st.caught.append((p, st.exc[1] if st.exc else None))
    return p


@bi('__cxa_end_catch')
def b_end(E, st, ins, a):
    if st.caught:
        p, t = st.caught.pop()
        if p.o in st.mem and not any(q.o == p.o for q, _ in st.caught) and not (E_rethrown(st, p)):
            o = E.wobj(p.o)
            o.alive = False
    return None


def E_rethrown(st, p):
    return bool(st.exc and st.exc[0].o == p.o and st.exc[2] == 'rethrow')


@bi('__cxa_rethrow')
def b_rethrow(E, st, ins, a):
    p, t = st.caught[-1]
    E.throw(p, exc_type(E, p, t))
    return NORET


@bi('__cxa_get_exception_ptr')
def b_gep(E, st, ins, a):
    return a[0]


def exc_type(E, p, dflt):
    o = E.st.mem.get(p.o)
    if o is not None and o.name.startswith('exception:'):
        return o.name.split(':', 1)[1]
    return dflt


STD_BASES = {
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt12future_error': ['_ZTISt11logic_error'],
    '_ZTISt17bad_function_call': ['_ZTISt9exception'],
    '_ZTISt8bad_cast': ['_ZTISt9exception'],
    '_ZTISt12bad_weak_ptr': ['_ZTISt9exception'],
    '_ZTISt12system_error': ['_ZTISt13runtime_error'],
    '_ZTISt9exception': [],
}


def bases(E, t):
    if t in STD_BASES:
        return STD_BASES[t]
    g = E.mod.glob(t)
    if g is None or g.init is None:
        return []
    r = []

    def walk(op):
        if op[0] == 'g' and op[1].startswith('_ZTI') and op[1] != t:
            r.append(op[1])
        elif op[0] == 'agg':
            for _, v in op[1]:
                walk(v)
    walk(g.init)
    return r


def derives(E, t, c):
    if t == c:
        return True
    return any(derives(E, b, c) for b in bases(E, t))


def throw_std(E, tn, msg=''):
    from .sym import Throw
    p = alloc(E, 64, 'exception:' + tn)
    o = E.wobj(p.o)
    set_std_exc(E, p, msg)
    raise Throw(p, tn)


def set_std_exc(E, p, msg):
    o = E.wobj(p.o)
    vt = std_vtable(E)
    o.cells[p.off] = (8, vt)
    o.cells[p.off + 8] = (8, ('W', msg))


def std_vtable(E):
    i = E.globids.get('#stdexcvt')
    if i is None:
        i = E.globids['#stdexcvt'] = E.nextid
        E.nextid += 1
    if i not in E.st.mem:
        from .sym import Obj
        o = Obj(i, 32, 'global', '#stdexcvt')
        o.cells = {0: (8, FuncPtr('vfb.exc.dtor')), 8: (8, FuncPtr('vfb.exc.dtor')), 16: (8, FuncPtr('vfb.exc.what'))}
        E.st.mem[i] = o
        E.st.own.add(i)
    return Ptr(i, 0)


@bi('vfb.exc.dtor')
def b_excdtor(E, st, ins, a):
    return None


@bi('vfb.exc.what', '_ZNKSt9exception4whatEv', '_ZNKSt9bad_alloc4whatEv', '_ZNKSt20bad_array_new_length4whatEv', '_ZNKSt8bad_cast4whatEv', '_ZNKSt17bad_function_call4whatEv', '_ZNKSt12future_error4whatEv', '_ZNKSt13runtime_error4whatEv', '_ZNKSt11logic_error4whatEv')
def b_excwhat(E, st, ins, a):
    o = st.mem[a[0].o]
    c = o.cells.get(a[0].off + 8)
    msg = c[1][1] if c is not None and isinstance(c[1], tuple) and c[1][0] == 'W' else 'std::exception'
    return strbuf(E, msg)


for _n, _t in (('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'), ('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'),
               ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
               ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
               ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
               ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
               ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'),
               ('_ZSt21__throw_runtime_errorPKc', '_ZTISt13runtime_error'),
               ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast'),
               ('_ZSt20__throw_future_errori', '_ZTISt12future_error'),
               ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'),
               ('_ZSt20__throw_system_errori', '_ZTISt12system_error')):
    def _mk(t):
        def f(E, st, ins, a):
            throw_std(E, t, 'std')
        return f
    TABLE[_n] = _mk(_t)


@bi('_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorC2EPKc', '_ZNSt11logic_errorC1EPKc', '_ZNSt11logic_errorC2EPKc',
    '_ZNSt16invalid_argumentC1EPKc', '_ZNSt12out_of_rangeC1EPKc', '_ZNSt12length_errorC1EPKc')
def b_rt(E, st, ins, a):
    set_std_exc(E, a[0], read_cstr(E, a[1]))


@bi('_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
    '_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
    '_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE')
def b_rts(E, st, ins, a):
    set_std_exc(E, a[0], getstr(E, a[1]))


@bi('_ZNSt6thread6_StateD2Ev', '_ZNSt13runtime_errorD1Ev', '_ZNSt13runtime_errorD2Ev', '_ZNSt13runtime_errorD0Ev', '_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev',
    '_ZNSt11logic_errorD1Ev', '_ZNSt11logic_errorD2Ev', '_ZNSt8bad_castD2Ev', '_ZNSt8bad_castD1Ev', '_ZNSt16invalid_argumentD1Ev')
def b_rtd(E, st, ins, a):
    return None


# ------------------------------------------------------------------ strings
def sterm(s):
    return z3.StringVal(s) if isinstance(s, str) else s


def slen(E, s):
    """length of an abstract string: an integer variable of its own; the link to the string theory is only used when a query needs it"""
    if isinstance(s, str):
        return len(s)
    if E.dom.bv:
        raise Unsupported('symbolic string length in bv mode')
    if z3.is_string_value(s):
        from .sym import zstr
        return len(zstr(s))
    if s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        r = 0
        for c in s.children():
            r = E.o_add(r, slen(E, c))
        return r
    e = E.slens.get(s.get_id())
    if e is None:
        L = z3.Int(E.newname('len'))
        k = s.decl().kind()
        hi = 1 << 40
        E.slens[s.get_id()] = e = (s, L)
        E.slenof[L.get_id()] = e
        E.slenvars[L.decl().name()] = s
        E.dom._bcache[L.get_id()] = (L, (0, hi))
    L = e[1]
    E.st.add_fact(z3.And(L >= 0, L <= (1 << 40)))
    if s.decl().kind() == z3.Z3_OP_INT_TO_STR:
        E.st.add_fact(z3.And(L >= 1, L <= 20))
    elif z3.is_app_of(s, z3.Z3_OP_SEQ_EXTRACT):
        E.st.add_fact(L <= E.dom.toterm(slen(E, s.arg(0))))
    return L


def sconcat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, str) and a == '':
        return b
    if isinstance(b, str) and b == '':
        return a
    # merge literals
    if isinstance(b, str) and is_sym(a) and a.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        ch = a.children()
        if z3.is_string_value(ch[-1]):
            from .sym import zstr
            return z3.Concat(*(ch[:-1] + [z3.StringVal(zstr(ch[-1]) + b)])) if len(ch) > 1 else z3.StringVal(zstr(ch[-1]) + b)
    fl = []
    for x in (a, b):
        x = sterm(x)
        if x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            fl += x.children()
        else:
            fl.append(x)
    return z3.Concat(*fl)


def strcell(v):
    return (32, ('S', v))


def setstr(E, p, v):
    p, o = E.access(p, 32, 'string object', True)
    o = E.wobj(p.o)
    if o.chain is not None:
        raise Unsupported('string in symbolic memory')
    E.clear_cells(o, p.off, 32)
    o.cells[p.off] = strcell(v)


def getstr(E, p):
    from .sym import PathEnd
    p, o = E.access(p, 32, 'string object')
    if o.chain is not None:
        raise Unsupported('string in symbolic memory')
    c = o.cells.get(p.off)
    if c is None or not isinstance(c[1], tuple) or c[1][0] != 'S':
        if o.base == 'zero' and o.kind == 'global':
            return ''
        E.oblige('use-of-destroyed-or-unconstructed-string', False, '')
        raise PathEnd('string')
    return c[1][1]


def delstr(E, p):
    getstr(E, p)
    o = E.wobj(p.o)
    del o.cells[p.off]


def strbuf(E, s):
    n = slen(E, s) if not (E.dom.bv and not isinstance(s, str)) else (1 << 40)
    o = E.newobj(E.o_add(n, 1), 'string', 'c_str')
    o.meta = s
    return Ptr(o.id, 0)


def read_cstr(E, p):
    p = E.chkptr(p, 'c string')
    o = E.st.mem.get(p.o)
    if not o.alive:
        E.oblige('use-after-free', False, 'c string')
    if o.kind == 'string':
        s = o.meta
        if isinstance(p.off, int):
            if isinstance(s, str):
                return s[p.off:]
            if p.off == 0:
                return s
            return z3.SubString(s, p.off, slen(E, s) - p.off)
        raise Unsupported('symbolic c string offset')
    if o.chain is not None or not isinstance(p.off, int):
        E.imprecise('c string content')
        return z3.String(E.newname('cstr'))
    out = []
    i = p.off
    while True:
        if isinstance(o.size, int) and i >= o.size:
            E.oblige('unterminated-c-string', False, '')
            return ''.join(out)
        v = E.cell_load(o, i, 1)
        if not isinstance(v, int):
            E.imprecise('c string content')
            return z3.String(E.newname('cstr'))
        if v == 0:
            return ''.join(out)
        out.append(chr(uns(v, 8)))
        i += 1


def read_chars(E, p, n):
    """string of n chars at p"""
    if isinstance(n, int) and n == 0:
        return ''
    if not isinstance(n, int) and not (isinstance(p, Ptr) and isinstance(p.o, int) and p.o != 0) and E.decide(E.dom.toterm(n) == 0):
        return ''
    p, o = E.access(p, n, 'character range')
    if o.kind == 'string':
        s = o.meta
        if isinstance(s, str) and isinstance(n, int) and isinstance(p.off, int):
            return (s + '\0')[p.off:p.off + n]
        L = slen(E, s)
        if isinstance(p.off, int) and p.off == 0 and E.entailed(L == n if is_sym(L) or is_sym(n) else L == n):
            return s
        return z3.SubString(sterm(s), p.off, n)
    if o.chain is not None and not E.dom.bv:
        r = E.chain_chars(o.chain, p.off, n)
        if r is not None:
            return r
    if isinstance(n, int) and o.chain is None and isinstance(p.off, int):
        cs = []
        for i in range(n):
            v = E.cell_load(o, p.off + i, 1)
            if not isinstance(v, int):
                cs = None
                break
            cs.append(chr(uns(v, 8)))
        if cs is not None:
            return ''.join(cs)
    if not isinstance(n, int) and E.entailed(E.dom.toterm(n) == 0):
        return ''
    if isinstance(n, int) and n <= 32:
        # bytes that are all known
        cs = []
        for i in range(n):
            v = E.load_raw(o, E.o_add(p.off, i), 1)
            if not isinstance(v, int):
                cs = None
                break
            cs.append(chr(uns(v, 8)))
        if cs is not None:
            return ''.join(cs)
    E.imprecise('string content from raw bytes')
    s = z3.String(E.newname('chars'))
    E.st.add_fact(E.dom.toterm(slen(E, s)) == n)
    return s


S = r'std::string::'


@pat(r'std::string::string\(\)')
def s_ctor0(E, st, ins, a):
    setstr(E, a[0], '')


@pat(r'std::string::string\(std::allocator<char> const&\)')
def s_ctor0a(E, st, ins, a):
    setstr(E, a[0], '')


@pat(r'std::string::string\(std::string const&\)')
def s_copy(E, st, ins, a):
    setstr(E, a[0], getstr(E, a[1]))


@pat(r'std::string::string\(std::string&&(, std::allocator<char> const&)?\)')
def s_move(E, st, ins, a):
    v = getstr(E, a[1])
    setstr(E, a[1], '')
    setstr(E, a[0], v)


@pat(r'std::string::string(<.*>)?\(char const\*, std::allocator<char> const&\)')
def s_cstr(E, st, ins, a):
    from .sym import PathEnd
    if isinstance(a[1], Ptr) and a[1].o == 0:
        throw_std(E, '_ZTISt11logic_error', 'basic_string: construction from null is not valid')
    setstr(E, a[0], read_cstr(E, a[1]))


@pat(r'std::string::string\(char const\*, unsigned long, std::allocator<char> const&\)')
def s_cstrn(E, st, ins, a):
    setstr(E, a[0], read_chars(E, a[1], a[2]))


@pat(r'std::string::string\(unsigned long, char, std::allocator<char> const&\)')
def s_fill(E, st, ins, a):
    if isinstance(a[1], int) and isinstance(a[2], int):
        setstr(E, a[0], chr(uns(a[2], 8)) * a[1])
    else:
        raise Unsupported('string(n,c)')


@pat(r'std::string::string<.*>\(.*\*, .*\*, std::allocator<char> const&\)')
def s_range(E, st, ins, a):
    setstr(E, a[0], read_chars(E, a[1], E.odiff(a[2].off, a[1].off)))


@pat(r'std::string::~string\(\)')
def s_dtor(E, st, ins, a):
    delstr(E, a[0])


@pat(r'std::string::operator=\(std::string const&\)')
def s_asg(E, st, ins, a):
    getstr(E, a[0])
    setstr(E, a[0], getstr(E, a[1]))
    return a[0]


@pat(r'std::string::assign\(std::string const&\)')
def s_asg2(E, st, ins, a):
    return s_asg(E, st, ins, a)


@pat(r'std::string::_M_assign\(std::string const&\)')
def s_asg3(E, st, ins, a):
    return s_asg(E, st, ins, a)


@pat(r'std::string::operator=\(std::string&&\)')
def s_masg(E, st, ins, a):
    getstr(E, a[0])
    v = getstr(E, a[1])
    if a[0].o != a[1].o or a[0].off != a[1].off:
        setstr(E, a[1], '')
    setstr(E, a[0], v)
    return a[0]


@pat(r'std::string::(operator=|assign)\(char const\*\)')
def s_asgc(E, st, ins, a):
    getstr(E, a[0])
    setstr(E, a[0], read_cstr(E, a[1]))
    return a[0]


@pat(r'std::string::assign\(char const\*, unsigned long\)')
def s_asgn(E, st, ins, a):
    getstr(E, a[0])
    setstr(E, a[0], read_chars(E, a[1], a[2]))
    return a[0]


@pat(r'std::string::(append|operator\+=)\(std::string const&\)')
def s_app(E, st, ins, a):
    setstr(E, a[0], sconcat(getstr(E, a[0]), getstr(E, a[1])))
    return a[0]


@pat(r'std::string::(append|operator\+=)\(char const\*\)')
def s_appc(E, st, ins, a):
    setstr(E, a[0], sconcat(getstr(E, a[0]), read_cstr(E, a[1])))
    return a[0]


@pat(r'std::string::append\(char const\*, unsigned long\)')
def s_appn(E, st, ins, a):
    setstr(E, a[0], sconcat(getstr(E, a[0]), read_chars(E, a[1], a[2])))
    return a[0]


@pat(r'std::string::(push_back|operator\+=)\(char\)')
def s_push(E, st, ins, a):
    if isinstance(a[1], int):
        setstr(E, a[0], sconcat(getstr(E, a[0]), chr(uns(a[1], 8))))
    else:
        raise Unsupported('push_back symbolic char')
    return a[0]


@pat(r'std::string::reserve\(')
def s_res(E, st, ins, a):
    return None


@pat(r'std::string::insert\(unsigned long, char const\*\)')
def s_ins(E, st, ins, a):
    if a[1] == 0:
        setstr(E, a[0], sconcat(read_cstr(E, a[2]), getstr(E, a[0])))
        return a[0]
    raise Unsupported('insert')


@pat(r'std::string::insert\(unsigned long, std::string const&\)')
def s_ins2(E, st, ins, a):
    if a[1] == 0:
        setstr(E, a[0], sconcat(getstr(E, a[2]), getstr(E, a[0])))
        return a[0]
    raise Unsupported('insert')


@pat(r'std::string::(size|length)\(\) const')
def s_size(E, st, ins, a):
    return slen(E, getstr(E, a[0]))


@pat(r'std::string::capacity\(\) const')
def s_cap(E, st, ins, a):
    return slen(E, getstr(E, a[0]))


@pat(r'std::string::max_size\(\) const')
def s_maxsize(E, st, ins, a):
    return (1 << 62) - 1


@pat(r'std::string::empty\(\) const')
def s_empty(E, st, ins, a):
    s = getstr(E, a[0])
    if isinstance(s, str):
        return s == ''
    return s == z3.StringVal('')


@pat(r'std::string::(c_str|data)\(\)( const)?')
def s_cs(E, st, ins, a):
    return strbuf(E, getstr(E, a[0]))


@pat(r'std::string::clear\(\)')
def s_clear(E, st, ins, a):
    setstr(E, a[0], '')


@pat(r'std::string::swap\(std::string&\)')
def s_swap(E, st, ins, a):
    x, y = getstr(E, a[0]), getstr(E, a[1])
    setstr(E, a[0], y)
    setstr(E, a[1], x)


def pieces(t):
    if t.decl().kind() != z3.Z3_OP_SEQ_CONCAT:
        return [t]
    return [p for c in t.children() for p in pieces(c)]


def decimals(E, X, Y):
    """a non-digit followed by the decimals of a number ends both strings: they are equal exactly when the numbers and the rest are"""
    from .sym import zstr
    a, b = pieces(X), pieces(Y)
    if len(a) < 2 or len(b) < 2:
        return None
    n = []
    for c in (a, b):
        if c[-1].decl().kind() == z3.Z3_OP_INT_TO_STR:
            if not E.entailed(c[-1].arg(0) >= 0):
                return None
            n.append(c[-1].arg(0))
        else:
            return None
        if not z3.is_string_value(c[-2]) or not zstr(c[-2]) or zstr(c[-2])[-1].isdigit():
            return None
    return n[0] == n[1], (z3.Concat(*a[:-1]) if len(a) > 2 else a[0]), (z3.Concat(*b[:-1]) if len(b) > 2 else b[0])


def seq(E, x, y):
    if isinstance(x, str) and isinstance(y, str):
        return x == y
    X, Y = sterm(x), sterm(y)
    if X.eq(Y):
        return True
    if not E.dom.bv:
        d = decimals(E, X, Y)
        if d is not None:
            r = seq(E, d[1], d[2])
            return z3.And(d[0], r) if not isinstance(r, bool) else (d[0] if r else False)
        a, b = pieces(X), pieces(Y)
        k = 0
        while k < min(len(a), len(b)) - 1 and a[k].eq(b[k]):
            k += 1
        if k:
            f = lambda l: z3.Concat(*l) if len(l) > 1 else l[0]
            return seq(E, f(a[k:]), f(b[k:]))
    c = X == Y
    if not E.dom.bv:
        lx, ly = slen(E, x), slen(E, y)
        d = lx == ly
        if isinstance(d, bool):
            if not d:
                return False
        else:
            E.st.add_fact(z3.Implies(c, d))
        for u, v in ((x, ly), (y, lx)):
            if isinstance(u, str) and u == '' and not isinstance(v, int):
                return v == 0
    return c


@pat(r'std::string::compare\(std::string const&\) const')
def s_cmp(E, st, ins, a):
    x, y = getstr(E, a[0]), getstr(E, a[1])
    if isinstance(x, str) and isinstance(y, str):
        return 0 if x == y else (-1 if x < y else 1)
    return 0 if E.decide(seq(E, x, y)) else 1


@pat(r'std::string::compare\(char const\*\) const')
def s_cmpc(E, st, ins, a):
    x, y = getstr(E, a[0]), read_cstr(E, a[1])
    if isinstance(x, str) and isinstance(y, str):
        return 0 if x == y else (-1 if x < y else 1)
    return 0 if E.decide(seq(E, x, y)) else 1


OPQ = r'(bool |__gnu_cxx::__enable_if<.*>::__type )?std::operator(==|!=)(<.*>)?\('


@pat(OPQ + r'std::string const&, std::string const&\)')
def s_eq(E, st, ins, a):
    n = '==' in norm_dm(E.demangled[cname(ins)]).split('(')[0]
    c = seq(E, getstr(E, a[0]), getstr(E, a[1]))
    return bneg(c) if not n else c


@pat(OPQ + r'std::string const&, char const\*\)')
def s_eqc(E, st, ins, a):
    n = '==' in norm_dm(E.demangled[cname(ins)]).split('(')[0]
    c = seq(E, getstr(E, a[0]), read_cstr(E, a[1]))
    return bneg(c) if not n else c


@pat(r'(bool )?std::operator<(<.*>)?\(std::string const&, std::string const&\)')
def s_lt(E, st, ins, a):
    x, y = getstr(E, a[0]), getstr(E, a[1])
    if isinstance(x, str) and isinstance(y, str):
        return x < y
    return sterm(x) < sterm(y)


PLUS = r'(std::string )?std::operator\+(<.*>)?\('


def _plus(ta, tb):
    def rd(E, p, t):
        if t == 'c':
            return read_cstr(E, p)
        if t == 'h':
            if not isinstance(p, int):
                raise Unsupported('char concat')
            return chr(uns(p, 8))
        v = getstr(E, p)
        return v

    def f(E, st, ins, a):
        x = rd(E, a[1], ta)
        y = rd(E, a[2], tb)
        if ta == 'm':
            setstr(E, a[1], '')
        if tb == 'm':
            setstr(E, a[2], '')
        setstr(E, a[0], sconcat(x, y))
    return f


_PT = {'s': 'std::string const&', 'm': 'std::string&&', 'c': 'char const\\*', 'h': 'char'}
for _a in _PT:
    for _b in _PT:
        PATTERNS.append((re.compile(PLUS + _PT[_a] + ', ' + _PT[_b] + r'\)$'), _plus(_a, _b)))


def bneg(c):
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def cname(ins):
    c = ins.a['callee']
    return c[1]


@pat(r'std::__cxx11::to_string\((int|long|unsigned int|unsigned long|long long|unsigned long long)\)')
def s_tostr(E, st, ins, a):
    # sret string
    dm = E.demangled[cname(ins)]
    v = a[1]
    if isinstance(v, int):
        if 'unsigned' in dm:
            v = uns(v, 64 if 'long' in dm else 32)
        setstr(E, a[0], str(v))
        return
    if E.dom.bv:
        raise Unsupported('to_string bv')
    if 'unsigned' in dm:
        v = E.dom.unsig(v, 64 if 'long' in dm else 32)
        setstr(E, a[0], z3.IntToStr(v))
    else:
        setstr(E, a[0], z3.If(v >= 0, z3.IntToStr(v), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v))))


@pat(r'std::(__new_allocator<char>|allocator<char>)::~?(__new_allocator|allocator)\(')
def s_alloc(E, st, ins, a):
    return None


@pat(r'std::allocator<char>::~?allocator\(')
def s_alloc2(E, st, ins, a):
    return None


# ------------------------------------------------------------------ floating point (bit patterns)
def fsort(t):
    if t.k == 'float':
        return z3.Float32(), 32
    if t.k == 'double':
        return z3.Float64(), 64
    raise Unsupported('fp type')


def fp_of(E, x, t):
    s, b = fsort(t)
    return z3.fpBVToFP(z3.BitVecVal(x, b) if isinstance(x, int) else x, s)


def bvcn(e):
    e = z3.simplify(e)
    return e.as_signed_long() if z3.is_bv_value(e) else e


def fp_bits(E, f, b, nan=None):
    """bit pattern of an fp term; a NaN result has the pattern `nan`, or an unspecified one"""
    isn = z3.simplify(z3.fpIsNaN(f))
    bits = z3.fpToIEEEBV(f)
    if z3.is_false(isn):
        return bvcn(bits)
    if nan is None:
        nan = z3.BitVec(E.newname('nanbits'), b)
        E.st.add_fact(z3.fpIsNaN(z3.fpBVToFP(nan, z3.Float32() if b == 32 else z3.Float64())))
    return bvcn(z3.If(isn, nan, bits))


def pyf(x, b):
    return struct.unpack('<f' if b == 32 else '<d', uns(x, b).to_bytes(b // 8, 'little'))[0]


def pyb(v, b):
    try:
        return sgn(int.from_bytes(struct.pack('<f' if b == 32 else '<d', v), 'little'), b)
    except OverflowError:
        return sgn(int.from_bytes(struct.pack('<f', float('inf') if v > 0 else float('-inf')), 'little'), b)


def fp_bin(E, op, t, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if t.k == 'x86_fp80':
        return UNDEF
    s, w = fsort(t)
    if isinstance(a, int) and isinstance(b, int):
        x, y = pyf(a, w), pyf(b, w)
        try:
            return pyb({'fadd': x + y, 'fsub': x - y, 'fmul': x * y}[op] if op != 'fdiv' else x / y, w)
        except Exception:
            pass
    if not E.dom.bv:
        E.imprecise('float ' + op)
        return E.dom.fresh(w, 'fp')
    x, y = fp_of(E, a, t), fp_of(E, b, t)
    rm = z3.RNE()
    r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, x, y)
    return fp_bits(E, r, w)


def fp_cmp(E, pred, t, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    s, w = fsort(t)
    if isinstance(a, int) and isinstance(b, int):
        x, y = pyf(a, w), pyf(b, w)
        un = x != x or y != y
        if pred == 'ord':
            return not un
        if pred == 'uno':
            return un
        if un:
            return pred[0] == 'u'
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
    if not E.dom.bv:
        E.imprecise('float cmp')
        return E.dom.fresh(1, 'fcmp')
    x, y = fp_of(E, a, t), fp_of(E, b, t)
    un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
    if pred == 'ord':
        return z3.Not(un)
    if pred == 'uno':
        return un
    c = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[pred[1:]](x, y)
    return z3.And(z3.Not(un), c) if pred[0] == 'o' else z3.Or(un, c)


def fp_cast(E, op, t, t2, x):
    if op in ('sitofp', 'uitofp'):
        if t2.k == 'x86_fp80':
            return UNDEF
        s, w = fsort(t2)
        if isinstance(x, int):
            return pyb(float(x if op == 'sitofp' else uns(x, t.n)), w)
        if not E.dom.bv:
            E.imprecise(op)
            return E.dom.fresh(w, 'fp')
        f = z3.fpSignedToFP(z3.RNE(), x, s) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), x, s)
        return fp_bits(E, f, w)
    if t.k == 'x86_fp80' or t2.k == 'x86_fp80':
        return UNDEF
    if op in ('fptosi', 'fptoui'):
        s, w = fsort(t)
        if isinstance(x, int):
            v = pyf(x, w)
            lo, hi = (-(1 << (t2.n - 1)), (1 << (t2.n - 1)) - 1) if op == 'fptosi' else (0, (1 << t2.n) - 1)
            ok = v == v and abs(v) != float('inf') and lo <= int(v) <= hi
            E.oblige('float-to-int-range', ok, op)
            return sgn(int(v), t2.n)
        if not E.dom.bv:
            E.imprecise(op)
            return E.dom.fresh(t2.n, op)
        f = fp_of(E, x, t)
        n = t2.n
        if op == 'fptosi':
            lo, hi = z3.FPVal(-(2.0 ** (n - 1)), s), z3.FPVal(2.0 ** (n - 1), s)
            E.oblige('float-to-int-range', z3.And(z3.fpGEQ(f, lo), z3.fpLT(f, hi)), op)
            return z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(n))
        hi = z3.FPVal(2.0 ** n, s)
        E.oblige('float-to-int-range', z3.And(z3.fpGT(f, z3.FPVal(-1.0, s)), z3.fpLT(f, hi)), op)
        return z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(n))
    if op in ('fpext', 'fptrunc'):
        s, w = fsort(t)
        s2, w2 = fsort(t2)
        if not E.dom.bv and not isinstance(x, int):
            E.imprecise(op)
            return E.dom.fresh(w2, 'fp')
        X = z3.BitVecVal(x, w) if isinstance(x, int) else x
        f = z3.fpBVToFP(X, s)
        # a NaN keeps its sign and the upper bits of its payload and becomes quiet, as the hardware does
        if op == 'fpext':
            nan = z3.Concat(z3.Extract(31, 31, X), z3.BitVecVal(0xfff, 12), z3.Extract(21, 0, X), z3.BitVecVal(0, 29))
        else:
            nan = z3.Concat(z3.Extract(63, 63, X), z3.BitVecVal(0x1ff, 9), z3.Extract(50, 29, X))
        if op == 'fptrunc' and is_sym(x):
            # of a value that was extended: that value, except that a signalling NaN became quiet
            y = E.fpext_of.get(x.get_id())
            if y is not None:
                fy = z3.fpBVToFP(y[0], s2)
                return bvcn(z3.If(z3.fpIsNaN(fy), y[0] | z3.BitVecVal(0x400000, 32), y[0]))
        g = z3.fpFPToFP(z3.RNE(), f, s2)
        r = bvcn(z3.If(z3.fpIsNaN(f), nan, z3.fpToIEEEBV(g)))
        if op == 'fpext' and is_sym(r):
            E.fpext_of[r.get_id()] = (X, r)
        return r
    raise Unsupported(op)


# ------------------------------------------------------------------ specification intrinsics
def cstr(E, p):
    s = read_cstr(E, p)
    return s if isinstance(s, str) else '?'


@bi('vf_range')
def vf_range(E, st, ins, a):
    nm = cstr(E, a[0])
    lo, hi = a[1], a[2]
    if isinstance(lo, int) and isinstance(hi, int) and lo == hi:
        st.inputs.append(('int', nm, lo))
        return lo
    if isinstance(lo, int) and isinstance(hi, int):
        E.oblige_nonempty = lo <= hi
        if lo > hi:
            from .sym import PathEnd
            raise PathEnd('empty range')
    v = E.dom.fresh_range(64, nm, lo, hi)
    st.model = None
    if not E.feasible():
        from .sym import PathEnd
        raise PathEnd('empty range')
    st.inputs.append(('int', nm, v))
    return v


@bi('vf_bool')
def vf_bool(E, st, ins, a):
    nm = cstr(E, a[0])
    v = E.dom.fresh(1, nm)
    st.inputs.append(('bool', nm, v))
    return v


@bi('vf_assume')
def vf_assume(E, st, ins, a):
    from .sym import PathEnd
    c = a[0]
    if c is UNDEF:
        E.oblige('uninitialised-value', False, 'in an assumption')
        raise PathEnd('uninitialised')
    if isinstance(c, bool):
        if not c:
            raise PathEnd('assume')
        return
    if not E.decide_assume(c):
        raise PathEnd('assume')


@bi('vf_assert')
def vf_assert(E, st, ins, a):
    nm = cstr(E, a[1])
    E.asserts_seen.add(nm)
    if a[0] is UNDEF:
        from .sym import PathEnd
        E.oblige('uninitialised-value', False, 'in ' + nm)
        raise PathEnd('uninitialised')
    E.oblige('contract', a[0], nm)


@bi('vf_cover')
def vf_cover(E, st, ins, a):
    nm = cstr(E, a[0])
    if nm in E.covers:
        return
    if E.feasible():
        E.covers[nm] = True


@bi('vf_alloc')
def vf_alloc(E, st, ins, a):
    n = a[0]
    o = E.newobj(n, 'heap', 'region', 'sym')
    if isinstance(n, int):
        pass
    return Ptr(o.id, 0)


@bi('vf_free')
def vf_freef(E, st, ins, a):
    return do_free(E, a[0], 'region', 'vf_free')


@bi('vf_fill_words')
def vf_fill_words(E, st, ins, a):
    nm = cstr(E, a[0])
    p, n, lo, hi = a[1:5]
    uf = E.newname('W_' + nm)
    if not isinstance(n, int):
        E.oblige('spec-nonneg', n >= 0, 'fill')
    if isinstance(n, int) and n == 0:
        return
    E.access(p, E.o_mulc(n, 8), 'vf_fill_words', True)
    o = E.tochain(p.o)
    o = E.wobj(p.o)
    o.chain = ('fillw', o.chain, p.off, n, uf, lo, hi)
    if E.dom.bv:
        f = z3.Function('%s_8' % uf, z3.BitVecSort(64), z3.BitVecSort(64))
    else:
        f = z3.Function('%s_8' % uf, z3.IntSort(), z3.IntSort())
    st.inputs.append(('words', nm, (f, p.off, n)))


@bi('vf_fill_bytes')
def vf_fill_bytes(E, st, ins, a):
    nm = cstr(E, a[0])
    p, n = a[1:3]
    if isinstance(n, int) and n == 0:
        st.inputs.append(('words', nm, (None, 0, 0)))
        return
    uf = E.newname('B_' + nm)
    if E.dom.bv:
        f = z3.Function('%s_1' % uf, z3.BitVecSort(64), z3.BitVecSort(8))
    else:
        f = z3.Function('%s_1' % uf, z3.IntSort(), z3.IntSort())
    o = st.mem[p.o]
    if isinstance(n, int) and isinstance(p.off, int) and o.chain is None and n <= 256:
        E.access(p, n, 'vf_fill_bytes', True)
        o = E.wobj(p.o)
        E.clear_cells(o, p.off, n)
        for i in range(n):
            if E.dom.bv:
                v = f(z3.BitVecVal(p.off + i, 64))
            else:
                v = E.uf_load(uf, p.off + i, 1, None)
            o.cells[p.off + i] = (1, v)
    else:
        E.access(p, n, 'vf_fill_bytes', True)
        E.tochain(p.o)
        o = E.wobj(p.o)
        o.chain = ('fillb', o.chain, p.off, n, uf)
    st.inputs.append(('bytes', nm, (f, p.off, n)))


@bi('vf_snapshot')
def vf_snapshot(E, st, ins, a):
    p, n = a
    o = E.newobj(n, 'heap', 'region')
    if isinstance(n, int) and n == 0:
        return Ptr(o.id, 0)
    E.memcpy(Ptr(o.id, 0), p, n, True, 'snapshot')
    return Ptr(o.id, 0)


@bi('vf_sum')
def vf_sum(E, st, ins, a):
    from .psum import sum_words
    return sum_words(E, a[0], a[1])


@bi('vf_string')
def vf_string(E, st, ins, a):
    # vf_string(sret string*, name)
    nm = cstr(E, a[1])
    v = z3.String(E.newname(nm))
    E.st.add_fact(slen(E, v) <= (1 << 20))
    st.inputs.append(('str', nm, v))
    setstr(E, a[0], v)


@bi('vf_str_eq')
def vf_str_eq(E, st, ins, a):
    return seq(E, getstr(E, a[0]), getstr(E, a[1]))


@bi('vf_is_symbolic')
def vf_is_symbolic(E, st, ins, a):
    return True


@bi('vf_live')
def vf_live(E, st, ins, a):
    p = a[0]
    if isinstance(p, Ptr) and p.o == 0:
        return False
    o = st.mem.get(p.o)
    return bool(o is not None and o.alive)


@bi('vf_accessible')
def vf_accessible(E, st, ins, a):
    """the n bytes at p are inside one live object"""
    p, n = a[0], a[1]
    if not isinstance(p, Ptr) or p.o == 0:
        return False
    o = st.mem.get(p.o)
    if o is None or not o.alive:
        return False
    t = lambda x: E.dom.toterm(x) if not E.dom.bv else E.dom.term(x, 64)
    return z3.simplify(z3.And(t(p.off) >= 0, t(n) >= 0, t(p.off) + t(n) <= t(o.size)))


@bi('vf_modifies')
def vf_modifies(E, st, ins, a):
    """in vfx_loop_havoc: these bytes belong to the invariant, whether or not the value set here differs"""
    p, n = a[0], a[1]
    if not (isinstance(p.off, int) and isinstance(n, int)):
        raise Unsupported('vf_modifies')
    st.mods = st.mods | {(p.o, p.off + i) for i in range(n)}


@bi('vf_loop_fn')
def vf_loop_fn(E, st, ins, a):
    """does the innermost function that is not part of the harness' loop functions have this text in its name?"""
    t = cstr(E, a[0])
    for fr in reversed(st.frames):
        nm = fr.fn.name
        if 'vfx_loop' in nm:
            continue
        return t in E.demangled.get(nm, nm)
    return False


@bi('vf_watch')
def vf_watch(E, st, ins, a):
    """every access of code outside the harness to these bytes is preceded by a call of vfx_watch()"""
    p = a[0]
    st.watch = (p.o, p.off, a[1]) if isinstance(p, Ptr) and p.o else None


@bi('vf_heap_live')
def vf_heap_live(E, st, ins, a):
    return sum(1 for o in st.mem.values() if o.kind == 'heap' and o.alive and o.name in ('new', 'malloc'))


@bi('vf_end')
def vf_end(E, st, ins, a):
    from .sym import PathEnd
    raise PathEnd('vf_end')
