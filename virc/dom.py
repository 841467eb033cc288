"""Machine-integer domains.

Concrete machine integers are Python ints in signed canonical form.  IntDom represents a symbolic machine integer by a
mathematical integer term that is provably inside the signed range of its width (wrap-around is made explicit with
if-then-else/mod terms when it cannot be excluded).  BVDom uses bit-vectors."""
import z3

IV_INF = None


def sgn(v, bits):
    m = 1 << bits
    v &= m - 1
    if v >> (bits - 1):
        v -= m
    return v


def uns(v, bits):
    return v & ((1 << bits) - 1)


class Unsupported(Exception):
    pass


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)


class FuncPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '&' + self.name


NULL = Ptr(0, 0)


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def lin(e):
    """linear normal form of an Int term: (dict id->(atom,coef), const)"""
    atoms = {}
    const = 0
    st = [(e, 1)]
    while st:
        x, c = st.pop()
        if isinstance(x, bool):
            raise Unsupported('lin bool')
        if isinstance(x, int):
            const += c * x
            continue
        if z3.is_int_value(x):
            const += c * x.as_long()
            continue
        k = x.decl().kind()
        if k == z3.Z3_OP_ADD:
            for y in x.children():
                st.append((y, c))
            continue
        if k == z3.Z3_OP_SUB:
            ch = x.children()
            st.append((ch[0], c))
            for y in ch[1:]:
                st.append((y, -c))
            continue
        if k == z3.Z3_OP_UMINUS:
            st.append((x.arg(0), -c))
            continue
        if k == z3.Z3_OP_MUL:
            ch = x.children()
            kc = 1
            rest = []
            for y in ch:
                if z3.is_int_value(y):
                    kc *= y.as_long()
                else:
                    rest.append(y)
            if len(rest) == 1:
                st.append((rest[0], c * kc))
                continue
            if not rest:
                const += c * kc
                continue
        i = x.get_id()
        if i in atoms:
            a, c0 = atoms[i]
            if c0 + c == 0:
                del atoms[i]
            else:
                atoms[i] = (a, c0 + c)
        else:
            atoms[i] = (x, c)
    return atoms, const


def from_lin(atoms, const):
    terms = []
    for i in sorted(atoms):
        a, c = atoms[i]
        terms.append(a if c == 1 else a * c)
    if not terms:
        return const
    if const:
        terms.append(z3.IntVal(const))
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def norm(e):
    if isinstance(e, int):
        return e
    a, c = lin(e)
    return from_lin(a, c)


class IntDom:
    bv = False

    def __init__(self, eng):
        self.eng = eng
        self.sym_bounds = {}   # decl name -> (lo,hi)
        self._bcache = {}
        self.mulcache = {}
        self.cats = {}         # id of a term, width -> (the term, its bytes)
        self.unsigned = {}     # id of a wrapped term -> (the term, its unsigned value)

    # -- bounds
    def bounds(self, e):
        if isinstance(e, int):
            return e, e
        i = e.get_id()
        r = self._bcache.get(i)
        if r is not None:
            return r[1]
        b = self._bounds(e)
        self._bcache[i] = (e, b)
        return b

    def _bounds(self, e):
        if z3.is_int_value(e):
            v = e.as_long()
            return v, v
        d = e.decl()
        k = d.kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.sym_bounds.get(d.name(), (None, None))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
            at, c = lin(e)
            lo = hi = c
            if len(at) == 1 and list(at.values())[0][0].get_id() == e.get_id():
                return None, None
            for a, co in at.values():
                l, h = self.bounds(a)
                if co < 0:
                    l, h = h, l
                lo = None if (lo is None or l is None) else lo + co * l
                hi = None if (hi is None or h is None) else hi + co * h
            return lo, hi
        if k == z3.Z3_OP_ITE:
            a = self.bounds(e.arg(1))
            b = self.bounds(e.arg(2))
            return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                    None if a[1] is None or b[1] is None else max(a[1], b[1]))
        if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)):
            m = abs(e.arg(1).as_long())
            return 0, m - 1
        if k == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)):
            m = e.arg(1).as_long()
            l, h = self.bounds(e.arg(0))
            if m > 0:
                return (None if l is None else l // m), (None if h is None else h // m)
        return None, None

    def fresh(self, bits, name):
        if bits == 1:
            return z3.Bool(self.eng.newname(name))
        nm = self.eng.newname(name)
        v = z3.Int(nm)
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        self.sym_bounds[nm] = (lo, hi)
        self.eng.st.add_fact(z3.And(v >= lo, v <= hi))
        return v

    def fresh_range(self, bits, name, lo, hi):
        nm = self.eng.newname(name)
        v = z3.Int(nm)
        bl = lo if isinstance(lo, int) else self.bounds(lo)[0]
        bh = hi if isinstance(hi, int) else self.bounds(hi)[1]
        self.sym_bounds[nm] = (bl, bh)
        self.eng.st.add_fact(z3.And(v >= lo, v <= hi))
        return v

    def inrange(self, e, bits):
        lo, hi = self.bounds(e)
        L, H = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        return lo is not None and hi is not None and L <= lo and hi <= H

    def rangecond(self, e, bits):
        L, H = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        lo, hi = self.bounds(e)
        cs = []
        if lo is None or lo < L:
            cs.append(e >= L)
        if hi is None or hi > H:
            cs.append(e <= H)
        if not cs:
            return True
        return cs[0] if len(cs) == 1 else z3.And(cs)

    def wrap(self, e, bits, kind):
        if isinstance(e, int):
            return sgn(e, bits)
        c = self.rangecond(e, bits)
        if c is True or self.eng.entailed(c):
            return e
        M = 1 << bits
        L, H = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        lo, hi = self.bounds(e)
        un = lo is not None and lo >= 0 and hi is not None and hi < M
        if un or (kind == 'mul' and self.eng.entailed(z3.And(e >= 0, e < M))):
            r = e
        elif kind == 'add':
            return z3.If(e > H, e - M, z3.If(e < L, e + M, e))
        else:
            r = self.modk(e, M)
        if is_sym(r) and self.eng.entailed(r <= H):
            return r
        if is_sym(r) and self.eng.entailed(r > H):
            w = norm(r - M)
        else:
            w = z3.If(r > H, r - M, r)
        self.unsigned[w.get_id()] = (w, r)
        return w

    def modk(self, e, m):
        """e mod m; without a modulus when the path condition determines the quotient"""
        st = self.eng.st
        if st.model is not None:
            v = st.model.eval(e, model_completion=True)
            if z3.is_int_value(v):
                q = v.as_long() // m
                if self.eng.entailed(z3.And(e >= q * m, e < (q + 1) * m)):
                    return norm(e - q * m)
        return e % m

    def toterm(self, x):
        return z3.IntVal(x) if isinstance(x, int) else x

    def binop(self, op, bits, a, b, flags):
        ca, cb = isinstance(a, int), isinstance(b, int)
        if op in ('add', 'sub', 'mul'):
            if ca and cb:
                e = a + b if op == 'add' else a - b if op == 'sub' else a * b
            elif op == 'add':
                e = norm(a + b)
            elif op == 'sub':
                e = norm(a - b)
            else:
                e = self.mul(a, b)
            if 'nsw' in flags:
                if isinstance(e, int):
                    ok = -(1 << (bits - 1)) <= e < (1 << (bits - 1))
                else:
                    ok = self.rangecond(e, bits)
                if ok is not True:
                    self.eng.oblige('signed-overflow', ok, op)
                return sgn(e, bits) if isinstance(e, int) else e
            return self.wrap(e, bits, 'add' if op != 'mul' else 'mul')
        if ca and cb:
            return self._conc(op, bits, a, b)
        M = 1 << bits
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.eng.oblige('division-by-zero', b != 0, op)
            la = self.bounds(a)[0] if not ca else a
            lb = self.bounds(b)[0] if not cb else b
            if la is None or la < 0:
                if self.eng.entailed(a >= 0):
                    la = 0
            if lb is None or lb < 0:
                if self.eng.entailed(self.toterm(b) >= 0):
                    lb = 0
            pos = la is not None and la >= 0 and lb is not None and lb >= 0
            if not cb:
                if op == 'udiv' and pos:
                    q = self.fresh_range(bits, 'q', 0, a)
                    return q
                return self.fresh(bits, op)
            if pos:
                return self.toterm(a) / b if op in ('udiv', 'sdiv') else self.toterm(a) % b
            if op in ('udiv', 'urem'):
                ua = self.unsig(a, bits)
                ub = uns(b, bits)
                e = ua / ub if op == 'udiv' else ua % ub
                return self.wrap(e, bits, 'add')
            ab = abs(b)
            q = z3.If(a >= 0, a / ab, -((-a) / ab))
            if b < 0:
                q = -q
            if op == 'sdiv':
                return q
            return z3.If(a >= 0, a % ab, -((-a) % ab))
        if op == 'shl' and cb:
            k = uns(b, bits)
            e = norm(a * (1 << k))
            c = self.rangecond(e, bits)
            if c is True or 'nsw' in flags or k >= bits or self.eng.entailed(c):
                return self.wrap(e, bits, 'mul')
            return self.wrap((self.unsig(a, bits) % (1 << (bits - k))) * (1 << k), bits, 'mul')
        if op == 'lshr' and cb:
            k = uns(b, bits)
            return self.wrap(self.udivk(self.unsig(a, bits), k), bits, 'add') if k else a
        if op == 'ashr' and cb:
            return a / (1 << uns(b, bits))
        if op == 'and':
            if ca:
                a, b, ca, cb = b, a, cb, ca
            if cb:
                ub = uns(b, bits)
                if ub == 0:
                    return 0
                if ub == M - 1:
                    return a
                # contiguous mask
                tz = (ub & -ub).bit_length() - 1
                w = (ub >> tz)
                if (w & (w + 1)) == 0:
                    wb = w.bit_length()
                    u = self.unsig(a, bits)
                    if tz + wb == bits:
                        return self.wrap(self.udivk(u, tz) * (1 << tz), bits, 'mul')
                    if tz:
                        return (self.udivk(u, tz) % (1 << wb)) * (1 << tz)
                    return self.modk(u, 1 << wb) if is_sym(u) else u % (1 << wb)
        if op == 'xor' and (b == -1 if cb else a == -1 if ca else False):
            return norm(-1 - (a if cb else b))
        if op == 'or':
            if ca and a == 0:
                return b
            if cb and b == 0:
                return a
            if 'disjoint' in flags:
                return self.wrap(norm(a + b), bits, 'add')
        if op in ('or', 'xor'):
            ua, ub = self.unsig(a, bits), self.unsig(b, bits)
            ma, mb = self.mayset(ua, bits), self.mayset(ub, bits)
            if not ma & mb:
                return self.wrap(norm(ua + ub), bits, 'mul')
        # sound over-approximation
        self.eng.imprecise(op)
        return self.fresh(bits, op)

    def _conc(self, op, bits, a, b):
        ua, ub = uns(a, bits), uns(b, bits)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.eng.oblige('division-by-zero', b != 0, op)
            if b == 0:
                return 0
            if op == 'udiv':
                return sgn(ua // ub, bits)
            if op == 'urem':
                return sgn(ua % ub, bits)
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            if op == 'sdiv':
                return sgn(q, bits)
            return sgn(a - q * b, bits)
        if op in ('shl', 'lshr', 'ashr') and ub >= bits:
            self.eng.oblige('shift-range', False, op)
            return 0
        r = {'shl': lambda: ua << ub, 'lshr': lambda: ua >> ub, 'ashr': lambda: a >> ub, 'and': lambda: ua & ub,
             'or': lambda: ua | ub, 'xor': lambda: ua ^ ub}[op]()
        return sgn(r, bits)

    def mul(self, a, b):
        if isinstance(a, int):
            if isinstance(b, int):
                return a * b
            return norm(b * a)
        if isinstance(b, int):
            return norm(a * b)
        la, ca = lin(a)
        lb, cb = lin(b)
        tot = {}
        const = ca * cb

        def addt(x, c):
            nonlocal tot
            if c == 0:
                return
            i = x.get_id()
            if i in tot:
                c0 = tot[i][1] + c
                if c0 == 0:
                    del tot[i]
                else:
                    tot[i] = (x, c0)
            else:
                tot[i] = (x, c)
        for x, c in la.values():
            addt(x, c * cb)
        for y, c in lb.values():
            addt(y, c * ca)
        for x, c in la.values():
            for y, d in lb.values():
                addt(self.mulatom(x, y), c * d)
        return from_lin(tot, const)

    def mulatom(self, x, y):
        key = tuple(sorted((x.get_id(), y.get_id())))
        r = self.mulcache.get(key)
        if r is None:
            nm = self.eng.newname('mul')
            m = z3.Int(nm)
            (xl, xh), (yl, yh) = self.bounds(x), self.bounds(y)
            facts = [z3.Implies(z3.And(x >= 0, y >= 0), m >= 0),
                     z3.Implies(z3.Or(x == 0, y == 0), m == 0),
                     z3.Implies(z3.And(x >= 1, y >= 0), m >= y),
                     z3.Implies(z3.And(y >= 1, x >= 0), m >= x),
                     z3.Implies(x == 1, m == y), z3.Implies(y == 1, m == x),
                     z3.Implies(x == -1, m == -y), z3.Implies(y == -1, m == -x),
                     z3.Implies(z3.And(x >= 2, y >= 0), m >= 2 * y),
                     z3.Implies(z3.And(y >= 2, x >= 0), m >= 2 * x)]
            if None not in (xl, xh, yl, yh):
                ps = [xl * yl, xl * yh, xh * yl, xh * yh]
                self.sym_bounds[nm] = (min(ps), max(ps))
                facts.append(z3.And(m >= min(ps), m <= max(ps)))
                # McCormick envelopes (valid for all integers in the box)
                facts += [m >= xl * y + yl * x - xl * yl, m >= xh * y + yh * x - xh * yh,
                          m <= xh * y + yl * x - xh * yl, m <= xl * y + yh * x - xl * yh]
            r = self.mulcache[key] = (m, z3.And(facts), x, y)
        self.eng.st.add_fact(r[1])
        self.eng.mulatoms[r[0].decl().name()] = (r[2], r[3])
        return r[0]

    def udivk(self, u, k):
        """u / 2^k, rounded down"""
        if isinstance(u, int) or k == 0:
            return u if k == 0 else u >> k
        at, c = lin(u)
        if all(co % (1 << k) == 0 for _, co in at.values()):
            e = sum((t * (co >> k) for t, co in at.values()), z3.IntVal(c >> k))
            return norm(e)
        return u / (1 << k)

    def mayset(self, u, bits):
        """mask of the bits that can be set in the unsigned value u"""
        if isinstance(u, int):
            return u
        full = (1 << bits) - 1

        def span(t):
            lo, hi = self.bounds(t)
            if lo is None or lo < 0 or hi is None:
                if self.eng.entailed(z3.And(t >= 0, t < (1 << bits))):
                    lo, hi = 0, full
                else:
                    return None
            for k in (1, 4, 5, 7, 8, 16):
                if hi >= (1 << k) and k < bits and self.eng.entailed(t < (1 << k)):
                    hi = (1 << k) - 1
                    break
            return (1 << hi.bit_length()) - 1
        at, c = lin(u)
        m = c if c >= 0 else None
        ok = m is not None
        for t, co in at.values():
            if not ok:
                break
            tz = (co & -co).bit_length() - 1
            s = span(t) if co > 0 and co == 1 << tz else None
            if s is None or m & (s << tz):
                ok = False
                break
            m |= s << tz
        if ok and m <= full:
            return m
        tz = min([bits] + [(x & -x).bit_length() - 1 for x in [co for _, co in at.values()] + ([c] if c else [])])
        s = span(u)
        if s is None:
            s = full
        return s & ~((1 << tz) - 1) & full

    def unsig(self, a, bits):
        if isinstance(a, int):
            return uns(a, bits)
        lo, _ = self.bounds(a)
        if lo is not None and lo >= 0:
            return a
        w = self.unsigned.get(a.get_id())
        if w is not None and self.bounds(w[1])[1] is not None and self.bounds(w[1])[1] < (1 << bits):
            return w[1]
        if self.eng.entailed(a >= 0):
            return a
        if self.eng.entailed(a < 0):
            return norm(a + (1 << bits))
        return z3.If(a < 0, a + (1 << bits), a)

    def icmp(self, pred, bits, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return conc_cmp(pred, bits, a, b)
        if pred[0] == 'u':
            a = self.unsig(a, bits)
            b = self.unsig(b, bits)
        if pred == 'eq':
            return a == b if is_sym(a) else b == a
        if pred == 'ne':
            return a != b if is_sym(a) else b != a
        p = pred[1:]
        a = self.toterm(a)
        return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b

    def zext(self, v, f, t):
        if f == 1:
            if isinstance(v, bool):
                return int(v)
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, int):
            return uns(v, f)
        return self.unsig(v, f)

    def sext(self, v, f, t):
        if f == 1:
            if isinstance(v, bool):
                return -int(v)
            return z3.If(v, z3.IntVal(-1), z3.IntVal(0))
        return v

    def trunc(self, v, f, t):
        if t == 1:
            if isinstance(v, int):
                return bool(v & 1)
            b = unbool(v)
            if b is not None:
                return b
            lo, hi = self.bounds(v)
            if lo == 0 and hi == 1:
                return v == 1
            return v % 2 == 1
        if isinstance(v, int):
            return sgn(v, t)
        return self.wrap(v, t, 'mul')

    def extract(self, v, bits, lo, n):
        """bits [lo,lo+n) of v"""
        if isinstance(v, int):
            return sgn(uns(v, bits) >> lo, n)
        c = self.cats.get((v.get_id(), bits))
        if c and lo % 8 == 0 and n % 8 == 0:
            ps = c[1][lo // 8:(lo + n) // 8]
            return ps[0][0] if len(ps) == 1 else self.concat(ps)
        u = self.unsig(v, bits)
        if lo:
            u = u / (1 << lo)
        return self.wrap(u % (1 << n) if lo + n < bits else u, n, 'mul')

    def concat(self, parts):
        """parts: [(val,bits)] least significant first"""
        e = 0
        sh = 0
        reg = True
        for v, b in parts:
            u = self.unsig(v, b)
            if b != 8 or (u is v and is_sym(v) and (self.bounds(v)[0] is None or self.bounds(v)[0] < 0)):
                reg = False     # relies on facts of this path
            e = e + u * (1 << sh)
            sh += b
        if not isinstance(e, int):
            e = norm(e)
        r = self.wrap(e, sh, 'mul')
        if is_sym(r) and reg:
            self.cats[(r.get_id(), sh)] = (r, parts)
        return r

    def byterep(self, c, n):
        if isinstance(c, int):
            return sgn(int.from_bytes(bytes([c & 255]) * n, 'little'), 8 * n)
        if n == 1:
            return c
        return self.concat([(c, 8)] * n)


def unbool(v):
    """If(b,1,0) -> b"""
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        a, b = v.arg(1), v.arg(2)
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
        elif z3.is_bv_value(a) and z3.is_bv_value(b):
            x, y = a.as_long(), b.as_long()
        else:
            return None
        if x == 1 and y == 0:
            return v.arg(0)
        if x == 0 and y == 1:
            return z3.Not(v.arg(0))
    return None


def conc_cmp(pred, bits, a, b):
    if pred == 'eq':
        return a == b
    if pred == 'ne':
        return a != b
    if pred[0] == 'u':
        a = uns(a, bits)
        b = uns(b, bits)
    p = pred[1:]
    return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b


class BVDom:
    bv = True

    def __init__(self, eng):
        self.eng = eng
        self.sym_bounds = {}

    def fresh(self, bits, name):
        if bits == 1:
            return z3.Bool(self.eng.newname(name))
        return z3.BitVec(self.eng.newname(name), bits)

    def fresh_range(self, bits, name, lo, hi):
        v = z3.BitVec(self.eng.newname(name), bits)
        self.eng.st.add_fact(z3.And(v >= lo, v <= hi))
        return v

    def bounds(self, e):
        if isinstance(e, int):
            return e, e
        return None, None

    def term(self, x, bits):
        return z3.BitVecVal(x, bits) if isinstance(x, int) else x

    def cn(self, e):
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
        return e

    def binop(self, op, bits, a, b, flags):
        if isinstance(a, int) and isinstance(b, int):
            if op in ('add', 'sub', 'mul'):
                e = a + b if op == 'add' else a - b if op == 'sub' else a * b
                if 'nsw' in flags and sgn(e, bits) != e:
                    self.eng.oblige('signed-overflow', False, op)
                return sgn(e, bits)
            return IntDom._conc(self, op, bits, a, b)
        A, B = self.term(a, bits), self.term(b, bits)
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags:
                X, Y = z3.SignExt(bits, A), z3.SignExt(bits, B)
                w = X + Y if op == 'add' else X - Y if op == 'sub' else X * Y
                r = A + B if op == 'add' else A - B if op == 'sub' else A * B
                self.eng.oblige('signed-overflow', w == z3.SignExt(bits, r), op)
            return self.cn(A + B if op == 'add' else A - B if op == 'sub' else A * B)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.eng.oblige('division-by-zero', B != 0, op)
            if op in ('sdiv', 'srem'):
                self.eng.oblige('signed-overflow', z3.Not(z3.And(A == (-(1 << (bits - 1))), B == -1)), op)
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op](A, B)
            return self.cn(r)
        if op in ('shl', 'lshr', 'ashr'):
            if not isinstance(b, int):
                self.eng.oblige('shift-range', z3.ULT(B, bits), op)
            elif uns(b, bits) >= bits:
                self.eng.oblige('shift-range', False, op)
            return self.cn(A << B if op == 'shl' else z3.LShR(A, B) if op == 'lshr' else A >> B)
        return self.cn(A & B if op == 'and' else A | B if op == 'or' else A ^ B)

    def icmp(self, pred, bits, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return conc_cmp(pred, bits, a, b)
        A, B = self.term(a, bits), self.term(b, bits)
        return {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
                'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
                'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()

    def zext(self, v, f, t):
        if f == 1:
            if isinstance(v, bool):
                return int(v)
            return z3.If(v, z3.BitVecVal(1, t), z3.BitVecVal(0, t))
        if isinstance(v, int):
            return uns(v, f)
        return self.cn(z3.ZeroExt(t - f, v))

    def sext(self, v, f, t):
        if f == 1:
            if isinstance(v, bool):
                return -int(v)
            return z3.If(v, z3.BitVecVal(-1, t), z3.BitVecVal(0, t))
        if isinstance(v, int):
            return v
        return self.cn(z3.SignExt(t - f, v))

    def trunc(self, v, f, t):
        if t == 1:
            if isinstance(v, int):
                return bool(v & 1)
            b = unbool(v)
            if b is not None:
                return b
            return z3.Extract(0, 0, v) == 1
        if isinstance(v, int):
            return sgn(v, t)
        return self.cn(z3.Extract(t - 1, 0, v))

    def extract(self, v, bits, lo, n):
        if isinstance(v, int):
            return sgn(uns(v, bits) >> lo, n)
        return self.cn(z3.Extract(lo + n - 1, lo, v))

    def concat(self, parts):
        if all(isinstance(v, int) for v, _ in parts):
            e = 0
            sh = 0
            for v, b in parts:
                e |= uns(v, b) << sh
                sh += b
            return sgn(e, sh)
        ts = [self.term(v, b) for v, b in parts][::-1]
        return self.cn(z3.Concat(*ts) if len(ts) > 1 else ts[0])

    def byterep(self, c, n):
        return self.concat([(c, 8)] * n)

    def unsig(self, a, bits):
        raise Unsupported('unsig in BV')
