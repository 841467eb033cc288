"""Textual LLVM IR (LLVM 18, opaque pointers) reader.

Function bodies are parsed lazily.  Nothing here interprets the program; the
executor (sym.py) gives the semantics."""
import os
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"])*")
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![a-zA-Z_.0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<id>[a-zA-Z_.$][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def lex(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\n':
            pos += 1
            continue
        if c == ';':
            nl = s.find('\n', pos)
            if nl < 0:
                break
            pos = nl
            continue
        if s.startswith('...', pos):
            out.append('...')
            pos += 3
            continue
        m = TOK.match(s, pos)
        if not m:
            raise ValueError('lex: ' + s[pos:pos + 60])
        t = m.group(0)
        out.append(t)
        pos = m.end()
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'e', 'packed', 'name', '_size', '_align', '_offs')

    def __init__(self, k, n=0, e=None, packed=False, name=None):
        self.k = k
        self.n = n
        self.e = e
        self.packed = packed
        self.name = name
        self._size = None
        self._align = None
        self._offs = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'named':
            return '%' + self.name
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.e)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.e))
        return self.k


VOID = Ty('void')
PTR = Ty('ptr')
_ints = {}


def INT(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty('int', n)
    return t


FLOAT = Ty('float')
DOUBLE = Ty('double')
X86 = Ty('x86_fp80')
META = Ty('metadata')
LABEL = Ty('label')
TOKEN = Ty('token')
SIMPLE = {'void': VOID, 'ptr': PTR, 'float': FLOAT, 'double': DOUBLE, 'x86_fp80': X86,
          'metadata': META, 'label': LABEL, 'token': TOKEN, 'half': Ty('half'), 'opaque': Ty('opaque')}


def name_of(t):
    t = t[1:]
    if t.startswith('"'):
        t = t[1:-1]
        if '\\' in t:
            t = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), t)
    return t


PARAM_ATTRS = {
    'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext',
    'inreg', 'returned', 'nofree', 'immarg', 'swiftself', 'noreturn', 'nest', 'allocptr', 'writable',
    'dead_on_unwind', 'allocalign', 'inrange'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype',
                   'byref', 'preallocated', 'inalloca', 'nofpclass', 'alignstack', 'captures', 'initializes', 'range'}
CCONV = {'fastcc', 'ccc', 'coldcc', 'tailcc', 'cc'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
           'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized'}


class Instr:
    __slots__ = ('op', 'dest', 'ty', 'a', 'dbg', 'flags')

    def __init__(self, op, dest, ty, a, flags=()):
        self.op = op
        self.dest = dest
        self.ty = ty
        self.a = a
        self.flags = flags
        self.dbg = None

    def __repr__(self):
        return '%s = %s %r %r' % (self.dest, self.op, self.ty, self.a)


# operands: ('r',name) ('i',int) ('null',) ('g',name) ('z',ty) ('undef',ty) ('agg',[(ty,op)]) ('str',bytes)
#           ('ce',op,args...) ('f',ty,bits) ('meta',) ('b',bool)


class P:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        if not self.acc(x):
            raise ValueError('expected %s got %r in %s' % (x, self.t[self.i:self.i + 8], ' '.join(self.t[:60])))

    def skip_balanced(self):
        """skip a (...) group, cursor on '('"""
        d = 0
        while True:
            x = self.next()
            if x in '([{':
                d += 1
            elif x in ')]}':
                d -= 1
                if d == 0:
                    return

    def type(self):
        x = self.next()
        t = None
        if x in SIMPLE:
            t = SIMPLE[x]
            if x == 'ptr' and self.peek() == 'addrspace':
                self.next()
                self.skip_balanced()
        elif x[0] == 'i' and x[1:].isdigit():
            t = INT(int(x[1:]))
        elif x == '[':
            n = int(self.next())
            self.exp('x')
            e = self.type()
            self.exp(']')
            t = Ty('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                t = self._struct(True)
                self.exp('>')
            else:
                n = int(self.next())
                self.exp('x')
                e = self.type()
                self.exp('>')
                t = Ty('vec', n, e)
        elif x == '{':
            t = self._struct(False)
        elif x[0] == '%':
            t = Ty('named', name=name_of(x))
        else:
            raise ValueError('type? %r in %s' % (x, ' '.join(self.t[:40])))
        # function type
        while self.peek() == '(' and self._looks_fnty():
            self.skip_balanced()
            t = Ty('fn', e=t)
        return t

    def _looks_fnty(self):
        # only used after a complete type; '(' here always starts a function type (callers handle others)
        return True

    def _struct(self, packed):
        es = []
        if not self.acc('}'):
            while True:
                es.append(self.type())
                if self.acc('}'):
                    break
                self.exp(',')
        return Ty('struct', e=es, packed=packed)

    def attrs(self):
        res = {}
        while True:
            x = self.peek()
            if x is None:
                return res
            if x in PARAM_ATTRS:
                self.next()
                res[x] = True
            elif x in PARAM_ATTRS_ARG:
                self.next()
                if self.peek() == '(':
                    j = self.i
                    self.skip_balanced()
                    res[x] = self.t[j + 1:self.i - 1]
                else:
                    res[x] = self.next()
            elif x[0] == '"':
                self.next()
                if self.acc('='):
                    self.next()
            elif x[0] == '#':
                self.next()
            else:
                return res

    def value(self, ty):
        x = self.next()
        c = x[0]
        if c == '%':
            return ('r', name_of(x))
        if c == '@':
            return ('g', name_of(x))
        if x == 'null':
            return ('null',)
        if x == 'true':
            return ('b', True)
        if x == 'false':
            return ('b', False)
        if x in ('undef', 'poison'):
            return ('undef', ty)
        if x == 'zeroinitializer':
            return ('z', ty)
        if x == 'none':
            return ('undef', ty)
        if ty.k in ('float', 'double', 'x86_fp80', 'half'):
            return ('f', ty, x)
        if c.isdigit() or c == '-':
            if x.startswith('0x'):
                return ('f', ty, x)
            return ('i', int(x))
        if c == 'c' and x.startswith('c"'):
            s = x[2:-1]
            b = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ('str', bytes(b))
        if c in '[{<':
            close = {'[': ']', '{': '}', '<': '>'}[c]
            inner = None
            if c == '<' and self.peek() == '{':
                self.next()
                inner = '}'
            es = []
            end = inner or close
            if not self.acc(end):
                while True:
                    t = self.type()
                    es.append((t, self.value(t)))
                    if self.acc(end):
                        break
                    self.exp(',')
            if inner:
                self.exp('>')
            return ('agg', es)
        if x == '!':
            return ('meta',)
        if c == '!':
            if self.peek() == '(':
                self.skip_balanced()
            return ('meta',)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
                self.next()
            self.exp('(')
            bt = self.type()
            args = []
            while self.acc(','):
                while self.peek() == 'inrange':
                    self.next()
                    if self.peek() == '(':
                        self.skip_balanced()
                t = self.type()
                args.append((t, self.value(t)))
            self.exp(')')
            return ('ce', 'gep', bt, args)
        if x in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.exp('(')
            t = self.type()
            v = self.value(t)
            self.exp('to')
            t2 = self.type()
            self.exp(')')
            return ('ce', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'xor', 'shl', 'icmp'):
            while self.peek() in ('nsw', 'nuw', 'eq', 'ne', 'ult', 'ugt', 'slt', 'sgt'):
                fl = self.next()
            self.exp('(')
            t = self.type()
            v = self.value(t)
            self.exp(',')
            t2 = self.type()
            v2 = self.value(t2)
            self.exp(')')
            return ('ce', 'bin', x, t, v, v2)
        raise ValueError('value? %r in %s' % (x, ' '.join(self.t[:60])))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Block:
    __slots__ = ('name', 'ins', 'phis')

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.phis = []


class Func:
    def __init__(self, mod, name, head, body, linkage):
        self.mod = mod
        self.name = name
        self.head = head
        self.bodytext = body
        self.blocks = None
        self.params = None
        self.linkage = linkage
        self.loops = None
        self.vararg = False
        self._parse_head()

    def _parse_head(self):
        p = P(self.mod, lex(self.head))
        p.next()  # define/declare
        while True:
            x = p.peek()
            if x in LINKAGE or x in CCONV:
                p.next()
                if p.peek() == '(':
                    p.skip_balanced()
            elif x in PARAM_ATTRS or x in PARAM_ATTRS_ARG:
                p.attrs()
            else:
                break
        # return type; careful: fn type handling would swallow '('; use save
        self.ret = self._rettype(p)
        p.next()  # @name
        p.exp('(')
        self.params = []
        if not p.acc(')'):
            n = 0
            while True:
                if p.acc('...'):
                    self.vararg = True
                    p.exp(')')
                    break
                t = p.type()
                at = p.attrs()
                nm = str(n)
                if p.peek() and p.peek()[0] == '%':
                    nm = name_of(p.next())
                self.params.append((t, nm, at))
                n += 1
                if p.acc(')'):
                    break
                p.exp(',')
        rest = ' '.join(p.t[p.i:])
        self.attr_groups = [t for t in p.t[p.i:] if t[0] == '#']
        self.personality = 'personality' in p.t[p.i:]

    def _rettype(self, p):
        return p.type()

    def parse(self):
        if self.blocks is not None:
            return self
        blocks = {}
        order = []
        cur = None
        lines = self.bodytext
        i = 0
        n = len(lines)
        # entry label implicit
        cnt_entry = str(len(self.params))
        first = True
        while i < n:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if ln[0] not in ' \t':
                # label
                j = s.find(':')
                lab = s[:j]
                if s[0] == '"':
                    k = s.index('"', 1)
                    lab = s[1:k]
                cur = Block(lab)
                blocks[lab] = cur
                order.append(lab)
                first = False
                continue
            if first:
                cur = Block(cnt_entry)
                blocks[cnt_entry] = cur
                order.append(cnt_entry)
                first = False
            # join multi-line (switch, landingpad, invoke)
            if s.startswith('switch') or ' = switch' in s:
                while not self._sw_done(s):
                    s += ' ' + lines[i].strip()
                    i += 1
            if 'landingpad' in s:
                while i < n and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    s += ' ' + lines[i].strip()
                    i += 1
            if re.search(r'(^|= )invoke ', s):
                while ' unwind label ' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            ins = parse_instr(self.mod, s)
            if ins is None:
                continue
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        self.blocks = blocks
        self.order = order
        self.entry = order[0]
        self._loops()
        return self

    @staticmethod
    def _sw_done(s):
        j = s.find('[')
        return j >= 0 and ']' in s[j:]

    def succs(self, b):
        t = self.blocks[b].ins[-1]
        if t.op == 'br':
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[1]] + [l for _, l in t.a[2]]
        if t.op == 'invoke':
            return [t.a['normal'], t.a['unwind']]
        return []

    def _loops(self):
        """natural loops: header -> set(blocks)"""
        succ = {b: self.succs(b) for b in self.order}
        # rpo
        seen = set()
        post = []
        st = [(self.entry, iter(succ[self.entry]))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x in body:
                            continue
                        body.add(x)
                        wl.extend(pred[x])
        self.loops = loops
        # innermost-loop nesting: block -> headers containing it
        self.inloops = {}
        for h, body in loops.items():
            for b in body:
                self.inloops.setdefault(b, []).append(h)


FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}


def parse_instr(mod, s):
    toks = lex(s)
    dbg = None
    # strip trailing metadata:  , !dbg !12, !tbaa !5
    k = 0
    n = len(toks)
    cut = n
    for j in range(n - 1):
        if toks[j] == ',' and toks[j + 1][0] == '!' and len(toks[j + 1]) > 1 and toks[j + 1][1].isalpha():
            cut = j
            break
    for j in range(cut, n):
        if toks[j] == '!dbg' and j + 1 < n:
            dbg = toks[j + 1][1:]
    p = P(mod, toks[:cut])
    dest = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        dest = name_of(p.next())
        p.next()
    op = p.next()
    ins = _instr(p, op, dest)
    if ins is not None:
        ins.dbg = dbg
    return ins


def _instr(p, op, dest):
    if op in BINOPS:
        fl = []
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint') or p.peek() in FMF:
            fl.append(p.next())
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        return Instr(op, dest, t, (a, b), tuple(fl))
    if op == 'fneg':
        while p.peek() in FMF:
            p.next()
        t, a = p.tv()
        return Instr(op, dest, t, (a,))
    if op in ('icmp', 'fcmp'):
        while p.peek() in FMF:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        return Instr(op, dest, t, (pred, a, b))
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t, a = p.tv()
        p.exp('to')
        t2 = p.type()
        return Instr(op, dest, t2, (t, a))
    if op == 'load':
        at = False
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        t = p.type()
        p.exp(',')
        _, a = p.tv()
        return Instr(op, dest, t, (a,))
    if op == 'store':
        while p.peek() in ('atomic', 'volatile'):
            p.next()
        t, v = p.tv()
        p.exp(',')
        _, a = p.tv()
        return Instr(op, dest, t, (v, a))
    if op == 'alloca':
        p.acc('inalloca')
        t = p.type()
        cnt = None
        if p.acc(','):
            if p.peek() not in ('align', 'addrspace'):
                ct = p.type()
                cnt = (ct, p.value(ct))
        return Instr(op, dest, t, (cnt,))
    if op == 'getelementptr':
        fl = []
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            fl.append(p.next())
        bt = p.type()
        args = []
        while p.acc(','):
            p.acc('inrange')
            args.append(p.tv())
        return Instr('gep', dest, bt, args, tuple(fl))
    if op == 'phi':
        while p.peek() in FMF:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.value(t)
            p.exp(',')
            lab = name_of(p.next())
            p.exp(']')
            inc.append((v, lab))
            if not p.acc(','):
                break
        return Instr('phi', dest, t, {l: v for v, l in inc})
    if op == 'br':
        if p.acc('label'):
            return Instr('br', None, None, (name_of(p.next()),))
        t, c = p.tv()
        p.exp(',')
        p.exp('label')
        a = name_of(p.next())
        p.exp(',')
        p.exp('label')
        b = name_of(p.next())
        return Instr('br', None, None, (c, a, b))
    if op == 'switch':
        t, c = p.tv()
        p.exp(',')
        p.exp('label')
        d = name_of(p.next())
        p.exp('[')
        cases = []
        while not p.acc(']'):
            ct, cv = p.tv()
            p.exp(',')
            p.exp('label')
            cases.append((cv[1], name_of(p.next())))
        return Instr('switch', None, t, (c, d, cases))
    if op == 'ret':
        if p.acc('void'):
            return Instr('ret', None, None, ())
        t, v = p.tv()
        return Instr('ret', None, t, (v,))
    if op == 'unreachable':
        return Instr(op, None, None, ())
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in ('call', 'invoke'):
        while p.peek() in FMF or p.peek() in CCONV:
            x = p.next()
        p.attrs()
        while p.peek() in CCONV:
            p.next()
        rt = call_rettype(p)
        callee = p.value(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                t = p.type()
                at = p.attrs()
                v = p.value(t) if t.k != 'metadata' else _meta(p)
                args.append((t, v, at))
                if p.acc(')'):
                    break
                p.exp(',')
        a = {'callee': callee, 'args': args}
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.exp('to')
            p.exp('label')
            a['normal'] = name_of(p.next())
            p.exp('unwind')
            p.exp('label')
            a['unwind'] = name_of(p.next())
        return Instr(op, dest, rt, a)
    if op == 'landingpad':
        t = p.type()
        cl = []
        while p.peek() is not None:
            x = p.next()
            if x == 'cleanup':
                cl.append(('cleanup',))
            elif x in ('catch', 'filter'):
                ct, cv = p.tv()
                cl.append((x, cv))
        return Instr(op, dest, t, cl)
    if op == 'resume':
        t, v = p.tv()
        return Instr(op, None, t, (v,))
    if op == 'extractvalue':
        t, v = p.tv()
        idx = []
        while p.acc(','):
            idx.append(int(p.next()))
        return Instr(op, dest, t, (v, idx))
    if op == 'insertvalue':
        t, v = p.tv()
        p.exp(',')
        t2, v2 = p.tv()
        idx = []
        while p.acc(','):
            idx.append(int(p.next()))
        return Instr(op, dest, t, (v, t2, v2, idx))
    if op == 'select':
        while p.peek() in FMF:
            p.next()
        ct, c = p.tv()
        p.exp(',')
        t, a = p.tv()
        p.exp(',')
        t2, b = p.tv()
        return Instr(op, dest, t, (c, a, b))
    if op == 'freeze':
        t, v = p.tv()
        return Instr(op, dest, t, (v,))
    if op == 'atomicrmw':
        p.acc('volatile')
        o = p.next()
        _, a = p.tv()
        p.exp(',')
        t, v = p.tv()
        return Instr(op, dest, t, (o, a, v))
    if op == 'cmpxchg':
        p.acc('weak')
        p.acc('volatile')
        _, a = p.tv()
        p.exp(',')
        t, c = p.tv()
        p.exp(',')
        t2, nv = p.tv()
        return Instr(op, dest, t, (a, c, nv))
    if op == 'fence':
        return Instr('nop', None, None, ())
    if op == 'va_arg':
        return Instr('va_arg', dest, None, ())
    return Instr('unsupported:' + op, dest, None, ())


def call_rettype(p):
    # "T (args...) @f(" or "T @f("
    t = p.type()
    if t.k == 'fn':
        return t.e
    return t


def _meta(p):
    # metadata operand: skip until , or ) at depth 0
    d = 0
    while True:
        x = p.peek()
        if d == 0 and x in (',', ')'):
            return ('meta',)
        p.next()
        if x in ('(', '[', '{'):
            d += 1
        elif x in (')', ']', '}'):
            d -= 1


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'linkage', 'text', 'mod')


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.typetext = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.gtext = {}
        self.aliases = {}
        self.meta = {}
        self._loc = {}
        with open(path) as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        re_fn = re.compile(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(')
        while i < n:
            ln = lines[i]
            if not ln:
                i += 1
                continue
            c = ln[0]
            if c == 'd' and ln.startswith('define'):
                m = re_fn.search(ln)
                name = name_of('@' + m.group(1))
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs[name] = (ln[:ln.rindex('{')], lines[i + 1:j])
                i = j + 1
                continue
            if c == 'd' and ln.startswith('declare'):
                m = re_fn.search(ln)
                self.decls[name_of('@' + m.group(1))] = ln
            elif c == '%':
                j = ln.index(' = type ')
                self.typetext[name_of(ln[:j])] = ln[j + 8:]
            elif c == '@':
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ', ln)
                self.gtext[name_of(m.group(1))] = ln[m.end():]
            elif c == '!':
                j = ln.find(' = ')
                self.meta[ln[1:j]] = ln[j + 3:]
            i += 1

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            return None
        if isinstance(f, tuple):
            f = Func(self, name, f[0], f[1], None)
            self.funcs[name] = f
        f.parse()
        return f

    def resolve(self, t):
        while t.k == 'named':
            r = self.types.get(t.name)
            if r is None:
                tx = self.typetext[t.name]
                if tx.startswith('opaque'):
                    r = Ty('struct', e=[])
                else:
                    r = P(self, lex(tx)).type()
                self.types[t.name] = r
            t = r
        return t

    def size(self, t):
        if t._size is None:
            self._layout(t)
        return t._size

    def align(self, t):
        if t._align is None:
            self._layout(t)
        return t._align

    def offsets(self, t):
        t = self.resolve(t)
        if t._offs is None:
            self._layout(t)
        return t._offs

    def _layout(self, t0):
        t = self.resolve(t0)
        k = t.k
        if k == 'int':
            b = (t.n + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            s, al = a if t.n <= 64 else (b + a - 1) // a * a, a
        elif k == 'ptr':
            s, al = 8, 8
        elif k == 'float':
            s, al = 4, 4
        elif k == 'double':
            s, al = 8, 8
        elif k == 'x86_fp80':
            s, al = 16, 16
        elif k == 'half':
            s, al = 2, 2
        elif k == 'arr':
            s, al = self.size(t.e) * t.n, self.align(t.e)
        elif k == 'vec':
            s = self.size(t.e) * t.n
            al = s
        elif k == 'struct':
            off = 0
            al = 1
            offs = []
            for e in t.e:
                ea = 1 if t.packed else self.align(e)
                es = self.size(e)
                off = (off + ea - 1) // ea * ea
                offs.append(off)
                off += es
                al = max(al, ea)
            s = (off + al - 1) // al * al
            t._offs = offs
        elif k in ('fn', 'void', 'opaque', 'label', 'metadata', 'token'):
            s, al = 1, 1
        else:
            raise ValueError('layout ' + repr(t))
        t._size = s
        t._align = al
        t0._size = s
        t0._align = al

    def glob(self, name):
        g = self.globals.get(name)
        if g is not None:
            return g
        tx = self.gtext.get(name)
        if tx is None:
            return None
        toks = lex(tx)
        # strip trailing section/comdat/align
        p = P(self, toks)
        g = Global()
        g.name = name
        g.mod = self
        g.init = None
        g.const = False
        ext = False
        alias = False
        while True:
            x = p.peek()
            if x in LINKAGE:
                if x in ('external', 'extern_weak'):
                    ext = True
                p.next()
                if p.peek() == '(':
                    p.skip_balanced()
            elif x == 'addrspace':
                p.next()
                p.skip_balanced()
            elif x == 'constant':
                g.const = True
                p.next()
                break
            elif x == 'global':
                p.next()
                break
            elif x == 'alias':
                alias = True
                p.next()
                break
            else:
                raise ValueError('global? ' + tx[:80])
        g.ty = p.type()
        if alias:
            p.exp(',')
            t, v = p.tv()
            g.init = v
            g.linkage = 'alias'
        else:
            g.linkage = 'external' if ext else 'def'
            if not ext:
                g.init = p.value(g.ty)
        self.globals[name] = g
        return g

    def srcfile(self, fname):
        """file the function is defined in"""
        f = self.funcs.get(fname)
        r = getattr(f, '_srcfile', None)
        if r is None:
            r = '?'
            for b in f.blocks.values():
                for i in b.ins:
                    if i.dbg is not None and r == '?':
                        m = self.meta.get(i.dbg) or ''
                        q = re.search(r'scope: !(\d+)', m)
                        hops = 0
                        while q and hops < 30:
                            ms = self.meta.get(q.group(1), '')
                            fl = re.search(r'file: !(\d+)', ms)
                            if fl and 'DISubprogram' in ms:
                                nm = re.search(r'filename: "([^"]*)"', self.meta.get(fl.group(1), ''))
                                r = nm.group(1) if nm else '?'
                                dr = re.search(r'directory: "([^"]*)"', self.meta.get(fl.group(1), ''))
                                if dr and r != '?':
                                    r = os.path.normpath(os.path.join(dr.group(1), r))
                                break
                            q = re.search(r'scope: !(\d+)', ms)
                            hops += 1
                if r != '?':
                    break
            f._srcfile = r
        return r

    def loc(self, dbg):
        if dbg is None:
            return None
        r = self._loc.get(dbg)
        if r is not None:
            return r
        m = self.meta.get(dbg)
        r = '?'
        if m:
            a = re.search(r'line: (\d+)', m)
            sc = re.search(r'scope: !(\d+)', m)
            fn = '?'
            hops = 0
            while sc and hops < 20:
                ms = self.meta.get(sc.group(1), '')
                f = re.search(r'file: !(\d+)', ms)
                if f:
                    mf = self.meta.get(f.group(1), '')
                    q = re.search(r'filename: "([^"]*)"', mf)
                    if q:
                        fn = q.group(1)
                        break
                sc = re.search(r'scope: !(\d+)', ms)
                hops += 1
            r = '%s:%s' % (fn, a.group(1) if a else '?')
        self._loc[dbg] = r
        return r
