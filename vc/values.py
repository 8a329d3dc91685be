"""Symbolic values.  Machine integers: python int (normalised unsigned) or z3 BitVec; bool: python bool or z3 Bool."""
import z3, itertools
z3.set_param('rewriter.bv_le2extract', False)

_cnt = itertools.count()


def fresh_name(p):
    return '%s!%d' % (p, next(_cnt))


def is_c(v):
    return isinstance(v, int)


def bv(v, w):
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    return v


def bl(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def simp(v):
    """simplify a scalar term; collapse to python constants"""
    if isinstance(v, (int, bool)) or v is None:
        return v
    if not isinstance(v, z3.ExprRef):
        return v
    s = z3.simplify(v)
    if z3.is_bv_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def lit(v):
    """cheap collapse"""
    if isinstance(v, z3.ExprRef):
        if z3.is_bv_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def And(*a):
    out = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*a):
    out = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def addends(t):
    return list(t.children()) if t.num_args() and t.decl().kind() == z3.Z3_OP_BADD else [t]


def ite_sum(c, x, y, w):
    """c ? s + d : s  =>  s + (c ? d : 0), for any common part s"""
    ax, ay = addends(x), addends(y)
    cnt = {}
    for t in ay:
        cnt.setdefault(t.get_id(), []).append(t)
    common, rx = [], []
    for t in ax:
        l = cnt.get(t.get_id())
        if l:
            common.append(l.pop())
        else:
            rx.append(t)
    ry = [t for l in cnt.values() for t in l]
    if not common or len(rx) + len(ry) > 3:
        return None

    def add(l):
        if not l:
            return z3.BitVecVal(0, w)
        r = l[0]
        for t in l[1:]:
            r = r + t
        return r
    if not rx and not ry:
        return x
    return z3.simplify(add(common) + z3.If(c, z3.simplify(add(rx)), z3.simplify(add(ry))))


def Ite(c, a, b, w=None):
    """scalar if-then-else"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) if not is_c(a) else isinstance(a, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else Not(c)
        return z3.If(c, bl(a), bl(b))
    if is_c(a) and is_c(b):
        if a == b:
            return a
        if w is None:
            w = 64
        return z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
    if not is_c(a):
        w = a.size()
    else:
        w = b.size()
    x, y = bv(a, w), bv(b, w)
    if x.num_args() and x.decl().kind() == z3.Z3_OP_BADD or y.num_args() and y.decl().kind() == z3.Z3_OP_BADD:
        r = ite_sum(c, x, y, w)
        if r is not None:
            return r
    if x.eq(y):
        return a
    return z3.If(c, x, y)


def cast_int(v, fw, fs, tw):
    """integer conversion from width fw (signed fs) to width tw"""
    if is_c(v):
        if isinstance(v, bool):
            return int(v)
        if tw <= fw:
            return v & mask(tw)
        if fs:
            return sgn(v, fw) & mask(tw)
        return v
    if tw == fw:
        return v
    if tw < fw:
        return lit(z3.simplify(z3.Extract(tw - 1, 0, v)))
    return z3.SignExt(tw - fw, v) if fs else z3.ZeroExt(tw - fw, v)


def b2i(v, w):
    if isinstance(v, bool):
        return int(v)
    if is_c(v):
        return v
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def i2b(v):
    if isinstance(v, bool):
        return v
    if is_c(v):
        return v != 0
    if z3.is_bool(v):
        return v
    if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
        a, b = v.arg(1).as_long() != 0, v.arg(2).as_long() != 0
        if a and not b:
            return v.arg(0)
        if b and not a:
            return z3.Not(v.arg(0))
    return v != z3.BitVecVal(0, v.size())


def arith(op, a, b, w, sg):
    if is_c(a) and is_c(b):
        M = mask(w)
        if op == '+':
            return (a + b) & M
        if op == '-':
            return (a - b) & M
        if op == '*':
            return (a * b) & M
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        if op == '<<':
            return (a << (b % w)) & M if b < w else 0
        if op == '>>':
            if b >= w:
                return 0
            return (sgn(a, w) >> b) & M if sg else a >> b
        if op in ('/', '%'):
            if b == 0:
                return 0
            if sg:
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == '/' else x - q * y) & M
            return a // b if op == '/' else a % b
    # cheap identities
    if op in ('+', '|', '^'):
        if is_c(a) and a == 0:
            return b
        if is_c(b) and b == 0:
            return a
    if op in ('-', '<<', '>>') and is_c(b) and b == 0:
        return a
    if op == '*':
        if (is_c(a) and a == 0) or (is_c(b) and b == 0):
            return 0
        if is_c(a) and a == 1:
            return b
        if is_c(b) and b == 1:
            return a
    if op == '&':
        if (is_c(a) and a == 0) or (is_c(b) and b == 0):
            return 0
        if is_c(a) and a == mask(w):
            return b
        if is_c(b) and b == mask(w):
            return a
    if op == '/' and is_c(b) and b == 1:
        return a
    x, y = bv(a, w), bv(b, w)
    if op == '+':
        r = x + y
    elif op == '-':
        r = x - y
    elif op == '*':
        r = x * y
    elif op == '&':
        r = x & y
    elif op == '|':
        r = x | y
    elif op == '^':
        r = x ^ y
    elif op == '<<':
        r = x << y
    elif op == '>>':
        r = (x >> y) if sg else z3.LShR(x, y)
    elif op == '/':
        r = (x / y) if sg else z3.UDiv(x, y)
    elif op == '%':
        r = z3.SRem(x, y) if sg else z3.URem(x, y)
    else:
        raise NotImplementedError(op)
    return r


def cmp(op, a, b, w, sg):
    if is_c(a) and is_c(b):
        x, y = (sgn(a, w), sgn(b, w)) if sg else (a, b)
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
    x, y = bv(a, w), bv(b, w)
    if x.eq(y):
        return op in ('<=', '>=', '==')
    if op == '==':
        return x == y
    if op == '!=':
        return z3.Not(x == y)
    if sg:
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
    return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](x, y)


# -------------------------------------------------------------------------------- structured values

class Val:
    __slots__ = ()


class Rec(Val):
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty = ty
        self.f = f

    def get(self, n):
        return self.f[n]

    def set(self, n, v):
        g = dict(self.f)
        g[n] = v
        return Rec(self.ty, g)

    def __repr__(self):
        return '%s{%s}' % (getattr(self.ty, 's', self.ty), ', '.join('%s=%s' % (k, short(v)) for k, v in self.f.items()))


def short(v):
    s = repr(v)
    return s if len(s) < 120 else s[:120] + '..'


class LV(Val):
    """location: root id + path of ('f',name) / ('i',idx)"""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def field(self, n):
        return LV(self.root, self.path + (('f', n),))

    def idx(self, i):
        return LV(self.root, self.path + (('i', i),))

    def key(self):
        return (self.root, tuple((k, v if not isinstance(v, z3.ExprRef) else ('t', v.get_id())) for k, v in self.path))

    def __repr__(self):
        return 'LV(%s%s)' % (self.root, ''.join('.%s' % (p[1],) for p in self.path))


class Null(Val):
    def __repr__(self):
        return 'NULL'


NULL = Null()


class Choice(Val):
    """guarded choice between non-mergeable values (pointers, closures...)"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Choice(%s,%r,%r)' % (short(self.c), self.a, self.b)


class Opt(Val):
    __slots__ = ('ty', 'has', 'v')

    def __init__(self, ty, has, v):
        self.ty, self.has, self.v = ty, has, v

    def __repr__(self):
        return 'Opt(%s,%s)' % (short(self.has), short(self.v))


class Iter(Val):
    __slots__ = ('lv', 'i', 'rev')

    def __init__(self, lv, i, rev=False):
        self.lv, self.i, self.rev = lv, i, rev

    def __repr__(self):
        return 'Iter(%r,%s%s)' % (self.lv, short(self.i), ',rev' if self.rev else '')


class Clo(Val):
    __slots__ = ('node', 'tu', 'caps', 'this')

    def __init__(self, node, tu, caps, this):
        self.node, self.tu, self.caps, self.this = node, tu, caps, this


class FnRef(Val):
    __slots__ = ('f', 'tu')

    def __init__(self, f, tu):
        self.f, self.tu = f, tu


class PyFn(Val):
    """callable supplied by a contract: f(interp, st, args)->value"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class Opq(Val):
    """opaque value of a type outside the verified subset, with a ghost payload"""
    __slots__ = ('ty', 'g')

    def __init__(self, ty, g=None):
        self.ty, self.g = ty, g

    def __repr__(self):
        return 'Opq(%s,%s)' % (self.ty, short(self.g))


class Ghost(Val):
    """abstract value carried by a contract model; immutable python payload"""
    __slots__ = ('kind', 'd')

    def __init__(self, kind, d):
        self.kind, self.d = kind, d

    def __repr__(self):
        return 'Ghost(%s,%s)' % (self.kind, short(self.d))


# --- sequences

class E(Val):
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __repr__(self):
        return 'E%s' % (short(self.vals),)


class Base:
    """an abstract infinite array: idx -> value"""
    __slots__ = ('name', 'fn', 'memo', 'tag')

    def __init__(self, name, fn, tag=None):
        self.name = name
        self.fn = fn
        self.memo = {}
        self.tag = tag

    def get(self, i):
        k = i if is_c(i) else ('t', i.get_id())
        r = self.memo.get(k)
        if r is None:
            r = (self.fn(i), i)
            self.memo[k] = r
        return r[0]


class S(Val):
    __slots__ = ('base', 'off', 'len')

    def __init__(self, base, off, ln):
        self.base, self.off, self.len = base, off, ln

    def __repr__(self):
        return 'S(%s,%s,%s)' % (self.base.name, short(self.off), short(self.len))


class C(Val):
    """conditional chunk"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, tuple(a), tuple(b)

    def __repr__(self):
        return 'C(%s,%r,%r)' % (short(self.c), self.a, self.b)


class LGen:
    """iteration-indexed family of chunk lists produced by a loop: gen(k)->chunks; size(k); prefix sums P"""

    def __init__(self, name, gen, unit, tag=None, P=None, pargs=()):
        self.name = name
        self.gen = gen            # python callable k(term)->tuple of chunks
        self.unit = unit          # fixed number of elements per iteration or None
        self.pargs = tuple(pargs)
        if unit is None and P is None:
            P = z3.Function(fresh_name('P_' + name), *([z3.BitVecSort(64)] * (len(self.pargs) + 2)))
        self.P = P
        self.memo = {}
        self.tag = tag

    def chunks(self, k):
        key = k if is_c(k) else ('t', k.get_id())
        r = self.memo.get(key)
        if r is None:
            r = (self.gen(k), k)
            self.memo[key] = r
        return r[0]

    def pre(self, k):
        if self.unit is not None:
            return lit_s(arith('*', k, self.unit, 64, False))
        if is_c(k) and k == 0:
            return 0
        return self.P(*([bv(x, 64) for x in self.pargs] + [bv(k, 64)]))


class L(Val):
    """chunks gen(lo) ++ ... ++ gen(hi-1)"""
    __slots__ = ('g', 'lo', 'hi')

    def __init__(self, g, lo, hi):
        self.g, self.lo, self.hi = g, lo, hi

    def __repr__(self):
        return 'L(%s,%s,%s)' % (self.g.name, short(self.lo), short(self.hi))


def add64(a, b):
    return lit_s(arith('+', a, b, 64, False))


def sub64(a, b):
    return lit_s(arith('-', a, b, 64, False))


_simp_memo = {}


def lit_s(v):
    if is_c(v):
        return v
    if not isinstance(v, z3.ExprRef):
        return v
    k = v.get_id()
    r = _simp_memo.get(k)
    if r is not None:
        return r[0]
    s = simp(v)
    _simp_memo[k] = (s, v)
    return s


def chunk_len(c):
    if isinstance(c, E):
        return len(c.vals)
    if isinstance(c, S):
        return c.len
    if isinstance(c, C):
        return Ite(c.c, chunks_len(c.a), chunks_len(c.b), 64)
    if isinstance(c, L):
        return sub64(c.g.pre(c.hi), c.g.pre(c.lo))
    raise TypeError(c)


def chunks_len(cs):
    n = 0
    for c in cs:
        n = add64(n, chunk_len(c))
    return n


def norm_chunks(cs):
    out = []
    for c in cs:
        if isinstance(c, E):
            if not c.vals:
                continue
            if out and isinstance(out[-1], E):
                out[-1] = E(out[-1].vals + c.vals)
                continue
        elif isinstance(c, S):
            if is_c(c.len) and c.len == 0:
                continue
            if out and isinstance(out[-1], S) and out[-1].base is c.base:
                p = out[-1]
                if sub64(add64(p.off, p.len), c.off) == 0 if is_c(sub64(add64(p.off, p.len), c.off)) else False:
                    out[-1] = S(p.base, p.off, add64(p.len, c.len))
                    continue
        elif isinstance(c, C):
            if c.c is True or c.c is False:
                for x in norm_chunks(c.a if c.c else c.b):
                    out = list(norm_chunks(out + [x]))
                continue
            if not c.a and not c.b:
                continue
        elif isinstance(c, L):
            if same_idx(c.lo, c.hi):
                continue
            if out and isinstance(out[-1], L) and out[-1].g is c.g and same_idx(out[-1].hi, c.lo):
                out[-1] = L(c.g, out[-1].lo, c.hi)
                continue
        out.append(c)
    return tuple(out)


def same_idx(a, b):
    if is_c(a) and is_c(b):
        return a == b
    d = sub64(a, b)
    return is_c(d) and d == 0


class Seq(Val):
    __slots__ = ('ty', 'ch', '_len')

    def __init__(self, ty, ch=()):
        self.ty = ty
        self.ch = norm_chunks(ch)
        self._len = None

    @property
    def len(self):
        if self._len is None:
            self._len = chunks_len(self.ch)
        return self._len

    def conc(self):
        """list of values if length is concrete & fully enumerated, else None"""
        if not self.ch:
            return []
        if len(self.ch) == 1 and isinstance(self.ch[0], E):
            return list(self.ch[0].vals)
        out = []
        for c in self.ch:
            if isinstance(c, E):
                out += c.vals
            elif isinstance(c, S) and is_c(c.len) and c.len <= 4096:
                out += [c.base.get(add64(c.off, i)) for i in range(c.len)]
            else:
                return None
        return out

    def __repr__(self):
        return 'Seq[%s]' % ', '.join(map(repr, self.ch))


# ------------------------------------------------------------------------------ substitution

def tsub(t, ps):
    """substitute in a scalar term; ps: list of (const, term)"""
    if not isinstance(t, z3.ExprRef):
        return t
    return lit(z3.substitute(t, *[(a, bv(b, a.size()) if z3.is_bv(a) else bl(b)) for a, b in ps]))


_sub_memo = {}


def subst(v, ps):
    if v is None or isinstance(v, (int, bool, str, float)):
        return v
    if isinstance(v, z3.ExprRef):
        return tsub(v, ps)
    if isinstance(v, Rec):
        return Rec(v.ty, {k: subst(x, ps) for k, x in v.f.items()})
    if isinstance(v, Seq):
        return Seq(v.ty, subst_chunks(v.ch, ps))
    if isinstance(v, LV):
        return LV(subst_root(v.root, ps), tuple((p[0], subst(p[1], ps)) + tuple(p[2:]) if len(p) > 1 else p for p in v.path))
    if isinstance(v, Choice):
        c = tsub(v.c, ps)
        if c is True:
            return subst(v.a, ps)
        if c is False:
            return subst(v.b, ps)
        return Choice(c, subst(v.a, ps), subst(v.b, ps))
    if isinstance(v, Opt):
        return Opt(v.ty, tsub(v.has, ps), subst(v.v, ps))
    if isinstance(v, Iter):
        return Iter(subst(v.lv, ps), subst(v.i, ps), v.rev)
    if isinstance(v, Clo):
        return Clo(v.node, v.tu, {k: subst(x, ps) for k, x in v.caps.items()}, subst(v.this, ps))
    if isinstance(v, Opq):
        return Opq(v.ty, subst(v.g, ps))
    if isinstance(v, tuple):
        return tuple(subst(x, ps) for x in v)
    if isinstance(v, list):
        return [subst(x, ps) for x in v]
    h = getattr(v, 'subst', None)
    if h is not None:
        return h(ps)
    if isinstance(v, (Null, FnRef, PyFn, Val)):
        return v
    return v


def subst_root(r, ps):
    return tuple(tsub(x, ps) if isinstance(x, z3.ExprRef) else x for x in r)


def free_in(t, consts):
    """does any of the constants occur in the term?"""
    if not isinstance(t, z3.ExprRef):
        return False
    ids = {c.get_id() for c in consts}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        st.extend(x.children())
    return False


def subst_base(b, ps):
    key = (id(b), tuple((a.get_id(), t if is_c(t) else ('t', t.get_id())) for a, t in ps))
    r = _sub_memo.get(key)
    if r is not None:
        return r[0]
    jj = z3.BitVec(fresh_name('jj'), 64)

    def f(i):
        return subst(b.get(jj), list(ps) + [(jj, i)])
    # unchanged if the element term does not mention the substituted constants
    try:
        e = b.get(jj)
        if not mentions(e, [a for a, _ in ps]):
            _sub_memo[key] = (b, b, ps)
            return b
    except Exception:
        pass
    nb = Base(b.name + '@', f)
    _sub_memo[key] = (nb, b, ps)
    return nb


def mentions(v, cs):
    if v is None or isinstance(v, (int, bool, str, float)):
        return False
    if isinstance(v, z3.ExprRef):
        return free_in(v, cs)
    if isinstance(v, Rec):
        return any(mentions(x, cs) for x in v.f.values())
    if isinstance(v, Seq):
        return any(mentions(c, cs) for c in v.ch)
    if isinstance(v, E):
        return any(mentions(x, cs) for x in v.vals)
    if isinstance(v, S):
        if mentions(v.off, cs) or mentions(v.len, cs):
            return True
        jj = z3.BitVec(fresh_name('jj'), 64)
        return mentions(v.base.get(jj), cs)
    if isinstance(v, C):
        return mentions(v.c, cs) or any(mentions(c, cs) for c in v.a + v.b)
    if isinstance(v, L):
        if mentions(v.lo, cs) or mentions(v.hi, cs) or any(mentions(x, cs) for x in v.g.pargs):
            return True
        jj = z3.BitVec(fresh_name('jj'), 64)
        return any(mentions(c, cs) for c in v.g.chunks(jj))
    if isinstance(v, LV):
        return any(mentions(x, cs) for x in v.root) or any(mentions(x, cs) for p in v.path for x in p)
    if isinstance(v, Opt):
        return mentions(v.has, cs) or mentions(v.v, cs)
    if isinstance(v, Choice):
        return mentions(v.c, cs) or mentions(v.a, cs) or mentions(v.b, cs)
    if isinstance(v, Iter):
        return mentions(v.lv, cs) or mentions(v.i, cs)
    if isinstance(v, (tuple, list)):
        return any(mentions(x, cs) for x in v)
    if isinstance(v, Opq):
        return mentions(v.g, cs)
    if isinstance(v, Clo):
        return any(mentions(x, cs) for x in v.caps.values())
    if isinstance(v, (Null, FnRef, PyFn)):
        return False
    h = getattr(v, 'mentions', None)
    if h is not None:
        return h(cs)
    return False


def subst_chunks(ch, ps):
    out = []
    for c in ch:
        if isinstance(c, E):
            out.append(E([subst(x, ps) for x in c.vals]))
        elif isinstance(c, S):
            out.append(S(subst_base(c.base, ps), tsub(c.off, ps), tsub(c.len, ps)))
        elif isinstance(c, C):
            out.append(C(tsub(c.c, ps), subst_chunks(c.a, ps), subst_chunks(c.b, ps)))
        elif isinstance(c, L):
            out.append(L(subst_lgen(c.g, ps), tsub(c.lo, ps), tsub(c.hi, ps)))
    return norm_chunks(out)


def subst_lgen(g, ps):
    key = ('g', id(g), tuple((a.get_id(), t if is_c(t) else ('t', t.get_id())) for a, t in ps))
    r = _sub_memo.get(key)
    if r is not None:
        return r[0]
    jj = z3.BitVec(fresh_name('jj'), 64)
    ch = g.chunks(jj)
    cs = [a for a, _ in ps]
    if not any(mentions(c, cs) for c in ch) and not any(mentions(x, cs) for x in g.pargs):
        _sub_memo[key] = (g, g, ps)
        return g
    ng = LGen(g.name + '@', lambda k: subst_chunks(ch, list(ps) + [(jj, k)]), g.unit, g.tag, g.P, [tsub(x, ps) for x in g.pargs])
    _sub_memo[key] = (ng, g, ps)
    return ng
