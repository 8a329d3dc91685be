"""std::map / set / unordered_map / unordered_set: a finite map as (base, updates).

base: None (empty) or an arbitrary map given by uninterpreted has/value functions of the key;
updates: ('put'|'del', condition, key, value), the last matching one decides.
Iteration over an arbitrary map is not modelled (Unsupported)."""
import z3
from .values import *
from .engine import *
from . import stdlib
from .stdlib import MapV, rd, user_eq


class Map(MapV):
    __slots__ = ('n',)

    def __init__(self, ty, b, ups, n):
        self.ty, self.b, self.ups, self.n = ty, b, tuple(ups), n

    def __repr__(self):
        return 'Map(%s,%d updates)' % (self.b and self.b[0], len(self.ups))

    def subst(self, ps):
        b = self.b
        if b is not None:
            b = (b[0], tuple(subst(x, ps) for x in b[1]))
        return Map(self.ty, b, [tuple(subst(x, ps) for x in u) for u in self.ups], subst(self.n, ps))

    def mentions(self, cs):
        return mentions(self.ups, cs) or mentions(self.n, cs) or (self.b is not None and mentions(self.b[1], cs))


def isset(ty):
    return ty.n in ('std::set', 'std::unordered_set')


def sym(I, ty, name, idxs):
    n = I.leaf(name + '.size', 64, idxs)
    I.axiom(z3.ULE(n, z3.BitVecVal(1 << 40, 64)))
    return Map(ty, (name, tuple(idxs)), [], n)


def empty(I, ty):
    return Map(ty, None, [], 0)


class Bulk:
    """the entries a loop adds to a map in its first k iterations.  in(k,key): one of them has the key; wit(k,key): its iteration"""

    def __init__(self, kk):
        self.name = fresh_name('bulk')
        self.kk = kk
        self.gen = None           # [(condition, key, value)] of iteration kk, once known
        self.uses = []

    def fn(self, what, kb, rng):
        return z3.Function('%s.%s_%d' % (self.name, what, kb.size()), z3.BitVecSort(64), kb.sort(), rng)

    def has(self, I, st, k, kb, kty):
        p = self.fn('in', kb, z3.BoolSort())(bv(k, 64), kb)
        if self.gen is None:
            self.uses.append((k, kb, kty))
        else:
            self.facts(I, st, k, kb, kty)
        return p

    def wit(self, k, kb):
        return z3.Function('W!%s_%d' % (self.name, kb.size()), z3.BitVecSort(64), kb.sort(), z3.BitVecSort(64))(bv(k, 64), kb)

    def at(self, j):
        return [(subst(c, [(self.kk, j)]), subst(x, [(self.kk, j)]), subst(v, [(self.kk, j)])) for c, x, v in self.gen]

    def facts(self, I, st, k, kb, kty):
        f = self.fn('in', kb, z3.BoolSort())
        w = self.wit(k, kb)
        same = lambda x: lit_s(keybits(I, st, x, kty) == kb)
        I.axiom(z3.Implies(f(bv(k, 64), kb), z3.And(z3.ULT(w, bv(k, 64)), bl(Or(*[And(c, same(x)) for c, x, v in self.at(w)])))))
        last = len(self.gen) == 1

        def body(j):
            r = []
            for c, x, v in self.at(j):
                b = keybits(I, st, x, kty)
                r.append(Implies(c, f(bv(k, 64), b)))
                if last:
                    r.append(Implies(And(c, lit_s(b == kb)), z3.ULE(bv(j, 64), w)))
            return r
        st.pc.append(Univ(0, k, body))


def value_at(I, x0, g, k):
    n = z3.Function(g.name + '.n', z3.BitVecSort(64), z3.BitVecSort(64))(bv(k, 64))
    I.axiom(z3.ULE(n, z3.BitVecVal(1 << 40, 64)))
    return Map(x0.ty, x0.b, x0.ups + (('bulk', True, None, (g, k)),), n)


def added(b, before):
    """entries b has beyond before, or None"""
    if not isinstance(b, Map) or len(b.ups) < len(before.ups):
        return None
    for x, y in zip(before.ups, b.ups):
        if x is not y and not (x[0] == y[0] and vsame(x[1], y[1]) and (x[2] is y[2] or vsame(x[2], y[2])) and (x[3] is y[3] or x[0] == 'bulk' and x[3][0] is y[3][0] and same_idx(x[3][1], y[3][1]))):
            return None
    if (b.b is None) != (before.b is None) or b.b is not None and b.b[0] != before.b[0]:
        return None
    ex = b.ups[len(before.ups):]
    if any(u[0] != 'put' for u in ex):
        return None
    return [(u[1], u[2], u[3]) for u in ex]


def keybits(I, st, k, kty):
    from .loops import leaves
    bits = []

    def go(v, ty):
        if isinstance(v, Rec):
            fs = {n: t for n, t, _, _ in I.prog.allfields(ty)} if ty is not None and not ty.n.startswith('std::') else {}
            for n, x in v.f.items():
                go(x, fs.get(n))
            return
        if isinstance(v, Seq):
            c = v.conc()
            if c is None:
                raise Unsupported('map key of unknown length')
            et = I.elem(v.ty)
            bits.append(z3.BitVecVal(len(c), 64))
            for x in c:
                go(x, et)
            return
        if isinstance(v, Val):
            raise Unsupported('map key %s' % short(v))
        if isinstance(v, (bool, z3.BoolRef)):
            bits.append(z3.If(bl(v), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
            return
        w = v.size() if not is_c(v) else (ty.width if ty is not None and ty.isint else 64)
        bits.append(bv(v, w))
    go(k, kty)
    return z3.simplify(z3.Concat(*bits) if len(bits) > 1 else bits[0])


def base_fn(I, b, what, kb, rng):
    name, idxs = b
    f = z3.Function('%s.%s_%d' % (name, what, kb.size()), *([z3.BitVecSort(64)] * len(idxs) + [kb.sort(), rng]))
    return f(*([bv(i, 64) for i in idxs] + [kb]))


def has(I, st, m, k):
    r = False
    if m.b is not None:
        r = base_fn(I, m.b, 'has', keybits(I, st, k, m.ty.arg(0)), z3.BoolSort())
    for kind, c, uk, uv in m.ups:
        if kind == 'bulk':
            r = Or(And(c, uv[0].has(I, st, uv[1], keybits(I, st, k, m.ty.arg(0)), m.ty.arg(0))), r)
            continue
        hit = And(c, user_eq(I, st, uk, k))
        r = Ite(hit, kind == 'put', r) if not (hit is False) else r
    return lit_s(r)


def get(I, st, m, k):
    vt = m.ty.arg(1) if not isset(m.ty) else None
    if vt is None:
        return k
    r = None
    if m.b is not None:
        kb = keybits(I, st, k, m.ty.arg(0))
        i = base_fn(I, m.b, 'at', kb, z3.BitVecSort(64))
        r = I.sym(vt, m.b[0] + '.val', tuple(m.b[1]) + (i,))
        # the value of a key is identified by the key alone: 'at' is injective on keys by congruence of its result
    for kind, c, uk, uv in m.ups:
        if kind == 'del':
            continue
        if kind == 'bulk':
            g, n = uv
            if g.gen is None or len(g.gen) != 1:
                raise Unsupported('value of a map entry added by a loop')
            kb = keybits(I, st, k, m.ty.arg(0))
            hit = lit_s(And(c, g.has(I, st, n, kb, m.ty.arg(0))))
            uv = g.at(g.wit(n, kb))[0][2]
            r = uv if r is None else I.mval(hit, uv, r, vt)
            continue
        hit = lit_s(And(c, user_eq(I, st, uk, k)))
        if hit is False:
            continue
        if hit is True or r is None:
            r = uv
        else:
            r = I.mval(hit, uv, r, vt)
    if r is None:
        r = I.zero(vt)
    return r


def put(I, st, m, k, x, c=True):
    h = has(I, st, m, k)
    n = add64(m.n, Ite(And(c, Not(h)), 1, 0)) if not (h is True) else m.n
    return Map(m.ty, m.b, m.ups + (('put', c, k, x),), lit_s(n))


def erase(I, st, m, k):
    h = has(I, st, m, k)
    return Map(m.ty, m.b, m.ups + (('del', True, k, None),), lit_s(sub64(m.n, Ite(h, 1, 0)))), h


def eq(I, st, a, b, goal):
    if a is b:
        return True
    if a.b == b.b and len(a.ups) == len(b.ups) and all(vsame(x[1], y[1]) and x[0] == y[0] and vsame(x[2], y[2]) and (x[3] is y[3] or vsame(x[3], y[3])) for x, y in zip(a.ups, b.ups)):
        return True
    raise Unsupported('comparison of maps')


def merge(I, c, a, b):
    if a is b:
        return a
    if (a.b is None) != (b.b is None) or (a.b is not None and (a.b[0] != b.b[0] or not all(vsame(x, y) for x, y in zip(a.b[1], b.b[1])))):
        raise Unsupported('merge of different maps')
    i = 0
    while i < len(a.ups) and i < len(b.ups) and a.ups[i] is b.ups[i]:
        i += 1
    ups = a.ups[:i] + tuple((u[0], lit_s(And(c, u[1])), u[2], u[3]) for u in a.ups[i:]) + tuple((u[0], lit_s(And(Not(c), u[1])), u[2], u[3]) for u in b.ups[i:])
    return Map(a.ty, a.b, ups, I.mval(c, a.n, b.n, None))


def insert_value(I, st, lv, v):
    m = I.read(st, lv)
    v = rd(I, st, v)
    if isset(m.ty):
        I.write(st, lv, put(I, st, m, v, True))
    else:
        k = v.f['first']
        I.write(st, lv, put(I, st, m, k, v.f['second'], Not(has(I, st, m, k))))


class It(stdlib.SetIt):
    """iterator: (container, key, valid) - end() has valid False"""
    __slots__ = ('lv', 'k', 'valid')

    def __init__(self, lv, k, valid):
        self.lv, self.k, self.valid = lv, k, valid

    def eq(self, I, st, o):
        if not isinstance(o, It):
            raise Unsupported('map iterator comparison')
        if self.k is None and o.k is None:
            return True
        if self.k is None:
            return Not(o.valid)
        if o.k is None:
            return Not(self.valid)
        return And(I.beq(self.valid, o.valid), Implies(self.valid, user_eq(I, st, self.k, o.k)))

    def deref(self, I, st):
        m = I.read(st, self.lv)
        if I.check_safety:
            I.safe(st, 'map-iterator-dereference', self.valid, 0)
        if isset(m.ty):
            return I.new(st, m.ty.arg(0), self.k, 'key')
        return self

    def field(self, I, st, n):
        m = I.read(st, self.lv)
        if n == 'first':
            return I.new(st, m.ty.arg(0), self.k, 'key')
        return LV(self.lv.root, self.lv.path + (('m', self.k),))

    def subst(self, ps):
        return It(subst(self.lv, ps), subst(self.k, ps), subst(self.valid, ps))

    def mentions(self, cs):
        return mentions(self.k, cs) or mentions(self.valid, cs)


def construct(I, st, t, args, ptys):
    if not args or ptys[0].k != 'rec' and ptys[0].k != 'ref':
        return empty(I, t)
    v = rd(I, st, args[0])
    if isinstance(v, Map):
        return v
    if isinstance(v, Seq):
        c = v.conc()
        if c is not None:
            m = empty(I, t)
            for x in c:
                x = rd(I, st, x)
                m = put(I, st, m, x if isset(t) else x.f['first'], True if isset(t) else x.f['second'])
            return m
    if isinstance(v, Iter) or isinstance(v, LV):
        ch, _ = stdlib.range_chunks(I, st, v, rd(I, st, args[1]))
        s = Seq(t, ch)
        c = s.conc()
        if c is not None:
            m = empty(I, t)
            for x in c:
                m = put(I, st, m, x if isset(t) else x.f['first'], True if isset(t) else x.f['second'])
            return m
    raise Unsupported('construction of %s' % t.s)


def method(I, st, rec, m, this, args, ptys, ci):
    if isinstance(this, It):
        return itmethod(I, st, m, this, args, ptys, ci)
    cur = I.read(st, this) if isinstance(this, LV) else this
    if isinstance(cur, It):
        return itmethod(I, st, m, this, args, ptys, ci)
    if not isinstance(cur, Map):
        raise Unsupported('map method %s on %s' % (m, short(cur)))
    s = isset(cur.ty)
    if m in ('size',):
        return cur.n
    if m == 'empty':
        return lit_s(cmp('==', cur.n, 0, 64, False))
    if m == 'clear':
        I.write(st, this, empty(I, cur.ty))
        return None
    if m in ('count', 'contains'):
        h = has(I, st, cur, rd(I, st, args[0]))
        return lit_s(h) if m == 'contains' else Ite(h, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) if not isinstance(h, bool) else int(h)
    if m == 'find':
        k = rd(I, st, args[0])
        return It(this, k, has(I, st, cur, k))
    if m in ('end', 'cend'):
        return It(this, None, False)
    if m in ('begin', 'cbegin'):
        if cur.b is None and not cur.ups:
            return It(this, None, False)
        raise Unsupported('iteration over a map')
    if m == 'operator[]':
        k = rd(I, st, args[0])
        h = has(I, st, cur, k)
        if h is not True:
            vt = cur.ty.arg(1)
            z = I.zero(vt)
            x = get(I, st, cur, k) if h is not False else None
            I.write(st, this, put(I, st, cur, k, z if h is False else I.mval(h, x, z, vt)))
        return LV(this.root, this.path + (('m', k),))
    if m == 'at':
        k = rd(I, st, args[0])
        h = has(I, st, cur, k)
        if h is not True:
            stdlib.throw_oor(I, st, Not(h))
        return LV(this.root, this.path + (('m', k),))
    if m in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
        if m == 'insert' and len(args) == 2:
            raise Unsupported('range insert into a map')
        if s:
            k = rd(I, st, args[0])
            x = True
        elif len(args) == 1:
            p = rd(I, st, args[0])
            k, x = p.f['first'], p.f['second']
        else:
            k, x = rd(I, st, args[0]), rd(I, st, args[1])
            if isinstance(k, LV):
                k = I.read(st, k)
        h = has(I, st, cur, k)
        if s or m == 'insert_or_assign' or h is False:
            nm = put(I, st, cur, k, x)
        else:
            nm = put(I, st, cur, k, x, Not(h))
        I.write(st, this, nm)
        return Rec(ci.rt, {'first': It(this, k, True), 'second': Not(h)}) if ci.rt.n == 'std::pair' else It(this, k, True)
    if m == 'erase':
        a = args[0]
        if isinstance(a, LV) and isinstance(I.read(st, a), It):
            a = I.read(st, a)
        if isinstance(a, It):
            nm, h = erase(I, st, cur, a.k)
            I.write(st, this, nm)
            return None
        nm, h = erase(I, st, cur, rd(I, st, a))
        I.write(st, this, nm)
        return Ite(h, 1, 0) if isinstance(h, bool) else lit_s(z3.If(h, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
    if m in ('reserve',):
        return None
    if m == 'operator=':
        v = rd(I, st, args[0])
        if isinstance(v, Map):
            I.write(st, this, Map(cur.ty, v.b, v.ups, v.n))
            return this
    raise Unsupported('map method %s' % m)


def itmethod(I, st, m, this, args, ptys, ci):
    it = I.read(st, this) if isinstance(this, LV) else this
    if m in ('operator*', 'operator->'):
        return it.deref(I, st)
    if m == 'operator==':
        return it.eq(I, st, rd(I, st, args[0]) if not isinstance(args[0], It) else args[0])
    if m == 'operator!=':
        return Not(it.eq(I, st, rd(I, st, args[0]) if not isinstance(args[0], It) else args[0]))
    raise Unsupported('map iterator %s' % m)
