"""Deductive verification-condition generator: symbolic execution of the extracted AST with state merging,
checked recurrence-style loop invariants, contracts at call boundaries, SMT discharge."""
import z3, itertools, time, sys
from .values import *
from .prog import Program, norm, ExtractError

sys.setrecursionlimit(20000)


class Dead(Exception):
    """normal continuation infeasible"""


class Unsupported(Exception):
    pass


class Timeout(Exception):
    pass


class Univ:
    """pc element: forall k in [lo,hi): conjunction of body(k) (terms or nested Univ)"""
    __slots__ = ('lo', 'hi', 'body', 'memo')

    def __init__(self, lo, hi, body):
        self.lo, self.hi, self.body = lo, hi, body
        self.memo = {}

    def inst(self, k):
        key = k if is_c(k) else ('t', k.get_id())
        r = self.memo.get(key)
        if r is None:
            g = And(cmp('>=', k, self.lo, 64, False), cmp('<', k, self.hi, 64, False))
            r = (guard_items(g, self.body(k)), k)
            self.memo[key] = r
        return r[0]

    def subst(self, ps):
        jj = z3.BitVec(fresh_name('uj'), 64)
        cell = []

        def body(k):
            if not cell:
                cell.append(self.body(jj))
            return subst(cell[0], list(ps) + [(jj, k)])
        return Univ(tsub(self.lo, ps), tsub(self.hi, ps), body)


def guard_items(g, items):
    if g is True:
        return list(items)
    if g is False:
        return []
    out = []
    for x in items:
        if isinstance(x, Univ):
            out.append(Univ(x.lo, x.hi, lambda k, x=x: guard_items(g, x.body(k))))
        else:
            x = Implies(g, x)
            if x is not True:
                out.append(x)
    return out


class Exc:
    __slots__ = ('ty', 'val')

    def __init__(self, ty, val=None):
        self.ty, self.val = ty, val

    def __repr__(self):
        return 'Exc(%s)' % self.ty


class State:
    __slots__ = ('mem', 'env', 'pc', 'this', 'ghost')

    def __init__(self):
        self.mem = {}
        self.env = {}
        self.pc = []
        self.this = None
        self.ghost = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.env = dict(self.env)
        s.pc = list(self.pc)
        s.this = self.this
        s.ghost = dict(self.ghost)
        return s

    def become(self, o):
        self.mem, self.env, self.pc, self.this, self.ghost = o.mem, o.env, o.pc, o.this, o.ghost


class Out:
    __slots__ = ('k', 'st', 'v')

    def __init__(self, k, st, v=None):
        self.k, self.st, self.v = k, st, v


class Interp:
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.root = itertools.count(1)
        self.rty = {}
        self.vroots = {}
        self.axioms = []
        self.ax_ids = set()
        self.safety = []          # (name, pc, cond, loc)
        self.exits = [[]]
        self.models = {}
        self.contracts = {}
        self.shapes = {}
        self.ghostmerge = {}
        self.skolems = []
        self.globals = {}
        self.depth = 0
        self.opts = dict(unroll=300, decide_ms=500, maxdepth=60)
        self.opts.update(opts or {})
        self.inlined = set()
        self.used_models = set()
        self.used_contracts = set()
        self.cur_fn = []
        self.slv = None
        self.slv_pc = []
        self.n_decide = 0
        self.t_decide = 0.0
        self.check_safety = False
        self.deadline = None
        self.loopinfo = []
        self.loop_stack = []
        self.recs = []            # recurrence functions from loops
        self.kks = []             # active generic loop indices
        self.kroots = {}
        self.linked = []
        self.invpool = []
        self.loopproofs = []
        from . import stdlib
        stdlib.install(self)

    # ------------------------------------------------------------------ solver
    def axiom(self, t):
        if isinstance(t, bool):
            return
        if t.get_id() in self.ax_ids:
            return
        self.ax_ids.add(t.get_id())
        self.axioms.append(t)

    def _sync(self, st):
        if self.slv is None:
            self.slv = z3.SolverFor('QF_AUFBV') if False else z3.Solver()
            self.slv.set('timeout', self.opts['decide_ms'])
            self.slv_pc = []
            self.slv_ax = 0
        pc = [p for p in st.pc if not isinstance(p, Univ)]
        n = 0
        ids = [p.get_id() if isinstance(p, z3.ExprRef) else p for p in pc]
        while n < len(ids) and n < len(self.slv_pc) and ids[n] == self.slv_pc[n]:
            n += 1
        if n < len(self.slv_pc):
            self.slv.pop(len(self.slv_pc) - n)
            self.slv_pc = self.slv_pc[:n]
        for p, i in zip(pc[n:], ids[n:]):
            self.slv.push()
            self.slv.add(bl(p))
            self.slv_pc.append(i)

    def decide(self, st, c):
        """True / False / None under st.pc"""
        c = lit_s(c)
        if isinstance(c, bool):
            return c
        self.n_decide += 1
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Timeout('symbolic execution budget exhausted')
        self._sync(st)
        s = self.slv
        s.push()
        for a in self.axioms[-400:]:
            s.add(a)
        for x in self.instantiate(st, self.skolems[-6:], 1):
            s.add(bl(x))
        s.push()
        s.add(c)
        r = s.check()
        s.pop()
        if r == z3.unsat:
            s.pop()
            self.t_decide += time.time() - t0
            return False
        s.push()
        s.add(z3.Not(c))
        r2 = s.check()
        s.pop()
        s.pop()
        self.t_decide += time.time() - t0
        if r2 == z3.unsat:
            return True
        return None

    def instantiate(self, st, terms, depth):
        out = []
        us = [u for u in st.pc if isinstance(u, Univ)]
        for d in range(depth + 1):
            nxt = []
            for u in us:
                for k in terms:
                    for x in u.inst(k):
                        if isinstance(x, Univ):
                            nxt.append(x)
                        else:
                            out.append(x)
            us = nxt
            if not us:
                break
        return out

    def fresh(self, p, w=64, sort=None):
        """fresh constant, or a fresh function of the active loop indices"""
        sort = sort or (z3.BoolSort() if w == 1 else z3.BitVecSort(w))
        n = fresh_name(p)
        if not self.kks:
            return z3.Const(n, sort)
        return z3.Function(n, *([z3.BitVecSort(64)] * len(self.kks) + [sort]))(*self.kks)

    def assume(self, st, c):
        c = lit_s(c)
        if c is True:
            return
        if c is False:
            raise Dead()
        st.pc.append(c)

    def safe(self, st, kind, cond, loc):
        """record a safety obligation: cond must hold here"""
        if not self.check_safety:
            return
        cond = lit_s(cond)
        if cond is True:
            return
        self.safety.append((kind, list(st.pc), cond, '%s:%s' % (self.cur_fn[-1] if self.cur_fn else '?', loc)))

    # ------------------------------------------------------------------ types / symbolic values
    def isseq(self, ty):
        return ty.k in ('arr',) or (ty.k == 'rec' and ty.n in ('std::vector', 'std::array', 'std::basic_string', 'std::deque', 'std::initializer_list', 'std::list', 'std::queue', 'std::basic_string_view'))

    def elem(self, ty):
        if ty.k == 'arr' or ty.k == 'arrx':
            return ty.e
        if ty.k == 'ptr':
            return ty.e
        return ty.arg(0)

    def fixedlen(self, ty):
        if ty.k == 'arr':
            return ty.len
        if ty.k == 'rec' and ty.n == 'std::array':
            return ty.arg(1)
        return None

    def leaf(self, name, w, idxs):
        sort = z3.BoolSort() if w == 1 else z3.BitVecSort(w)
        if not idxs:
            return z3.Const(name, sort)
        f = z3.Function(name, *([z3.BitVecSort(64)] * len(idxs) + [sort]))
        return f(*[bv(i, 64) for i in idxs])

    def sym(self, ty, name, idxs=()):
        k = ty.k
        if k == 'bool':
            return self.leaf(name, 1, idxs)
        if k in ('int', 'enum'):
            return self.leaf(name, ty.w, idxs)
        if k == 'rec':
            h = self.shapes.get(ty.n)
            if h:
                r = h(self, ty, name, idxs)
                if r is not None:
                    return r
        if self.isseq(ty):
            n = self.fixedlen(ty)
            et = self.elem(ty)
            if n is not None and n <= 4096:
                return Seq(ty, [E([self.sym(et, '%s[%d]' % (name, i), idxs) for i in range(n)])])
            if n is None:
                n = self.leaf(name + '.len', 64, idxs)
                self.axiom(z3.ULE(n, z3.BitVecVal(1 << 40, 64)))
            b = Base(name, lambda i, et=et: self.sym(et, name + '[]', idxs + (i,)))
            return Seq(ty, [S(b, 0, n)])
        if k == 'rec':
            n = ty.n
            if n in ('std::optional',):
                return Opt(ty, self.leaf(name + '.has', 1, idxs), self.sym(ty.arg(0), name + '.val', idxs))
            if n in ('std::shared_ptr', 'std::unique_ptr'):
                return self.symptr(ty.arg(0), name, idxs)
            if n == 'std::pair':
                return Rec(ty, {'first': self.sym(ty.arg(0), name + '.first', idxs), 'second': self.sym(ty.arg(1), name + '.second', idxs)})
            if n == 'std::tuple':
                return Rec(ty, {str(i): self.sym(a['T'], name + '.%d' % i, idxs) for i, a in enumerate(ty.args)})
            if n in stdmaps:
                return self.symmap(ty, name, idxs)
            if n.startswith('std::') or self.prog.rec(ty) is None:
                return Opq(ty, (name, idxs))
            fs = self.prog.allfields(ty)
            return Rec(ty, {fn: self.sym(ft, name + '.' + fn, idxs) for fn, ft, _, _ in fs})
        if k in ('ptr', 'ref'):
            return self.symptr(ty.e, name, idxs)
        if k == 'float':
            return z3.FP(name, z3.Float64() if ty.w == 64 else z3.Float32()) if not idxs else Opq(ty, (name, idxs))
        return Opq(ty, (name, idxs))

    def symptr(self, ty, name, idxs):
        vr = '*' + name
        self.vroots[vr] = (ty, lambda ix, ty=ty: self.sym(ty, vr, ix))
        return LV(('v', vr) + tuple(idxs))

    def symmap(self, ty, name, idxs):
        from .stdlib import symmap
        return symmap(self, ty, name, idxs)

    def zero(self, ty):
        """value-initialised"""
        k = ty.k
        if k == 'bool':
            return False
        if k in ('int', 'enum'):
            return 0
        if k == 'float':
            return z3.FPVal(0.0, z3.Float64())
        if k in ('ptr', 'nullptr'):
            return NULL
        if self.isseq(ty):
            n = self.fixedlen(ty)
            if n is not None:
                if n <= 4096:
                    return Seq(ty, [E([self.zero(self.elem(ty)) for _ in range(n)])])
                z = self.zero(self.elem(ty))
                return Seq(ty, [S(Base('zero', lambda i: z), 0, n)])
            return Seq(ty)
        if k == 'rec':
            n = ty.n
            if n == 'std::optional':
                return Opt(ty, False, None)
            if n in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::function'):
                return NULL
            if n == 'std::pair':
                return Rec(ty, {'first': self.zero(ty.arg(0)), 'second': self.zero(ty.arg(1))})
            if n == 'std::tuple':
                return Rec(ty, {str(i): self.zero(a['T']) for i, a in enumerate(ty.args)})
            if n in stdmaps:
                from .stdlib import emptymap
                return emptymap(self, ty)
            if n.startswith('std::') or self.prog.rec(ty) is None:
                return Opq(ty, None)
            fs = self.prog.allfields(ty)
            return Rec(ty, {fn: self.zero(ft) for fn, ft, _, _ in fs})
        return Opq(ty, None)

    def undef(self, ty):
        if ty.k in ('int', 'enum', 'bool'):
            return self.sym(ty, fresh_name('undef'), tuple(self.kks))
        if ty.k == 'arr' or (ty.k == 'rec' and ty.n == 'std::array'):
            n = self.fixedlen(ty)
            if n <= 4096:
                return Seq(ty, [E([self.undef(self.elem(ty)) for _ in range(n)])])
        if ty.k == 'rec' and not ty.n.startswith('std::') and self.prog.rec(ty) is not None:
            fs = self.prog.allfields(ty)
            return Rec(ty, {fn: self.undef(ft) for fn, ft, _, _ in fs})
        return self.zero(ty)

    # ------------------------------------------------------------------ memory
    def new(self, st, ty, v, hint='r'):
        r = (hint, next(self.root)) + tuple(self.kks)
        self.rty[r] = ty
        st.mem[r] = v
        return LV(r)

    def rootval(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == 'v':
                ty, f = self.vroots[root[1]]
                v = f(tuple(root[2:]))
                self.rty[root] = ty
                st.mem[root] = v
                return v
            kr = self.kroots.get(root[:2])
            if kr is not None and len(root) - 2 == len(kr[0]):
                v = subst(kr[1], list(zip(kr[0], root[2:])))
                st.mem[root] = v
                return v
            g = self.globals.get(root)
            if g is not None:
                v = g()
                st.mem[root] = v
                return v
            raise Unsupported('dangling root %r' % (root,))
        return v

    def read(self, st, lv):
        if isinstance(lv, Choice):
            return self.mval(lv.c, self.read(st, lv.a), self.read(st, lv.b), None)
        if isinstance(lv, Null):
            raise Dead()
        if not isinstance(lv, LV):
            if isinstance(lv, MapIt):
                raise Unsupported('map iterator read')
            raise Unsupported('read through %r' % (lv,))
        v = self.rootval(st, lv.root)
        for p in lv.path:
            v = self.sub(st, v, p)
        return v

    def sub(self, st, v, p):
        if isinstance(v, Choice):
            return self.mval(v.c, self.sub(st, v.a, p), self.sub(st, v.b, p), None)
        if p[0] == 'f':
            if isinstance(v, Rec):
                try:
                    return v.f[p[1]]
                except KeyError:
                    # union of an integer and its bytes (little-endian target)
                    for n, t, _, _ in self.prog.allfields(v.ty):
                        if n == p[1] and t.k == 'arr' and t.e.w == 8 and len(v.f) == 1:
                            x = next(iter(v.f.values()))
                            if not isinstance(x, Val):
                                w = t.len * 8
                                return Seq(t, [E([cast_int(arith('>>', x, 8 * i, w, False), w, False, 8) for i in range(t.len)])])
                    raise Unsupported('no field %s in %r' % (p[1], v))
            raise Unsupported('field %s of %r' % (p[1], short(v)))
        if p[0] == 'i':
            if isinstance(v, Seq):
                return self.sget(st, v, p[1])
            if p[1] == 0:
                return v
            raise Unsupported('index of %r' % (short(v),))
        if p[0] == 'o':
            if isinstance(v, Opt):
                return v.v
        if p[0] == 'm':
            from .stdlib import map_get
            return map_get(self, st, v, p[1])
        if p[0] == 'b':
            # byte-wise view of an integer: ('b', k, w)
            return cast_int(arith('>>', v, p[1] * 8, p[2], False), p[2], False, 8)
        if p[0] == 'w':
            # w-bit little-endian view of a byte sequence at element offset: ('w', off, w)
            n = p[2] // 8
            bs = [self.sget(st, v, add64(p[1], i)) for i in range(n)]
            return concat_le(bs)
        raise Unsupported('path %r on %s' % (p, short(v)))

    def write(self, st, lv, val):
        if isinstance(lv, Choice):
            a = self.read(st, lv.a)
            b = self.read(st, lv.b)
            self.write(st, lv.a, self.mval(lv.c, val, a, None))
            self.write(st, lv.b, self.mval(lv.c, b, val, None))
            return
        if isinstance(lv, Null):
            raise Dead()
        if not lv.path:
            if lv.root[0] == 'v':
                self.rootval(st, lv.root)
            st.mem[lv.root] = val
            return
        v = self.rootval(st, lv.root)
        st.mem[lv.root] = self.upd(st, v, lv.path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if isinstance(v, Choice):
            return Choice(v.c, self.upd(st, v.a, path, val), self.upd(st, v.b, path, val))
        if p[0] == 'f':
            return v.set(p[1], self.upd(st, v.f[p[1]], path[1:], val))
        if p[0] == 'i':
            if not isinstance(v, Seq):
                if p[1] == 0:
                    return self.upd(st, v, path[1:], val)
                raise Unsupported('indexed write to %r' % (short(v),))
            old = self.sget(st, v, p[1]) if len(path) > 1 else None
            return self.sset(st, v, p[1], self.upd(st, old, path[1:], val))
        if p[0] == 'o':
            return Opt(v.ty, v.has, self.upd(st, v.v, path[1:], val))
        if p[0] == 'm':
            from .stdlib import map_get, map_put
            old = map_get(self, st, v, p[1]) if len(path) > 1 else None
            return map_put(self, st, v, p[1], self.upd(st, old, path[1:], val))
        if p[0] == 'b' and len(path) == 1:
            w = p[2]
            m = mask(w) ^ (0xff << (p[1] * 8))
            return arith('|', arith('&', v, m, w, False), arith('<<', cast_int(val, 8, False, w), p[1] * 8, w, False), w, False)
        if p[0] == 'w' and len(path) == 1:
            n = p[2] // 8
            for i in range(n):
                v = self.sset(st, v, add64(p[1], i), cast_int(arith('>>', val, 8 * i, p[2], False), p[2], False, 8))
            return v
        raise Unsupported('write path %r' % (p,))

    # ------------------------------------------------------------------ sequences
    def sget(self, st, s, i):
        return self.cget(st, s.ch, i, self.elem(s.ty) if s.ty is not None else None)

    def cget(self, st, chunks, i, ety):
        i = lit_s(i)
        start = 0
        for n, c in enumerate(chunks):
            last = n == len(chunks) - 1
            rel = sub64(i, start)
            ln = chunk_len(c)
            if isinstance(c, E):
                m = len(c.vals)
                if is_c(rel):
                    if rel < m:
                        return c.vals[rel]
                    if last:
                        break
                    start = add64(start, m)
                    continue
                inside = True if last else self.decide(st, cmp('<', rel, m, 64, False)) if st is not None else None
                if inside is True:
                    return self.select(c.vals, rel, ety)
                if inside is False:
                    start = add64(start, m)
                    continue
                a = self.select(c.vals, rel, ety)
                b = self.cget(st, chunks[n + 1:], sub64(rel, m), ety)
                return self.mval(cmp('<', rel, m, 64, False), a, b, ety)
            # symbolic length chunk
            if isinstance(c, L) and c.g.unit is None:
                for k in self.find_pre(rel, c.g):
                    self.unfold(c.g, k, c.hi)
            inside = None
            if last:
                inside = True
            else:
                d = sub64(rel, ln)
                if is_c(d):
                    inside = d >= (1 << 63)
                elif is_c(rel) and rel == 0 and isinstance(c, L):
                    inside = None
                if inside is None and st is not None:
                    inside = self.decide(st, cmp('<', rel, ln, 64, False))
            if inside is False:
                start = add64(start, ln)
                continue
            x = self.chunk_get(st, c, rel, ety)
            if inside is True:
                return x
            b = self.cget(st, chunks[n + 1:], sub64(rel, ln), ety)
            return self.mval(cmp('<', rel, ln, 64, False), x, b, ety)
        # out of range: unconstrained value
        if ety is None:
            raise Unsupported('read past end of sequence')
        return self.undef(ety)

    def chunk_get(self, st, c, rel, ety):
        if isinstance(c, S):
            return c.base.get(add64(c.off, rel))
        if isinstance(c, C):
            d = self.decide(st, c.c) if st is not None else None
            if d is True:
                return self.cget(st, c.a, rel, ety)
            if d is False:
                return self.cget(st, c.b, rel, ety)
            return self.mval(c.c, self.cget(st, c.a, rel, ety), self.cget(st, c.b, rel, ety), ety)
        if isinstance(c, L):
            g = c.g
            absr = add64(rel, g.pre(c.lo))
            if g.unit is not None:
                if g.unit == 1:
                    k, r = absr, 0
                elif is_c(absr):
                    k, r = absr // g.unit, absr % g.unit
                else:
                    # find k syntactically: absr = unit*k + r
                    k, r = lit_s(arith('/', absr, g.unit, 64, False)), lit_s(arith('%', absr, g.unit, 64, False))
                    kk = self.find_unit(absr, g.unit)
                    if kk is not None:
                        k, r = kk
                return self.cget(st, g.chunks(k), r, ety)
            # variable size: find P(k) in absr
            for k in self.find_pre(absr, g) + [c.lo]:
                r = sub64(absr, g.pre(k))
                self.unfold(g, k, c.hi)
                ch = g.chunks(k)
                if st is not None:
                    d = self.decide(st, cmp('<', r, chunks_len(ch), 64, False))
                    if d is True:
                        return self.cget(st, ch, r, ety)
                    d2 = self.decide(st, And(cmp('<', k, c.hi, 64, False), cmp('<', r, chunks_len(ch), 64, False)))
            raise Unsupported('cannot locate index %s in loop-built sequence %s' % (short(absr), g.name))
        raise TypeError(c)

    def find_unit(self, t, unit):
        """t == unit*k + r syntactically?"""
        if is_c(t):
            return t // unit, t % unit
        r = 0
        terms = []

        def go(x):
            if z3.is_app_of(x, z3.Z3_OP_BADD):
                for y in x.children():
                    go(y)
            else:
                terms.append(x)
        go(t)
        k = 0
        for x in terms:
            if z3.is_bv_value(x):
                r += x.as_long()
            elif z3.is_app_of(x, z3.Z3_OP_BMUL) and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() % unit == 0 and x.arg(0).as_long() < (1 << 63):
                k = add64(k, arith('*', x.arg(1), x.arg(0).as_long() // unit, 64, False))
            else:
                return None
        return add64(k, r // unit), r % unit

    def find_pre(self, t, g):
        res = []
        if is_c(t):
            return res
        seen = set()

        def go(x):
            if x.get_id() in seen:
                return
            seen.add(x.get_id())
            if x.decl().eq(g.P):
                res.append(x.arg(x.num_args() - 1))
            for y in x.children():
                go(y)
        go(t)
        return res

    def unfold(self, g, k, hi=None):
        """axioms for prefix function at k: P(k+1)=P(k)+|gen(k)|; monotone up to hi (no container exceeds 2^44 elements)"""
        if g.unit is not None:
            return
        n = chunks_len(g.chunks(k))
        k1 = add64(k, 1)
        self.axiom(bl(cmp('==', g.pre(k1), add64(g.pre(k), n), 64, False)))
        if hi is not None:
            ph = g.pre(hi)
            self.axiom(z3.ULE(bv(ph, 64), z3.BitVecVal(1 << 44, 64)))
            c = bl(cmp('<', k, hi, 64, False))
            self.axiom(z3.Implies(c, z3.And(z3.ULE(bv(g.pre(k1), 64), bv(ph, 64)), z3.ULE(bv(g.pre(k), 64), bv(g.pre(k1), 64)), z3.ULE(bv(n, 64), z3.BitVecVal(1 << 44, 64)))))

    def const_choice(self, t, budget):
        """the conditional tree of an index that can only take constant values: (cond, a, b) | int; None otherwise"""
        if is_c(t):
            return t
        if z3.is_bv_value(t):
            return t.as_long()
        budget[0] -= 1
        if budget[0] < 0:
            return None
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            a = self.const_choice(t.arg(1), budget)
            b = a if a is None else self.const_choice(t.arg(2), budget)
            return None if b is None else (t.arg(0), a, b)
        if k == z3.Z3_OP_ZERO_EXT or k == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0:
            return self.const_choice(t.arg(t.num_args() - 1), budget)
        return None

    def select(self, vals, rel, ety):
        m = len(vals)
        if m > 2:
            tree = self.const_choice(rel, [100])
            if isinstance(tree, tuple):
                def pick(x):
                    if not isinstance(x, tuple):
                        return vals[x] if x < m else vals[-1]
                    return self.mval(x[0], pick(x[1]), pick(x[2]), ety)
                return pick(tree)
        if ety is not None and ety.isint and m > 0 and all(not isinstance(v, Val) for v in vals):
            # balanced via array-like ite chain
            w = ety.width
            r = vals[-1]
            for j in range(m - 2, -1, -1):
                r = Ite(cmp('==', rel, j, 64, False), vals[j], r, w)
            return r
        r = vals[-1]
        for j in range(m - 2, -1, -1):
            r = self.mval(cmp('==', rel, j, 64, False), vals[j], r, ety)
        return r

    def sset(self, st, s, i, val):
        i = lit_s(i)
        ety = self.elem(s.ty)
        start = 0
        out = list(s.ch)
        for n, c in enumerate(s.ch):
            rel = sub64(i, start)
            last = n == len(s.ch) - 1
            ln = chunk_len(c)
            if isinstance(c, E):
                m = len(c.vals)
                if is_c(rel):
                    if rel < m:
                        v = list(c.vals)
                        v[rel] = val
                        out[n] = E(v)
                        return Seq(s.ty, out)
                    if last:
                        return s
                    start = add64(start, m)
                    continue
                if last or self.decide(st, cmp('<', rel, m, 64, False)) is True:
                    out[n] = E([self.mval(cmp('==', rel, j, 64, False), val, c.vals[j], ety) for j in range(m)])
                    return Seq(s.ty, out)
                break
            if isinstance(c, S):
                inside = True if last else self.decide(st, cmp('<', rel, ln, 64, False))
                if inside is True:
                    b = c.base
                    at = add64(c.off, rel)

                    def f(j, b=b, at=at, val=val):
                        return self.mval(lit_s(cmp('==', j, at, 64, False)), val, b.get(j), ety)
                    out[n] = S(Base(b.name + "'", f, ('upd', b, at, val)), c.off, c.len)
                    return Seq(s.ty, out)
                if inside is False:
                    start = add64(start, ln)
                    continue
                break
            inside = self.decide(st, cmp('<', rel, ln, 64, False))
            if inside is False:
                start = add64(start, ln)
                continue
            break
        # generic overlay
        def f(j, s=s, i=i, val=val):
            return self.mval(lit_s(cmp('==', j, i, 64, False)), val, self.cget(None, s.ch, j, ety), ety)
        return Seq(s.ty, [S(Base('ovl', f), 0, s.len)])

    def slice(self, st, s, a, b):
        """chunks for [a,b)"""
        a, b = lit_s(a), lit_s(b)
        L_ = s.len
        if is_c(a) and a == 0 and same_idx(b, L_):
            return list(s.ch)
        if same_idx(a, b):
            return []
        out = []
        start = 0
        active = is_c(a) and a == 0
        for n, c in enumerate(s.ch):
            ln = chunk_len(c)
            end = add64(start, ln)
            # position of a,b relative to this chunk
            if not active:
                ra = sub64(a, start)
                if is_c(ra) and is_c(ln) and ra < (1 << 63):
                    ge = ra >= ln
                else:
                    d = sub64(a, end)
                    if is_c(d):
                        ge = d < (1 << 63)
                    else:
                        ge = self.decide(st, cmp('>=', a, end, 64, False))
                if ge is True:
                    start = end
                    continue
                if ge is None:
                    return self.slice_generic(s, a, b)
                active = True
                lo = ra
            else:
                lo = 0
            # does b fall within this chunk
            d = sub64(b, end)
            if is_c(d):
                ge = d < (1 << 63)
            else:
                ge = self.decide(st, cmp('>=', b, end, 64, False))
            if ge is None:
                return self.slice_generic(s, a, b)
            hi = ln if ge else sub64(b, start)
            pc = self.subchunk(st, c, lo, hi, ln)
            if pc is None:
                return self.slice_generic(s, a, b)
            out += pc
            if not ge or (is_c(d) and d == 0):
                return list(norm_chunks(out))
            start = end
        return list(norm_chunks(out))

    def subchunk(self, st, c, lo, hi, ln):
        if is_c(lo) and lo == 0 and same_idx(hi, ln):
            return [c]
        if isinstance(c, E):
            if is_c(lo) and is_c(hi):
                return [E(c.vals[lo:hi])]
            return None
        if isinstance(c, S):
            return [S(c.base, add64(c.off, lo), sub64(hi, lo))]
        if isinstance(c, C):
            d = self.decide(st, c.c)
            if d is None:
                return None
            return self.slice(st, Seq(None, c.a if d else c.b), lo, hi)
        if isinstance(c, L) and c.g.unit == 1:
            return [L(c.g, add64(c.lo, lo), add64(c.lo, hi))]
        if isinstance(c, L) and c.g.unit is None:
            a = add64(lo, c.g.pre(c.lo))
            b = add64(hi, c.g.pre(c.lo))
            ks = [k for k in self.find_pre(a, c.g) + [c.lo]]
            for k in ks:
                ra, rb = sub64(a, c.g.pre(k)), sub64(b, c.g.pre(k))
                self.unfold(c.g, k, c.hi)
                if self.decide(st, cmp('<=', rb, chunks_len(c.g.chunks(k)), 64, False)) is True:
                    return self.slice(st, Seq(None, c.g.chunks(k)), ra, rb)
        return None

    def slice_generic(self, s, a, b):
        ety = self.elem(s.ty) if s.ty is not None else None
        base = Base('slice', lambda j, s=s: self.cget(None, s.ch, j, ety))
        return [S(base, a, sub64(b, a))]

    def seq_eq(self, st, a, b, goal=False):
        """equality of two sequences as a scalar Bool; goal=True allows skolemisation (only for proof goals)"""
        ca, cb = a.conc(), b.conc()
        if ca is not None and cb is not None:
            if len(ca) != len(cb):
                return False
            return And(*[self.veq(st, x, y, goal) for x, y in zip(ca, cb)])
        A, B = list(self.resolve(st, a.ch)), list(self.resolve(st, b.ch))
        conds = []
        while A and B:
            x, y = A[0], B[0]
            if x is y:
                A.pop(0)
                B.pop(0)
                continue
            if isinstance(x, E) and isinstance(y, E):
                m = min(len(x.vals), len(y.vals))
                conds += [self.veq(st, p, q, goal) for p, q in zip(x.vals[:m], y.vals[:m])]
                A.pop(0)
                B.pop(0)
                if len(x.vals) > m:
                    A.insert(0, E(x.vals[m:]))
                if len(y.vals) > m:
                    B.insert(0, E(y.vals[m:]))
                continue
            if isinstance(x, S) and isinstance(y, S) and x.base is y.base and same_idx(x.off, y.off):
                if same_idx(x.len, y.len):
                    A.pop(0)
                    B.pop(0)
                    continue
            lx, ly = chunk_len(x), chunk_len(y)
            if same_idx(lx, ly) or (goal and self.decide(st, cmp('==', lx, ly, 64, False)) is True):
                if isinstance(x, C) and isinstance(y, C) and (x.c is y.c or (isinstance(x.c, z3.ExprRef) and isinstance(y.c, z3.ExprRef) and x.c.eq(y.c))):
                    conds.append(Implies(x.c, self.seq_eq(st, Seq(a.ty, x.a), Seq(a.ty, y.a), goal)))
                    conds.append(Implies(Not(x.c), self.seq_eq(st, Seq(a.ty, x.b), Seq(a.ty, y.b), goal)))
                else:
                    conds.append(self.chunk_eq(st, x, y, lx, a.ty or b.ty, goal))
                A.pop(0)
                B.pop(0)
                continue
            if isinstance(x, L) and isinstance(y, L) and x.g.unit is None and y.g.unit is None and same_idx(x.lo, y.lo) and same_idx(x.hi, y.hi) and goal:
                # iteration-wise equality implies equality of the concatenations
                k = self.skolem('k')
                s2 = st.copy()
                s2.pc.append(z3.And(z3.ULE(bv(x.lo, 64), k), z3.ULT(k, bv(x.hi, 64))))
                conds.append(Implies(s2.pc[-1], self.seq_eq(s2, Seq(a.ty, x.g.chunks(k)), Seq(a.ty, y.g.chunks(k)), True)))
                A.pop(0)
                B.pop(0)
                continue
            # generic
            if goal or not (A[1:] or B[1:]) or True:
                ra, rb = Seq(a.ty, A), Seq(b.ty, B)
                leneq = cmp('==', ra.len, rb.len, 64, False)
                ety = self.elem(a.ty)
                if goal:
                    j = self.skolem('j')
                    s2 = st.copy()
                    s2.pc.append(bl(leneq))
                    s2.pc.append(z3.ULT(j, bv(ra.len, 64)))
                    conds.append(And(leneq, Implies(z3.ULT(j, bv(ra.len, 64)), self.veq(s2, self.cget(s2, ra.ch, j, ety), self.cget(s2, rb.ch, j, ety), True))))
                else:
                    conds.append(And(leneq, self.eqterm(st, ra, rb, ety)))
            return And(*conds)
        if A or B:
            conds.append(cmp('==', chunks_len(A), chunks_len(B), 64, False))
        return And(*conds)

    def eqterm(self, st, ra, rb, ety):
        j = z3.BitVec(fresh_name('qj'), 64)
        body = self.veq(None, self.cget(None, ra.ch, j, ety), self.cget(None, rb.ch, j, ety), False)
        if isinstance(body, bool):
            return body if body else cmp('==', ra.len, 0, 64, False)
        return z3.ForAll([j], z3.Implies(z3.ULT(j, bv(ra.len, 64)), body))

    def chunk_eq(self, st, x, y, ln, ty, goal):
        ety = self.elem(ty)
        if is_c(ln) and ln <= 256:
            return And(*[self.veq(st, self.cget(st, (x,), i, ety), self.cget(st, (y,), i, ety), goal) for i in range(ln)])
        if goal:
            if isinstance(x, L) and isinstance(y, L) and x.g.unit == y.g.unit and x.g.unit != 1 and same_idx(x.lo, y.lo) and same_idx(x.hi, y.hi):
                k = self.skolem('k')
                s2 = st.copy()
                s2.pc.append(z3.And(z3.ULE(bv(x.lo, 64), k), z3.ULT(k, bv(x.hi, 64))))
                return Implies(s2.pc[-1], self.seq_eq(s2, Seq(ty, x.g.chunks(k)), Seq(ty, y.g.chunks(k)), True))
            j = self.skolem('j')
            s2 = st.copy()
            g = z3.ULT(j, bv(ln, 64))
            s2.pc.append(g)
            return Implies(g, self.veq(s2, self.cget(s2, (x,), j, ety), self.cget(s2, (y,), j, ety), True))
        return self.eqterm(st, Seq(ty, (x,)), Seq(ty, (y,)), ety)

    def resolve(self, st, ch):
        """drop decided conditional chunks"""
        out = []
        for c in ch:
            if isinstance(c, C) and st is not None:
                d = self.decide(st, c.c)
                if d is not None:
                    out += self.resolve(st, c.a if d else c.b)
                    continue
            out.append(c)
        return norm_chunks(out)

    def skolem(self, p='k'):
        k = z3.BitVec(fresh_name(p), 64)
        self.skolems.append(k)
        return k

    # ------------------------------------------------------------------ equality
    def veq(self, st, a, b, goal=False):
        if a is b:
            return True
        if isinstance(a, Choice):
            return Ite(a.c, self.veq(st, a.a, b, goal), self.veq(st, a.b, b, goal))
        if isinstance(b, Choice):
            return self.veq(st, b, a, goal)
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.seq_eq(st, a, b, goal)
        if isinstance(a, Rec) and isinstance(b, Rec):
            ks = [k for k in a.f if k in b.f]
            return And(*[self.veq(st, a.f[k], b.f[k], goal) for k in ks if not isinstance(a.f[k], Opq)])
        if isinstance(a, Opt) and isinstance(b, Opt):
            he = self.beq(a.has, b.has)
            if a.v is None or b.v is None:
                return And(he, Or(Not(a.has), Not(b.has))) if (a.v is None) != (b.v is None) else And(he)
            return And(he, Implies(And(a.has, b.has), self.veq(st, a.v, b.v, goal)))
        if isinstance(a, LV) and isinstance(b, LV):
            if a.root != b.root and not (a.root[0] == 'v' and b.root[0] == 'v' and a.root[1] == b.root[1]):
                return False
            if a.root[0] == 'v' and len(a.root) > 2 and b.root[0] == 'v' and b.root[1] == a.root[1]:
                c0 = And(*[cmp('==', x, y, 64, False) for x, y in zip(a.root[2:], b.root[2:])])
            else:
                c0 = True
            if len(a.path) == len(b.path):
                cs = [c0]
                for p, q in zip(a.path, b.path):
                    if p[0] != q[0]:
                        return False
                    if p[0] == 'i':
                        cs.append(cmp('==', p[1], q[1], 64, False))
                    elif p[1] != q[1]:
                        return False
                return And(*cs)
            return False
        if isinstance(a, Null) or isinstance(b, Null):
            return isinstance(a, Null) and isinstance(b, Null)
        if isinstance(a, Iter) and isinstance(b, Iter):
            return cmp('==', a.i, b.i, 64, False)
        if isinstance(a, Ghost) and isinstance(b, Ghost):
            if a.kind == b.kind and a.kind in self.ghosteq:
                return self.ghosteq[a.kind](self, st, a, b, goal)
            return a.d is b.d
        if isinstance(a, Opq) and isinstance(b, Opq):
            if isinstance(a.g, z3.ExprRef) and isinstance(b.g, z3.ExprRef):
                return a.g == b.g
            if a.g is b.g or a.g == b.g:
                return True
            raise Unsupported('equality of opaque %s' % a.ty)
        if isinstance(a, Val) or isinstance(b, Val):
            from .stdlib import MapV, map_eq
            if isinstance(a, MapV) and isinstance(b, MapV):
                return map_eq(self, st, a, b, goal)
            raise Unsupported('equality of %s and %s' % (short(a), short(b)))
        return self.beq(a, b)

    ghosteq = {}

    def beq(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool) or (isinstance(a, z3.ExprRef) and z3.is_bool(a)) or isinstance(b, bool):
            if a is True:
                return b
            if b is True:
                return a
            if a is False:
                return Not(b)
            if b is False:
                return Not(a)
            return True if a.eq(b) else a == b
        w = a.size() if not is_c(a) else (b.size() if not is_c(b) else 64)
        return cmp('==', a, b, w, False)

    # ------------------------------------------------------------------ merging
    def mval(self, c, a, b, ty):
        if a is b:
            return a
        if c is True:
            return a
        if c is False:
            return b
        if not isinstance(a, Val) and not isinstance(b, Val):
            if a is None or b is None:
                return a if b is None else b
            if is_c(a) and is_c(b) and not isinstance(a, bool) and not isinstance(b, bool):
                if a == b:
                    return a
                if ty is None or not ty.isint:
                    return Choice(c, a, b)
                return Ite(c, a, b, ty.width)
            if isinstance(a, z3.ExprRef) and isinstance(a, z3.FPRef) or isinstance(b, z3.FPRef):
                return z3.If(c, a, b)
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
                return a
            return Ite(c, a, b)
        if isinstance(a, Choice) or isinstance(b, Choice):
            return Choice(c, a, b)
        if isinstance(a, Rec) and isinstance(b, Rec) and a.f.keys() == b.f.keys():
            d = {}
            tys = self.ftypes(a.ty)
            for k in a.f:
                d[k] = self.mval(c, a.f[k], b.f[k], tys.get(k))
            return Rec(a.ty, d)
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.mseq(c, a, b)
        if isinstance(a, Opt) and isinstance(b, Opt):
            return Opt(a.ty, Ite(c, a.has, b.has), a.v if b.v is None else b.v if a.v is None else self.mval(c, a.v, b.v, a.ty.arg(0)))
        if isinstance(a, LV) and isinstance(b, LV):
            if a.root == b.root and len(a.path) == len(b.path) and a.path[:-1] == b.path[:-1] and a.path and a.path[-1][0] == 'i' and b.path[-1][0] == 'i':
                return LV(a.root, a.path[:-1] + (('i', Ite(c, a.path[-1][1], b.path[-1][1], 64)),))
            if a.key() == b.key():
                return a
            return Choice(c, a, b)
        if isinstance(a, Iter) and isinstance(b, Iter) and a.rev == b.rev and a.lv.key() == b.lv.key():
            return Iter(a.lv, Ite(c, a.i, b.i, 64), a.rev)
        if isinstance(a, Ghost) and isinstance(b, Ghost) and a.kind == b.kind and a.kind in self.ghostmerge:
            return self.ghostmerge[a.kind](self, c, a, b)
        from .stdlib import MapV, map_merge
        if isinstance(a, MapV) and isinstance(b, MapV):
            return map_merge(self, c, a, b)
        if isinstance(a, Opq) and isinstance(b, Opq):
            if a.g is None and b.g is None:
                return a
            if isinstance(a.g, z3.ExprRef) and isinstance(b.g, z3.ExprRef):
                return Opq(a.ty, z3.If(c, a.g, b.g))
        if isinstance(a, Opq) and a.g is None and isinstance(b, Opq):
            return b
        return Choice(c, a, b)

    def ftypes(self, ty):
        if not hasattr(ty, 'id'):
            return {}
        c = self.__dict__.setdefault('_ft', {})
        r = c.get(ty.s)
        if r is None:
            if ty.n == 'std::pair':
                r = {'first': ty.arg(0), 'second': ty.arg(1)}
            elif ty.n == 'std::tuple':
                r = {str(i): a['T'] for i, a in enumerate(ty.args)}
            else:
                r = {n: t for n, t, _, _ in self.prog.allfields(ty)}
            c[ty.s] = r
        return r

    def chsame(self, x, y):
        if x is y:
            return True
        if isinstance(x, S) and isinstance(y, S):
            return x.base is y.base and same_idx(x.off, y.off) and same_idx(x.len, y.len)
        if isinstance(x, L) and isinstance(y, L):
            return x.g is y.g and same_idx(x.lo, y.lo) and same_idx(x.hi, y.hi)
        if isinstance(x, E) and isinstance(y, E):
            return len(x.vals) == len(y.vals) and all(vsame(p, q) for p, q in zip(x.vals, y.vals))
        return False

    def mseq(self, c, a, b):
        A, B = list(a.ch), list(b.ch)
        pre = []
        while A and B:
            if self.chsame(A[0], B[0]):
                pre.append(A.pop(0))
                B.pop(0)
                continue
            if isinstance(A[0], E) and isinstance(B[0], E):
                m = 0
                while m < len(A[0].vals) and m < len(B[0].vals) and vsame(A[0].vals[m], B[0].vals[m]):
                    m += 1
                if m:
                    pre.append(E(A[0].vals[:m]))
                    A[0] = E(A[0].vals[m:])
                    B[0] = E(B[0].vals[m:])
                    if not A[0].vals:
                        A.pop(0)
                    if not B[0].vals:
                        B.pop(0)
                    if m and (not A or not B):
                        break
            break
        suf = []
        while A and B and self.chsame(A[-1], B[-1]):
            suf.insert(0, A.pop())
            B.pop()
        if not A and not B:
            return a if not isinstance(a.ch, list) else a
        ety = self.elem(a.ty)
        if len(A) == 1 and len(B) == 1 and isinstance(A[0], E) and isinstance(B[0], E) and len(A[0].vals) == len(B[0].vals):
            mid = [E([self.mval(c, p, q, ety) for p, q in zip(A[0].vals, B[0].vals)])]
        else:
            la, lb = chunks_len(A), chunks_len(B)
            if is_c(la) and is_c(lb) and la == lb and la <= 4096:
                mid = [E([self.mval(c, self.cget(None, A, i, ety), self.cget(None, B, i, ety), ety) for i in range(la)])]
            elif same_idx(la, lb) and not any(isinstance(x, (L, C)) for x in A + B):
                base = Base('mrg', lambda j: self.mval(c, self.cget(None, A, j, ety), self.cget(None, B, j, ety), ety))
                mid = [S(base, 0, la)]
            else:
                mid = [C(c, norm_chunks(A), norm_chunks(B))]
        return Seq(a.ty, pre + mid + suf)

    def merge(self, st0n, outs, rty=None):
        """merge a list of (state, value) that share the first st0n pc entries. returns (state, value)"""
        if len(outs) == 1:
            return outs[0]
        # fold from the last
        st, v = outs[-1]
        rest_guard = [self.guard(st, st0n)]
        base_pc = list(st.pc[:st0n])
        cur = st.copy()
        curv = v
        guards = [rest_guard[0]]
        for s, x in reversed(outs[:-1]):
            g = self.guard(s, st0n)
            gl = lit_s(g)
            cur = self.mstate(gl, s, cur)
            curv = self.mval(gl, x, curv, rty)
            guards.append(g)
        cur.pc = base_pc
        univ = []
        disj = Or(*guards)
        d = lit_s(disj)
        if isinstance(d, bool):
            if not d:
                raise Dead()
        else:
            if not self.taut(guards):
                cur.pc = base_pc + [d]
            else:
                cur.pc = base_pc
        # keep universals, guarded
        for s, x in outs:
            for u in s.pc[st0n:]:
                if isinstance(u, Univ):
                    cur.pc += guard_items(self.guard(s, st0n), [u])
        return cur, curv

    def taut(self, guards):
        if len(guards) == 2:
            a, b = guards
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
                if z3.is_not(a) and a.arg(0).eq(b):
                    return True
                if z3.is_not(b) and b.arg(0).eq(a):
                    return True
        return False

    def guard(self, st, n):
        return And(*[p for p in st.pc[n:] if not isinstance(p, Univ)])

    def mstate(self, c, a, b):
        """ite(c,a,b)"""
        r = State()
        ma, mb = a.mem, b.mem
        if ma is mb:
            r.mem = ma
        else:
            m = dict(mb)
            for k, v in ma.items():
                w = mb.get(k)
                if w is None:
                    m[k] = v
                elif w is not v:
                    m[k] = self.mval(c, v, w, self.rty.get(k))
            r.mem = m
        r.env = {k: v for k, v in a.env.items() if k in b.env}
        r.this = a.this
        r.ghost = dict(b.ghost)
        for k, v in a.ghost.items():
            w = b.ghost.get(k)
            if w is not v:
                r.ghost[k] = v if w is None else self.mval(c, v, w, None)
        r.pc = []
        return r

    def branch(self, st, c, fa, fb, rty=None):
        """run fa/fb on copies under c / not c, merge back into st, return merged value"""
        c = lit_s(c)
        if c is True:
            return fa(st)
        if c is False:
            return fb(st)
        n = len(st.pc)
        outs = []
        for cond, f in ((c, fa), (Not(c), fb)):
            s = st.copy()
            s.pc.append(cond)
            try:
                outs.append((s, f(s)))
            except Dead:
                pass
        if not outs:
            raise Dead()
        s, v = self.merge(n, outs, rty)
        st.become(s)
        return v

    # ------------------------------------------------------------------ calls
    def throw(self, st, exc):
        self.exits[-1].append(Out('throw', st.copy(), exc))
        raise Dead()

    def throw_if(self, st, c, exc):
        """fork: under c throw exc; continue under not c"""
        c = lit_s(c)
        if c is False:
            return
        if c is True:
            self.throw(st, exc)
        s = st.copy()
        s.pc.append(c)
        self.exits[-1].append(Out('throw', s, exc))
        self.assume(st, Not(c))

    def lookup(self, f):
        return self.prog.fns.get(f['key'])

    def handler(self, table, f):
        h = table.get(f['key'])
        if h is None:
            h = table.get(f['nn'] if 'nn' in f else norm(f['n']))
        return h

    def call_fn(self, st, fn, this, args, caps=None):
        """inline an extracted function. args: values or LVs according to param types"""
        if self.depth > self.opts['maxdepth']:
            raise Unsupported('recursion too deep in %s' % fn.n)
        d = fn.d
        tu = fn.tu
        self.inlined.add(fn.n)
        saved = (st.env, st.this)
        env = dict(caps) if caps else {}
        st.env = env
        st.this = this
        for p, a in zip(d['p'], args):
            t = tu.ty(p['t'])
            if t.k == 'ref':
                if not isinstance(a, (LV, Choice, Null, MapIt)):
                    a = self.new(st, t.e, a, 'tmp')
                env[(id(tu), p['d'])] = a
            else:
                env[(id(tu), p['d'])] = self.new(st, t, a, 'arg')
        n0 = len(st.pc)
        rty = tu.ty(d['rt'])
        self.depth += 1
        self.cur_fn.append(fn.n)
        self.exits.append([])
        outs = []
        try:
            if d.get('ctor'):
                try:
                    self.run_inits(st, fn, tu)
                except Dead:
                    st = None
            if st is not None:
                outs = self.stmt(st, d['b'], tu)
        finally:
            ex = self.exits.pop()
            self.depth -= 1
            self.cur_fn.pop()
        rets = []
        for o in outs:
            if o.k in ('normal', 'return'):
                rets.append((o.st, o.v))
            elif o.k == 'throw':
                ex.append(o)
        for o in ex:
            o.st.env, o.st.this = saved
            if d.get('noexcept') and not d.get('ctor'):
                self.noexcept_throws.append((fn.n, list(o.st.pc), o.v))
                continue
            self.exits[-1].append(o)
        if not rets:
            raise Dead()
        s, v = self.merge(n0, rets, rty if rty.k not in ('ref', 'void') else None)
        s.env, s.this = saved
        self._result_state = s
        return s, v

    noexcept_throws = []

    def invoke(self, st, fn, this, args, caps=None):
        s, v = self.call_fn(st, fn, this, args, caps)
        st.become(s)
        return v

    def run_inits(self, st, fn, tu):
        done = set()
        this = st.this
        for i in fn.d.get('inits', []):
            if i['e'] is None:
                continue
            if 'm' in i:
                t = tu.ty(i['t'])
                if t.k == 'ref':
                    v = self.lv(st, i['e'], tu)
                else:
                    v = self.rv(st, i['e'], tu)
                self.write(st, this.field(i['m']), v)
                done.add(i['m'])
            elif 'base' in i:
                bt = tu.ty(i['base'])
                e = i['e']
                if bt.n.startswith('std::') or self.prog.rec(bt) is None:
                    continue
                # run base constructor on this
                if e['k'] == 'ctor':
                    self.construct_at(st, e, tu, this)
                elif e['k'] == 'inhctor':
                    f = self.lookup(e['f'])
                    args = [st.env[(id(tu), p['d'])] for p in fn.d['p']]
                    av = []
                    for p, a in zip(f.d['p'], args):
                        pt = f.tu.ty(p['t'])
                        av.append(a if pt.k == 'ref' else self.read(st, a))
                    self.invoke(st, f, this, av)
            elif i.get('deleg'):
                self.construct_at(st, i['e'], tu, this)

    def construct_at(self, st, e, tu, this):
        """run constructor e (ctor node) on existing object location"""
        f = e['f']
        fn = self.lookup(f)
        if f.get('copy') and (fn is None or fn.d.get('deflt')):
            src = self.read(st, self.lvarg(st, e['a'][0], tu))
            cur = self.read(st, this)
            g = dict(cur.f)
            for k, _, _, _ in self.prog.allfields(tu.ty(f['rec'])):
                g[k] = src.f[k]
            self.write(st, this, Rec(cur.ty, g))
            return
        if fn is None:
            return
        if fn.d.get('deflt') and f.get('dctor'):
            self.run_default(st, tu.ty(f['rec']), this)
            if fn.d.get('inits'):
                args = []
                self.invoke(st, fn, this, args)
            return
        args = self.args(st, e['a'], f, tu)
        self.invoke(st, fn, this, args)

    def run_default(self, st, ty, this):
        pass

    def args(self, st, nodes, f, tu):
        out = []
        pts = f['p']
        for i, a in enumerate(nodes):
            if i < len(pts):
                t = tu.ty(pts[i])
                if t.k == 'ref':
                    out.append(self.lvarg(st, a, tu))
                    continue
            out.append(self.rv(st, a, tu))
        return out

    def lvarg(self, st, a, tu):
        if a.get('v') or a['k'] == 'mat':
            return self.lv(st, a, tu)
        return self.new(st, tu.ty(a['t']), self.rv(st, a, tu), 'tmp')

    # ------------------------------------------------------------------ lvalues
    def lv(self, st, e, tu):
        k = e['k']
        if k == 'var':
            key = (id(tu), e['d'])
            r = st.env.get(key)
            if r is not None:
                return r
            if 'g' in e:
                return self.global_lv(st, e, tu)
            raise Unsupported('unbound variable %s' % e['n'])
        if k == 'binding':
            r = st.env.get((id(tu), e['d']))
            if r is None:
                raise Unsupported('binding')
            return r
        if k == 'mem':
            if e['arrow']:
                b = self.rv(st, e['e'], tu)
                if isinstance(b, Null):
                    self.safe(st, 'null-deref', False, e['l'])
                    raise Dead()
            else:
                b = self.lvarg(st, e['e'], tu)
            r = self.lvfield(st, b, e['n'])
            if e.get('ref'):
                return self.read(st, r)
            return r
        if k == 'idx':
            b = self.rv(st, e['e'], tu)
            i = self.rv(st, e['i'], tu)
            it = tu.ty(e['i']['t'])
            i = cast_int(i, it.width, it.sg, 64)
            p = self.ptr_add(st, b, i, e['l'])
            self.safe_ptr(st, p, e['l'])
            return p
        if k == 'mat':
            t = tu.ty(e['t'])
            s = e['e']
            if s.get('v'):
                return self.lv(st, s, tu)
            return self.new(st, t, self.rv(st, s, tu), 'tmp')
        if k == 'cast':
            ck = e['ck']
            if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'Dynamic', 'LValueBitCast'):
                return self.lvarg(st, e['e'], tu)
            if ck in ('ConstructorConversion', 'UserDefinedConversion'):
                return self.lvarg(st, e['e'], tu)
            raise Unsupported('lvalue cast %s' % ck)
        if k == 'un':
            if e['op'] == '*':
                p = self.rv(st, e['e'], tu)
                if isinstance(p, Null):
                    self.safe(st, 'null-deref', False, e['l'])
                    raise Dead()
                if isinstance(p, (FnRef, Clo, PyFn)):
                    return p
                self.safe_ptr(st, p, e['l'])
                return p
            if e['op'] in ('++', '--'):
                l = self.lv(st, e['e'], tu)
                self.incdec(st, l, e['op'], tu.ty(e['e']['t']), e['l'])
                return l
            if e['op'] in ('__extension__',):
                return self.lv(st, e['e'], tu)
        if k == 'bin':
            if e['op'] == '=':
                t = tu.ty(e['a']['t'])
                v = self.rv(st, e['b'], tu)
                l = self.lv(st, e['a'], tu)
                self.write(st, l, v)
                return l
            if e['op'] == ',':
                self.any(st, e['a'], tu)
                return self.lv(st, e['b'], tu)
        if k == 'casg':
            l = self.lv(st, e['a'], tu)
            lt = tu.ty(e['a']['t'])
            ct = tu.ty(e['ct'])
            crt = tu.ty(e['crt'])
            b = self.rv(st, e['b'], tu)
            bt = tu.ty(e['b']['t'])
            a = self.read(st, l)
            op = e['op'][:-1]
            if lt.k == 'ptr':
                d = cast_int(b, bt.width, bt.sg, 64)
                r = self.ptr_add(st, a, d if op == '+' else arith('-', 0, d, 64, False), e['l'])
            else:
                a = self.conv(a, lt, ct)
                r = self.binop(st, op, a, b, ct, bt, e['l'])
                r = self.conv(r, crt, lt)
            self.write(st, l, r)
            return l
        if k == 'cond':
            c = self.cond(st, e['c'], tu)
            return self.branch(st, c, lambda s: self.lvarg(s, e['a'], tu), lambda s: self.lvarg(s, e['b'], tu))
        if k in ('call', 'mcall', 'ocall'):
            r = self.call(st, e, tu)
            if not isinstance(r, (LV, Choice, Null, MapIt)):
                if r is None:
                    raise Unsupported('reference-returning call gave none: %s' % (e.get('f') or {}).get('n'))
                r = self.new(st, tu.ty(e['t']), r, 'tmp')
            return r
        if k == 'str':
            ty = tu.ty(e['t'])
            return self.new(st, ty, Seq(ty, [E(list(e['x']) + [0])]), 'str')
        if k == 'this':
            return st.this
        if k in ('fnref', 'lambda'):
            return self.rv(st, e, tu)
        if k in ('il', 'ctor', 'int', 'zero'):
            return self.new(st, tu.ty(e['t']), self.rv(st, e, tu), 'tmp')
        if k == 'initlist_std':
            return self.new(st, tu.ty(e['t']), self.rv(st, e, tu), 'tmp')
        if k == 'throw':
            self.rv(st, e, tu)
        raise Unsupported('lvalue %s %s' % (k, e.get('c', e.get('op', ''))))

    def lvfield(self, st, b, n):
        if isinstance(b, Choice):
            return Choice(b.c, self.lvfield(st, b.a, n), self.lvfield(st, b.b, n))
        if isinstance(b, Null):
            return NULL
        if isinstance(b, MapIt):
            return b.field(self, st, n)
        if not isinstance(b, LV):
            raise Unsupported('member %s of %s' % (n, short(b)))
        return b.field(n)

    def global_lv(self, st, e, tu):
        g = tu.globals.get(str(e['d']))
        root = ('g', e['g'])
        if root not in st.mem:
            h = self.models.get('global:' + e['g'])
            if h is not None:
                v = h(self, st)
            elif g is None or 'i' not in g or g['i'] is None:
                ty = tu.ty(e['t'])
                v = self.sym(ty, 'global.' + e['g'])
            else:
                saved = (st.env, st.this)
                st.env, st.this = {}, None
                gt = tu.ty(g['t'])
                v = self.rv(st, g['i'], tu) if gt.k != 'ref' else self.lvarg(st, g['i'], tu)
                st.env, st.this = saved
            self.rty[root] = tu.ty(e['t'])
            st.mem[root] = v
            self.globals[root] = lambda v=v: v
        if g is not None and tu.ty(g['t']).k == 'ref':
            return st.mem[root]
        return LV(root)

    def safe_ptr(self, st, p, loc):
        """bounds obligation for element access"""
        if not self.check_safety:
            return
        if isinstance(p, Choice):
            s = st.copy()
            return
        if isinstance(p, LV) and p.path and p.path[-1][0] == 'i':
            try:
                c = self.read(st, LV(p.root, p.path[:-1]))
            except (Unsupported, Dead):
                return
            if isinstance(c, Seq):
                self.safe(st, 'index-in-bounds', cmp('<', p.path[-1][1], c.len, 64, False), loc)

    def ptr_add(self, st, p, d, loc):
        if isinstance(p, Choice):
            return Choice(p.c, self.ptr_add(st, p.a, d, loc), self.ptr_add(st, p.b, d, loc))
        if isinstance(p, Iter):
            return Iter(p.lv, add64(p.i, d) if not p.rev else sub64(p.i, d), p.rev)
        if isinstance(p, LV):
            if p.path and p.path[-1][0] == 'i':
                return LV(p.root, p.path[:-1] + (('i', add64(p.path[-1][1], d)),))
            if p.path and p.path[-1][0] == 'b':
                return LV(p.root, p.path[:-1] + (('b', add64(p.path[-1][1], d), p.path[-1][2]),))
            if p.path and p.path[-1][0] == 'w':
                x = p.path[-1]
                return LV(p.root, p.path[:-1] + (('w', add64(x[1], arith('*', d, x[2] // 8, 64, False)), x[2]),))
            d = lit_s(d)
            if is_c(d) and d == 0:
                return p
            return LV(p.root, p.path + (('i', d),))
        if isinstance(p, MapIt):
            return p.add(self, st, d)
        if isinstance(p, Null):
            return p
        if isinstance(p, Seq):   # array decayed by value
            return self.new(st, p.ty, p, 'arr').idx(d)
        raise Unsupported('pointer arithmetic on %r' % (p,))

    def incdec(self, st, l, op, ty, loc):
        v = self.read(st, l)
        if ty.k == 'ptr' or isinstance(v, (LV, Iter)) or isinstance(v, MapIt):
            d = 1 if op == '++' else mask(64)
            self.write(st, l, self.ptr_add(st, v, d, loc))
            return
        if ty.k == 'float':
            raise Unsupported('float ++')
        w = ty.width
        if isinstance(v, Choice):
            raise Unsupported('++ on choice')
        self.write(st, l, lit_s(arith('+' if op == '++' else '-', v, 1, w, ty.sg)))

    # ------------------------------------------------------------------ conversions / operators
    def conv(self, v, ft, tt):
        if tt.k == 'bool':
            return self.tobool(v)
        if tt.k in ('int', 'enum') and ft.k in ('int', 'enum', 'bool'):
            if ft.k == 'bool':
                return b2i(v, tt.w)
            if isinstance(v, Choice):
                return Ite(v.c, self.conv(v.a, ft, tt), self.conv(v.b, ft, tt), tt.w)
            return cast_int(v, ft.w, ft.sg, tt.w)
        if tt.k == 'float':
            return v
        return v

    def tobool(self, v):
        if isinstance(v, Choice):
            return Ite(v.c, self.tobool(v.a), self.tobool(v.b))
        if isinstance(v, Null):
            return False
        if isinstance(v, (LV, FnRef, Clo, PyFn)):
            return True
        if isinstance(v, Opt):
            return v.has
        if isinstance(v, Val):
            raise Unsupported('bool of %s' % short(v))
        return i2b(v)

    def cond(self, st, e, tu):
        v = self.rv(st, e, tu)
        return lit_s(self.tobool(v))

    def binop(self, st, op, a, b, ty, bty, loc):
        if isinstance(a, Choice):
            return Ite(a.c, self.binop(st, op, a.a, b, ty, bty, loc), self.binop(st, op, a.b, b, ty, bty, loc), ty.width)
        if isinstance(b, Choice):
            return Ite(b.c, self.binop(st, op, a, b.a, ty, bty, loc), self.binop(st, op, a, b.b, ty, bty, loc), ty.width)
        if isinstance(a, z3.FPRef) or isinstance(b, z3.FPRef) or isinstance(a, float) or isinstance(b, float):
            raise Unsupported('floating-point arithmetic')
        w, sg = ty.width, ty.sg
        if ty.k == 'bool':
            a, b = bl(a), bl(b)
            return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](a, b)
        if op in ('<<', '>>'):
            b2 = cast_int(b, bty.width, False, w) if bty.width <= w else self.clamp_shift(b, bty.width, w)
            self.safe(st, 'shift-in-range', cmp('<', b, w, bty.width, False) if bty.width >= 8 else True, loc)
            return self.small(arith(op, a, b2, w, sg))
        if op in ('/', '%'):
            self.safe(st, 'div-by-zero', cmp('!=', b, 0, w, False), loc)
            if sg and not is_c(b):
                self.safe(st, 'signed-div-overflow', Not(And(cmp('==', a, 1 << (w - 1), w, False), cmp('==', b, mask(w), w, False))), loc)
        if op in ('+', '-', '*') and sg and self.check_safety and not (is_c(a) and is_c(b)):
            x, y = bv(a, w), bv(b, w)
            if op == '+':
                ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == '-':
                ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            self.safe(st, 'signed-overflow', ok, loc)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return cmp(op, a, b, w, sg)
        return self.small(arith(op, a, b, w, sg))

    def small(self, v):
        return v

    def clamp_shift(self, b, bw, w):
        if is_c(b):
            return min(b, w)
        return z3.If(z3.ULT(b, w), z3.Extract(w - 1, 0, b), z3.BitVecVal(w, w))

    # ------------------------------------------------------------------ rvalues
    def any(self, st, e, tu):
        t = tu.ty(e['t'])
        if e.get('v') and e['k'] not in ('cast',):
            return self.lv(st, e, tu)
        if e['k'] == 'cast' and e['ck'] == 'ToVoid':
            return self.any(st, e['e'], tu)
        if e.get('v'):
            return self.lv(st, e, tu)
        return self.rv(st, e, tu)

    def rv(self, st, e, tu):
        k = e['k']
        m = getattr(self, 'rv_' + k, None)
        if m is None:
            if e.get('v'):
                return self.read(st, self.lv(st, e, tu))
            raise Unsupported('expression %s %s' % (k, e.get('c', '')))
        return m(st, e, tu)

    def rv_int(self, st, e, tu):
        t = tu.ty(e['t'])
        x = int(e['x'])
        if t.k == 'bool':
            return x != 0
        return x & mask(t.w)

    def rv_float(self, st, e, tu):
        return z3.FPVal(e['x'], z3.Float64())

    def rv_str(self, st, e, tu):
        ty = tu.ty(e['t'])
        return Seq(ty, [E(list(e['x']) + [0])])

    def rv_nullptr(self, st, e, tu):
        return NULL

    def rv_this(self, st, e, tu):
        return st.this

    def rv_zero(self, st, e, tu):
        return self.zero(tu.ty(e['t']))

    def rv_fnref(self, st, e, tu):
        return FnRef(e['f'], tu)

    def rv_memfn(self, st, e, tu):
        return FnRef(e['f'], tu)

    def rv_mat(self, st, e, tu):
        return self.rv(st, e['e'], tu)

    def rv_var(self, st, e, tu):
        return self.read(st, self.lv(st, e, tu))

    def rv_cast(self, st, e, tu):
        ck = e['ck']
        t = tu.ty(e['t'])
        s = e['e']
        if ck == 'LValueToRValue':
            l = self.lv(st, s, tu)
            return self.read(st, l)
        if ck == 'ToVoid':
            self.any(st, s, tu)
            return None
        if ck == 'IntegralCast':
            return self.conv(self.rv(st, s, tu), tu.ty(s['t']), t)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.tobool(self.rv(st, s, tu))
        if ck == 'NoOp':
            if s.get('v') and not e.get('v'):
                return self.read(st, self.lv(st, s, tu))
            return self.rv(st, s, tu)
        if ck == 'BooleanToSignedIntegral':
            return b2i(self.rv(st, s, tu), t.w)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULL
        if ck == 'ArrayToPointerDecay':
            l = self.lv(st, s, tu)
            return LV(l.root, l.path + (('i', 0),))
        if ck == 'FunctionToPointerDecay':
            return self.rv(st, s, tu) if s['k'] in ('fnref',) else self.lv(st, s, tu)
        if ck in ('ConstructorConversion', 'UserDefinedConversion'):
            if s.get('v'):
                return self.read(st, self.lv(st, s, tu))
            return self.rv(st, s, tu)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'Dynamic'):
            if s.get('v'):
                return self.read(st, self.lv(st, s, tu))
            v = self.rv(st, s, tu)
            if ck == 'Dynamic':
                return self.dyncast(st, v, t)
            return v
        if ck in ('BitCast', 'ReinterpretMemberPointer'):
            v = self.rv(st, s, tu)
            return self.ptr_cast(st, v, tu.ty(s['t']), t)
        if ck == 'IntegralToFloating':
            v = self.rv(st, s, tu)
            ft = tu.ty(s['t'])
            if is_c(v):
                return z3.FPVal(float(sgn(v, ft.w) if ft.sg else v), z3.Float64())
            srt = z3.Float64()
            return z3.fpSignedToFP(z3.RNE(), v, srt) if ft.sg else z3.fpUnsignedToFP(z3.RNE(), v, srt)
        if ck == 'FloatingToIntegral':
            v = self.rv(st, s, tu)
            if isinstance(v, Ghost) and v.kind == 'fint':
                return cast_int(v.d, 64, False, t.w)
            r = z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(t.w)) if t.sg else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(t.w))
            return lit(z3.simplify(r))
        if ck == 'FloatingCast':
            return self.rv(st, s, tu)
        if ck == 'PointerToIntegral':
            raise Unsupported('pointer to integer')
        raise Unsupported('cast %s' % ck)

    def dyncast(self, st, v, t):
        raise Unsupported('dynamic_cast')

    def ptr_cast(self, st, v, ft, tt):
        if isinstance(v, Choice):
            return Choice(v.c, self.ptr_cast(st, v.a, ft, tt), self.ptr_cast(st, v.b, ft, tt))
        if not isinstance(v, LV) or tt.k != 'ptr':
            return v
        te = tt.e
        if te.k == 'void' or ft.e.k == 'void':
            return v
        fw = ft.e.w if ft.e.k in ('int', 'enum') else None
        tw = te.w if te.k in ('int', 'enum') else None
        if fw == tw and fw is not None:
            return v
        if tw == 8 and fw is not None and fw > 8:
            if v.path and v.path[-1][0] == 'i':
                try:
                    c = self.read(st, LV(v.root, v.path[:-1]))
                except Unsupported:
                    c = None
                if isinstance(c, Seq):
                    return LV(v.root, v.path + (('b', 0, fw),))
            return LV(v.root, v.path + (('b', 0, fw),))
        if fw == 8 and tw is not None:
            if v.path and v.path[-1][0] == 'i':
                return LV(v.root, v.path[:-1] + (('w', v.path[-1][1], tw),))
            if v.path and v.path[-1][0] == 'b' and v.path[-1][2] == tw and is_c(v.path[-1][1]) and v.path[-1][1] == 0:
                return LV(v.root, v.path[:-1])
        return v

    def rv_un(self, st, e, tu):
        op = e['op']
        t = tu.ty(e['t'])
        if op == '!':
            return Not(self.cond(st, e['e'], tu))
        if op == '-':
            v = self.rv(st, e['e'], tu)
            if t.k == 'float':
                return -v
            self.safe(st, 'signed-overflow', cmp('!=', v, 1 << (t.w - 1), t.w, False), e['l']) if t.sg else None
            return arith('-', 0, v, t.width, t.sg)
        if op == '+':
            return self.rv(st, e['e'], tu)
        if op == '~':
            v = self.rv(st, e['e'], tu)
            return v ^ mask(t.w) if is_c(v) else ~v
        if op == '&':
            s = e['e']
            if s['k'] == 'fnref':
                return FnRef(s['f'], tu)
            return self.lv(st, s, tu)
        if op in ('++', '--'):
            l = self.lv(st, e['e'], tu)
            old = self.read(st, l)
            self.incdec(st, l, op, tu.ty(e['e']['t']), e['l'])
            return old if e.get('post') else self.read(st, l)
        if op == '*':
            return self.read(st, self.lv(st, e, tu))
        raise Unsupported('unary %s' % op)

    def rv_bin(self, st, e, tu):
        op = e['op']
        t = tu.ty(e['t'])
        if op in ('&&', '||'):
            a = self.cond(st, e['a'], tu)
            if op == '&&':
                return self.branch(st, a, lambda s: self.cond(s, e['b'], tu), lambda s: False)
            return self.branch(st, a, lambda s: True, lambda s: self.cond(s, e['b'], tu))
        if op == '=':
            return self.read(st, self.lv(st, e, tu))
        if op == ',':
            self.any(st, e['a'], tu)
            return self.rv(st, e['b'], tu)
        a = self.rv(st, e['a'], tu)
        b = self.rv(st, e['b'], tu)
        at, bt = tu.ty(e['a']['t']), tu.ty(e['b']['t'])
        if at.k == 'ptr' or bt.k == 'ptr' or at.k == 'nullptr' or bt.k == 'nullptr':
            return self.ptrop(st, op, a, b, at, bt, e['l'])
        if at.k == 'float' or bt.k == 'float':
            return self.fop(op, a, b)
        return self.binop(st, op, a, b, at, bt, e['l'])

    def fop(self, op, a, b):
        if isinstance(a, Ghost) or isinstance(b, Ghost):
            raise Unsupported('float op on ghost')
        rm = z3.RNE()
        if op in '+-*/':
            return z3.simplify({'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op](rm, a, b))
        return {'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ, '==': z3.fpEQ, '!=': z3.fpNEQ}[op](a, b)

    def ptrop(self, st, op, a, b, at, bt, loc):
        if op in ('==', '!='):
            r = self.veq(st, a, b)
            return r if op == '==' else Not(r)
        if op == '+':
            if at.k != 'ptr':
                a, b, at, bt = b, a, bt, at
            return self.ptr_add(st, a, cast_int(b, bt.width, bt.sg, 64), loc)
        if op == '-':
            if bt.k == 'ptr':
                return self.ptr_diff(st, a, b)
            d = cast_int(b, bt.width, bt.sg, 64)
            return self.ptr_add(st, a, arith('-', 0, d, 64, False), loc)
        if op in ('<', '<=', '>', '>='):
            return cmp(op, self.ptr_idx(a), self.ptr_idx(b), 64, True)
        raise Unsupported('pointer op %s' % op)

    def ptr_idx(self, p):
        if isinstance(p, LV) and p.path and p.path[-1][0] in ('i', 'b'):
            return p.path[-1][1]
        if isinstance(p, LV):
            return 0
        if isinstance(p, Iter):
            return p.i
        raise Unsupported('pointer index of %r' % (p,))

    def ptr_diff(self, st, a, b):
        if isinstance(a, Iter):
            return sub64(a.i, b.i) if not a.rev else sub64(b.i, a.i)
        return sub64(self.ptr_idx(a), self.ptr_idx(b))

    def rv_casg(self, st, e, tu):
        return self.read(st, self.lv(st, e, tu))

    def rv_cond(self, st, e, tu):
        c = self.cond(st, e['c'], tu)
        t = tu.ty(e['t'])
        return self.branch(st, c, lambda s: self.rv(s, e['a'], tu), lambda s: self.rv(s, e['b'], tu), t)

    def rv_ctor(self, st, e, tu):
        t = tu.ty(e['t'])
        f = e['f']
        if t.k in ('arr', 'arrx'):
            n = self.fixedlen(t)
            return Seq(t, [E([self.rv_ctor(st, dict(e, t=None, _ty=self.elem(t)), tu) for _ in range(n)])]) if n is not None and n < 300 else self.zero(t)
        if '_ty' in e:
            t = e['_ty']
        return self.construct(st, t, f, e['a'], tu, e)

    def construct(self, st, t, f, anodes, tu, e):
        nn = norm(f['n'])
        if f.get('copy'):
            fn = self.lookup(f)
            if fn is None or fn.d.get('deflt') or nn.startswith('std::') or nn in ('uuids::uuid::uuid',):
                v = self.rvany(st, anodes[0], tu)
                return v
            if self.opts.get('copyctor_value', True) and nn.split('::')[-1] not in self.opts.get('user_copy', ()):
                # user-provided copy/move constructors run like any other constructor
                pass
        h = self.handler(self.contracts, f) or self.handler(self.models, f)
        if h is not None:
            self.used_models.add(nn)
            args = self.args(st, anodes, f, tu)
            return h(self, st, None, args, CallInfo(f, tu, e, t))
        fn = self.lookup(f)
        if fn is None or nn.startswith('std::'):
            from .stdlib import std_ctor
            args = self.args(st, anodes, f, tu)
            return std_ctor(self, st, t, f, args, tu, e)
        obj = self.new(st, t, self.undef(t), 'obj')
        if e.get('zero'):
            self.write(st, obj, self.zero(t))
        if f.get('dctor') and fn.d.get('deflt'):
            # implicit default constructor: members by their initialisers
            self.default_members(st, t, obj, fn)
            return self.read(st, obj)
        args = self.args(st, anodes, f, tu)
        self.default_std_members(st, t, obj)
        self.invoke(st, fn, obj, args)
        return self.read(st, obj)

    def default_std_members(self, st, t, obj):
        pass

    def default_members(self, st, t, obj, fn):
        try:
            self.invoke(st, fn, obj, [])
        except KeyError:
            pass

    def rvany(self, st, a, tu):
        if a.get('v') or a['k'] == 'mat':
            return self.read(st, self.lv(st, a, tu))
        return self.rv(st, a, tu)

    def rv_il(self, st, e, tu):
        t = tu.ty(e['t'])
        if e.get('transp'):
            return self.rv(st, e['a'][0], tu)
        if self.isseq(t) or t.k == 'arrx':
            if t.k == 'rec':   # std::array aggregate: nested init list
                if len(e['a']) == 1 and e['a'][0]['k'] in ('il',):
                    inner = self.rv(st, e['a'][0], tu)
                    return Seq(t, inner.ch)
                if len(e['a']) == 1 and t.n == 'std::array' and e['a'][0].get('t') is not None and tu.ty(e['a'][0]['t']).k in ('arr', 'arrx'):
                    inner = self.rvinit(st, e['a'][0], tu)
                    return Seq(t, inner.ch)
                if not e['a']:
                    return self.zero(t)
            vals = [self.rvinit(st, a, tu) for a in e['a']]
            n = self.fixedlen(t)
            if n is not None and len(vals) < n:
                fill = self.rvinit(st, e['fill'], tu) if e.get('fill') else self.zero(self.elem(t))
                vals += [fill] * (n - len(vals))
            return Seq(t, [E(vals)])
        if t.k == 'rec':
            r = dict()
            fs = self.prog.allfields(t)
            inits = e['a']
            # bases first
            i = 0
            tr = self.prog.rec(t)
            for b in (tr[1].get('b', []) if tr else []):
                bt = tr[0].ty(b)
                v = self.rv(st, inits[i], tu)
                i += 1
                if isinstance(v, Rec):
                    r.update(v.f)
            own = [x for x in fs if x[0] not in r]
            for (fn, ft, _, _), a in zip(own, inits[i:]):
                if ft.k == 'ref':
                    r[fn] = self.lvarg(st, a, tu)
                else:
                    r[fn] = self.rvinit(st, a, tu)
            return Rec(t, r)
        if len(e['a']) == 1:
            return self.rv(st, e['a'][0], tu)
        if not e['a']:
            return self.zero(t)
        raise Unsupported('init list for %s' % t.s)

    def rvinit(self, st, a, tu):
        if a.get('v') or a['k'] == 'mat':
            return self.read(st, self.lv(st, a, tu))
        return self.rv(st, a, tu)

    def rv_initlist_std(self, st, e, tu):
        v = self.rvinit(st, e['e'], tu)
        return Seq(tu.ty(e['t']), v.ch)

    def rv_arrcopy(self, st, e, tu):
        return self.rvany(st, e['e'], tu)

    def rv_lambda(self, st, e, tu):
        caps = {}
        this = None
        for c in e['caps']:
            if 'this' in c:
                this = st.this
                continue
            key = (id(tu), c['d'])
            if c['ref']:
                caps[key] = self.lvarg(st, c['init'], tu)
            else:
                v = self.rvinit(st, c['init'], tu)
                caps[key] = self.new(st, tu.ty(c['t']), v, 'cap')
        return Clo(e, tu, caps, this)

    def rv_throw(self, st, e, tu):
        if 'e' not in e:
            self.throw(st, st.ghost.get('$exc') or Exc('rethrow'))
        self.throw(st, Exc(tu.ty(e['tt']).n or tu.ty(e['tt']).s))

    def rv_new(self, st, e, tu):
        at = tu.ty(e['at'])
        if 'n' in e and e['n'] is not None:
            raise Unsupported('new[]')
        v = self.rv(st, e['i'], tu) if e.get('i') else self.undef(at)
        return self.new(st, at, v, 'heap')

    def rv_delete(self, st, e, tu):
        self.rv(st, e['e'], tu)
        return None

    def rv_call(self, st, e, tu):
        v = self.call(st, e, tu)
        return self.autoderef(st, v, e, tu)

    rv_mcall = rv_call
    rv_ocall = rv_call

    def autoderef(self, st, v, e, tu):
        return v

    def unsupported_callee(self, f):
        raise Unsupported('no body, model or contract for %s' % f['n'])

    def call(self, st, e, tu):
        k = e['k']
        f = e.get('f')
        if self.deadline and time.time() > self.deadline:
            raise Timeout('symbolic execution budget exhausted')
        if f is None:
            if 'ce' in e:
                c = e['ce']
                fv = self.rv(st, c, tu) if not c.get('v') else self.lv(st, c, tu)
                if isinstance(fv, LV):
                    fv = self.read(st, fv)
                args = [self.lvarg(st, a, tu) for a in e['a']]
                return self.callv(st, fv, args)
            raise Unsupported('indirect call')
        nn = norm(f['n'])
        f['nn'] = nn
        if nn in self.skip:
            t = tu.ty(e['t'])
            return None if t.k == 'void' else self.undef(t)
        this = None
        anodes = e['a']
        if k == 'mcall':
            if e.get('arrow'):
                this = self.rv(st, e['e'], tu)
            else:
                this = self.lvarg(st, e['e'], tu)
        elif k == 'ocall' and 'rec' in f and not f.get('static'):
            this = self.lvarg(st, anodes[0], tu)
            anodes = anodes[1:]
            if nn.endswith('::operator()') and tu.ty(f['rec']).lam is not None:
                fv = self.read(st, this) if isinstance(this, LV) else this
                args = self.args(st, anodes, f, tu)
                return self.callv(st, fv, args, f)
        args = self.args(st, anodes, f, tu)
        return self.call_resolved(st, f, tu, this, args, e)

    def call_resolved(self, st, f, tu, this, args, e):
        nn = f.get('nn') or norm(f['n'])
        f['nn'] = nn
        if isinstance(this, Choice):
            # dispatch on each alternative
            return self.branch(st, this.c, lambda s: self.call_resolved(s, f, tu, this.a, args, e), lambda s: self.call_resolved(s, f, tu, this.b, args, e))
        if isinstance(this, Null):
            self.safe(st, 'null-deref', False, e['l'])
            raise Dead()
        h = self.handler(self.contracts, f)
        if h is not None:
            self.used_contracts.add(nn)
            return h(self, st, this, args, CallInfo(f, tu, e))
        fn = self.lookup(f)
        if f.get('virt') and not e.get('qual') and isinstance(this, LV):
            fn2 = self.dispatch(st, fn, f, this)
            if fn2 is not None:
                fn = fn2
                h = self.contracts.get(fn.key) or self.contracts.get(fn.n)
                if h is not None:
                    return h(self, st, this, args, CallInfo(f, tu, e))
        h = self.handler(self.models, f)
        if h is not None:
            self.used_models.add(nn)
            return h(self, st, this, args, CallInfo(f, tu, e))
        if f.get('assign') and (fn is None or fn.d.get('deflt')):
            v = self.read(st, args[0]) if isinstance(args[0], (LV, Choice)) else args[0]
            self.write(st, this, v)
            return this
        if fn is None:
            from .stdlib import std_call
            r = std_call(self, st, f, this, args, CallInfo(f, tu, e))
            if r is not NotImplemented:
                self.used_models.add(nn)
                return r
            self.unsupported_callee(f)
        if fn.d.get('deflt') and nn.split('::')[-1].startswith('~'):
            return None
        return self.invoke(st, fn, this, args)

    def dispatch(self, st, fn, f, this):
        v = None
        try:
            v = self.read(st, this)
        except Unsupported:
            return None
        if isinstance(v, Rec) and v.ty is not None:
            want = v.ty
            rt = want.id
            for k in self.prog.overriders.get(f['key'], []):
                g = self.prog.fns[k]
                if g.tu.ty(g.d['rec']).id == rt:
                    return g
            # inherited override
            for b in self.prog.bases(want):
                for k in self.prog.overriders.get(f['key'], []):
                    g = self.prog.fns[k]
                    if g.tu.ty(g.d['rec']).id == b.id:
                        return g
        return None

    def callv(self, st, fv, args, f=None):
        """call a closure / function value. args: LVs or values"""
        if isinstance(fv, Choice):
            return self.branch(st, fv.c, lambda s: self.callv(s, fv.a, args, f), lambda s: self.callv(s, fv.b, args, f))
        if isinstance(fv, LV):
            fv = self.read(st, fv)
        if isinstance(fv, PyFn):
            return fv.f(self, st, args)
        if isinstance(fv, Clo):
            ops = fv.node['ops']
            key = f['key'] if f is not None and f['key'] in ops else ops[0]
            fn = self.prog.fns.get(key)
            if fn is None:
                raise Unsupported('lambda body missing')
            if len(ops) > 1 and f is None:
                cands = [self.prog.fns[k] for k in ops if k in self.prog.fns]
                cands = [c for c in cands if len(c.d['p']) == len(args)]
                if len(cands) > 1:
                    good = []
                    for c in cands:
                        ok = True
                        for p, a in zip(c.d['p'], args):
                            pt = c.tu.ty(p['t'])
                            pt = pt.e if pt.k == 'ref' else pt
                            v = self.read(st, a) if isinstance(a, LV) else a
                            if isinstance(v, Rec) and v.ty is not None and pt.k == 'rec' and pt.id != v.ty.id:
                                ok = False
                        if ok:
                            good.append(c)
                    cands = good or cands
                fn = cands[0]
            return self.invoke(st, fn, fv.this, self.fixargs(st, fn, args), fv.caps)
        if isinstance(fv, FnRef):
            fn = self.lookup(fv.f)
            h = self.handler(self.contracts, fv.f) or self.handler(self.models, fv.f)
            if h:
                return h(self, st, None, args, CallInfo(fv.f, fv.tu, {'l': 0, 'k': 'call', 'a': []}))
            if fn is None:
                raise Unsupported('call through pointer to %s' % fv.f['n'])
            if 'rec' in fv.f and not fv.f.get('static'):
                return self.invoke(st, fn, args[0], self.fixargs(st, fn, args[1:]))
            return self.invoke(st, fn, None, self.fixargs(st, fn, args))
        raise Unsupported('call of %s' % short(fv))

    def fixargs(self, st, fn, args):
        out = []
        for p, a in zip(fn.d['p'], args):
            t = fn.tu.ty(p['t'])
            if t.k != 'ref' and isinstance(a, (LV, Choice)) and t.k not in ('ptr',) and not (t.k == 'rec' and t.n in ('std::shared_ptr', 'std::unique_ptr') and not self.is_ptr_loc(st, a)):
                a = self.read(st, a)
            if t.isint and z3.is_bv(a) and t.k != 'bool' and a.size() != t.width:
                if a.size() < t.width:
                    raise Unsupported('implicit widening of a callback argument')
                a = cast_int(a, a.size(), False, t.width)
            out.append(a)
        return out

    def par_type(self, fv, i):
        """type of the i-th parameter of a callable, or None"""
        if isinstance(fv, Clo):
            fn = self.prog.fns.get(fv.node['ops'][0])
        elif isinstance(fv, FnRef):
            fn = self.lookup(fv.f)
        else:
            return None
        if fn is None or i >= len(fn.d['p']):
            return None
        t = fn.tu.ty(fn.d['p'][i]['t'])
        return t.e if t.k == 'ref' else t

    def is_ptr_loc(self, st, a):
        try:
            return isinstance(self.read(st, a), (LV, Null, Choice))
        except (Unsupported, Dead):
            return False

    # ------------------------------------------------------------------ statements
    def stmt(self, st, s, tu):
        """execute; returns list of Out"""
        if s is None:
            return [Out('normal', st)]
        try:
            return getattr(self, 'st_' + s['k'])(st, s, tu)
        except Dead:
            return []

    def st_unsup(self, st, s, tu):
        raise Unsupported('statement %s' % s['c'])

    def st_null(self, st, s, tu):
        return [Out('normal', st)]

    def st_expr(self, st, s, tu):
        self.any(st, s['e'], tu)
        return [Out('normal', st)]

    def st_block(self, st, s, tu):
        return self.seq(st, s['b'], tu)

    def seq(self, st, stmts, tu):
        outs = []
        cur = st
        n0 = len(st.pc)
        envkeys = None
        for x in stmts:
            r = self.stmt(cur, x, tu)
            normals = [o for o in r if o.k == 'normal']
            outs += [o for o in r if o.k != 'normal']
            if not normals:
                return outs
            if len(normals) == 1:
                cur = normals[0].st
            else:
                cur, _ = self.merge(self.common(normals), [(o.st, None) for o in normals])
        self.scope_exit(cur, stmts, tu)
        outs.append(Out('normal', cur))
        return outs

    def scope_exit(self, st, stmts, tu):
        """run user-provided destructors of locals declared in this block (RAII)"""
        if not self.opts.get('dtors'):
            return
        for x in reversed(stmts):
            if x and x['k'] == 'decl':
                for d in reversed(x['b']):
                    t = tu.ty(d['t'])
                    if t.k == 'rec' and t.n in self.opts['dtors']:
                        l = st.env.get((id(tu), d['d']))
                        if l is not None:
                            self.opts['dtors'][t.n](self, st, l, t)

    def common(self, outs):
        """length of common pc prefix"""
        p = outs[0].st.pc
        n = len(p)
        for o in outs[1:]:
            q = o.st.pc
            n = min(n, len(q))
            i = 0
            while i < n and (p[i] is q[i]):
                i += 1
            n = i
        return n

    def declare(self, st, d, tu):
        t = tu.ty(d['t'])
        key = (id(tu), d['d'])
        if d.get('static'):
            root = ('sl', d['n'], id(tu), d['d'])
            if root not in st.mem:
                h = self.models.get('static:' + d['n'])
                st.mem[root] = h(self, st) if h else self.rvinit(st, d['i'], tu) if d.get('i') else self.zero(t)
                self.rty[root] = t
            st.env[key] = LV(root)
            return
        if t.k == 'ref':
            st.env[key] = self.lvarg(st, d['i'], tu)
            self.bindings(st, d, st.env[key], tu)
            return
        if d.get('i'):
            v = self.rvinit(st, d['i'], tu)
        else:
            v = self.undef(t)
        l = self.new(st, t, v, d['n'] or 'v')
        st.env[key] = l
        self.bindings(st, d, l, tu)

    def bindings(self, st, d, l, tu):
        if 'bind' not in d:
            return
        v = self.read(st, l)
        t = tu.ty(d['t'])
        names = None
        for i, b in enumerate(d['bind']):
            if isinstance(v, Rec) and v.ty.n == 'std::pair':
                st.env[(id(tu), b['d'])] = l.field('first' if i == 0 else 'second')
            elif isinstance(v, Rec) and v.ty.n == 'std::tuple':
                st.env[(id(tu), b['d'])] = l.field(str(i))
            elif isinstance(v, Rec):
                names = list(v.f.keys())
                st.env[(id(tu), b['d'])] = l.field(names[i])
            elif isinstance(l, MapIt):
                st.env[(id(tu), b['d'])] = l.field(self, st, 'first' if i == 0 else 'second')
            else:
                raise Unsupported('structured binding')

    def st_decl(self, st, s, tu):
        for d in s['b']:
            self.declare(st, d, tu)
        return [Out('normal', st)]

    def st_return(self, st, s, tu):
        if 'e' not in s:
            return [Out('return', st, None)]
        e = s['e']
        # return type decides reference/value
        if e.get('v') and not (e['k'] == 'cast' and e['ck'] == 'LValueToRValue'):
            return [Out('return', st, self.lv(st, e, tu))]
        return [Out('return', st, self.rv(st, e, tu))]

    def st_break(self, st, s, tu):
        return [Out('break', st)]

    def st_continue(self, st, s, tu):
        return [Out('continue', st)]

    def st_if(self, st, s, tu):
        outs = []
        if s.get('init'):
            self.stmt(st, s['init'], tu)
        if s.get('cv'):
            self.declare(st, s['cv'], tu)
        c = self.cond(st, s['c'], tu)
        if c is True:
            return self.stmt(st, s['a'], tu)
        if c is False:
            return self.stmt(st, s['b'], tu) if s.get('b') else [Out('normal', st)]
        if self.opts.get('prune'):
            d = self.decide(st, c)
            if d is True:
                return self.stmt(st, s['a'], tu)
            if d is False:
                return self.stmt(st, s['b'], tu) if s.get('b') else [Out('normal', st)]
        n = len(st.pc)
        sa = st.copy()
        sa.pc.append(c)
        outs = self.stmt(sa, s['a'], tu)
        sb = st
        sb.pc = st.pc + [Not(c)]
        outs += self.stmt(sb, s['b'], tu) if s.get('b') else [Out('normal', sb)]
        return self.mergeouts(n, outs)

    def mergeouts(self, n, outs):
        normals = [o for o in outs if o.k == 'normal']
        if len(normals) <= 1:
            return outs
        stm, _ = self.merge(n, [(o.st, None) for o in normals])
        return [o for o in outs if o.k != 'normal'] + [Out('normal', stm)]

    def st_switch(self, st, s, tu):
        if s.get('init'):
            self.stmt(st, s['init'], tu)
        t = tu.ty(s['c']['t'])
        v = self.rv(st, s['c'], tu)
        body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        flat = []       # (labels, stmt)
        for x in body:
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(int(x['x']) & mask(t.width) if x['k'] == 'case' else None)
                x = x['b']
            flat.append((labels, x))
        n = len(st.pc)
        allc = [l for ls, _ in flat for l in ls if l is not None]
        outs = []
        covered = False
        for i, (ls, _) in enumerate(flat):
            for l in ls:
                if l is None:
                    c = And(*[cmp('!=', v, x, t.width, False) for x in allc])
                    covered = True
                else:
                    c = cmp('==', v, l, t.width, False)
                c = lit_s(c)
                if c is False:
                    continue
                sc = st.copy()
                if c is not True:
                    sc.pc.append(c)
                r = self.seq(sc, [x for _, x in flat[i:]], tu)
                for o in r:
                    if o.k == 'break':
                        o.k = 'normal'
                outs += r
        if not covered:
            c = lit_s(And(*[cmp('!=', v, x, t.width, False) for x in allc]))
            if c is not False:
                sc = st.copy()
                if c is not True:
                    sc.pc.append(c)
                outs.append(Out('normal', sc))
        normals = [o for o in outs if o.k == 'normal']
        if len(normals) > 1:
            return self.mergeouts(n, outs)
        return outs

    def st_try(self, st, s, tu):
        n = len(st.pc)
        self.exits.append([])
        env0 = dict(st.env)
        this0 = st.this
        try:
            outs = self.stmt(st, s['b'], tu)
        finally:
            ex = self.exits.pop()
        ex += [o for o in outs if o.k == 'throw']
        outs = [o for o in outs if o.k != 'throw']
        for o in ex:
            s2 = o.st
            s2.env = dict(env0)
            s2.this = this0
            handled = False
            for h in s['h']:
                ht = tu.ty(h['t']) if 't' in h else None
                if ht is None or self.catches(ht, o.v, tu):
                    old = s2.ghost.get('$exc')
                    s2.ghost['$exc'] = o.v if isinstance(o.v, Val) else ExcV(o.v)
                    if 'd' in h:
                        hty = ht.e if ht.k == 'ref' else ht
                        s2.env[(id(tu), h['d'])] = self.new(s2, hty, Opq(hty, None), 'exc')
                    outs += self.stmt(s2, h['b'], tu)
                    handled = True
                    break
            if not handled:
                self.exits[-1].append(o)
        return self.mergeouts(n, outs)

    def catches(self, ht, exc, tu):
        t = ht.e if ht.k == 'ref' else ht
        n = t.n or t.s
        if isinstance(exc, ExcV):
            exc = exc.e
        et = exc.ty
        if n == et:
            return True
        if n in ('std::exception',):
            return et not in ('int', 'const char *')
        # user bases
        for key, (tu2, r) in self.prog.records.items():
            if norm(r['n']) == et:
                for b in r.get('b', []):
                    bt = tu2.ty(b)
                    if self.catches(ht, Exc(bt.n), tu):
                        return True
        std = {'std::out_of_range': ['std::logic_error'], 'std::length_error': ['std::logic_error'], 'std::invalid_argument': ['std::logic_error'], 'std::bad_alloc': [], 'std::runtime_error': []}
        return n in std.get(et, [])

    # ------------------------------------------------------------------ loops
    def st_for(self, st, s, tu):
        outs = []
        if s.get('init'):
            r = self.stmt(st, s['init'], tu)
            if not r:
                return []
            st = r[0].st
        return self.loop(st, s, tu, s.get('c'), s.get('inc'), s['b'], cv=s.get('cv'))

    def st_do(self, st, s, tu):
        return self.loop(st, s, tu, s['c'], None, s['b'], do=True)

    def st_forrange(self, st, s, tu):
        if s.get('init'):
            self.stmt(st, s['init'], tu)
        for part in ('range', 'begin', 'end'):
            r = self.stmt(st, s[part], tu)
            if not r:
                return []
            st = r[0].st
        body = {'k': 'block', 'b': [s['var'], s['b']], 'l': s['l']}
        return self.loop(st, s, tu, s['c'], s['inc'], body)

    def iteration(self, st, s, tu, c, inc, body, do=False, cv=None):
        """one body+inc execution from st (condition already assumed). returns (next_states, outs)"""
        n0 = len(st.pc)
        r = self.stmt(st, body, tu)
        cont = [o for o in r if o.k in ('normal', 'continue')]
        outs = [o for o in r if o.k not in ('normal', 'continue')]
        if not cont:
            return None, outs
        if len(cont) > 1:
            m, _ = self.merge(min(n0, self.common(cont)), [(o.st, None) for o in cont])
        else:
            m = cont[0].st
        if inc is not None:
            try:
                self.any(m, inc, tu)
            except Dead:
                return None, outs
        return m, outs

    def loop(self, st, s, tu, c, inc, body, do=False, cv=None):
        from . import loops
        return loops.run(self, st, s, tu, c, inc, body, do, cv)

    skip = set()

    def alloc_check(self, st, n):
        h = self.opts.get('alloc')
        if h:
            h(self, st, n)

    def ty_of_ta(self, ci, i):
        ta = ci.f['ta'][i]
        return ci.tu.ty(ta['t'])

    def ret_type(self, fv):
        if isinstance(fv, Clo):
            fn = self.prog.fns.get(fv.node['ops'][0])
            return fn.tu.ty(fn.d['rt']) if fn else None
        if isinstance(fv, FnRef):
            return fv.tu.ty(fv.f['rt'])
        return None

    @property
    def u64ty(self):
        return self.prog.type('unsigned long')

    def dyn_pointer(self, st, p, rt):
        raise Unsupported('dynamic_pointer_cast')

    def pow_model(self, st, a, b, pe, ci):
        raise Unsupported('pow')


class ExcV(Val):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def ty(self):
        return self.e.ty


class CallInfo:
    __slots__ = ('f', 'tu', 'e', 't')

    def __init__(self, f, tu, e, t=None):
        self.f, self.tu, self.e, self.t = f, tu, e, t

    @property
    def rt(self):
        return self.tu.ty(self.f['rt'])

    @property
    def rec(self):
        return self.tu.ty(self.f['rec'])

    def pty(self, i):
        return self.tu.ty(self.f['p'][i])


class MapIt(Val):
    pass


def vsame(p, q):
    if p is q:
        return True
    if isinstance(p, z3.ExprRef) and isinstance(q, z3.ExprRef):
        return p.eq(q)
    if is_c(p) and is_c(q):
        return p == q and type(p) == type(q)
    if isinstance(p, Rec) and isinstance(q, Rec):
        return p.f.keys() == q.f.keys() and all(vsame(p.f[k], q.f[k]) for k in p.f)
    if isinstance(p, Seq) and isinstance(q, Seq):
        return len(p.ch) == len(q.ch) and all((isinstance(x, E) and isinstance(y, E) and len(x.vals) == len(y.vals) and all(map(vsame, x.vals, y.vals))) or x is y for x, y in zip(p.ch, q.ch))
    if isinstance(p, LV) and isinstance(q, LV):
        return p.key() == q.key()
    if isinstance(p, Opt) and isinstance(q, Opt):
        return vsame(p.has, q.has) and vsame(p.v, q.v)
    return False


def concat_le(bs):
    """little-endian bytes -> int"""
    n = len(bs)
    if all(is_c(b) for b in bs):
        return sum(b << (8 * i) for i, b in enumerate(bs))
    # recognise re-assembly of extracts
    r = z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if n > 1 else bs[0]
    return lit_s(r)


stdmaps = ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multimap', 'std::unordered_multimap')
