"""Loops: complete unrolling when the guard is decided at every iteration, otherwise a checked inductive summary.

Summary = closed forms for every location the loop modifies, as a function of the iteration index k:
  affine      x(k) = x0 + d*k
  append      s(k) = s0 ++ g(0) ++ ... ++ g(k-1)
  fill        s(k)[j] = v(j-a0) for a0 <= j < a0+k, s0[j] elsewhere
  cursor      x(k) = x0 + |g'(0)| + ... + |g'(k-1)| for the pieces g' of an existing sequence
  recurrence  V(0) = x0, V(k+1) = step(k)            (definitional)
The guesses come from a probe iteration; each is then checked by executing one arbitrary iteration from the
closed form at k and proving that it yields the closed form at k+1 (base case by construction)."""
import z3, os
from .values import *
from .engine import *

BIG = 1 << 62


def run(I, st, s, tu, c, inc, body, do=False, cv=None):
    outs = []
    n0 = len(st.pc)

    def cond(x):
        if cv is not None:
            I.declare(x, cv, tu)
        if c is None:
            return True
        return I.cond(x, c, tu)

    def step(x):
        return I.iteration(x, s, tu, c, inc, body)
    if do:
        st, o = I.iteration(st, s, tu, c, inc, body)
        for x in o:
            if x.k == 'break':
                x.k = 'normal'
        outs += o
        if st is None:
            return I.mergeouts(n0, outs)
    key = (I.cur_fn[-1] if I.cur_fn else '', s.get('l'))
    return I.mergeouts(n0, outs + loop(I, st, cond, step, key))


def loop(I, st, cond, step, key=None, mode=None):
    """cond(state)->bool term (may have effects); step(state)->(next|None, outs)"""
    outs = []
    n0 = len(st.pc)
    cur = st
    tried = False
    fail = None
    mode = mode or I.opts.get('loopmode', {}).get(key and key[0])
    undecided = 0
    i = 0
    if mode is None and I.opts.get('nosummary'):
        tried = True   # invariants and unrolling only
    while True:
        if i > I.opts['unroll']:
            raise Unsupported('loop at %s: not summarised (%s), unroll bound reached' % (key, fail))
        pre = None if tried or mode == 'unroll' else cur.copy()
        if i == 0 and I.invpool and mode is None:
            inv = Invariant(I, cur.copy(), cond, step, key)
            inv.strict = True
            r = inv.run()
            if r is not None:
                I.loopinfo.append((key, 'invariant'))
                return outs + r
        try:
            cc = lit_s(cond(cur))
        except Dead:
            return outs
        if not isinstance(cc, bool):
            d = None if I.opts.get('nosummary') else I.decide(cur, cc)
        else:
            d = cc
        if d is False:
            if cc is not False:
                pass
            outs.append(Out('normal', cur))
            return outs
        if d is None:
            undecided += 1
            if pre is not None:
                tried = True
                if I.invpool and mode != 'sum' and not I.opts.get('invsplit'):
                    r = Invariant(I, pre.copy(), cond, step, key).run()
                    if r is not None:
                        I.loopinfo.append((key, 'invariant'))
                        return outs + r
                try:
                    r = Summary(I, pre, cond, step, key).run()
                    I.loopinfo.append((key, 'summarised'))
                    return outs + r
                except Unsupported as e:
                    fail = str(e)
                    if mode == 'sum' or I.kks and False:
                        raise
            if undecided > I.opts.get('unroll_undecided', 70):
                raise Unsupported('loop at %s: not summarised: %s' % (key, fail))
            ex = cur.copy()
            ex.pc.append(Not(cc))
            outs.append(Out('normal', ex))
            cur.pc.append(cc)
        elif cc is not True:
            pass
        nxt, o = step(cur)
        for x in o:
            if x.k == 'break':
                x.k = 'normal'
        outs += o
        if nxt is None:
            return outs
        cur = nxt
        i += 1
        if len(cur.pc) > n0 + 40 and undecided == 0 and False:
            pass


# --------------------------------------------------------------------------------------------- leaves

def leaves(v, path=()):
    """yield (path, leafvalue) decomposing records / optionals / short concrete sequences"""
    if isinstance(v, Rec):
        for k, x in v.f.items():
            yield from leaves(x, path + (('f', k),))
    elif isinstance(v, Seq):
        c = v.conc()
        if c is not None and 0 < len(c) <= 128:
            for i, x in enumerate(c):
                yield from leaves(x, path + (('e', i),))
        else:
            yield path, v
    elif isinstance(v, Opt):
        yield path + (('has',),), v.has
        if v.v is not None:
            yield from leaves(v.v, path + (('o',),))
        else:
            yield path + (('o',),), None
    else:
        yield path, v


def getp(v, path):
    for p in path:
        if v is None:
            return None
        if p[0] == 'f':
            v = v.f[p[1]]
        elif p[0] == 'e':
            c = v.conc()
            if c is None or p[1] >= len(c):
                raise KeyError(p)
            v = c[p[1]]
        elif p[0] == 'has':
            v = v.has
        elif p[0] == 'o':
            v = v.v
    return v


def setp(v, path, x):
    if not path:
        return x
    p = path[0]
    if p[0] == 'f':
        return v.set(p[1], setp(v.f[p[1]], path[1:], x))
    if p[0] == 'e':
        c = list(v.conc())
        c[p[1]] = setp(c[p[1]], path[1:], x)
        return Seq(v.ty, [E(c)])
    if p[0] == 'has':
        return Opt(v.ty, x, v.v)
    if p[0] == 'o':
        return Opt(v.ty, v.has, setp(v.v, path[1:], x))


def diff(I, a, b, path=()):
    """paths of leaves where b differs from a; structural change of a leaf -> the enclosing path"""
    if a is b:
        return []
    if isinstance(a, Rec) and isinstance(b, Rec) and a.f.keys() == b.f.keys():
        out = []
        for k in a.f:
            out += diff(I, a.f[k], b.f[k], path + (('f', k),))
        return out
    if isinstance(a, Seq) and isinstance(b, Seq):
        ca, cb = a.conc(), b.conc()
        if ca is not None and cb is not None and len(ca) == len(cb) and 0 < len(ca) <= 128:
            out = []
            for i, (x, y) in enumerate(zip(ca, cb)):
                out += diff(I, x, y, path + (('e', i),))
            return out
        if len(a.ch) == len(b.ch) and all(I.chsame(x, y) for x, y in zip(a.ch, b.ch)):
            return []
        return [path]
    if isinstance(a, Opt) and isinstance(b, Opt):
        out = []
        if not vsame(a.has, b.has):
            out.append(path + (('has',),))
        if a.v is None and b.v is None:
            return out
        if a.v is None or b.v is None:
            return [path]
        return out + diff(I, a.v, b.v, path + (('o',),))
    if vsame(a, b):
        return []
    if isinstance(a, Opq) and isinstance(b, Opq) and a.g is b.g:
        return []
    return [path]


class Shape:
    __slots__ = ('kind', 'd', 'x0', 'V', 'g', 'w', 'isbool', 'at0', 'gk', 'gi', 'val', 'ty', 'probe', 'extra')

    def __init__(self, kind, **kw):
        self.kind = kind
        for k, v in kw.items():
            setattr(self, k, v)


class Summary:
    def __init__(self, I, st, cond, step, key):
        self.I, self.st0, self.cond, self.step, self.key = I, st, cond, step, key

    def width(self, v, ty=None):
        if isinstance(v, z3.ExprRef):
            return 1 if z3.is_bool(v) else v.size()
        if isinstance(v, bool):
            return 1
        if ty is not None and ty.isint:
            return ty.width
        return 64

    # type of leaf at path
    def leafty(self, root, path):
        I = self.I
        ty = I.rty.get(root)
        for p in path:
            if ty is None:
                return None
            if ty.k == 'ref':
                ty = ty.e
            if p[0] == 'f':
                ty = I.ftypes(ty).get(p[1])
            elif p[0] == 'e':
                ty = I.elem(ty)
            elif p[0] == 'o':
                ty = ty.arg(0)
            elif p[0] == 'has':
                return None
        return ty

    def value_at(self, sh, k):
        """closed form of a leaf at iteration k (kk-term)"""
        if sh.kind == 'affine':
            return self.aff(sh.x0, sh.d, k, sh.w)
        if sh.kind in ('probe', 'probeseq'):
            return sh.probe
        if sh.kind == 'probeptr':
            return LV(sh.x0.root, sh.x0.path[:-1] + (('i', sh.probe),))
        if sh.kind == 'probeiter':
            return Iter(sh.x0.lv, sh.probe, sh.x0.rev)
        if sh.kind == 'affptr':
            return LV(sh.x0.root, sh.x0.path[:-1] + (('i', self.aff(sh.x0.path[-1][1], sh.d, k, 64)),))
        if sh.kind == 'affiter':
            return Iter(sh.x0.lv, self.aff(sh.x0.i, sh.d, k, 64), sh.x0.rev)
        if sh.kind == 'append':
            return Seq(sh.x0.ty, tuple(sh.x0.ch) + (L(sh.g, 0, k),))
        if sh.kind == 'cursor':
            return add64(sh.x0, sh.g.pre(k))
        if sh.kind == 'cursorptr':
            return LV(sh.x0.root, sh.x0.path[:-1] + (('i', add64(sh.x0.path[-1][1], sh.g.pre(k))),))
        if sh.kind == 'rec':
            if is_c(k) and k == 0:
                return sh.x0
            return sh.V(*([bv(x, 64) for x in self.outer] + [bv(k, 64)]))
        if sh.kind == 'fill':
            x0, a0, I = sh.x0, sh.at0, self.I
            ety = I.elem(x0.ty)

            def f(j, k=k):
                off = sub64(j, a0)
                if sh.gi is None:
                    raise Unsupported('fill read before definition')
                val = subst(sh.gi, [(sh.gk, off)])
                old = I.cget(None, x0.ch, j, ety)
                return I.mval(lit_s(cmp('<', off, k, 64, False)), val, old, ety)
            return Seq(x0.ty, [S(Base('fill', f), 0, x0.len)])
        if sh.kind == 'const':
            return sh.x0
        if sh.kind == 'mapadd':
            from . import maps
            if isinstance(k, z3.ExprRef) and k.eq(self.kk):
                sh.g.uses = []
            return maps.value_at(self.I, sh.x0, sh.g, k)
        if sh.kind == 'havoc':
            return self.I.sym(sh.ty, sh.V, tuple(self.outer) + (k,))
        raise Unsupported('shape %s' % sh.kind)

    def aff(self, x0, d, k, w):
        kt = cast_int(k, 64, False, w) if w <= 64 else cast_int(k, 64, False, w)
        return lit_s(arith('+', x0, arith('*', kt, d, w, False), w, False))

    def generic(self, kk, shapes):
        """run one iteration from the closed forms at kk. returns (pre, cond, next|None, outs)"""
        I = self.I
        g = self.st0.copy()
        for (root, path), sh in shapes.items():
            g.mem[root] = setp(g.mem[root], path, self.value_at(sh, kk))
        g.pc.append(z3.ULT(kk, z3.BitVecVal(BIG, 64)))
        npc = len(g.pc)
        pre = g.copy()
        I.kks.append(kk)
        I.exits.append([])
        nsaf = len(I.safety)
        ax0 = len(I.axioms)
        try:
            dead = False
            cc = False
            try:
                cc = lit_s(self.cond(g))
                I.assume(g, cc)
                post_cond_pc = len(g.pc)
                nxt, outs = self.step(g)
            except Dead:
                nxt, outs = None, []
        finally:
            I.kks.pop()
            thr = I.exits.pop()
        outs = outs + thr
        return pre, npc, cc, nxt, outs, nsaf, ax0

    def run(self):
        I = self.I
        if len(I.kks) >= 3:
            raise Unsupported('loop nesting')
        if len(getattr(I, 'sumdepth', [])) > 6:
            raise Unsupported('summary recursion')
        self.outer = list(I.kks)
        st0 = self.st0
        saved_safety = len(I.safety)
        kk = z3.BitVec(fresh_name('kk'), 64)
        self.kk = kk
        shapes = {}
        probes = {}
        history = {}
        roots0 = set(st0.mem.keys())
        ok = False
        res = None
        for attempt in range(14):
            del I.safety[saved_safety:]
            pre, npc, cc, nxt, outs, nsaf, ax0 = self.generic(kk, shapes)
            changed = False
            if nxt is None:
                # never iterates normally more than once from a generic state
                states = []
            else:
                states = [nxt]
            for s2 in states:
                for root in list(s2.mem.keys()):
                    if root not in roots0:
                        if root in pre.mem:
                            continue
                        # lazily materialised root shared with the pre-state?
                        if root[0] in ('v', 'g', 'sl') or root[:2] in I.kroots:
                            try:
                                fresh_v = I.rootval(pre, root)
                            except Unsupported:
                                continue
                            if s2.mem[root] is not fresh_v and diff(I, fresh_v, s2.mem[root]):
                                if any(isinstance(x, z3.ExprRef) and free_in(x, [kk]) for x in root):
                                    raise Unsupported('loop writes through a per-iteration symbolic pointer')
                                st0.mem[root] = I.rootval(st0, root)
                                roots0.add(root)
                                changed = True
                        continue
                    a, b = pre.mem[root], s2.mem[root]
                    if a is b:
                        continue
                    for path in diff(I, a, b):
                        # find an existing shape at this path or a prefix
                        hit = None
                        for (r, p) in shapes:
                            if r == root and path[:len(p)] == p:
                                hit = (r, p)
                        if hit is None:
                            # new modified leaf
                            for q in [x for x in shapes if x[0] == root and x[1][:len(path)] == path]:
                                del shapes[q]
                            shapes[(root, path)] = self.first_shape(root, path, getp(st0.mem[root], path))
                            changed = True
                if changed:
                    break
                # all modified leaves are known: check the step
                newsh = {}
                for key, sh in list(shapes.items()):
                    root, path = key
                    try:
                        b = getp(s2.mem[root], path)
                    except KeyError:
                        b = None
                    r = self.check(key, sh, pre, s2, b, history)
                    if r is not sh:
                        newsh[key] = r
                if newsh:
                    changed = True
                    shapes.update(newsh)
                    self.defshapes(shapes)
            if not changed:
                ok = True
                break
        if not ok:
            raise Unsupported('loop at %s: no stable closed form' % (self.key,))
        return self.finish(shapes, pre, npc, cc, nxt, outs, ax0)

    def defshapes(self, shapes):
        pass

    def first_shape(self, root, path, x0):
        """probe shape"""
        I = self.I
        ty = self.leafty(root, path)
        if isinstance(x0, (LV, Iter)):
            if isinstance(x0, LV) and x0.path and x0.path[-1][0] == 'i':
                return Shape('probeptr', x0=x0, probe=z3.BitVec(fresh_name('pr'), 64))
            if isinstance(x0, Iter):
                return Shape('probeiter', x0=x0, probe=z3.BitVec(fresh_name('pr'), 64))
            raise Unsupported('loop changes a pointer')
        if isinstance(x0, Seq):
            nm = fresh_name('ps')
            n = self.I.fixedlen(x0.ty) if x0.ty is not None else None
            ln = n if n is not None else z3.BitVec(nm + '.len', 64)
            if n is None:
                self.I.axiom(z3.ULE(ln, z3.BitVecVal(1 << 40, 64)))
            et = I.elem(x0.ty)
            b = Base(nm, lambda i: I.sym(et, nm + '[]', (i,)))
            return Shape('probeseq', x0=x0, probe=Seq(x0.ty, [S(b, 0, ln)]))
        from .stdlib import MapV
        if isinstance(x0, MapV):
            from . import maps
            if self.outer:
                raise Unsupported('nested loop fills a map')
            return Shape('mapadd', x0=x0, g=maps.Bulk(self.kk), extra=None)
        if isinstance(x0, Val) or x0 is None:
            if ty is None:
                raise Unsupported('loop changes %s at %s' % (short(x0), path))
            nm = fresh_name('hv')
            if isinstance(x0, Rec) or isinstance(x0, Opt) or x0 is None:
                return Shape('havoc', ty=ty, V=nm, x0=x0)
            raise Unsupported('loop changes %s' % short(x0))
        w = self.width(x0, ty)
        return Shape('probe', x0=x0, w=w, probe=z3.Bool(fresh_name('pr')) if w == 1 else z3.BitVec(fresh_name('pr'), w))

    def check(self, key, sh, pre, nxt, b, history):
        """b: value after the generic iteration. returns sh (stable) or a replacement shape"""
        I, kk = self.I, self.kk
        k1 = add64(kk, 1)
        if sh.kind == 'probe':
            return self.classify(key, sh, b, nxt, history)
        if sh.kind in ('probeptr', 'probeiter'):
            i = b.path[-1][1] if isinstance(b, LV) and b.path and b.path[-1][0] == 'i' and b.root == sh.x0.root and b.path[:-1] == sh.x0.path[:-1] else b.i if isinstance(b, Iter) and b.rev == sh.x0.rev else None
            if i is None:
                raise Unsupported('loop pointer')
            d = sub64(i, sh.probe)
            if is_c(d):
                return Shape('affptr' if sh.kind == 'probeptr' else 'affiter', x0=sh.x0, d=d)
            raise Unsupported('loop pointer step')
        if sh.kind == 'probeseq':
            if not isinstance(b, Seq):
                raise Unsupported('loop sequence')
            p = sh.probe.ch[0]
            if b.ch and isinstance(b.ch[0], S) and b.ch[0].base is p.base and same_idx(b.ch[0].off, 0) and same_idx(b.ch[0].len, p.len):
                extra = b.ch[1:]
                n = chunks_len(extra)
                unit = n if is_c(n) else None
                g = LGen('l%s' % (self.key and self.key[1]), None, unit, pargs=self.outer)
                g.gen = self.undefined_gen
                return Shape('append', x0=sh.x0, g=g, extra=None)
            if len(b.ch) == 1 and isinstance(b.ch[0], S) and b.ch[0].base.tag and b.ch[0].base.tag[0] == 'upd' and b.ch[0].base.tag[1] is p.base:
                return Shape('fill', x0=sh.x0, at0=None, gi=None, gk=None)
            if sh.x0.ty is not None:
                return Shape('havoc', ty=self.seqty(key, sh.x0), V=fresh_name('hv'), x0=sh.x0)
            raise Unsupported('loop changes a sequence non-uniformly')
        if sh.kind == 'affine':
            want = self.value_at(sh, k1)
            if self.same(nxt, b, want):
                return sh
            history.setdefault(key, []).append('affine')
            return self.downgrade(key, sh, b, nxt, history)
        if sh.kind in ('affptr', 'affiter'):
            want = self.value_at(sh, k1)
            try:
                if lit_s(I.veq(nxt, b, want)) is True or I.decide(nxt, I.veq(nxt, b, want)) is True:
                    return sh
            except Unsupported:
                pass
            raise Unsupported('loop pointer not affine')
        if sh.kind == 'append':
            want = tuple(sh.x0.ch) + (L(sh.g, 0, kk),)
            want = norm_chunks(want)
            if not isinstance(b, Seq) or len(b.ch) < len(want) or not all(I.chsame(x, y) for x, y in zip(b.ch, want)):
                # the first appended element may have been glued to a trailing concrete chunk
                raise Unsupported('loop sequence is not append-only')
            extra = b.ch[len(want):]
            n = chunks_len(extra)
            unit = n if is_c(n) else None
            if unit != sh.g.unit:
                g = LGen('l%s' % (self.key and self.key[1]), None, unit, pargs=self.outer)
                g.gen = self.undefined_gen
                return Shape('append', x0=sh.x0, g=g, extra=None)
            sh.extra = extra
            return sh
        if sh.kind == 'fill':
            if not isinstance(b, Seq) or len(b.ch) != 1 or not isinstance(b.ch[0], S) or not b.ch[0].base.tag or b.ch[0].base.tag[0] != 'upd':
                raise Unsupported('loop fill')
            tag = b.ch[0].base.tag
            if tag[1].name != 'fill':
                raise Unsupported('loop fill')
            at, val = tag[2], tag[3]
            a0 = lit_s(tsub(at, [(kk, 0)])) if not is_c(at) else at
            if not same_idx(at, add64(a0, kk)):
                raise Unsupported('loop fill index')
            if sh.at0 is None or not same_idx(sh.at0, a0) or mentions(val, [kk]) and sh.gi is None:
                return Shape('fill', x0=sh.x0, at0=a0, gi=val, gk=kk)
            if not vsame(sh.gi, val) and lit_s(I.veq(nxt, sh.gi, val)) is not True:
                # values that read other parts of the array
                history.setdefault(key, []).append('fill')
                if len(history[key]) > 3:
                    raise Unsupported('loop fill value')
                return Shape('fill', x0=sh.x0, at0=a0, gi=val, gk=kk)
            return sh
        if sh.kind in ('cursor', 'cursorptr'):
            want = self.value_at(sh, k1)
            I.unfold(sh.g, kk)
            if self.same(nxt, b, want):
                return sh
            history.setdefault(key, []).append(sh.g)
            return self.downgrade(key, sh, b, nxt, history)
        if sh.kind == 'mapadd':
            from . import maps
            ex = maps.added(b, getp(pre.mem[key[0]], key[1]))
            if ex is None:
                raise Unsupported('loop changes a map other than by adding entries')
            sh.extra = ex
            return sh
        if sh.kind == 'rec':
            sh.extra = b
            return sh
        if sh.kind == 'havoc':
            return sh
        raise Unsupported('shape')

    def seqty(self, key, x0):
        return x0.ty

    def undefined_gen(self, k):
        raise Unsupported('loop reads the sequence it is building')

    def same(self, st, a, b):
        if vsame(a, b):
            return True
        e = lit_s(self.I.veq(st, a, b))
        if isinstance(e, bool):
            return e
        return self.I.decide(st, e) is True

    def classify(self, key, sh, b, nxt, history):
        I = self.I
        if isinstance(b, Val) or b is None:
            raise Unsupported('loop scalar becomes %s' % short(b))
        if sh.w > 1:
            d = lit_s(arith('-', b, sh.probe, sh.w, False))
            if is_c(d):
                return Shape('affine', x0=sh.x0, d=d, w=sh.w)
            if isinstance(d, z3.ExprRef) and not self.varying(d):
                return Shape('affine', x0=sh.x0, d=d, w=sh.w)
        return self.downgrade(key, sh, b, nxt, history)

    def varying(self, d):
        """does the term depend on anything produced during the iteration?"""
        names = set()
        st = [d]
        seen = set()
        known = self.known_consts()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.get_id() == self.kk.get_id() or x.decl().name().startswith(('pr!', 'ps!')):
                    return True
            elif x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                pass
            st.extend(x.children())
        return False

    def known_consts(self):
        return None

    def downgrade(self, key, sh, b, nxt, history):
        I = self.I
        if sh.w == 64:
            # cursor candidates: loop-built chunks of sequences in the pre-state starting at x0
            for root, v in self.st0.mem.items():
                for path, lf in leaves(v):
                    if isinstance(lf, Seq):
                        start = 0
                        for c in lf.ch:
                            if isinstance(c, L) and c.g.unit is None and same_idx(start, sh.x0) and is_c(c.lo) and c.lo == 0:
                                if c.g not in history.get(key, []):
                                    return Shape('cursor', x0=sh.x0, g=c.g, w=64)
                            start = add64(start, chunk_len(c))
        dom = [z3.BitVecSort(64)] * (len(self.outer) + 1)
        rng = z3.BoolSort() if sh.w == 1 else z3.BitVecSort(sh.w)
        V = z3.Function(fresh_name('V'), *(dom + [rng]))
        return Shape('rec', x0=sh.x0, w=sh.w, V=V, extra=None)

    # -------------------------------------------------------------------------------------------- exit states
    def finish(self, shapes, pre, npc, cc, nxt, outs, ax0):
        I, kk, st0 = self.I, self.kk, self.st0
        # definitions
        for key, sh in shapes.items():
            if sh.kind == 'append':
                ex = sh.extra
                sh.g.gen = lambda k, ex=ex: subst_chunks(ex, [(kk, k)])
                sh.g.memo.clear()
            elif sh.kind == 'mapadd':
                sh.g.gen = list(sh.extra or [])
                for k_, kb, kty in sh.g.uses:
                    sh.g.facts(I, nxt if nxt is not None else pre, k_, kb, kty)
                sh.g.uses = []
        self.canonical(shapes)
        defs = []
        for key, sh in shapes.items():
            if sh.kind == 'rec':
                vk1 = sh.V(*([bv(x, 64) for x in self.outer] + [bv(add64(kk, 1), 64)]))
                e = I.beq(vk1, sh.extra)
                defs.append(e)
                v0 = sh.V(*([bv(x, 64) for x in self.outer] + [z3.BitVecVal(0, 64)]))
                e0 = I.beq(v0, sh.x0)
                if not isinstance(e0, bool):
                    I.axiom(e0)
                I.recs.append(dict(V=sh.V, outer=list(self.outer), kk=kk, step=sh.extra, x0=sh.x0, w=sh.w))
            elif sh.kind == 'append' and sh.g.unit is None:
                n = chunks_len(sh.extra)
                defs.append(cmp('==', sh.g.pre(add64(kk, 1)), add64(sh.g.pre(kk), n), 64, False))
                I.axiom(sh.g.P(*([bv(x, 64) for x in self.outer] + [z3.BitVecVal(0, 64)])) == 0)
        axs = [a for a in I.axioms[ax0:] if free_in(a, [kk])]
        cont = None
        if nxt is not None:
            cont = list(nxt.pc[npc:]) + axs + defs
            # roots created per iteration
            for root, v in nxt.mem.items():
                if root not in pre.mem and len(root) > 2 and root[0] != 'v':
                    if isinstance(root[-1], z3.ExprRef) and root[-1].eq(kk) and root[:2] not in I.kroots:
                        I.kroots[root[:2]] = (list(root[2:]), v)
        for o in outs:
            for root, v in o.st.mem.items():
                if root not in pre.mem and len(root) > 2 and root[0] != 'v':
                    if isinstance(root[-1], z3.ExprRef) and root[-1].eq(kk) and root[:2] not in I.kroots:
                        I.kroots[root[:2]] = (list(root[2:]), v)

        def contbody(k):
            if cont is None:
                return [False]
            return subst(cont, [(kk, k)])
        if defs:
            # definitional facts hold for all k
            dd = Univ(0, BIG, lambda k: subst(defs, [(kk, k)]))
        else:
            dd = None
        base_pc = list(st0.pc) + ([dd] if dd is not None else [])
        res = []
        # number of iterations
        N = self.count(shapes, cc, contbody, base_pc, outs) if nxt is not None else 0
        discs = []
        for o in outs:
            o.st.pc = self.simplify_pc(o.st.pc)
            b = I.fresh('exit', 1)
            e = I.fresh('e', 64)
            if not I.kks:
                I.skolems.append(e)
            s2 = st0.copy()
            s2.pc = list(base_pc) + [Not(x) for x in discs] + [b]
            s2.pc.append(z3.ULT(e, z3.BitVecVal(BIG, 64)))
            if nxt is None:
                s2.pc.append(e == 0)
            elif N is not None:
                s2.pc.append(bl(cmp('<', e, N, 64, False)))
            s2.pc += subst(list(o.st.pc[npc:]) + axs + defs, [(kk, e)])
            if nxt is not None:
                s2.pc.append(Univ(0, e, contbody))
            for root, v in o.st.mem.items():
                if root in pre.mem:
                    pv = pre.mem[root]
                    if v is pv and root in st0.mem and not any(r == root for r, _ in shapes):
                        continue
                    s2.mem[root] = subst(v, [(kk, e)])
                else:
                    s2.mem[subst_root(root, [(kk, e)])] = subst(v, [(kk, e)])
            s2.ghost = subst_ghost(o.st.ghost, kk, e)
            val = subst(o.v, [(kk, e)]) if not isinstance(o.v, Exc) else o.v
            discs.append(b)
            if o.k == 'throw':
                I.exits[-1].append(Out('throw', s2, val))
            else:
                res.append(Out('normal' if o.k == 'break' else o.k, s2, val))
        # normal termination
        if N is not None or True:
            s2 = st0.copy()
            n = N
            if n is None:
                n = I.fresh('N', 64)
                if not I.kks:
                    I.skolems.append(n)
                    I.skolems.append(lit_s(n - 1))
            s2.pc = list(base_pc) + [Not(x) for x in discs]
            if not is_c(n):
                s2.pc.append(z3.ULE(n, z3.BitVecVal(BIG, 64)))
                for key, sh in shapes.items():
                    if sh.kind in ('rec', 'havoc') and not I.kks:
                        I.skolems.append(lit_s(n - 1))
                        break
            for (root, path), sh in shapes.items():
                s2.mem[root] = setp(s2.mem[root], path, self.value_at(sh, n))
            if nxt is not None:
                s2.pc.append(Univ(0, n, contbody))
                for key, sh in shapes.items():
                    if sh.kind == 'rec' and sh.w == 1 and not self.outer and not I.kks:
                        s2.pc += self.flag_facts(sh, n)
            try:
                # bounded facts about the prefix lengths
                for key, sh in shapes.items():
                    if sh.kind == 'append' and sh.g.unit is None:
                        I.axiom(z3.ULE(bv(sh.g.pre(n), 64), z3.BitVecVal(1 << 44, 64)))
                c2 = lit_s(self.cond(s2))
                if N is None or nxt is None:
                    I.assume(s2, Not(c2))
                res.append(Out('normal', s2))
            except Dead:
                pass
        # a loop created inside another generic iteration keeps its index function-like
        return res

    def flag_facts(self, sh, n):
        """a flag that an iteration only ever raises (or only lowers): its final value bounds every earlier one, and a change has a first place"""
        kk, out = self.kk, []
        if not isinstance(sh.extra, (bool, z3.ExprRef)):
            return out
        now, then, end = sh.V(kk), bl(sh.extra), sh.V(bv(n, 64))
        for up in (True, False):
            f = (lambda x: x) if up else z3.Not
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(f(now), z3.Not(f(then)))
            if s.check() != z3.unsat:
                continue
            V = sh.V
            out.append(Univ(0, n, lambda k, f=f: [z3.Implies(f(V(bv(k, 64))), f(end)), z3.Implies(f(V(bv(add64(k, 1), 64))), f(end))]))
            w = self.I.fresh('first', 64)
            self.I.skolems.append(w)
            out.append(z3.Implies(f(end), z3.Or(f(V(z3.BitVecVal(0, 64))), z3.And(z3.ULT(w, bv(n, 64)), z3.Not(f(V(w))), f(V(w + 1))))))
        return out

    def simplify_pc(self, pc):
        return pc

    def canonical(self, shapes):
        """share recurrence functions between loops with identical defining equations"""
        I, kk = self.I, self.kk
        tab = I.__dict__.setdefault('canon', {})
        ck = z3.BitVec('canon!k', 64)
        recs = [(key, sh) for key, sh in shapes.items() if sh.kind == 'rec']
        if len(recs) == 1 and not self.outer:
            key, sh = recs[0]
            vk = sh.V(kk)
            cv = z3.Bool('canon!v') if sh.w == 1 else z3.BitVec('canon!v', sh.w)
            if isinstance(sh.extra, z3.ExprRef):
                t = z3.simplify(z3.substitute(sh.extra, (vk, cv), (kk, ck)))
                x0 = sh.x0 if not isinstance(sh.x0, z3.ExprRef) else z3.simplify(sh.x0)
                kx = (t.get_id(), x0 if not isinstance(x0, z3.ExprRef) else ('t', x0.get_id()), sh.w)
                hit = tab.get(kx)
                if hit is not None:
                    V2 = hit[0]
                    k2 = V2(kk)
                    sub = lambda x: z3.substitute_funs(x, (sh.V, V2(z3.Var(0, z3.BitVecSort(64))))) if False else x
                    self.rename = (sh.V, V2)
                    # the old symbol may already occur in the recorded iteration: link definitionally
                    j = z3.BitVec('canon!j', 64)
                    I.linked.append((sh.V, V2))
                else:
                    tab[kx] = (sh.V, t, x0)

    def count(self, shapes, cc, contbody, base_pc, outs):
        """closed form for the number of iterations, or None (fresh symbol constrained by the guard)"""
        I, kk = self.I, self.kk
        if cc is True or cc is False:
            return None
        s = self.st0.copy()
        s.pc = list(base_pc)
        atoms = []

        def go(t, neg):
            if z3.is_not(t):
                go(t.arg(0), not neg)
            elif z3.is_and(t) and not neg or z3.is_or(t) and neg:
                for x in t.children():
                    go(x, neg)
            else:
                atoms.append((t, neg))
        go(cc, False)
        for t, neg in atoms:
            if t.num_args() != 2:
                continue
            a, b = t.arg(0), t.arg(1)
            if not z3.is_bv(a):
                continue
            w = a.size()
            for x, y in ((a, b), (b, a)):
                if free_in(y, [kk]) or not free_in(x, [kk]):
                    continue
                x0 = lit_s(tsub(x, [(kk, 0)]))
                d = lit_s(arith('-', tsub(x, [(kk, kk + 1)]), x, w, False))
                if not is_c(d) or d == 0:
                    # prefix function cursor?
                    c = self.cursor_count(x, y, s, t, neg)
                    if c is not None:
                        return c
                    continue
                cands = []
                dist = lit_s(arith('-', y, x0, w, False))
                if d == 1:
                    cands.append(dist)
                    cands.append(lit_s(arith('+', dist, 1, w, False)))
                elif d == mask(w):
                    nd = lit_s(arith('-', x0, y, w, False))
                    cands.append(nd)
                    cands.append(lit_s(arith('+', nd, 1, w, False)))
                elif d < (1 << (w - 1)):
                    cands.append(lit_s(arith('/', dist, d, w, False)))
                    cands.append(lit_s(arith('/', arith('+', dist, d - 1, w, False), d, w, False)))
                else:
                    nd = lit_s(arith('-', x0, y, w, False))
                    md = (1 << w) - d
                    cands.append(lit_s(arith('/', nd, md, w, False)))
                    cands.append(lit_s(arith('/', arith('+', nd, md - 1, w, False), md, w, False)))
                for n in cands:
                    n = cast_int(n, w, False, 64) if w <= 64 else cast_int(n, w, False, 64)
                    cn = Not(tsub(cc, [(kk, n)]))
                    ck = Implies(cmp('<', kk, n, 64, False), cc)
                    s1 = s.copy()
                    if I.decide(s1, cn) is True:
                        s1.pc.append(bl(cmp('<', kk, n, 64, False)))
                        if I.decide(s1, cc) is True:
                            return lit_s(n)
                        # guard each candidate by non-emptiness
                    n2 = Ite(tsub(cc, [(kk, 0)]), n, 0, 64)
                    n2 = lit_s(n2)
                    if I.decide(s, Not(tsub(cc, [(kk, n2)]))) is True:
                        s1 = s.copy()
                        s1.pc.append(bl(cmp('<', kk, n2, 64, False)))
                        if I.decide(s1, cc) is True:
                            return n2
        return None

    def cursor_count(self, x, y, s, t, neg):
        I, kk = self.I, self.kk
        for root, v in self.st0.mem.items():
            for path, lf in leaves(v):
                if isinstance(lf, Seq):
                    for c in lf.ch:
                        if isinstance(c, L) and c.g.unit is None and is_c(c.lo) and c.lo == 0:
                            n = c.hi
                            full = Not(t) if neg else t
                            if lit_s(tsub(full, [(kk, n)])) is False or I.decide(s, Not(tsub(full, [(kk, n)]))) is True:
                                s1 = s.copy()
                                I.unfold(c.g, kk, n)
                                s1.pc.append(bl(cmp('<', kk, n, 64, False)))
                                if I.decide(s1, full) is True:
                                    return n
        return None


def trace(*a):
    if os.environ.get('VC_TRACE'):
        print(*a, flush=True)


class Invariant(Summary):
    """loop handled by one of the invariants supplied by the contract: the invariant must hold on entry and be
    preserved by an arbitrary iteration; which loop variables it speaks about is found by trying"""
    strict = False

    def run(self):
        I = self.I
        st0 = self.st0
        saved = len(I.safety)
        self.outer = list(I.kks)
        kk = self.kk = z3.BitVec(fresh_name('kk'), 64)
        shapes = {}
        self.probe_at = {}
        self.changed = set()
        latest = {}
        for l in st0.env.values():
            if isinstance(l, LV) and not l.path and l.root in st0.mem:
                latest[l.root[0]] = max(latest.get(l.root[0], l.root), l.root, key=lambda r: r[1])
        for (tuid, d), l in st0.env.items():
            if isinstance(l, LV) and not l.path and l.root in st0.mem and l.root[0] in I.opts.get('invsplit', {}) and latest[l.root[0]] == l.root:
                x0, ty = st0.mem[l.root], self.leafty(l.root, ())
                if isinstance(x0, (int, z3.ExprRef)):
                    w = self.width(x0, ty)
                    shapes[(l.root, ())] = Shape('hv', x0=x0, V=I.fresh('inv', w), w=w)
                    self.probe_at[(l.root, ())] = I.opts['invsplit'][l.root[0]][-1]   # the last value given: one that enters the loop
        if self.strict:   # arrays the invariant takes as a whole: every element is generalised
            arrs = {p['n'] for clo in I.invpool for fn in [I.prog.fns.get(clo.node['ops'][0])] for p in fn.d['p'] if not fn.tu.ty(p['t']).isint}
            for (tuid, d), l in st0.env.items():
                if isinstance(l, LV) and not l.path and l.root in st0.mem and l.root[0] in arrs and isinstance(st0.mem[l.root], Seq):
                    for i, x0 in enumerate(st0.mem[l.root].conc() or []):
                        path = (('e', i),)
                        if isinstance(x0, (int, z3.ExprRef)):
                            w = self.width(x0, self.leafty(l.root, path))
                            shapes[(l.root, path)] = Shape('hv', x0=x0, V=I.fresh('cut!inv' if w == 64 else 'inv', w), w=w)
        self.shapes_seen = shapes
        try:
            for attempt in range(8):
                del I.safety[saved:]
                pre, npc, cc, nxt, outs, nsaf, ax0 = self.generic(kk, shapes)
                if nxt is None:
                    return None
                new = False
                for root in list(nxt.mem):
                    if root not in st0.mem or root not in pre.mem:
                        continue
                    a, b = pre.mem[root], nxt.mem[root]
                    if a is b:
                        continue
                    for path in diff(I, a, b):
                        self.changed.add(root)
                        if any(r == root and path[:len(p)] == p for r, p in shapes):
                            continue
                        x0 = getp(st0.mem[root], path)
                        ty = self.leafty(root, path)
                        if isinstance(x0, Val) or x0 is None:
                            return None
                        shapes[(root, path)] = Shape('hv', x0=x0, V=I.fresh('inv', self.width(x0, ty)), w=self.width(x0, ty))
                        new = True
                if not new:
                    break
            else:
                return None
            if not shapes:
                return None
            return self.pick(shapes, npc)
        except Unsupported as e:
            trace('inv: unsupported', self.key, e)
            return None
        finally:
            pass

    def value_at(self, sh, k):
        for key, c in self.probe_at.items():   # while looking for the modified variables
            if self.shapes_seen.get(key) is sh:
                return c
        return sh.V

    shapes_seen = {}
    changed = ()

    def pick(self, shapes, npc):
        I, st0 = self.I, self.st0
        trace('inv pick', self.key, [k for k in shapes])
        from itertools import permutations
        keys = [k for k in shapes if shapes[k].w > 1]
        names = {}
        for (tuid, d), l in st0.env.items():
            if isinstance(l, LV) and not l.path:
                names[(l.root, ())] = l.root[0]
        for root, path in keys:
            if path:
                names[(root, path)] = '_'.join(str(x[1] if isinstance(x, tuple) else x) for x in path)
        for clo in I.invpool:
            fn = I.prog.fns.get(clo.node['ops'][0])
            ps = fn.d['p']
            if self.strict:
                c = []
                for p in ps:
                    t = fn.tu.ty(p['t'])
                    if t.isint:
                        h = [k for k in keys if names.get(k) == p['n'] and shapes[k].w == t.width]
                    else:
                        h = sorted({(r, ()) for r, q in shapes if q and r[0] == p['n'] or r[0] == p['n']}, key=str)
                    if not h:
                        break
                    c.append(max(h, key=lambda k: k[0][1]))   # the innermost declaration of that name
                else:
                    if not any(k[0] in self.changed for k, p in zip(c, ps) if fn.tu.ty(p['t']).isint):
                        continue
                    r = self.attempt(clo, c, shapes, [p['n'] for p in ps])
                    if r is not None:
                        return r
                continue
            if not all(fn.tu.ty(p['t']).isint for p in ps):
                continue
            ws = [fn.tu.ty(p['t']).width for p in ps]
            if len(ps) > len(keys):
                continue
            cands = [c for c in permutations(keys, len(ps)) if all(shapes[k].w == w for k, w in zip(c, ws))]
            cands.sort(key=lambda c: -sum(names.get(k) == p['n'] for k, p in zip(c, ps)))
            for c in cands[:24]:
                r = self.attempt(clo, c, shapes)
                if r is not None:
                    return r
        return None

    def ev(self, st, clo, vals):
        s = st.copy()
        n = len(s.pc)
        v = self.I.callv(s, clo, vals)
        return self.I.tobool(v), s.pc[n:]

    def forked(self, check, cases, jobs, outs, to):
        """the cases of the arbitrary iteration, checked in parallel; each must leave no way out of the loop other than
        those the exit condition covers, and its safety conditions are discharged where they arise"""
        import os, pickle
        from . import solve
        I = self.I
        kids = []
        for j in range(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                res = None
                try:
                    os.close(r)
                    n, m = len(I.safety), len(I.loopproofs)
                    ok = all(check(x) for x in cases[j::jobs]) and not outs
                    for o in I.safety[n:]:
                        q = solve.prove(I, o.pc, o.cond, to, want_model=False) if ok else None
                        ok = ok and q.status == 'proved'
                        if q:
                            I.loopproofs.append((self.key, q.status, q.backend, q.t))
                    res = pickle.dumps((ok, I.loopproofs[m:]))
                except BaseException as e:
                    trace('inv: case failed', self.key, repr(e))
                finally:
                    with os.fdopen(w, 'wb') as f:
                        f.write(res or pickle.dumps((False, [])))
                    os._exit(0)
            os.close(w)
            kids.append((pid, r))
        good = True
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                ok, lp = pickle.loads(f.read())
            os.waitpid(pid, 0)
            good = good and ok
            I.loopproofs += lp
        return good

    def attempt(self, clo, c, shapes, names=()):
        from . import solve
        I, st0 = self.I, self.st0
        xclo = I.invexit.get(id(clo))
        split = None
        for n, (lo, hi) in [(n, I.opts['invsplit'][n][:2]) for n in names if n in I.opts.get('invsplit', {})]:
            split = (c[names.index(n)], lo, hi)
        try:
            e0, f0 = self.ev(st0, clo, [getp(st0.mem[r], p) for r, p in c])
            e0 = lit_s(e0)
            if e0 is False:
                return None
            to = I.opts.get('inv_timeout', 60)
            r0 = (solve.quick(I, st0.pc + f0, e0, 10) if split else None) or solve.prove(I, st0.pc + f0, e0, to, want_model=False)
            trace('inv entry', self.key, [k[0][0] for k in c], r0.status, r0.backend, round(r0.t, 2))
            if r0.status != 'proved':
                return None
            g = st0.copy()
            for (root, path), sh in shapes.items():
                g.mem[root] = setp(g.mem[root], path, sh.V)
            inv, f = self.ev(g, clo, [getp(g.mem[r], p) for r, p in c])
            inv = lit_s(inv)
            if inv is False:
                return None
            g.pc += f + [bl(inv)]
            outs = []

            def check(case):
                body = g.copy()
                if split:
                    (sr, sp), lo, hi = split
                    V = shapes[(sr, sp)].V
                    body.mem[sr] = setp(body.mem[sr], sp, case)
                    body.pc = subst(body.pc, [(V, z3.BitVecVal(case, V.size()))])
                    body.pc.append(V == case)
                body0 = list(body.pc)
                I.exits.append([])
                o = []
                nxt = None
                try:
                    try:
                        cc = lit_s(self.cond(body))
                        I.assume(body, cc)
                        nxt, o = self.step(body)
                    except Dead:
                        nxt = None
                finally:
                    o = o + I.exits.pop()
                if nxt is not None:
                    for root in nxt.mem:   # everything the iteration changes must have been generalised
                        if root in body.mem and root in g.mem and nxt.mem[root] is not g.mem[root]:
                            for path in diff(I, g.mem[root], nxt.mem[root]):
                                if not any(r == root and path[:len(p)] == p for r, p in shapes):
                                    trace('inv: not generalised', root, path)
                                    return False
                    vals = [getp(nxt.mem[r], p) for r, p in c]
                    e1, f1 = self.ev(nxt, clo, vals)
                    e1 = lit_s(e1)
                    r = solve.quick(I, nxt.pc + f1, e1, 10, st0.pc) or solve.quick(I, nxt.pc + f1, e1, to) or solve.prove(I, nxt.pc + f1, e1, to, want_model=False)
                    trace('inv step', self.key, [k[0][0] for k in c], case, r.status, r.backend, round(r.t, 2))
                    I.loopproofs.append((self.key, r.status, r.backend, r.t))
                    if r.status != 'proved':
                        return False
                if xclo is not None:
                    rest, goals = [], []
                    for x in o:
                        if x.k != 'return' or not isinstance(x.v, (int, z3.ExprRef)):
                            rest.append(x)
                            continue
                        hv = [getp(g.mem[r], p) for r, p in c]
                        if split:
                            hv = subst(hv, [(V, z3.BitVecVal(case, V.size()))])
                        e1, f1 = self.ev(x.st, xclo, hv + [x.v])
                        if any(not isinstance(a, (bool, z3.ExprRef)) for a in x.st.pc[len(body0):]):
                            return False
                        goals.append(Implies(And(*(x.st.pc[len(body0):] + f1)), e1))
                    if goals:
                        r = solve.quick(I, body0, And(*goals), 10, st0.pc) or solve.quick(I, body0, And(*goals), to) or solve.prove(I, body0, And(*goals), to, want_model=False)
                        trace('inv exit', self.key, case, len(goals), r.status, r.backend, round(r.t, 2))
                        I.loopproofs.append((self.key, r.status, r.backend, r.t))
                        if r.status != 'proved':
                            return False
                    o = rest
                outs.extend(o)
                return True

            cases = list(range(split[1], split[2] + 1)) if split else [None]
            jobs = I.opts.get('invjobs', 1)
            if jobs > 1 and split:
                if not self.forked(check, cases, jobs, outs, to):
                    return None
            elif not all(check(case) for case in cases):
                return None
            if split:
                (sr, sp), lo, hi = split
                V = shapes[(sr, sp)].V
                r = solve.prove(I, list(g.pc), And(z3.UGE(V, lo), z3.ULE(V, hi)), to, want_model=False)
                if r.status != 'proved':
                    return None
        except (Unsupported, KeyError):
            if os.environ.get('VC_TRACE'):
                import traceback
                traceback.print_exc()
            return None
        res = []
        for o in outs:
            if o.k == 'throw':
                I.exits[-1].append(o)
            else:
                res.append(Out('normal' if o.k == 'break' else o.k, o.st, o.v))
        if xclo is not None:
            fn = I.prog.fns.get(xclo.node['ops'][0])
            rt = fn.tu.ty(fn.d['p'][-1]['t'])
            x = g.copy()
            try:
                I.assume(x, lit_s(self.cond(x)))
                rv = I.fresh('ret', rt.width)
                e, f = self.ev(x, xclo, [getp(g.mem[r], p) for r, p in c] + [rv])
                x.pc += f + [bl(lit_s(e))]
                res.append(Out('return', x, rv))
            except Dead:
                pass
        ex = g
        try:
            c2 = lit_s(self.cond(ex))
            I.assume(ex, Not(c2))
            res.append(Out('normal', ex))
        except Dead:
            pass
        return res


def subst_ghost(g, kk, e):
    return {k: (v if k.startswith('$') else subst(v, [(kk, e)])) for k, v in g.items()}
