"""Equivalence sweeping: sub-terms of an obligation that agree on random inputs are proved equal (smallest first) and
replaced by one another, so that two computations of the same value become syntactically alike."""
import z3, time, random

K = z3
import os
DEBUG = os.environ.get('VC_SWEEP')
MASK = [(1 << w) - 1 for w in range(0, 1100)]


def topo(ts):
    seen, out = set(), []
    st = [(t, False) for t in ts]
    while st:
        t, d = st.pop()
        i = t.get_id()
        if d:
            out.append(t)
            continue
        if i in seen:
            continue
        seen.add(i)
        st.append((t, True))
        if not z3.is_quantifier(t):
            for c in t.children():
                if c.get_id() not in seen:
                    st.append((c, False))
    return out


def sg(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def simulate(order, seed, given=None):
    """one random interpretation; None for terms it cannot evaluate"""
    rng = random.Random(seed)
    val = {}
    style = seed % 4

    def rnd(w, key):
        r = random.Random('%s/%s' % (seed, key))
        m = r.randrange(8) if style else 5
        if m >= 6:
            return r.randrange(r.choice((8, 64, 300, 5000))) & MASK[w]
        if m == 0:
            return r.randrange(4) & MASK[w]
        if m == 1:
            return (1 << r.randrange(w)) & MASK[w]
        if m == 2:
            return (MASK[w] - r.randrange(3)) & MASK[w]
        if m == 3:
            return r.getrandbits(w) & 0xffff & MASK[w]
        return r.getrandbits(w)
    for t in order:
        i = t.get_id()
        v = None
        try:
            if z3.is_quantifier(t):
                v = None
            elif z3.is_bv_value(t):
                v = t.as_long()
            elif z3.is_true(t):
                v = True
            elif z3.is_false(t):
                v = False
            else:
                a = [val[c.get_id()] for c in t.children()]
                if any(x is None for x in a):
                    val[i] = None
                    continue
                k = t.decl().kind()
                w = t.size() if z3.is_bv(t) else 0
                cw = t.arg(0).size() if t.num_args() and z3.is_bv(t.arg(0)) else 0
                if k == K.Z3_OP_UNINTERPRETED:
                    if given is not None and not a and t.decl().name() in given:
                        v = given[t.decl().name()]
                    elif z3.is_bv(t):
                        v = rnd(w, (t.decl().name(), tuple(a)))
                    elif z3.is_bool(t):
                        v = bool(random.Random('%s/%s/%s' % (seed, t.decl().name(), a)).getrandbits(1))
                elif k == K.Z3_OP_BADD:
                    v = sum(a) & MASK[w]
                elif k == K.Z3_OP_BSUB:
                    v = (a[0] - sum(a[1:])) & MASK[w]
                elif k == K.Z3_OP_BNEG:
                    v = -a[0] & MASK[w]
                elif k == K.Z3_OP_BMUL:
                    v = 1
                    for x in a:
                        v = v * x & MASK[w]
                elif k in (K.Z3_OP_BUDIV, K.Z3_OP_BUDIV_I):
                    v = a[0] // a[1] if a[1] else MASK[w]
                elif k in (K.Z3_OP_BUREM, K.Z3_OP_BUREM_I):
                    v = a[0] % a[1] if a[1] else a[0]
                elif k == K.Z3_OP_BAND:
                    v = a[0]
                    for x in a[1:]:
                        v &= x
                elif k == K.Z3_OP_BOR:
                    v = a[0]
                    for x in a[1:]:
                        v |= x
                elif k == K.Z3_OP_BXOR:
                    v = a[0]
                    for x in a[1:]:
                        v ^= x
                elif k == K.Z3_OP_BNOT:
                    v = a[0] ^ MASK[w]
                elif k == K.Z3_OP_BSHL:
                    v = (a[0] << a[1]) & MASK[w] if a[1] < w else 0
                elif k == K.Z3_OP_BLSHR:
                    v = a[0] >> a[1] if a[1] < w else 0
                elif k == K.Z3_OP_BASHR:
                    v = (sg(a[0], w) >> min(a[1], w)) & MASK[w]
                elif k == K.Z3_OP_CONCAT:
                    v = 0
                    for x, c in zip(a, t.children()):
                        v = (v << c.size()) | x
                elif k == K.Z3_OP_EXTRACT:
                    h, l = t.params()
                    v = (a[0] >> l) & MASK[h - l + 1]
                elif k == K.Z3_OP_ZERO_EXT:
                    v = a[0]
                elif k == K.Z3_OP_SIGN_EXT:
                    v = sg(a[0], cw) & MASK[w]
                elif k == K.Z3_OP_ITE:
                    v = a[1] if a[0] else a[2]
                elif k == K.Z3_OP_EQ:
                    v = a[0] == a[1]
                elif k == K.Z3_OP_DISTINCT:
                    v = len(set(a)) == len(a)
                elif k == K.Z3_OP_NOT:
                    v = not a[0]
                elif k == K.Z3_OP_AND:
                    v = all(a)
                elif k == K.Z3_OP_OR:
                    v = any(a)
                elif k == K.Z3_OP_IMPLIES:
                    v = (not a[0]) or a[1]
                elif k == K.Z3_OP_XOR:
                    v = a[0] != a[1]
                elif k == K.Z3_OP_ULEQ:
                    v = a[0] <= a[1]
                elif k == K.Z3_OP_UGEQ:
                    v = a[0] >= a[1]
                elif k == K.Z3_OP_ULT:
                    v = a[0] < a[1]
                elif k == K.Z3_OP_UGT:
                    v = a[0] > a[1]
                elif k == K.Z3_OP_SLEQ:
                    v = sg(a[0], cw) <= sg(a[1], cw)
                elif k == K.Z3_OP_SGEQ:
                    v = sg(a[0], cw) >= sg(a[1], cw)
                elif k == K.Z3_OP_SLT:
                    v = sg(a[0], cw) < sg(a[1], cw)
                elif k == K.Z3_OP_SGT:
                    v = sg(a[0], cw) > sg(a[1], cw)
        except Exception:
            v = None
        val[i] = v
    return val


def cut(r, n, ncut=[0]):
    """the pair with its largest common sub-terms replaced by fresh variables (a weaker claim: equality of the cut pair
    implies equality of the pair)"""
    ids = {t.get_id() for t in topo([r]) if t.num_args() and not z3.is_quantifier(t)}
    memo = {}

    def go(t, ids):
        i = t.get_id()
        if i in memo:
            return memo[i]
        if z3.is_quantifier(t) or not t.num_args():
            x = t
        elif i in ids:
            ncut[0] += 1
            x = z3.FreshConst(t.sort(), 'cut')
        else:
            ch = [go(c, ids) for c in t.children()]
            x = t.decl()(*ch)
        memo[i] = x
        return x
    n2 = go(n, ids)
    stop = {i for i in memo if i in ids}
    if not stop:
        return None
    return go(r, set()), n2


def sweep(fs, limit=20.0, abstract=None, facts=()):
    """rewrite the formulas; every rewrite step is a proved (unconditional) equality, or one valid under `facts`"""
    t0 = time.time()
    order = topo(fs)
    lev = {}
    for t in order:
        lev[t.get_id()] = 0 if z3.is_quantifier(t) or not t.num_args() else 1 + max(lev[c.get_id()] for c in t.children())
    order.sort(key=lambda t: lev[t.get_id()])
    if len(order) > 60000:
        return fs
    sims = [simulate(order, s) for s in range(16)]
    sig = {}
    new = {}
    nproved = 0
    refine = [0]
    done = []

    def keyof(t):
        i = t.get_id()
        return (1 if z3.is_bool(t) else t.size(), tuple(s[i] for s in sims))
    for t in order:
        i = t.get_id()
        if z3.is_quantifier(t) or not t.num_args():
            n = t
        else:
            ch = [new[c.get_id()] for c in t.children()]
            n = t if all(a.eq(b) for a, b in zip(ch, t.children())) else z3.simplify(t.decl()(*ch))
        if not z3.is_quantifier(t) and t.num_args() and (z3.is_bv(t) and t.size() >= 4 or z3.is_bool(t)) and None not in keyof(t)[1]:
            hit = None
            tried = set()
            while True:
                l = [r for r in sig.get(keyof(t), []) if r[1].get_id() not in tried]
                for o, r in l:
                    if r.eq(n):
                        hit = r
                if hit is not None or not l or time.time() - t0 > limit or len(tried) > 4:
                    break
                o, r = l[0]
                tried.add(r.get_id())
                s = z3.Solver()
                s.set('timeout', 1200)
                pair = cut(r, n)
                if pair is not None:
                    s.set('timeout', 500)
                    s.push()
                    q = [pair[0] != pair[1]]
                    if abstract is not None:
                        q = abstract(q) or q
                    s.add(*q)
                    if s.check() == z3.unsat:
                        hit = r
                        nproved += 1
                        break
                    s.pop()
                    s.set('timeout', 1200)
                q = [r != n]
                if abstract is not None:
                    q = abstract(q) or q
                s.add(*q)
                tt = time.time()
                c = s.check()
                if DEBUG:
                    print('  sweep', c, round(time.time() - tt, 2), len(topo(q)), len(sims), r.sexpr()[:300].replace('\n', ' '), '|||', n.sexpr()[:300].replace('\n', ' '))
                if c == z3.unsat:
                    hit = r
                    nproved += 1
                    break
                if c == z3.sat and refine[0] < 300:
                    m = s.model()
                    given = {}
                    for d in m.decls():
                        if d.arity() == 0:
                            x = m[d]
                            given[d.name()] = x.as_long() if z3.is_bv_value(x) else z3.is_true(x)
                    sims.append(simulate(order, 1000 + refine[0], given))
                    refine[0] += 1
                    sig = {}
                    for o, r in done:
                        sig.setdefault(keyof(o), []).append((o, r))
            if hit is not None:
                n = hit
            else:
                done.append((t, n))
                sig.setdefault(keyof(t), []).append((t, n))
        new[i] = n
    return [new[f.get_id()] for f in fs], nproved
