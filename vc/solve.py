"""Discharging obligations: quantifier instantiation over the loop facts, then SMT (z3, cvc5)."""
import z3, time, subprocess, tempfile, os, shutil
from .values import *
from .engine import *

CVC5 = shutil.which('cvc5')
Z3NEW = shutil.which('z3-new')


def index_terms(I, fs, elements=False):
    """terms at which loop facts are instantiated: skolem indices, arguments of recurrence / prefix functions"""
    out, seen = {}, set()
    sk = {k.get_id() for k in I.skolems if isinstance(k, z3.ExprRef)}
    st = [f for f in fs if isinstance(f, z3.ExprRef)]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            continue
        if i in sk:
            out[i] = x
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n.startswith('W!'):
                out[i] = x
            if elements and '[]' in n:
                for a in x.children():
                    if a.size() == 64 and not z3.is_bv_value(a):
                        out[a.get_id()] = a
            if n.startswith(('V!', 'P_')):
                a = x.arg(x.num_args() - 1)
                out[a.get_id()] = a
                p = lit_s(a - 1)
                if isinstance(p, z3.ExprRef) and p.num_args() < 6:
                    out[p.get_id()] = p
        st.extend(x.children())
    return list(out.values())


def instantiate(I, pc, goal, rounds=2, cap=4000, only_goal=False):
    hyps = [p for p in pc if not isinstance(p, Univ)]
    us = [p for p in pc if isinstance(p, Univ)]
    done = set()
    facts = list(I.axioms)
    for r in range(rounds):
        terms = index_terms(I, [goal], True) if only_goal else index_terms(I, hyps + [goal] + facts)
        new = []
        work = [(u, t) for u in us for t in terms]
        # the last iteration, and one far beyond every container size (excludes wrap-around of indices)
        far = lambda u: [(u, lit_s(u.hi - 1)), (u, 1 << 40)] if isinstance(u.hi, z3.ExprRef) and u.hi.num_args() < 6 else []
        work += [w for u in us for w in far(u)]
        for u, t in work:
            key = (id(u), t.get_id() if isinstance(t, z3.ExprRef) else t)
            if key in done:
                continue
            done.add(key)
            for x in u.inst(t):
                if isinstance(x, Univ):
                    us.append(x)
                    work += far(x)
                    if only_goal:
                        work += [(x, t2) for t2 in terms]
                else:
                    x = bl(x)
                    new.append(x)
        for V, V2 in I.linked:
            for t in terms:
                key = ('lk', V.get_id() if hasattr(V, 'get_id') else id(V), t.get_id() if isinstance(t, z3.ExprRef) else t)
                if key in done:
                    continue
                done.add(key)
                tt = bv(t, 64)
                if V.arity() == 1:
                    new.append(V(tt) == V2(tt))
        # facts produced while evaluating (prefix axioms) are in I.axioms
        hyps += new
        facts = list(I.axioms)
        if not new or len(hyps) > cap:
            break
    return hyps + facts


def link_recs(I, limit=6.0):
    """recurrences of different loops that are equal for every index: guessed in groups, proved by induction
    (Houdini: assume all remaining pairs equal at k, drop the pairs whose steps differ, repeat)"""
    if len(I.recs) < 2:
        return
    done = I.__dict__.setdefault('link_done', set())
    groups = {}
    for r in I.recs:
        if not r['outer']:
            groups.setdefault(r['kk'].get_id(), []).append(r)
    gs = list(groups.items())
    t0 = time.time()
    have = {(a.get_id(), b.get_id()) for a, b in I.linked}
    for bi in range(len(gs)):
        for ai in range(bi):
            key = (gs[ai][0], gs[bi][0])
            if key in done or time.time() - t0 > limit:
                continue
            done.add(key)
            A, B = gs[ai][1], gs[bi][1]
            kk = A[0]['kk']

            def valid(f, hyps=()):
                f = lit_s(f)
                if isinstance(f, bool):
                    return f
                s = z3.Solver()
                s.set('timeout', 1500)
                s.add(*[bl(x) for x in I.axioms if not z3.is_quantifier(bl(x))][-200:])
                s.add(*hyps)
                s.add(z3.Not(f))
                return s.check() == z3.unsat
            pairs = []
            for a in A:
                for b in B:
                    if a['w'] == b['w'] and isinstance(a['step'], (int, bool, z3.ExprRef)) and isinstance(b['step'], (int, bool, z3.ExprRef)) and (a['V'].get_id(), b['V'].get_id()) not in have and valid(I.beq(a['x0'], b['x0'])):
                        pairs.append((a, b))
            while pairs and time.time() - t0 < limit:
                hy = [a['V'](kk) == b['V'](kk) for a, b in pairs]
                keep = [(a, b) for a, b in pairs if valid(I.beq(a['step'], tsub(b['step'], [(b['kk'], kk)])), hy)]
                if len(keep) == len(pairs):
                    I.linked += [(a['V'], b['V']) for a, b in pairs]
                    break
                pairs = keep


HARD = {z3.Z3_OP_BUDIV: 'udiv', z3.Z3_OP_BUDIV_I: 'udiv', z3.Z3_OP_BUREM: 'urem', z3.Z3_OP_BUREM_I: 'urem',
        z3.Z3_OP_BSDIV: 'sdiv', z3.Z3_OP_BSDIV_I: 'sdiv', z3.Z3_OP_BSREM: 'srem', z3.Z3_OP_BSREM_I: 'srem', z3.Z3_OP_BMUL: 'mul'}


def abstract_arith(fs):
    """replace divisions and products of two variables by uninterpreted functions (weaker facts: an unsat answer stands).
    returns None where there is nothing to replace"""
    memo, n = {}, [0]

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i]
        if z3.is_quantifier(t) or not t.num_args():
            r = t
        else:
            ch = [go(c) for c in t.children()]
            k = t.decl().kind()
            nm = HARD.get(k)
            if nm == 'mul':
                cs = [c for c in ch if z3.is_bv_value(c)]
                vs = sorted((c for c in ch if not z3.is_bv_value(c)), key=lambda c: c.get_id())
                if len(vs) >= 2 and t.size() >= 16:
                    n[0] += 1
                    f = z3.Function('uf_mul%d_%d' % (len(vs), t.size()), *([t.sort()] * (len(vs) + 1)))
                    r = f(*vs)
                    for c in cs:
                        r = c * r
                else:
                    r = t.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
            elif nm and t.size() >= 16 and not (z3.is_bv_value(ch[1]) and bin(ch[1].as_long()).count('1') == 1):
                n[0] += 1
                r = z3.Function('uf_%s_%d' % (nm, t.size()), t.sort(), t.sort(), t.sort())(*ch)
            elif any(not a.eq(b) for a, b in zip(ch, t.children())):
                r = t.decl()(*ch)
            else:
                r = t
        memo[i] = r
        return r
    import sys
    sys.setrecursionlimit(100000)
    out = [go(f) for f in fs]
    return out if n[0] else None


def smt_external(cmds, smt, timeout):
    """run solvers side by side; the first conclusive answer wins.  cmds: [(name, argv)]"""
    fd, path = tempfile.mkstemp(suffix='.smt2')
    with os.fdopen(fd, 'w') as f:
        f.write(smt)
    ps = [(n, subprocess.Popen(c + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for n, c in cmds]
    end = time.time() + timeout + 5
    try:
        while ps and time.time() < end:
            for n, p in list(ps):
                if p.poll() is not None:
                    ps.remove((n, p))
                    o = p.stdout.read().strip().split('\n')[0]
                    if o in ('sat', 'unsat'):
                        return n, o
            time.sleep(0.02)
        return None, 'unknown'
    finally:
        for n, p in ps:
            p.kill()
            p.wait()
        os.unlink(path)


class Result:
    def __init__(self, status, backend, t, model=None, nfacts=0):
        self.status, self.backend, self.t, self.model, self.nfacts = status, backend, t, model, nfacts


SYM, SYMEMO = {}, {}


def syms(t):
    """the uninterpreted symbols of a term, as a bit mask"""
    stk = [t]
    while stk:
        x = stk[-1]
        i = x.get_id()
        if i in SYMEMO:
            stk.pop()
            continue
        ch = [x.body()] if z3.is_quantifier(x) else x.children()
        todo = [c for c in ch if c.get_id() not in SYMEMO]
        if todo:
            stk += todo
            continue
        m = 0
        for c in ch:
            m |= SYMEMO[c.get_id()][0]
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            m |= 1 << SYM.setdefault(n, len(SYM))
        SYMEMO[i] = (m, x)          # keeps the node alive: ids stay unique
        stk.pop()
    return SYMEMO[t.get_id()][0]


def flat(fs):
    out, st = [], list(fs)
    while st:
        x = st.pop()
        if z3.is_and(x):
            st.extend(x.children())
        elif not z3.is_true(x):
            out.append(x)
    return out


def bits(m):
    while m:
        b = m & -m
        yield b.bit_length() - 1
        m ^= b


def selections(facts, goal):
    """increasing selections of the facts by relevance to the goal (rarest shared symbol); a proof from a selection stands"""
    facts = flat(facts)
    sy = [syms(f) for f in facts]
    occ = {}
    for s in sy:
        for x in bits(s):
            occ[x] = occ.get(x, 0) + 1
    trig = []
    for s in sy:
        l = list(bits(s))
        m = min((occ[x] for x in l), default=0)
        trig.append(sum(1 << x for x in l if occ[x] <= m + m // 2 + 2))
    cur = syms(goal)
    chosen = set()
    last = 0
    for depth in range(8):
        new = [i for i in range(len(facts)) if i not in chosen and (not sy[i] or trig[i] & cur)]
        if not new:
            break
        chosen.update(new)
        for i in new:
            cur |= sy[i]
        if len(chosen) > 0.8 * len(facts):
            break
        if depth in (0, 1, 2, 4) and len(chosen) > last:
            last = len(chosen)
            yield [facts[i] for i in sorted(chosen)]


def exit_flags(t):
    """which of several ways a loop ended or a call failed: the flags a merged state depends on, oldest first"""
    out, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and z3.is_bool(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('exit!'):
            out[int(x.decl().name().split('!')[1].split('(')[0])] = x
        st.extend(x.children())
    return [out[k] for k in sorted(out)]


def prove_cases(I, pc, cond, timeout, lens):
    """one case per way the merged paths were taken; None where a case stays open"""
    flags = exit_flags(bl(Not(cond)))
    if not 2 <= len(flags) <= 16:
        return None
    t0 = time.time()
    n = 0
    cases = [[(f, z3.BoolVal(False)) for f in flags[:i]] + [(f, z3.BoolVal(True))] for i, f in enumerate(flags)] + [[(f, z3.BoolVal(False)) for f in flags]]
    for ps in cases:
        c2 = lit_s(tsub(cond, ps))
        if c2 is True:
            continue
        r = prove(I, [subst(p, ps) for p in pc] + [f if z3.is_true(v) else z3.Not(f) for f, v in ps], c2, min(timeout / 3, 30), False, (), False)
        if os.environ.get('VC_FACTS'):
            print('case', ps, r.status, round(time.time() - t0, 2))
        if r.status != 'proved' or time.time() - t0 > timeout:
            return None
        n = max(n, r.nfacts or 0)
    return Result('proved', 'z3 (case split)', time.time() - t0, nfacts=n)


def prove(I, pc, cond, timeout=60, want_model=True, lens=(), cases=True):
    """status: proved / refuted / unknown.  refuted: model of pc && !cond"""
    t0 = time.time()
    cond = lit_s(cond)
    if cond is True:
        return Result('proved', 'simplifier', 0.0)
    focus = I.opts.get('focus')          # goal-directed stages, for contracts over many loops
    if focus and cases and sum(isinstance(p, Univ) for p in pc) > 20 and isinstance(cond, z3.ExprRef):
        r = prove_cases(I, pc, cond, timeout, lens)
        if r is not None:
            return r
    goal = bl(Not(cond))
    link_recs(I)
    if focus and sum(isinstance(p, Univ) for p in pc) > 4:
        # first the loop facts at the indices of the goal alone
        few = [bl(x) for x in instantiate(I, pc, goal, rounds=1, only_goal=True)]
        if os.environ.get('VC_FACTS'):
            print('few', index_terms(I, [goal], True), len(few), round(time.time() - t0, 2), flush=True)
        for sel in list(selections(few, goal)) + [few]:
            s = z3.Solver()
            s.set('timeout', int(min(timeout, 45 if sel is few else 12) * 1000))
            s.add(*sel)
            s.add(goal)
            r = s.check()
            if os.environ.get('VC_FACTS'):
                print('  selection', len(sel), r, round(time.time() - t0, 2), flush=True)
            if r == z3.unsat:
                return Result('proved', 'z3', time.time() - t0, nfacts=len(sel))
            if time.time() - t0 > timeout:
                break
    facts = [bl(x) for x in instantiate(I, pc, goal)]
    if os.environ.get('VC_FACTS'):
        print('facts', len(facts), 'flat', len(flat(facts)), 'univ', sum(isinstance(p, Univ) for p in pc), 'axioms', len(I.axioms), 'inst', round(time.time() - t0, 2), flush=True)
    if focus and len(facts) > 120:
        for sel in selections(facts, goal):
            if os.environ.get('VC_FACTS'):
                print('  selection', len(sel), round(time.time() - t0, 2), flush=True)
            s = z3.Solver()
            s.set('timeout', int(min(timeout, 4) * 1000))
            s.add(*sel)
            s.add(goal)
            if s.check() == z3.unsat:
                return Result('proved', 'z3', time.time() - t0, nfacts=len(sel))
    ab = abstract_arith([z3.simplify(goal)])
    if ab is not None:
        full = abstract_arith([z3.simplify(f) for f in facts] + [z3.simplify(goal)])
        s = z3.Solver()
        s.set('timeout', int(min(timeout, 15) * 1000))
        s.add(*full)
        if s.check() == z3.unsat:
            return Result('proved', 'z3 (division uninterpreted)', time.time() - t0, nfacts=len(facts))
        from . import sweep
        sw, n = sweep.sweep([z3.simplify(f) for f in facts] + [z3.simplify(goal)], min(timeout, 20), abstract_arith)
        if n:
            full = abstract_arith(sw) or sw
            s = z3.Solver()
            s.set('timeout', int(min(timeout, 15) * 1000))
            s.add(*full)
            if s.check() == z3.unsat:
                return Result('proved', 'z3 (equivalence sweeping, %d steps)' % n, time.time() - t0, nfacts=len(facts))
    s = z3.Solver()
    s.set('timeout', int(min(timeout, 8) * 1000))
    s.add(*facts)
    s.add(goal)
    r = s.check()
    be = 'z3'
    if r == z3.unknown:
        # bit-blasting tactic
        has_q = any(z3.is_quantifier(f) for f in facts)
        left = timeout - (time.time() - t0)
        smt = '(set-logic ALL)\n' + s.to_smt2()
        cmds = []
        if CVC5:
            cmds.append(('cvc5', [CVC5, '--tlimit=%d' % int(max(left, 5) * 1000)]))
            cmds.append(('cvc5 (bit-vectors as integers)', [CVC5, '--solve-bv-as-int=sum', '--tlimit=%d' % int(max(left, 5) * 1000)]))
        if Z3NEW:
            cmds.append(('z3-new', [Z3NEW, '-T:%d' % int(max(left, 5))]))
        if os.environ.get('VC_SMT'):
            open('%s/%d.smt2' % (os.environ['VC_SMT'], int(time.time() * 1000)), 'w').write(smt)
        n, o = smt_external(cmds, smt, max(left, 5))
        if o == 'unsat':
            r, be = z3.unsat, n
        elif o == 'sat':
            r, be = 'sat', n
    if r == z3.unsat:
        return Result('proved', be, time.time() - t0, nfacts=len(facts))
    model = None
    if r == z3.sat or r == 'sat':
        if want_model:
            if r == z3.sat:
                model = s.model()
            for bound in (3, 8, 40, 200, 1000, 4000):
                s.push()
                for l in lens:
                    s.add(z3.ULE(l, bound))
                s.set('timeout', 5000)
                if s.check() == z3.sat:
                    model = s.model()
                    s.pop()
                    break
                s.pop()
        return Result('refuted', be, time.time() - t0, model, len(facts))
    return Result('unknown', be, time.time() - t0, nfacts=len(facts))


def apps_of(fs, names=('rec_',)):
    out, seen, st = {}, set(), list(fs)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith(names):
            out[t.get_id()] = t
        st.extend(t.children())
    return out


def condense(fs):
    """substitute known values of terms (facts t == constant) everywhere else"""
    known = {}
    for _ in range(4):
        flat, st = [], [z3.simplify(f) for f in fs]
        for f in st:
            flat += f.children() if z3.is_and(f) else [f]
        new = []
        for f in flat:
            if z3.is_eq(f) and z3.is_bv(f.arg(0)):
                a, b = f.arg(0), f.arg(1)
                if z3.is_bv_value(a):
                    a, b = b, a
                if z3.is_bv_value(b) and a.get_id() not in known:
                    known[a.get_id()] = (a, b)
                    new.append((a, b))
                elif z3.is_const(a) and z3.is_const(b) and b.decl().name().startswith('cut!'):
                    a, b = b, a
                if z3.is_const(a) and z3.is_const(b) and not z3.is_bv_value(b) and a.decl().name().startswith('cut!') and b.get_id() not in known and a.get_id() not in known and not b.decl().name().startswith('cut!'):
                    known[b.get_id()] = (b, a)
                    new.append((b, a))
        if not new:
            return flat + [a == b for a, b in known.values()]
        fs = [z3.substitute(f, *new) for f in flat]
    return [z3.simplify(f) for f in fs] + [a == b for a, b in known.values()]


def cut_opaque(fs, memo):
    """generalise: replace values of opaque functions by variables"""

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i]
        r = t
        if z3.is_app(t) and t.num_args():
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('opq_') and z3.is_bv(t):
                r = z3.BitVec('cut!%d' % i, t.size())
            else:
                ch = [go(c) for c in t.children()]
                if any(not x.eq(y) for x, y in zip(ch, t.children())):
                    k = t.decl().kind()
                    r = z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch) if k == z3.Z3_OP_OR else t.decl()(*ch)
        memo[i] = r
        kept.append(t)   # ids stay valid
        return r
    import sys
    sys.setrecursionlimit(100000)
    kept = memo.setdefault('kept', [])
    return [go(f) for f in fs]


def prop_atoms(fs, opaque=()):
    """generalise: comparisons between values of opaque functions become propositions (comparisons of conditional values are distributed)"""
    memo, pure, eqs = {}, {}, {}

    opaque = tuple(x + '[' for x in opaque)

    def is_cut(t):
        return t.decl().name().startswith(('cut!',) + opaque)

    def is_pure(t):   # built from cut variables without conditionals
        i = t.get_id()
        if i not in pure:
            if z3.is_bv_value(t):
                pure[i] = 1
            elif z3.is_const(t):
                pure[i] = 2 if is_cut(t) else 0
            elif t.decl().kind() == z3.Z3_OP_ITE or not z3.is_bv(t) or t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                pure[i] = 0
            else:
                m = [is_pure(c) for c in t.children()]
                pure[i] = 0 if 0 in m else max(m)
        return pure[i]

    cv = {}

    def cutval(t):   # can the value be one of an opaque function?
        i = t.get_id()
        if i not in cv:
            cv[i] = False
            if not z3.is_bv(t):
                pass
            elif z3.is_const(t):
                cv[i] = is_cut(t) if not z3.is_bv_value(t) else False
            else:
                cv[i] = any(cutval(c) for c in (t.children()[1:] if t.decl().kind() == z3.Z3_OP_ITE else t.children()))
        return cv[i]

    def eq(a, b):
        k = (a.get_id(), b.get_id())
        if k in eqs:
            return eqs[k]
        if a.eq(b):
            r = z3.BoolVal(True)
        elif a.decl().kind() == z3.Z3_OP_ITE:
            r = z3.If(go(a.arg(0)), eq(a.arg(1), b), eq(a.arg(2), b))
        elif b.decl().kind() == z3.Z3_OP_ITE:
            r = z3.If(go(b.arg(0)), eq(a, b.arg(1)), eq(a, b.arg(2)))
        elif is_pure(a) and is_pure(b) and 2 in (is_pure(a), is_pure(b)):
            n = sorted(k)
            r = z3.Bool('eq!%d!%d' % tuple(n))
        else:
            r = go(a) == go(b)
        eqs[k] = r
        return r

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i]
        r = t
        if z3.is_eq(t) and z3.is_bv(t.arg(0)) and (cutval(t.arg(0)) or cutval(t.arg(1))):
            r = eq(t.arg(0), t.arg(1))
        elif z3.is_app(t) and t.num_args():
            ch = [go(c) for c in t.children()]
            if any(not x.eq(y) for x, y in zip(ch, t.children())):
                k = t.decl().kind()
                r = z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch) if k == z3.Z3_OP_OR else t.decl()(*ch)
        memo[i] = r
        return r
    keep = list(fs)
    out = []
    for f in keep:
        n = len(eqs), len(memo)
        out.append(go(f))
        if os.environ.get('VC_QDUMP') and len(memo) - n[1] > 300:
            print('prop', len(eqs) - n[0], len(memo) - n[1], str(f)[:150].replace(chr(10), ' '))
    return out


def quick(I, pc, cond, timeout, skip=()):
    """cheap attempt: path condition and the definitions of the specification sequences the goal mentions; None if undecided"""
    t0 = time.time()
    cond = lit_s(cond)
    if cond is True:
        return Result('proved', 'simplifier', 0.0)
    goal = bl(Not(cond))
    skip = {x.get_id() for x in skip if isinstance(x, z3.ExprRef)}
    fs = [bl(x) for x in pc if isinstance(x, (bool, z3.ExprRef)) and not (isinstance(x, z3.ExprRef) and x.get_id() in skip)]
    want = apps_of([goal])
    want = {z3.simplify(t).get_id() for t in want.values()}
    fs += [d for v, d in getattr(I, 'recax', []) if z3.simplify(v).get_id() in want and not (skip and z3.is_const(v.arg(0)))]
    fs = condense(cut_opaque(fs + [goal], I.__dict__.setdefault('cutmemo', {})))
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.add(*[z3.simplify(f) for f in prop_atoms(fs, I.opts.get('pure', ()))])
    t1 = time.time()
    if s.check() == z3.unsat:
        return Result('proved', 'z3', time.time() - t0, nfacts=len(fs))
    if os.environ.get('VC_QDUMP'):
        open('/tmp/p%d.smt2' % int(time.time()), 'w').write(s.to_smt2())
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.add(*fs)
    t1 = time.time()
    r = s.check()
    if os.environ.get('VC_QDUMP') and time.time() - t1 > 1:
        open('/tmp/q%d.smt2' % int(time.time()), 'w').write(s.to_smt2())
    if r == z3.unsat:
        return Result('proved', 'z3', time.time() - t0, nfacts=len(fs))
    return None


def satisfiable(I, pc, timeout=20):
    t0 = time.time()
    facts = [bl(x) for x in instantiate(I, pc, z3.BoolVal(True), rounds=1)]
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.add(*facts)
    r = s.check()
    return ('sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'), time.time() - t0


# ------------------------------------------------------------------------------------ model -> input tokens

def mval(m, t, w=64):
    if isinstance(t, bool):
        return int(t)
    if is_c(t):
        return t
    r = m.eval(t, model_completion=True)
    if z3.is_bv_value(r):
        return r.as_long()
    if z3.is_true(r):
        return 1
    if z3.is_false(r):
        return 0
    raise ValueError('model value')


def tokens(I, m, v, ty, out, budget=[200000]):
    if isinstance(v, Seq):
        n = mval(m, v.len)
        if n > 20000:
            raise ValueError('model too large')
        if I.fixedlen(v.ty) is None:
            out.append(n)
        et = I.elem(v.ty)
        for i in range(n):
            tokens(I, m, I.cget(None, v.ch, i, et), et, out)
            if len(out) > 400000:
                raise ValueError('model too large')
    elif isinstance(v, Opt):
        h = mval(m, v.has)
        out.append(h)
        if h:
            tokens(I, m, v.v, v.ty.arg(0), out)
    elif isinstance(v, Rec):
        for k in v.f:
            tokens(I, m, v.f[k], None, out)
    elif isinstance(v, Val) or v is None:
        raise ValueError('no tokens for %s' % short(v))
    else:
        out.append(mval(m, v))


def lengths(I, v, acc):
    if isinstance(v, Seq):
        if isinstance(v.len, z3.ExprRef):
            acc.append(v.len)
        else:
            for c in v.ch:
                if isinstance(c, E):
                    for x in c.vals:
                        lengths(I, x, acc)
    elif isinstance(v, Opt):
        lengths(I, v.v, acc)
    elif isinstance(v, Rec):
        for x in v.f.values():
            lengths(I, x, acc)
    return acc
