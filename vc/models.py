"""Assumed contracts on external code (crypto, hashing, logging) and the interpretation of the vc:: vocabulary."""
import z3
from .values import *
from .engine import *
from . import stdlib

LOGGED = ('LoggerAPI::WillLog', 'LoggerAPI::Log', 'LoggerAPI::LogTrace', 'LoggerAPI::LogDebug', 'LoggerAPI::LogInfo',
          'LoggerAPI::LogWarning', 'LoggerAPI::LogError', 'LoggerAPI::Flush', 'StringUtil::Format')


def lit_string(I, st, p):
    c = stdlib.cstr(I, st, p)
    return ''.join(chr(x) for x in c)


class Oblig:
    __slots__ = ('name', 'pc', 'cond', 'loc', 'kind')

    def __init__(self, name, pc, cond, loc, kind):
        self.name, self.pc, self.cond, self.loc, self.kind = name, pc, cond, loc, kind


def install(I):
    I.obligs = []
    I.contract_names = set()
    I.covers = []

    def lemma_call(I):
        """inside the use of another (separately proved) contract: its precondition is an obligation, its ensures are facts"""
        return sum(f in I.contract_names for f in I.cur_fn) > 1

    def require(I, st, this, args, ci):
        c = lit_s(I.tobool(args[0]))
        if lemma_call(I):
            I.obligs.append(Oblig('precondition-of-%s' % I.cur_fn[-1].split('::')[-1], list(st.pc), c, ci.e.get('l'), 'call'))
        I.assume(st, c)

    def ensure(I, st, this, args, ci):
        n = lit_string(I, st, args[0])
        if lemma_call(I):
            I.assume(st, lit_s(I.tobool(args[1])))
            return
        I.obligs.append(Oblig(n, list(st.pc), lit_s(I.tobool(args[1])), ci.e.get('l'), 'ensure'))

    def lemma(I, st, this, args, ci):
        n = lit_string(I, st, args[0])
        c = lit_s(I.tobool(args[1]))
        if not lemma_call(I):
            I.obligs.append(Oblig(n, list(st.pc), c, ci.e.get('l'), 'lemma'))
        I.assume(st, c)

    def axiom(I, st, this, args, ci):
        """an instance of a mathematical fact proved in lemmas/<name>.smt2 (checked on every run)"""
        I.lemmas.add(lit_string(I, st, args[0]))
        I.assume(st, lit_s(I.tobool(args[1])))

    def ensure_eq(I, st, this, args, ci):
        n = lit_string(I, st, args[0])
        a, b = stdlib.rd(I, st, args[1]), stdlib.rd(I, st, args[2])
        c = deep_eq(I, st, a, b)
        I.obligs.append(Oblig(n, list(st.pc), lit_s(c), ci.e.get('l'), 'ensure'))

    def cover(I, st, this, args, ci):
        I.covers.append((lit_string(I, st, args[0]), list(st.pc)))

    def invariant(I, st, this, args, ci):
        v = args[0]
        if isinstance(v, LV):
            v = I.read(st, v)
        if len(args) > 1:
            x = args[1]
            I.invexit[id(v)] = I.read(st, x) if isinstance(x, LV) else x
        I.invpool.append(v)

    I.invexit = {}

    def recursive(I, st, this, args, ci):
        """specification sequence: x(0) = seed, x(n) = f(x(n-1), n-1)"""
        name = lit_string(I, st, args[0])
        n, seed, f = args[1], args[2], args[3]
        if isinstance(f, LV):
            f = I.read(st, f)
        if is_c(n) and n == 0:
            return seed
        V = I.__dict__.setdefault('recfns', {}).setdefault(name, z3.Function('rec_' + name, z3.BitVecSort(64), z3.BitVecSort(64)))
        I.axiom(I.beq(V(z3.BitVecVal(0, 64)), seed))
        n1 = sub64(n, 1)
        if not is_c(n):
            n = z3.simplify(n)
            if n.decl().kind() == z3.Z3_OP_CONCAT and n.num_args() == 2 and z3.is_bv_value(n.arg(0)) and n.arg(0).as_long() == 0:
                m = n.arg(1)   # n is a widened counter: step back in its own width (only used where n != 0)
                n1 = z3.simplify(z3.ZeroExt(64 - m.size(), m - 1))
            n1 = lit_s(n1)
        key = (name, n1 if is_c(n1) else n1.get_id())
        done = I.__dict__.setdefault('recdone', {})
        if key not in done:
            done[key] = n1
            s = st.copy()
            s.pc = []   # decided without the path condition: the definition is global
            np = 0
            v = I.callv(s, f, [V(bv(n1, 64)), n1])
            # the step is total and free of side effects: its definition holds everywhere
            e = I.beq(V(bv(n, 64)), cast_int(v, 64, False, 64))
            for a in s.pc[np:]:
                if not isinstance(a, (bool, z3.ExprRef)):
                    raise Unsupported('recursive step needs a loop summary')
            e = Implies(And(*s.pc[np:]), e)
            e = e if is_c(n) else z3.Or(bv(n, 64) == 0, bl(e))
            I.axiom(e)
            I.__dict__.setdefault('recax', []).append((V(bv(n, 64)), bl(e)))
        return V(bv(n, 64))

    I.models['vc::recursive'] = recursive

    def anyv(I, st, this, args, ci):
        n = lit_string(I, st, args[0])
        t = ci.rt.e if ci.rt.k == 'ref' else ci.rt
        tab = I.__dict__.setdefault('anys', {})
        if n not in tab:
            tab[n] = I.new(st, t, I.sym(t, 'any.' + n), 'any')
        return tab[n]

    I.lemmas = set()
    I.models['vc::axiom'] = axiom
    I.models['vc::any'] = anyv
    I.models['vc::invariant'] = invariant
    I.models.update({'vc::require': require, 'vc::ensure': ensure, 'vc::lemma': lemma, 'vc::ensure_eq': ensure_eq, 'vc::cover': cover})
    I.skip = set(LOGGED)
    hashing(I)

    def bigint(I, ty, name, idxs):
        n = ty.arg(0)
        d = {}
        for fn, ft, _, _ in I.prog.allfields(ty):
            if fn == 'm_data':
                et = I.elem(ft)
                d[fn] = Seq(ft, [E([I.sym(et, '%s[%d]' % (name, i), idxs) for i in range(n)])])
            else:
                d[fn] = I.sym(ft, name + '.' + fn, idxs)
        return Rec(ty, d)
    I.shapes['CBigInteger'] = bigint


def deep_eq(I, st, a, b):
    """equality through shared pointers"""
    if isinstance(a, LV) and isinstance(b, LV) and a.key() != b.key():
        return deep_eq(I, st, I.read(st, a), I.read(st, b))
    if isinstance(a, Rec) and isinstance(b, Rec):
        return And(*[deep_eq(I, st, a.f[k], b.f[k]) for k in a.f if k in b.f and not isinstance(a.f[k], Opq)])
    if isinstance(a, Opt) and isinstance(b, Opt) and a.v is not None and b.v is not None:
        return And(I.beq(a.has, b.has), Implies(And(a.has, b.has), deep_eq(I, st, a.v, b.v)))
    return I.veq(st, a, b, True)


# ------------------------------------------------------------------------------------------------ hashing

def seqfn(I, st, name, seqs, outlen, extra=()):
    """an uninterpreted function of byte sequences: congruent, nothing else assumed.
    returns outlen byte terms"""
    tab = I.__dict__.setdefault('hash_tab', [])
    key = (name, tuple(len(s) if s is not None else None for s in [x.conc() for x in seqs]), tuple(extra))
    concs = [x.conc() for x in seqs]
    if all(c is not None for c in concs) and sum(len(c) for c in concs) <= 4096:
        bits = sum(len(c) for c in concs) * 8
        allb = [b for c in concs for b in c]
        nm = 'H_%s_%s' % (name, '_'.join(str(len(c)) for c in concs))
        if not allb:
            t = z3.Const(nm, z3.BitVecSort(outlen * 8))
        else:
            arg = z3.Concat(*[bv(b, 8) for b in allb]) if len(allb) > 1 else bv(allb[0], 8)
            f = z3.Function(nm, z3.BitVecSort(bits), z3.BitVecSort(outlen * 8))
            t = f(z3.simplify(arg))
    else:
        t = None
        ents = [e for e in tab if e[0] == name]
        for n2, s2, t2 in ents:
            if len(s2) == len(seqs) and all(stdlib_same(I, x, y) for x, y in zip(s2, seqs)):
                t = t2
                break
        if t is None:
            t = I.fresh('H_' + name, outlen * 8)
            for n2, s2, t2 in ents:
                c = And(*[I.seq_eq(st, x, y) for x, y in zip(s2, seqs)])
                I.axiom(bl(Implies(c, t == t2)))
            tab.append((name, seqs, t))
    return [lit_s(z3.Extract(8 * (outlen - i) - 1, 8 * (outlen - i - 1), t)) for i in range(outlen)]


def stdlib_same(I, a, b):
    return len(a.ch) == len(b.ch) and all(I.chsame(x, y) for x, y in zip(a.ch, b.ch))


def hashing(I):
    def mk(name, outlen, n):
        def h(I, st, this, args, ci):
            seqs = []
            i = 0
            while i < len(args):
                pt = ci.pty(i)
                if pt.k == 'ptr':
                    a = args[i]
                    n = args[i + 1]
                    c, j = stdlib.container_lv(a)
                    v = I.read(st, c)
                    seqs.append(Seq(v.ty, I.slice(st, v, j, add64(j, n))))
                    i += 2
                    continue
                v = stdlib.rd(I, st, args[i])
                while isinstance(v, Rec):
                    v = next(x for x in v.f.values() if isinstance(x, (Rec, Seq)))
                if isinstance(v, Seq):
                    seqs.append(v)
                i += 1
            bs = seqfn(I, st, name, seqs, outlen)
            rt = ci.rt
            return wrap_big(I, rt, bs)
        return h
    for nm, ol, n in (('Blake2b', 32, 1), ('SHA256', 32, 1), ('SHA512', 64, 1), ('RipeMD160', 20, 1), ('HMAC_SHA256', 32, 2), ('HMAC_SHA512', 64, 2)):
        I.models['Hasher::' + nm] = mk(nm, ol, n)


def wrap_big(I, rt, bs):
    """CBigInteger<N> from bytes"""
    fs = I.prog.allfields(rt)
    d = {}
    for n, t, _, _ in fs:
        if n == 'm_data':
            d[n] = Seq(t, [E(bs)])
        else:
            d[n] = I.zero(t)
    return Rec(rt, d)
