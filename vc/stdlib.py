"""Semantics of the C++ standard-library operations the verified code uses (trusted base)."""
import z3
from .values import *
from .prog import norm
from .engine import *
from . import loops

VEC = ('std::vector', 'std::array', 'std::basic_string', 'std::deque', 'std::initializer_list', 'std::list', 'std::queue', 'std::basic_string_view')
SP = ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr')


def install(I):
    pass


def base_name(nn):
    return nn.split('<')[0]


# ---------------------------------------------------------------------------------------------- helpers

def rd(I, st, x):
    """value of an argument passed by reference or by value"""
    if isinstance(x, (LV, Choice)):
        return I.read(st, x)
    return x


def val(I, st, x, pty):
    """argument as value given its parameter type"""
    if pty is not None and pty.k == 'ref':
        return I.read(st, x) if isinstance(x, (LV, Choice, MapIt)) else x
    return x


def repeat(I, v, n):
    if is_c(n) and n <= 8192:
        return [E([v] * n)]
    return [S(Base('rep', lambda i: v), 0, n)]


def itrange(I, st, a, b):
    """chunks & element type of iterator range [a,b)"""
    if isinstance(a, Choice) or isinstance(b, Choice):
        raise Unsupported('iterator choice')
    if isinstance(a, LV):
        if not a.path or a.path[-1][0] != 'i':
            # pointer to single object
            v = I.read(st, a)
            n = I.ptr_diff(st, b, a)
            if isinstance(v, Seq):
                return v, 0, n
            if n == 1:
                return Seq(None, [E([v])]), 0, 1
            raise Unsupported('range over non-array')
        if a.path[-1][0] == 'i':
            cont = I.read(st, LV(a.root, a.path[:-1]))
            if not isinstance(cont, Seq):
                if a.path[-1][1] == 0:
                    return Seq(None, [E([cont])]), 0, I.ptr_idx(b)
                raise Unsupported('range over %s' % short(cont))
            return cont, a.path[-1][1], b.path[-1][1]
    if isinstance(a, Iter):
        cont = I.read(st, a.lv)
        if a.rev:
            n = cont.len
            lo, hi = b.i, a.i
            c = Seq(cont.ty, I.slice(st, cont, lo, hi))
            return reverse(I, st, c), 0, sub64(hi, lo)
        return cont, a.i, b.i
    raise Unsupported('iterator range %s' % short(a))


def range_chunks(I, st, a, b):
    if isinstance(a, LV) and a.path and a.path[-1][0] in ('b', 'w'):
        n = sub64(b.path[-1][1], a.path[-1][1])
        if is_c(n):
            return [E([I.read(st, I.ptr_add(st, a, i, 0)) for i in range(n)])], None
    if isinstance(a, SetIt) or isinstance(a, MapIt):
        return a.range(I, st, b), None
    c, lo, hi = itrange(I, st, a, b)
    if I.check_safety:
        I.safe(st, 'iterator-range', And(cmp('<=', lo, hi, 64, False), cmp('<=', hi, c.len, 64, False)), 0)
    return I.slice(st, c, lo, hi), c


def reverse(I, st, s):
    c = s.conc()
    if c is not None:
        return Seq(s.ty, [E(c[::-1])])
    n = s.len
    ety = I.elem(s.ty)
    return Seq(s.ty, [S(Base('rev', lambda i: I.cget(None, s.ch, sub64(sub64(n, 1), i), ety)), 0, n)])


def container_lv(it):
    """(container LV, index)"""
    if isinstance(it, LV):
        return LV(it.root, it.path[:-1]), it.path[-1][1]
    if isinstance(it, Iter):
        return it.lv, it.i
    raise Unsupported('iterator %s' % short(it))


def cstr(I, st, p):
    """value of a NUL-terminated string pointer"""
    if isinstance(p, LV):
        c, i = container_lv(p) if p.path and p.path[-1][0] == 'i' else (p, 0)
        v = I.read(st, c)
        cc = v.conc()
        if cc is not None and is_c(i):
            out = []
            for x in cc[i:]:
                if is_c(x) and x == 0:
                    break
                out.append(x)
            return out
        # std::string data: assume no embedded NUL
        if v.ty.k == 'rec':
            return I.slice(st, v, i, v.len)
        if v.ch and isinstance(v.ch[-1], E):
            return I.slice(st, v, i, sub64(v.len, 1))
    raise Unsupported('C string')


def chunks_of(x):
    return x if x and not isinstance(x[0], (int, z3.ExprRef)) else [E(x)]


def string_arg(I, st, a, ty):
    """chunks of a string-like argument"""
    t = ty.e if ty.k == 'ref' else ty
    if t.k == 'rec' and t.n in VEC:
        return list(val(I, st, a, ty).ch)
    if t.k == 'ptr':
        return chunks_of(cstr(I, st, a))
    if t.k == 'arr':
        c = I.read(st, a).conc()
        return chunks_of(cstr(I, st, a.idx(0)))
    if t.k == 'int':
        return [E([val(I, st, a, ty)])]
    raise Unsupported('string argument %s' % t.s)


def make(I, st, ty, args, ptys):
    """construct an object of type ty from forwarded arguments (make_shared / emplace_back ...)"""
    if ty.k in ('int', 'enum', 'bool', 'ptr', 'float'):
        if not args:
            return I.zero(ty)
        v = rdv(I, st, args[0], ptys[0])
        pt = ptys[0].e if ptys[0].k == 'ref' else ptys[0]
        return I.conv(v, pt, ty) if pt.isint and ty.isint else v
    if ty.k == 'rec':
        a0 = ptys[0].e if ptys and ptys[0].k == 'ref' else (ptys[0] if ptys else None)
        if len(args) == 1 and a0 is not None and a0.k == 'rec' and (a0.id == ty.id or a0.n == ty.n and (ty.n.startswith('std::'))):
            return rdv(I, st, args[0], ptys[0])
        if ty.n.startswith('std::') or I.prog.rec(ty) is None:
            return std_construct(I, st, ty, args, ptys)
        c = find_ctor(I, ty, args, ptys)
        if c is None and len(args) == 1 and a0 is not None and a0.k == 'rec':
            # derived-to-base or base conversions
            v = rdv(I, st, args[0], ptys[0])
            return v
        if c is None and not args:
            return default_obj(I, st, ty)
        if c is None:
            raise Unsupported('no constructor of %s for %s' % (ty.s, [p.s for p in ptys]))
        h = I.contracts.get(c.key) or I.contracts.get(c.n) or I.models.get(c.key)
        obj = I.new(st, ty, I.undef(ty), 'obj')
        av = []
        for p, a, pt in zip(c.d['p'], args, ptys):
            t = c.tu.ty(p['t'])
            apt = pt.e if pt.k == 'ref' else pt
            if t.k == 'ref':
                te = t.e
                if te.k == 'rec' and apt.k == 'rec' and te.n == apt.n or te.k == apt.k and te.k != 'rec':
                    av.append(a if isinstance(a, (LV, Choice)) and pt.k == 'ref' else I.new(st, te, a, 'tmp'))
                else:
                    av.append(I.new(st, te, convert(I, st, rdv(I, st, a, pt), apt, te, a, pt), 'tmp'))
            else:
                av.append(convert(I, st, rdv(I, st, a, pt), apt, t, a, pt))
        I.invoke(st, c, obj, av)
        return I.read(st, obj)
    raise Unsupported('construct %s' % ty.s)


def convert(I, st, v, ft, tt, a=None, pt=None):
    if ft.isint and tt.isint:
        return I.conv(v, ft, tt)
    if tt.k == 'rec' and ft.k == 'rec' and ft.id == tt.id:
        return v
    if tt.k == 'rec' and tt.n in SP and (ft.k == 'nullptr' or ft.k == 'rec' and ft.n in SP):
        return v
    if tt.k == 'rec':
        return make(I, st, tt, [a], [pt])
    return v


def default_obj(I, st, ty):
    obj = I.new(st, ty, I.zero(ty), 'obj')
    for n, t, init, tu in I.prog.allfields(ty):
        if init is not None:
            I.write(st, obj.field(n), I.rvinit(st, init, tu))
    return I.read(st, obj)


def rdv(I, st, a, pt):
    if pt.k == 'ref':
        if isinstance(a, (LV, Choice, MapIt)):
            return I.read(st, a)
    return a


def find_ctor(I, ty, args, ptys):
    best = None
    for k, fn in I.prog.fns.items():
        d = fn.d
        if not d.get('ctor') or len(d['p']) != len(args):
            continue
        rt = fn.tu.ty(d['rec'])
        if rt.id != ty.id:
            continue
        score = 0
        for p, pt in zip(d['p'], ptys):
            t = fn.tu.ty(p['t'])
            t = t.e if t.k == 'ref' else t
            a = pt.e if pt.k == 'ref' else pt
            ts, as_ = t.s.replace('const ', ''), a.s.replace('const ', '')
            if ts == as_:
                score += 4
            elif t.isint and a.isint:
                score += 2
            elif t.k == 'rec' and a.k == 'rec':
                if t.n == a.n:
                    score += 2
                elif a.id and any(b.id == t.id for b in I.prog.bases(a)):
                    score += 2
                elif t.n in ('std::shared_ptr',) and a.n in SP:
                    score += 1
                elif t.n == 'std::optional':
                    score += 1
                elif any(True for _ in ()):
                    pass
                else:
                    score = score
                    if find_conv(I, t, a):
                        score += 1
                    else:
                        score = None
                        break
            elif t.k == 'rec' and a.k in ('nullptr', 'arr', 'ptr', 'int'):
                score += 1
            elif t.k == a.k:
                score += 1
            else:
                score = None
                break
        if score is None:
            continue
        if best is None or score > best[0]:
            best = (score, fn)
    return best[1] if best else None


def find_conv(I, t, a):
    for k, fn in I.prog.fns.items():
        d = fn.d
        if d.get('ctor') and len(d['p']) == 1 and fn.tu.ty(d['rec']).id == t.id:
            p = fn.tu.ty(d['p'][0]['t'])
            p = p.e if p.k == 'ref' else p
            if p.s.replace('const ', '') == a.s.replace('const ', ''):
                return fn
    return None


def std_ctor(I, st, t, f, args, tu, e):
    ptys = [tu.ty(p) for p in f['p']]
    if not args and t.k == 'rec' and not t.n.startswith('std::') and not I.prog.allfields(t):
        return I.zero(t)      # implicit constructor of a class without members
    return std_construct(I, st, t, args, ptys[:len(args)])


def std_construct(I, st, t, args, ptys):
    n = t.n
    # drop allocator arguments
    keep = [(a, p) for a, p in zip(args, ptys) if not ((p.e if p.k == 'ref' else p).k == 'rec' and 'allocator' in (p.e if p.k == 'ref' else p).n)]
    args, ptys = [a for a, _ in keep], [p for _, p in keep]
    pe = [p.e if p.k == 'ref' else p for p in ptys]
    if n in VEC:
        ety = I.elem(t) if n != 'std::array' else t.arg(0)
        if not args:
            return I.zero(t)
        if n in ('std::basic_string', 'std::basic_string_view'):
            if len(args) == 1:
                if pe[0].k == 'rec' and pe[0].n == 'std::initializer_list':
                    return Seq(t, val(I, st, args[0], ptys[0]).ch)
                return Seq(t, string_arg(I, st, args[0], ptys[0]))
            if len(args) == 2 and pe[0].k == 'ptr' and pe[1].isint:
                c, i = container_lv(args[0])
                v = I.read(st, c)
                return Seq(t, I.slice(st, v, i, add64(i, args[1])))
            if len(args) == 2 and pe[0].isint and pe[1].isint:
                return Seq(t, repeat(I, val(I, st, args[1], ptys[1]), args[0]))
            if len(args) == 3 and pe[0].k == 'rec' and pe[0].n in VEC:
                v = val(I, st, args[0], ptys[0])
                return substr(I, st, v, args[1], args[2], t)
        if len(args) == 1:
            if pe[0].k == 'rec' and pe[0].n in VEC:
                return Seq(t, val(I, st, args[0], ptys[0]).ch)
            if pe[0].isint:
                k = cast_int(val(I, st, args[0], ptys[0]), pe[0].width, pe[0].sg, 64)
                I.alloc_check(st, k)
                return Seq(t, repeat(I, default_value(I, st, ety), k))
        if len(args) == 2 and pe[0].isint and pe[0].k != 'ptr':
            k = cast_int(val(I, st, args[0], ptys[0]), pe[0].width, pe[0].sg, 64)
            return Seq(t, repeat(I, val(I, st, args[1], ptys[1]), k))
        if len(args) == 2:
            a, b = val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1])
            ch, src = range_chunks(I, st, a, b)
            return Seq(t, conv_chunks(I, st, ch, src, ety))
        raise Unsupported('constructor of %s with %d args' % (t.s, len(args)))
    if n == 'std::optional':
        if not args or pe[0].k == 'rec' and pe[0].n == 'std::nullopt_t':
            return Opt(t, False, None)
        vt = t.arg(0)
        if pe[0].k == 'rec' and pe[0].n == 'std::optional':
            o = val(I, st, args[0], ptys[0])
            if isinstance(o, Opt):
                return Opt(t, o.has, o.v)
            return o
        if pe[0].k == 'rec' and pe[0].n == 'std::in_place_t':
            return Opt(t, True, make(I, st, vt, args[1:], ptys[1:]))
        return Opt(t, True, make(I, st, vt, args, ptys))
    if n in SP:
        if not args or pe[0].k == 'nullptr':
            return NULL
        v = val(I, st, args[0], ptys[0])
        return v
    if n == 'std::pair':
        if not args:
            return I.zero(t)
        if len(args) == 1:
            v = val(I, st, args[0], ptys[0])
            return Rec(t, dict(v.f))
        if pe[0].k == 'rec' and pe[0].n == 'std::piecewise_construct_t':
            raise Unsupported('piecewise pair')
        return Rec(t, {'first': make(I, st, t.arg(0), [args[0]], [ptys[0]]), 'second': make(I, st, t.arg(1), [args[1]], [ptys[1]])})
    if n == 'std::tuple':
        if not args:
            return I.zero(t)
        if len(args) == 1 and pe[0].k == 'rec' and pe[0].n == 'std::tuple':
            return Rec(t, dict(val(I, st, args[0], ptys[0]).f))
        r = {}
        for i, (a, p) in enumerate(zip(args, ptys)):
            tt = t.args[i]['T']
            r[str(i)] = a if tt.k == 'ref' else make(I, st, tt, [a], [p])
        return Rec(t, r)
    if n == 'std::function':
        if not args:
            return NULL
        return rd(I, st, args[0]) if ptys[0].k == 'ref' else args[0]
    if n == 'std::reverse_iterator':
        v = val(I, st, args[0], ptys[0])
        if isinstance(v, Iter) and v.rev:
            return v
        c, i = container_lv(v)
        return Iter(c, i, True)
    if n in ('__gnu_cxx::__normal_iterator', 'std::move_iterator'):
        if not args:
            return NULL
        return val(I, st, args[0], ptys[0])
    if n in stdmaps:
        from . import maps
        return maps.construct(I, st, t, args, ptys)
    if n in ('std::hash', 'std::less', 'std::greater', 'std::equal_to', 'std::allocator', 'std::nullopt_t', 'std::plus'):
        return Opq(t, None)
    if n in ('std::chrono::duration', 'std::chrono::time_point'):
        if not args:
            return Ghost('dur', 0)
        v = val(I, st, args[0], ptys[0])
        if isinstance(v, Ghost):
            return dur_conv(I, v, pe[0], t)
        return Ghost('dur', cast_int(v, pe[0].width, pe[0].sg, 64) if pe[0].isint else v)
    if n in ('std::atomic', 'std::reference_wrapper'):
        if not args:
            return Rec(t, {'v': I.zero(t.arg(0))}) if n == 'std::atomic' else NULL
        if n == 'std::reference_wrapper':
            return args[0]
        return Rec(t, {'v': I.conv(val(I, st, args[0], ptys[0]), pe[0], t.arg(0)) if pe[0].isint else val(I, st, args[0], ptys[0])})
    if n.startswith('std::back_insert_iterator'):
        return Ghost('inserter', ('back', args[0]))
    if n in ('std::exception', 'std::runtime_error', 'std::out_of_range', 'std::logic_error', 'std::invalid_argument', 'std::domain_error', 'std::length_error'):
        return Opq(t, None)
    if n in ('std::unique_lock', 'std::lock_guard', 'std::shared_lock', 'std::shared_mutex', 'std::mutex', 'std::recursive_mutex'):
        return Opq(t, None)
    if n == 'std::bitset':
        w = t.arg(0)
        if not args:
            return Seq(t, [E([False] * w)])
        v = val(I, st, args[0], ptys[0])
        return Seq(t, [E([i2b(arith('&', arith('>>', v, i, pe[0].width, False), 1, pe[0].width, False)) for i in range(w)])])
    raise Unsupported('constructor of %s' % t.s)


def default_value(I, st, ety):
    if ety.k == 'rec' and not ety.n.startswith('std::') and I.prog.rec(ety) is not None:
        c = find_ctor(I, ety, [], [])
        if c is not None and not (c.d.get('deflt') and not c.d.get('inits')):
            obj = I.new(st, ety, I.zero(ety), 'obj')
            I.invoke(st, c, obj, [])
            return I.read(st, obj)
        return default_obj(I, st, ety)
    return I.zero(ety)


def conv_chunks(I, st, ch, src, ety):
    """element conversion when copying a range into a container of another integer type"""
    if src is None or src.ty is None:
        return ch
    sty = I.elem(src.ty)
    if sty.isint and ety.isint and sty.width != ety.width:
        out = []
        for c in ch:
            if isinstance(c, E):
                out.append(E([I.conv(x, sty, ety) for x in c.vals]))
            else:
                n = chunk_len(c)
                out.append(S(Base('cv', lambda i, c=c: I.conv(I.cget(None, (c,), i, sty), sty, ety)), 0, n))
        return out
    if sty.k == 'rec' and ety.k == 'rec' and sty.id != ety.id and sty.n not in SP and sty.n != ety.n:
        fn = find_conv(I, ety, sty)
        cc = Seq(src.ty, ch).conc()
        if fn is not None and cc is not None:
            return [E([make(I, st, ety, [x], [sty]) for x in cc])]
        if fn is not None:
            return map_chunks(I, st, src.ty, ch, lambda s, lv: make(I, s, ety, [lv], [reft(sty)]), ety)
    return ch


class reft:
    def __init__(self, e):
        self.k, self.e, self.s = 'ref', e, e.s + ' &'
        self.isint = False


def substr(I, st, v, pos, n, t):
    I.throw_if(st, cmp('>', pos, v.len, 64, False), Exc('std::out_of_range'))
    rest = sub64(v.len, pos)
    if is_c(n) and n == mask(64):
        end = v.len
    else:
        end = lit_s(Ite(cmp('<', n, rest, 64, False), add64(pos, n), v.len, 64))
        if not is_c(end):
            d = I.decide(st, cmp('<=', n, rest, 64, False))
            if d is True:
                end = add64(pos, n)
            elif d is False:
                end = v.len
    return Seq(t, I.slice(st, v, pos, end))


# ---------------------------------------------------------------------------------------------- calls

def std_call(I, st, f, this, args, ci):
    nn = f['nn']
    tu = ci.tu
    e = ci.e
    rec = tu.ty(f['rec']) if 'rec' in f else None
    m = nn.split('::')[-1]
    # names like "operator<" get cut by split on '<'; recover
    if 'operator' in nn:
        m = nn[nn.rindex('operator'):]
    ptys = [tu.ty(p) for p in f['p']]
    if rec is not None:
        rn = rec.n
        if rn in VEC:
            return seq_method(I, st, rec, m, this, args, ptys, ci)
        if rn in ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::move_iterator'):
            return iter_method(I, st, rec, m, this, args, ptys, ci)
        if rn in SP or rn.startswith('std::__shared_ptr') or rn.startswith('std::__uniq_ptr'):
            return ptr_method(I, st, rec, m, this, args, ptys, ci)
        if rn == 'std::optional' or rn.startswith('std::_Optional'):
            return opt_method(I, st, rec, m, this, args, ptys, ci)
        if rn in ('std::pair', 'std::tuple'):
            if m == 'operator=':
                v = val(I, st, args[0], ptys[0])
                cur = I.read(st, this)
                for k in cur.f:
                    if isinstance(cur.f[k], LV) and isinstance(v, Rec) and not isinstance(v.f.get(k), LV):
                        I.write(st, cur.f[k], v.f[k])     # std::tie
                    elif isinstance(cur.f[k], LV) and rec.args and int(k) < len(rec.args) and rec.args[int(k)].get('T') is not None and rec.args[int(k)]['T'].k == 'ref':
                        I.write(st, cur.f[k], v.f[k])
                    else:
                        I.write(st, this.field(k), v.f[k])
                return this
            if m == 'swap':
                raise Unsupported('pair swap')
        if rn in stdmaps or rn.startswith('std::__detail::_Node') or rn.startswith('std::_Rb_tree') or rn.startswith('std::__detail'):
            from . import maps
            return maps.method(I, st, rec, m, this, args, ptys, ci)
        if rn == 'std::function':
            if m == 'operator()':
                fv = I.read(st, this)
                return I.callv(st, fv, args)
            if m.startswith('operator bool'):
                return I.tobool(I.read(st, this))
            if m == 'operator=':
                I.write(st, this, rd(I, st, args[0]))
                return this
        if rn.startswith('std::atomic') or rn.startswith('std::__atomic'):
            lv = this.field('v')
            if m in ('load',) or m.startswith('operator ') and '=' not in m or m.startswith('operator bool') or m.startswith('operator unsigned') or m.startswith('operator long'):
                return I.read(st, lv)
            if m in ('store', 'operator='):
                I.write(st, lv, val(I, st, args[0], ptys[0]))
                return val(I, st, args[0], ptys[0])
            if m == 'exchange':
                old = I.read(st, lv)
                I.write(st, lv, val(I, st, args[0], ptys[0]))
                return old
        if rn in ('std::unique_lock', 'std::lock_guard', 'std::shared_lock', 'std::shared_mutex', 'std::mutex', 'std::recursive_mutex'):
            rt = ci.rt
            return None if rt.k == 'void' else I.zero(rt) if rt.k != 'bool' else True
        if rn == 'std::bitset':
            s = I.read(st, this)
            if m in ('test', 'operator[]') and is_c(args[0]):
                return I.sget(st, s, args[0])
            if m == 'to_ulong' or m == 'to_ullong':
                r = 0
                for i, b in enumerate(s.conc()):
                    r = arith('|', r, arith('<<', b2i(b, 64), i, 64, False), 64, False)
                return r
            if m == 'set':
                if not args:
                    I.write(st, this, Seq(s.ty, [E([True] * len(s.conc()))]))
                else:
                    I.write(st, this.idx(args[0]), args[1] if len(args) > 1 else True)
                return this
        if rn in ('std::less', 'std::greater', 'std::equal_to', 'std::plus', 'std::hash'):
            if m == 'operator()':
                a = [rd(I, st, x) for x in args]
                if rn == 'std::less':
                    return less(I, st, args[0], args[1], ptys[0])
                if rn == 'std::greater':
                    return less(I, st, args[1], args[0], ptys[0])
                if rn == 'std::equal_to':
                    return user_eq(I, st, args[0], args[1])
        if rn in ('std::chrono::duration', 'std::chrono::time_point'):
            return chrono_method(I, st, rec, m, this, args, ptys, ci)
        if rn in ('std::back_insert_iterator', 'std::insert_iterator'):
            if m == 'operator++':
                return I.read(st, this) if args else this
            if m == 'operator*':
                return this
            if m == 'operator=':
                d = I.read(st, this)
                if not (isinstance(d, Ghost) and d.kind == 'inserter' and d.d[0] in ('back', 'back_inserter')):
                    return NotImplemented
                if len(args) != 1:
                    return NotImplemented
                out_write(I, st, this, val(I, st, args[0], ptys[0]))
                return this
            return NotImplemented
        if rn in ('std::numeric_limits',):
            t = rec.arg(0)
            if m == 'max':
                return mask(t.width) >> (1 if t.sg else 0)
            if m in ('min', 'lowest'):
                return (1 << (t.width - 1)) if t.sg else 0
        if rn == 'std::reference_wrapper':
            return I.read(st, this)
        if rn == 'std::exception' or rn.endswith('_error'):
            return I.new(st, ci.rt.e if ci.rt.k == 'ptr' else ci.rt, Seq(None, []), 'what')
        return NotImplemented
    return free_call(I, st, nn, m, args, ptys, ci)


def throw_oor(I, st, c):
    I.throw_if(st, c, Exc('std::out_of_range'))


def seq_method(I, st, rec, m, this, args, ptys, ci):
    s = I.read(st, this)
    if isinstance(s, Choice):
        return I.branch(st, s.c, lambda x: _redo(I, x, this, s.a, rec, m, args, ptys, ci), lambda x: _redo(I, x, this, s.b, rec, m, args, ptys, ci))
    if not isinstance(s, Seq):
        raise Unsupported('%s on %s' % (m, short(s)))
    pe = [p.e if p.k == 'ref' else p for p in ptys]
    ety = rec.arg(0)
    loc = ci.e.get('l', 0)

    def A(i):
        return val(I, st, args[i], ptys[i])
    if m in ('size', 'length'):
        return s.len
    if m == 'empty':
        return cmp('==', s.len, 0, 64, False)
    if m in ('max_size', 'capacity'):
        return s.len
    if m == 'operator[]':
        i = A(0)
        I.safe(st, 'index-in-bounds', cmp('<', i, s.len, 64, False), loc)
        return this.idx(i)
    if m == 'at':
        i = A(0)
        throw_oor(I, st, cmp('>=', i, s.len, 64, False))
        return this.idx(i)
    if m == 'front':
        I.safe(st, 'nonempty', cmp('!=', s.len, 0, 64, False), loc)
        return this.idx(0)
    if m == 'back':
        I.safe(st, 'nonempty', cmp('!=', s.len, 0, 64, False), loc)
        return this.idx(sub64(s.len, 1))
    if m in ('data', 'begin', 'cbegin', 'c_str'):
        return this.idx(0)
    if m in ('end', 'cend'):
        return this.idx(s.len)
    if m in ('rbegin', 'crbegin'):
        return Iter(this, s.len, True)
    if m in ('rend', 'crend'):
        return Iter(this, 0, True)
    if m in ('push_back', 'push', 'append', 'operator+=') and len(args) == 1 and rec.n != 'std::basic_string':
        I.write(st, this, Seq(s.ty, tuple(s.ch) + (E([A(0)]),)))
        return this if m == 'operator+=' else None
    if rec.n == 'std::basic_string' and m in ('append', 'operator+=', 'push_back'):
        if len(args) == 1:
            if pe[0].k == 'rec' and pe[0].n == 'std::initializer_list':
                ch = list(A(0).ch)
            else:
                ch = string_arg(I, st, args[0], ptys[0])
        elif len(args) == 2 and pe[0].k == 'ptr' and pe[1].isint:
            c, i = container_lv(args[0])
            ch = I.slice(st, I.read(st, c), i, add64(i, args[1]))
        elif len(args) == 2 and pe[0].isint:
            ch = repeat(I, A(1), A(0))
        elif len(args) == 2:
            ch, _ = range_chunks(I, st, A(0), A(1))
        else:
            raise Unsupported('string::append')
        I.write(st, this, Seq(s.ty, tuple(s.ch) + tuple(ch)))
        return this
    if m in ('emplace_back', 'emplace'):
        if m == 'emplace' and rec.n != 'std::queue':
            raise Unsupported('vector::emplace')
        v = make(I, st, ety, args, ptys)
        s = I.read(st, this)
        n = s.len
        I.write(st, this, Seq(s.ty, tuple(s.ch) + (E([v]),)))
        return this.idx(n)
    if m == 'push_front':
        I.write(st, this, Seq(s.ty, (E([A(0)]),) + tuple(s.ch)))
        return None
    if m == 'pop_back':
        I.safe(st, 'nonempty', cmp('!=', s.len, 0, 64, False), loc)
        I.write(st, this, Seq(s.ty, I.slice(st, s, 0, sub64(s.len, 1))))
        return None
    if m in ('pop_front', 'pop'):
        I.safe(st, 'nonempty', cmp('!=', s.len, 0, 64, False), loc)
        I.write(st, this, Seq(s.ty, I.slice(st, s, 1, s.len)))
        return None
    if m == 'clear':
        I.write(st, this, Seq(s.ty))
        return None
    if m in ('reserve', 'shrink_to_fit'):
        return None
    if m == 'resize':
        n = A(0)
        fill = A(1) if len(args) > 1 else default_value(I, st, ety)
        I.alloc_check(st, n)
        c = cmp('<=', n, s.len, 64, False)
        d = I.decide(st, c)
        if d is True:
            r = Seq(s.ty, I.slice(st, s, 0, n))
        elif d is False:
            r = Seq(s.ty, list(s.ch) + repeat(I, fill, sub64(n, s.len)))
        else:
            s2 = st.copy()
            r = I.mseq(lit_s(c), Seq(s.ty, I.slice_generic(s, 0, n)), Seq(s.ty, list(s.ch) + repeat(I, fill, sub64(n, s.len))))
        I.write(st, this, r)
        return None
    if m == 'swap':
        o = I.read(st, args[0])
        I.write(st, args[0], s)
        I.write(st, this, o)
        return None
    if m in ('assign',):
        if pe[0].isint:
            r = repeat(I, A(1), A(0))
        elif len(args) == 1:
            r = A(0).ch if pe[0].k == 'rec' else string_arg(I, st, args[0], ptys[0])
        else:
            r, src = range_chunks(I, st, A(0), A(1))
            r = conv_chunks(I, st, r, src, ety)
        I.write(st, this, Seq(s.ty, r))
        return this
    if m == 'operator=':
        if pe[0].k == 'rec' and pe[0].n in VEC:
            I.write(st, this, Seq(s.ty, A(0).ch))
        else:
            I.write(st, this, Seq(s.ty, string_arg(I, st, args[0], ptys[0])))
        return this
    if m == 'fill':
        n = s.len
        I.write(st, this, Seq(s.ty, repeat(I, A(0), n)))
        return None
    if m == 'insert':
        if pe[0].k == 'rec':
            _, pos = container_lv(A(0))
        elif pe[0].isint:
            pos = A(0)
        else:
            raise Unsupported('insert position')
        if len(args) == 2:
            if pe[1].k == 'rec' and pe[1].n == 'std::initializer_list':
                mid = list(A(1).ch)
            elif rec.n == 'std::basic_string' and pe[0].isint:
                mid = string_arg(I, st, args[1], ptys[1])
            else:
                mid = [E([A(1)])]
        elif pe[1].isint:
            mid = repeat(I, A(2), A(1))
        else:
            mid, src = range_chunks(I, st, A(1), A(2))
            mid = conv_chunks(I, st, mid, src, ety)
        if same_idx(pos, s.len):
            r = list(s.ch) + list(mid)
        else:
            r = list(I.slice(st, s, 0, pos)) + list(mid) + list(I.slice(st, s, pos, s.len))
        I.write(st, this, Seq(s.ty, r))
        return this.idx(pos) if not pe[0].isint else this
    if m == 'erase':
        if pe and pe[0].isint:
            pos = A(0)
            n = A(1) if len(args) > 1 else mask(64)
            end = s.len if is_c(n) and n == mask(64) else add64(pos, n)
            r = list(I.slice(st, s, 0, pos)) + list(I.slice(st, s, end, s.len))
            I.write(st, this, Seq(s.ty, r))
            return this
        _, a = container_lv(A(0))
        if len(args) == 1:
            b = add64(a, 1)
            I.safe(st, 'erase-in-bounds', cmp('<', a, s.len, 64, False), loc)
        else:
            _, b = container_lv(A(1))
        r = list(I.slice(st, s, 0, a)) + list(I.slice(st, s, b, s.len))
        I.write(st, this, Seq(s.ty, r))
        return this.idx(a)
    if m == 'substr':
        return substr(I, st, s, A(0), A(1) if len(args) > 1 else mask(64), s.ty)
    if m == 'compare':
        raise Unsupported('string::compare')
    if m in ('find', 'find_first_of', 'find_first_not_of', 'rfind', 'find_last_of', 'find_last_not_of'):
        return str_find(I, st, s, m, args, ptys)
    if m == 'swap':
        pass
    return NotImplemented


def _redo(I, st, this, v, rec, m, args, ptys, ci):
    I.write(st, this, v)
    return seq_method(I, st, rec, m, this, args, ptys, ci)


def str_find(I, st, s, m, args, ptys):
    ch = string_arg(I, st, args[0], ptys[0])
    pat = Seq(s.ty, ch).conc()
    pos = args[1] if len(args) > 1 else (0 if 'r' != m[0] and 'last' not in m else mask(64))
    if pat is None:
        raise Unsupported('find with symbolic pattern')
    cs = s.conc()
    NPOS = mask(64)

    def at(i):
        return cs[i] if cs is not None else I.sget(st, s, i)

    def match(i):
        if m in ('find', 'rfind'):
            return And(*[I.beq(at(add64(i, j)), p) for j, p in enumerate(pat)])
        anyc = Or(*[I.beq(at(i), p) for p in pat])
        return Not(anyc) if 'not_of' in m else anyc
    k = len(pat) if m in ('find', 'rfind') else 1
    if cs is not None and is_c(pos):
        n = len(cs)
        idxs = [i for i in range(n - k + 1)]
        if m[0] == 'r' or 'last' in m:
            idxs = [i for i in idxs if i <= pos]
            r = NPOS
            for i in idxs:
                r = Ite(match(i), i, r, 64)
            return lit_s(r)
        r = NPOS
        for i in reversed([i for i in idxs if i >= pos]):
            r = Ite(match(i), i, r, 64)
        return lit_s(r)
    if m[0] == 'r' or 'last' in m:
        raise Unsupported('rfind symbolic')
    # symbolic: first match position
    p = I.fresh('find', 64)
    if not I.kks:
        I.skolems.append(p)
    n = s.len
    found = I.fresh('found', 1)
    lastp = sub64(n, k)
    st.pc.append(z3.Implies(found, z3.And(bl(cmp('<=', pos, p, 64, False)), bl(cmp('<', p, n, 64, False)), bl(cmp('<=', k, sub64(n, p), 64, False)), bl(match(p)))))
    st.pc.append(z3.Implies(z3.Not(found), p == NPOS))
    st.pc.append(Univ(pos, Ite(found, p, n, 64), lambda i: [Implies(cmp('<=', k, sub64(n, i), 64, False), Not(match(i)))]))
    return p


def iter_deref(I, st, it):
    if isinstance(it, Choice):
        return Choice(it.c, iter_deref(I, st, it.a), iter_deref(I, st, it.b))
    if isinstance(it, LV):
        I.safe_ptr(st, it, 0)
        return it
    if isinstance(it, Iter):
        if it.rev:
            return it.lv.idx(sub64(it.i, 1))
        return it.lv.idx(it.i)
    if isinstance(it, MapIt):
        return it.deref(I, st)
    raise Unsupported('deref %s' % short(it))


def iter_method(I, st, rec, m, this, args, ptys, ci):
    it = I.read(st, this)
    if m in ('operator*', 'operator->'):
        return iter_deref(I, st, it)
    if m in ('operator++', 'operator--'):
        new = I.ptr_add(st, it, 1 if m == 'operator++' else mask(64), 0)
        I.write(st, this, new)
        return it if args else this
    if m in ('operator+', 'operator-', 'operator+=', 'operator-='):
        d = val(I, st, args[0], ptys[0])
        if '-' in m:
            d = arith('-', 0, d, 64, False)
        r = I.ptr_add(st, it, d, 0)
        if '=' in m:
            I.write(st, this, r)
            return this
        return r
    if m == 'operator[]':
        return iter_deref(I, st, I.ptr_add(st, it, val(I, st, args[0], ptys[0]), 0))
    if m == 'base':
        if isinstance(it, Iter):
            return it.lv.idx(it.i)
        return it
    if m == 'operator=':
        I.write(st, this, rd(I, st, args[0]) if ptys[0].k == 'ref' else args[0])
        return this
    return NotImplemented


def ptr_method(I, st, rec, m, this, args, ptys, ci):
    p = I.read(st, this)
    if m in ('operator->', 'operator*', 'get', 'lock'):
        if m in ('operator->', 'operator*') and I.check_safety:
            n = I.veq(st, p, NULL)
            I.safe(st, 'null-deref', Not(n), ci.e.get('l', 0))
        if isinstance(p, Null) and m == 'operator*':
            raise Dead()
        return p
    if m.startswith('operator bool'):
        return Not(isnull(p))
    if m == 'operator=':
        if not args or ptys[0].k == 'nullptr':
            I.write(st, this, NULL)
        else:
            I.write(st, this, val(I, st, args[0], ptys[0]))
        return this
    if m == 'reset':
        I.write(st, this, args[0] if args else NULL)
        return None
    if m == 'release':
        I.write(st, this, NULL)
        return p
    if m == 'swap':
        q = I.read(st, args[0])
        I.write(st, args[0], p)
        I.write(st, this, q)
        return None
    if m in ('use_count',):
        return I.fresh('usecount', 64)
    return NotImplemented


def isnull(p):
    if isinstance(p, Choice):
        return Ite(p.c, isnull(p.a), isnull(p.b))
    return isinstance(p, Null)


def opt_method(I, st, rec, m, this, args, ptys, ci):
    o = I.read(st, this)
    if isinstance(o, Choice):
        raise Unsupported('optional choice')
    if m in ('has_value',) or m.startswith('operator bool'):
        return o.has
    if m == 'value':
        I.throw_if(st, Not(o.has), Exc('std::bad_optional_access'))
        if o.v is None:
            raise Dead()
        return LV(this.root, this.path + (('o',),))
    if m in ('operator*', 'operator->'):
        I.safe(st, 'optional-engaged', o.has, ci.e.get('l', 0))
        if o.v is None:
            raise Dead()
        return LV(this.root, this.path + (('o',),))
    if m == 'value_or':
        t = rec.arg(0)
        d = make(I, st, t, [args[0]], [ptys[0]])
        if o.v is None:
            return d
        return I.mval(o.has, o.v, d, t)
    if m == 'reset':
        I.write(st, this, Opt(o.ty, False, o.v))
        return None
    if m == 'emplace':
        t = rec.arg(0)
        I.write(st, this, Opt(o.ty, True, make(I, st, t, args, ptys)))
        return LV(this.root, this.path + (('o',),))
    if m == 'operator=':
        pe = ptys[0].e if ptys[0].k == 'ref' else ptys[0]
        if pe.k == 'rec' and pe.n == 'std::nullopt_t':
            I.write(st, this, Opt(o.ty, False, o.v))
        elif pe.k == 'rec' and pe.n == 'std::optional':
            x = val(I, st, args[0], ptys[0])
            I.write(st, this, Opt(o.ty, x.has, x.v))
        else:
            I.write(st, this, Opt(o.ty, True, make(I, st, rec.arg(0) if rec.n == 'std::optional' else pe, [args[0]], [ptys[0]])))
        return this
    return NotImplemented


# ---------------------------------------------------------------------------------------------- comparison

def user_eq(I, st, a, b):
    """a == b using the user-provided operator== where there is one"""
    va = rd(I, st, a)
    vb = rd(I, st, b)
    if isinstance(va, Rec) and va.ty is not None and hasattr(va.ty, 'id'):
        for t in [va.ty] + I.prog.bases(va.ty):
            fns = I.prog.byname.get(t.n + '::operator==', [])
            for fn in fns:
                if len(fn.d['p']) == 1 and fn.tu.ty(fn.d['rec']).id == t.id:
                    la = a if isinstance(a, LV) else I.new(st, va.ty, va, 'tmp')
                    lb = b if isinstance(b, LV) else I.new(st, va.ty, vb, 'tmp')
                    pt = fn.tu.ty(fn.d['p'][0]['t'])
                    pt = pt.e if pt.k == 'ref' else pt
                    if pt.id != t.id:
                        continue
                    return I.invoke(st, fn, la, [lb])
    if isinstance(va, Seq) and isinstance(vb, Seq):
        ca, cb = va.conc(), vb.conc()
        ety = I.elem(va.ty)
        if ety.k == 'rec' and not ety.n.startswith('std::'):
            if ca is not None and cb is not None:
                if len(ca) != len(cb):
                    return False
                return And(*[user_eq(I, st, x, y) for x, y in zip(ca, cb)])
    return I.veq(st, va, vb)


def user_less(I, st, a, b):
    va, vb = rd(I, st, a), rd(I, st, b)
    if isinstance(va, Rec) and hasattr(va.ty, 'id'):
        for t in [va.ty] + I.prog.bases(va.ty):
            for fn in I.prog.byname.get(t.n + '::operator<', []):
                if len(fn.d['p']) == 1 and fn.tu.ty(fn.d['rec']).id == t.id:
                    la = a if isinstance(a, LV) else I.new(st, va.ty, va, 'tmp')
                    lb = b if isinstance(b, LV) else I.new(st, va.ty, vb, 'tmp')
                    return I.invoke(st, fn, la, [lb])
        for fn in I.prog.byname.get('operator<', []):
            pt = fn.tu.ty(fn.d['p'][0]['t'])
            pt = pt.e if pt.k == 'ref' else pt
            if pt.id == va.ty.id:
                la = a if isinstance(a, LV) else I.new(st, va.ty, va, 'tmp')
                lb = b if isinstance(b, LV) else I.new(st, va.ty, vb, 'tmp')
                return I.invoke(st, fn, None, [la, lb])
        if va.ty.n in ('std::pair', 'std::tuple'):
            ks = list(va.f)
            r = False
            for k in reversed(ks):
                lt = user_less(I, st, va.f[k], vb.f[k])
                eq = Not(Or(lt, user_less(I, st, vb.f[k], va.f[k])))
                r = Or(lt, And(eq, r))
            return r
    if isinstance(va, Seq):
        ca, cb = va.conc(), vb.conc()
        if ca is None or cb is None:
            raise Unsupported('lexicographic comparison of symbolic sequences')
        ety = I.elem(va.ty)
        r = len(ca) < len(cb)
        for x, y in reversed(list(zip(ca, cb))):
            if ety.isint:
                lt = cmp('<', x, y, ety.width, ety.sg)
                eq = cmp('==', x, y, ety.width, False)
            else:
                lt = user_less(I, st, x, y)
                eq = Not(Or(lt, user_less(I, st, y, x)))
            r = Or(lt, And(eq, r))
        return r
    if isinstance(va, Val):
        raise Unsupported('operator< on %s' % short(va))
    w = va.size() if not is_c(va) else vb.size() if not is_c(vb) else 64
    return cmp('<', va, vb, w, False)


def less(I, st, a, b, pty):
    t = pty.e if pty.k == 'ref' else pty
    if t.isint:
        return cmp('<', rd(I, st, a), rd(I, st, b), t.width, t.sg)
    return user_less(I, st, a, b)


# ---------------------------------------------------------------------------------------------- free functions

def free_call(I, st, nn, m, args, ptys, ci):
    f = ci.f
    pe = [p.e if p.k == 'ref' else p for p in ptys]
    loc = ci.e.get('l', 0)

    def A(i):
        return val(I, st, args[i], ptys[i])
    ns = nn[:-len(m)] if nn.endswith(m) else ''
    if ns in ('std::', '__gnu_cxx::', 'std::__detail::', 'std::chrono::', 'std::rel_ops::', 'std::filesystem::', 'std::__debug::'):
        if m in ('operator==', 'operator!='):
            r = std_eq(I, st, args, ptys, pe)
            return r if m == 'operator==' else Not(r)
        if m in ('operator<', 'operator>', 'operator<=', 'operator>='):
            if m == 'operator<':
                return std_less(I, st, args[0], args[1], ptys[0], ptys[1])
            if m == 'operator>':
                return std_less(I, st, args[1], args[0], ptys[1], ptys[0])
            if m == 'operator<=':
                return Not(std_less(I, st, args[1], args[0], ptys[1], ptys[0]))
            return Not(std_less(I, st, args[0], args[1], ptys[0], ptys[1]))
        if m in ('operator-', 'operator+'):
            if pe[0].k == 'rec' and 'iterator' in pe[0].n:
                a = A(0)
                if pe[1].k == 'rec':
                    return I.ptr_diff(st, a, A(1))
                d = A(1)
                return I.ptr_add(st, a, d if m == 'operator+' else arith('-', 0, d, 64, False), loc)
            if pe[1].k == 'rec' and 'iterator' in pe[1].n:
                return I.ptr_add(st, A(1), A(0), loc)
            if m == 'operator+' and any(p.k == 'rec' and p.n == 'std::basic_string' for p in pe):
                return Seq(ci.rt, string_arg(I, st, args[0], ptys[0]) + string_arg(I, st, args[1], ptys[1]))
            if pe[0].k == 'rec' and pe[0].n.startswith('std::chrono'):
                return chrono_op(I, st, m, A(0), A(1), pe[0], pe[1], ci.rt)
    if m in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof', 'static_pointer_cast', 'const_pointer_cast', 'dynamic_pointer_cast', '__addressof', 'move_if_noexcept', 'make_move_iterator', 'forward_as_tuple', 'launder') and ns == 'std::':
        if m == 'forward_as_tuple':
            raise Unsupported('forward_as_tuple')
        if len(args) == 3:
            return algo_copy(I, st, args, ptys, ci)
        if m.endswith('pointer_cast'):
            p = A(0)
            if m == 'dynamic_pointer_cast':
                return I.dyn_pointer(st, p, ci.rt)
            return p
        return args[0]
    if m in ('make_shared', 'make_unique') and ns == 'std::':
        T = I.ty_of_ta(ci, 0)
        v = make(I, st, T, args, ptys)
        return I.new(st, T, v, 'heap')
    if m == 'make_pair' or m == 'make_tuple' and ns == 'std::':
        rt = ci.rt
        return std_construct(I, st, rt, args, ptys)
    if m == 'tie' and ns == 'std::':
        rt = ci.rt
        return Rec(rt, {str(i): a for i, a in enumerate(args)})
    if m == 'make_optional':
        rt = ci.rt
        return Opt(rt, True, make(I, st, rt.arg(0), args, ptys))
    if m == 'get' and ns == 'std::':
        i = int(f['ta'][0]['i']) if 'i' in f['ta'][0] else None
        base = args[0]
        v = I.read(st, base)
        if i is None:
            raise Unsupported('std::get<T>')
        if v.ty.n == 'std::pair':
            return base.field('first' if i == 0 else 'second')
        if v.ty.n == 'std::array':
            return base.idx(i)
        x = v.f[str(i)]
        if v.ty.args[i]['T'].k == 'ref':
            return x
        return base.field(str(i))
    if m in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'size', 'data', 'empty', 'crbegin', 'crend') and ns == 'std::':
        s = I.read(st, args[0])
        if isinstance(s, Seq):
            if m in ('begin', 'cbegin', 'data'):
                return args[0].idx(0)
            if m in ('end', 'cend'):
                return args[0].idx(s.len)
            if m in ('rbegin', 'crbegin'):
                return Iter(args[0], s.len, True)
            if m in ('rend', 'crend'):
                return Iter(args[0], 0, True)
            if m == 'size':
                return s.len
            return cmp('==', s.len, 0, 64, False)
    if m in ('min', 'max') and ns == 'std::' and len(args) == 2:
        a, b = I.read(st, args[0]), I.read(st, args[1])
        t = pe[0]
        if t.k == 'float':
            raise Unsupported('float min')
        c = cmp('<', b, a, t.width, t.sg) if t.isint else user_less(I, st, args[1], args[0])
        if m == 'max':
            c = cmp('<', a, b, t.width, t.sg) if t.isint else user_less(I, st, args[0], args[1])
        r = I.mval(lit_s(c), b, a, t)
        return I.new(st, t, r, 'tmp')
    if m in ('min', 'max') and ns == 'std::' and len(args) == 1:
        s = A(0).conc()
        t = I.elem(pe[0])
        r = s[0]
        for x in s[1:]:
            r = I.mval(lit_s(cmp('<' if m == 'min' else '>', x, r, t.width, t.sg)), x, r, t)
        return r
    if m == 'clamp' and ns == 'std::':
        v, lo, hi = [I.read(st, a) for a in args[:3]]
        t = pe[0]
        return I.new(st, t, I.mval(lit_s(cmp('<', v, lo, t.width, t.sg)), lo, I.mval(lit_s(cmp('<', hi, v, t.width, t.sg)), hi, v, t), t), 'tmp')
    if m == 'abs' and pe[0].isint:
        v = A(0)
        return Ite(cmp('<', v, 0, pe[0].width, True), arith('-', 0, v, pe[0].width, True), v, pe[0].width)
    if m == 'swap' and ns == 'std::':
        a, b = I.read(st, args[0]), I.read(st, args[1])
        I.write(st, args[0], b)
        I.write(st, args[1], a)
        return None
    if m == 'exchange' and ns == 'std::':
        a = I.read(st, args[0])
        I.write(st, args[0], make(I, st, pe[0], [args[1]], [ptys[1]]))
        return a
    if m in ('memcpy', 'memmove', '__builtin_memcpy'):
        return do_memcpy(I, st, args, ci)
    if m in ('memset', '__builtin_memset'):
        return do_memset(I, st, args, ci)
    if m in ('memcmp',):
        n = args[2]
        if not is_c(n):
            raise Unsupported('memcmp')
        eq = And(*[I.beq(I.read(st, I.ptr_add(st, args[0], i, 0)), I.read(st, I.ptr_add(st, args[1], i, 0))) for i in range(n)])
        lt = False
        for i in reversed(range(n)):
            x, y = I.read(st, I.ptr_add(st, args[0], i, 0)), I.read(st, I.ptr_add(st, args[1], i, 0))
            lt = Or(cmp('<', x, y, 8, False), And(I.beq(x, y), lt))
        return Ite(eq, 0, Ite(lt, mask(32), 1, 32), 32)
    if m in ('distance',) and ns == 'std::':
        return I.ptr_diff(st, A(1), A(0))
    if m in ('next', 'prev') and ns == 'std::':
        d = A(1) if len(args) > 1 else 1
        return I.ptr_add(st, A(0), d if m == 'next' else arith('-', 0, d, 64, False), loc)
    if m == 'advance' and ns == 'std::':
        I.write(st, args[0], I.ptr_add(st, I.read(st, args[0]), cast_int(A(1), pe[1].width, pe[1].sg, 64), loc))
        return None
    if m in ('back_inserter', 'inserter', 'front_inserter') and ns == 'std::':
        return Ghost('inserter', (m, args[0]))
    if m in ('isdigit', 'isalpha', 'isspace', 'isxdigit', 'tolower', 'toupper', 'isalnum') :
        return ctype(I, m, args[0] if ptys[0].k != 'ref' else I.read(st, args[0]), pe[0].width)
    if m in ('__uint16_identity', '__uint32_identity', '__uint64_identity'):
        return A(0)
    if m in ('htonl', 'ntohl', 'htons', 'ntohs', '__bswap_32', '__bswap_64', '__bswap_16', '__builtin_bswap32', '__builtin_bswap64', '__builtin_bswap16'):
        v = A(0)
        w = ci.rt.width
        return concat_le([lit_s(cast_int(arith('>>', v, 8 * i, w, False), w, False, 8)) for i in range(w // 8)][::-1])
    if m in ('__builtin_popcountll', '__builtin_popcount', '__builtin_popcountl'):
        v = A(0)
        r = 0
        w = pe[0].width
        for i in range(w):
            r = arith('+', r, cast_int(arith('&', arith('>>', v, i, w, False), 1, w, False), w, False, 32), 32, False)
        return r
    if m in ('__builtin_clzll', '__builtin_clzl', '__builtin_clz', '__builtin_ctzll', '__builtin_ctzl', '__builtin_ctz'):
        v = A(0)
        w = pe[0].width
        r = w
        rng = range(w) if 'clz' in m else range(w - 1, -1, -1)
        for i in rng:
            bit = i2b(arith('&', arith('>>', v, i, w, False), 1, w, False))
            r = Ite(bit, (w - 1 - i) if 'clz' in m else i, r, 32)
        return r
    if m in ('__builtin_expect',):
        return A(0)
    if m == 'assert' or m == '__assert_fail':
        raise Dead()
    if m in ('pow',) and ns == 'std::' or m == 'pow':
        a, b = [x if not isinstance(x, int) else x for x in (A(0), A(1))]
        return I.pow_model(st, a, b, pe, ci)
    if m in ('to_string',):
        return to_string(I, st, A(0), pe[0], ci.rt)
    if m in ('stoi', 'stoul', 'stoull', 'stol', 'stoll'):
        h = I.models.get('std::' + m)
        if h:
            return h(I, st, None, args, ci)
        raise Unsupported('std::' + m)
    if ns == 'std::' and m in ALGOS:
        return ALGOS[m](I, st, m, args, ptys, pe, ci)
    if m == 'now':
        return Ghost('dur', I.fresh('now', 64))
    if m in ('time_point_cast', 'duration_cast'):
        return dur_conv(I, A(0), pe[0], ci.rt)
    if m == 'to_time_t':
        return A(0).d
    if m == 'operator new':
        raise Unsupported('operator new')
    return NotImplemented


def std_eq(I, st, args, ptys, pe):
    t = pe[0]
    if t.k == 'rec' and 'iterator' in t.n.lower():
        a, b = val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1])
        return iter_eq(I, st, a, b)
    if t.k == 'rec' and t.n in SP or pe[1].k == 'rec' and pe[1].n in SP:
        a = NULL if pe[0].k == 'nullptr' else val(I, st, args[0], ptys[0])
        b = NULL if pe[1].k == 'nullptr' else val(I, st, args[1], ptys[1])
        return I.veq(st, a, b)
    if t.k == 'rec' and t.n == 'std::optional' or pe[1].k == 'rec' and pe[1].n == 'std::optional':
        a, b = val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1])
        if pe[1].k == 'rec' and pe[1].n == 'std::nullopt_t':
            return Not(a.has)
        if pe[0].k == 'rec' and pe[0].n == 'std::nullopt_t':
            return Not(b.has)
        if not isinstance(a, Opt):
            a = Opt(None, True, a)
        if not isinstance(b, Opt):
            b = Opt(None, True, b)
        if a.v is None or b.v is None:
            return And(Not(a.has), Not(b.has))
        return Ite(And(a.has, b.has), user_eq(I, st, a.v, b.v), I.beq(a.has, b.has))
    if t.k == 'rec' and t.n == 'std::function' or pe[1].k == 'nullptr':
        v = val(I, st, args[0], ptys[0])
        return isnull(v)
    if any(p.k == 'rec' and p.n == 'std::basic_string' for p in pe):
        a = Seq(t if t.k == 'rec' else pe[1], string_arg(I, st, args[0], ptys[0]))
        b = Seq(a.ty, string_arg(I, st, args[1], ptys[1]))
        return I.veq(st, a, b)
    if t.k == 'rec' and t.n in ('std::pair', 'std::tuple'):
        a, b = val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1])
        return And(*[user_eq(I, st, a.f[k], b.f[k]) for k in a.f])
    if t.k == 'rec' and t.n.startswith('std::chrono'):
        a, b = chrono_align(I, val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1]), pe[0], pe[1])
        return cmp('==', a, b, 64, True)
    return user_eq(I, st, args[0], args[1])


def iter_eq(I, st, a, b):
    if isinstance(a, Choice) or isinstance(b, Choice):
        if isinstance(a, Choice):
            return Ite(a.c, iter_eq(I, st, a.a, b), iter_eq(I, st, a.b, b))
        return Ite(b.c, iter_eq(I, st, a, b.a), iter_eq(I, st, a, b.b))
    if isinstance(a, MapIt) or isinstance(b, MapIt):
        return a.eq(I, st, b)
    return I.veq(st, a, b)


def std_less(I, st, a, b, pa, pb):
    t = pa.e if pa.k == 'ref' else pa
    if t.k == 'rec' and 'iterator' in t.n:
        x, y = val(I, st, a, pa), val(I, st, b, pb)
        if isinstance(x, Iter) and x.rev:
            return cmp('<', y.i, x.i, 64, False)
        return cmp('<', I.ptr_idx(x), I.ptr_idx(y), 64, False)
    if t.k == 'rec' and t.n.startswith('std::chrono'):
        tb = pb.e if pb.k == 'ref' else pb
        x, y = chrono_align(I, val(I, st, a, pa), val(I, st, b, pb), t, tb)
        return cmp('<', x, y, 64, True)
    return user_less(I, st, a, b)


def ctype(I, m, v, w):
    c = cast_int(v, w, True, 8) if not is_c(v) else v & 0xff
    hi = cmp('<', v, 128, w, False)

    def rng(a, b):
        return And(cmp('>=', c, ord(a), 8, False), cmp('<=', c, ord(b), 8, False))
    if m == 'isdigit':
        return Ite(And(hi, rng('0', '9')), 1, 0, 32)
    if m == 'isalpha':
        return Ite(And(hi, Or(rng('a', 'z'), rng('A', 'Z'))), 1, 0, 32)
    if m == 'isalnum':
        return Ite(And(hi, Or(rng('a', 'z'), rng('A', 'Z'), rng('0', '9'))), 1, 0, 32)
    if m == 'isxdigit':
        return Ite(And(hi, Or(rng('a', 'f'), rng('A', 'F'), rng('0', '9'))), 1, 0, 32)
    if m == 'isspace':
        return Ite(And(hi, Or(cmp('==', c, 32, 8, False), rng('\t', '\r'))), 1, 0, 32)
    if m == 'tolower':
        return Ite(And(hi, rng('A', 'Z')), arith('+', v, 32, w, False), v, w)
    if m == 'toupper':
        return Ite(And(hi, rng('a', 'z')), arith('-', v, 32, w, False), v, w)


def to_string(I, st, v, t, rt):
    if is_c(v):
        s = str(sgn(v, t.w) if t.sg else v)
        return Seq(rt, [E([ord(c) for c in s])])
    h = I.models.get('std::to_string')
    if h:
        return h(I, st, v, t, rt)
    raise Unsupported('to_string')


def do_memcpy(I, st, args, ci):
    dst, src, n = args
    if isinstance(dst, LV) and isinstance(src, LV):
        if not is_c(n):
            dc, di = container_lv(dst)
            sc, si = container_lv(src)
            d, s = I.read(st, dc), I.read(st, sc)
            mid = I.slice(st, s, si, add64(si, n))
            r = list(I.slice(st, d, 0, di)) + list(mid) + list(I.slice(st, d, add64(di, n), d.len))
            I.write(st, dc, Seq(d.ty, r))
            return dst
        # byte granularity
        sb = bytes_at(I, st, src, n)
        put_bytes(I, st, dst, sb)
        return dst
    raise Unsupported('memcpy')


def elem_w(I, st, p):
    """bit width of the object p points to"""
    v = I.read(st, p)
    if isinstance(v, z3.ExprRef):
        return v.size()
    ty = None
    if p.path and p.path[-1][0] == 'i':
        try:
            c = I.read(st, LV(p.root, p.path[:-1]))
            if isinstance(c, Seq) and c.ty is not None:
                return I.elem(c.ty).w
        except Unsupported:
            pass
    if not p.path:
        ty = I.rty.get(p.root)
        if ty is not None and ty.isint:
            return ty.w
    if p.path and p.path[-1][0] == 'b':
        return 8
    if p.path and p.path[-1][0] == 'w':
        return p.path[-1][2]
    if p.path and p.path[-1][0] == 'f':
        o = I.read(st, LV(p.root, p.path[:-1]))
        t = I.ftypes(getattr(o, 'ty', None)).get(p.path[-1][1])
        if t is not None and t.isint:
            return t.w
    raise Unsupported('element width of %r' % p)


def bytes_at(I, st, p, n):
    v = I.read(st, p)
    if isinstance(v, Seq):
        p = p.idx(0)
    w = elem_w(I, st, p)
    if w == 8:
        if I.check_safety:
            I.safe_ptr(st, I.ptr_add(st, p, n - 1, 0), 0) if n else None
        return [I.read(st, I.ptr_add(st, p, i, 0)) for i in range(n)]
    k = w // 8
    out = []
    for i in range((n + k - 1) // k):
        x = I.read(st, I.ptr_add(st, p, i, 0))
        out += [lit_s(cast_int(arith('>>', x, 8 * j, w, False), w, False, 8)) for j in range(k)]
    return out[:n]


def put_bytes(I, st, p, bs):
    v = I.read(st, p)
    if isinstance(v, Seq):
        p = p.idx(0)
    w = elem_w(I, st, p)
    if w == 8:
        if I.check_safety and bs:
            I.safe_ptr(st, I.ptr_add(st, p, len(bs) - 1, 0), 0)
        for i, b in enumerate(bs):
            I.write(st, I.ptr_add(st, p, i, 0), b)
        return
    k = w // 8
    i = 0
    while i * k < len(bs):
        part = bs[i * k:(i + 1) * k]
        q = I.ptr_add(st, p, i, 0)
        if len(part) < k:
            x = I.read(st, q)
            part = part + [lit_s(cast_int(arith('>>', x, 8 * j, w, False), w, False, 8)) for j in range(len(part), k)]
        I.write(st, q, concat_le(part))
        i += 1


def do_memset(I, st, args, ci):
    dst, v, n = args
    if not is_c(n):
        raise Unsupported('memset')
    b = cast_int(v, 32, False, 8)
    put_bytes(I, st, dst, [b] * n)
    return dst


# ---------------------------------------------------------------------------------------------- chrono

def ratio_of(I, t):
    """ticks-per-second numerator/denominator of a duration / time_point type"""
    if t.n == 'std::chrono::time_point':
        t = t.arg(1)
    p = t.arg(1) if len(t.args) > 1 else None
    if p is None or not hasattr(p, 'args') or len(p.args) < 2:
        return (1, 1)
    return (p.arg(0), p.arg(1))      # period = num/den seconds


def dur_conv(I, v, ft, tt):
    fn, fd = ratio_of(I, ft)
    tn, td = ratio_of(I, tt)
    # ticks_t = ticks_f * (fn/fd) / (tn/td)
    num, den = fn * td, fd * tn
    import math
    g = math.gcd(num, den)
    num, den = num // g, den // g
    x = v.d
    x = arith('*', x, num, 64, True)
    if den != 1:
        x = arith('/', x, den, 64, True)
    return Ghost('dur', x)


def chrono_align(I, a, b, ta, tb):
    na, da = ratio_of(I, ta)
    nb, db = ratio_of(I, tb)
    if (na, da) == (nb, db):
        return a.d, b.d
    import math
    # common period: gcd(na/da, nb/db)
    den = da * db // math.gcd(da, db)
    x, y = na * den // da, nb * den // db
    g = math.gcd(x, y)
    return arith('*', a.d, x // g, 64, True), arith('*', b.d, y // g, 64, True)


def chrono_op(I, st, m, a, b, ta, tb, rt):
    if not isinstance(b, Ghost):
        raise Unsupported('chrono op')
    a2, b2 = chrono_align(I, a, b, ta, tb)
    r = arith('+' if m == 'operator+' else '-', a2, b2, 64, True)
    return Ghost('dur', r)


def chrono_method(I, st, rec, m, this, args, ptys, ci):
    v = I.read(st, this) if this is not None else None
    if m == 'count':
        return v.d
    if m == 'time_since_epoch':
        return v
    if m in ('operator+=', 'operator-='):
        b = val(I, st, args[0], ptys[0])
        r = Ghost('dur', arith(m[8], v.d, b.d, 64, True))
        I.write(st, this, r)
        return this
    if m == 'operator=':
        I.write(st, this, val(I, st, args[0], ptys[0]))
        return this
    return NotImplemented


# ---------------------------------------------------------------------------------------------- algorithms

def step_iter(I, st, cell):
    I.write(st, cell, I.ptr_add(st, I.read(st, cell), 1, 0))


def loop_range(I, st, first, last, body, mode=None, key='alg'):
    """for (it = first; it != last; ++it) body(st, deref(it)) ; body returns None or list of Out"""
    it = I.new(st, None, first, 'it')

    def cond(s):
        return Not(iter_eq(I, s, I.read(s, it), last))

    def step(s):
        n0 = len(s.pc)
        r = body(s, iter_deref(I, s, I.read(s, it)))
        if r is None:
            step_iter(I, s, it)
            return s, []
        cont = [o for o in r if o.k in ('normal', 'continue')]
        outs = [o for o in r if o.k not in ('normal', 'continue')]
        if not cont:
            return None, outs
        m = cont[0].st
        if len(cont) > 1:
            m, _ = I.merge(min(n0, I.common(cont)), [(o.st, None) for o in cont])
        step_iter(I, m, it)
        return m, outs
    n0 = len(st.pc)
    outs = loops.loop(I, st, cond, step, (key, 0), mode)
    return n0, outs


def finish_void(I, st, n0, outs):
    normals = [(o.st, o.v) for o in outs if o.k in ('normal', 'return')]
    if not normals:
        raise Dead()
    s, v = I.merge(n0, normals)
    st.become(s)
    return v


def call_pred(I, st, f, lvs):
    r = I.callv(st, rd(I, st, f), lvs)
    return r


def alg_anyall(I, st, m, args, ptys, pe, ci):
    first, last = val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1])
    pred = args[2]
    stop_on = (m != 'all_of')

    def body(s, lv):
        p = lit_s(I.tobool(call_pred(I, s, pred, [lv])))
        return split(I, s, p if stop_on else Not(p), lambda s2: [Out('return', s2, m == 'any_of')])
    n0, outs = loop_range(I, st, first, last, body, key=m)
    res = []
    for o in outs:
        res.append(Out('return', o.st, o.v if o.k == 'return' else m != 'any_of'))
    normals = [(o.st, o.v) for o in res]
    s, v = I.merge(n0, normals, None)
    st.become(s)
    return v


def split(I, s, c, f):
    """fork: under c -> f(state) outs ; else continue"""
    c = lit_s(c)
    if c is True:
        return f(s)
    if c is False:
        return [Out('normal', s)]
    a = s.copy()
    a.pc.append(c)
    s.pc.append(Not(c))
    return f(a) + [Out('normal', s)]


def alg_find(I, st, m, args, ptys, pe, ci):
    first, last = val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1])
    it = None
    if isinstance(first, MapIt):
        raise Unsupported('find over a map')

    def body(s, lv):
        if m in ('find_if', 'find_if_not'):
            p = lit_s(I.tobool(call_pred(I, s, args[2], [lv])))
            if m == 'find_if_not':
                p = Not(p)
        else:
            p = lit_s(user_eq(I, s, lv, args[2]))

        def hit(s2):
            base = lv
            if isinstance(first, Iter) and first.rev:
                return [Out('return', s2, Iter(first.lv, add64(lv.path[-1][1], 1), True))]
            return [Out('return', s2, base)]
        return split(I, s, p, hit)
    n0, outs = loop_range(I, st, first, last, body, key=m)
    res = [(o.st, o.v if o.k == 'return' else last) for o in outs]
    s, v = I.merge(n0, res, None)
    st.become(s)
    return v


def alg_foreach(I, st, m, args, ptys, pe, ci):
    first, last = val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1])

    def body(s, lv):
        call_pred(I, s, args[2], [lv])
        return None
    n0, outs = loop_range(I, st, first, last, body, key=m)
    finish_void(I, st, n0, outs)
    return args[2]


def alg_count(I, st, m, args, ptys, pe, ci):
    first, last = val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1])
    cnt = I.new(st, ci.rt, 0, 'cnt')

    def body(s, lv):
        p = lit_s(I.tobool(call_pred(I, s, args[2], [lv]))) if m == 'count_if' else lit_s(user_eq(I, s, lv, args[2]))
        c = I.read(s, cnt)
        I.write(s, cnt, lit_s(Ite(p, add64(c, 1), c, 64)))
        return None
    n0, outs = loop_range(I, st, first, last, body, key=m)
    finish_void(I, st, n0, outs)
    return I.read(st, cnt)


def alg_accumulate(I, st, m, args, ptys, pe, ci):
    first, last = val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1])
    t = pe[2]
    acc = I.new(st, t, val(I, st, args[2], ptys[2]), 'acc')

    def body(s, lv):
        a = I.read(s, acc)
        if len(args) == 4:
            pt = I.par_type(rd(I, s, args[3]), 0)
            if pt is not None and pt.isint and t.isint and (pt.width != t.width or pt.sg != t.sg):
                la = I.new(s, pt, I.conv(a, t, pt), 'tmp')
            else:
                la = I.new(s, t, a, 'tmp')
            r = I.callv(s, rd(I, s, args[3]), [la, lv])
            # result converted to the accumulator type
            fv = rd(I, s, args[3])
            rty = I.ret_type(fv)
            if rty is not None and rty.isint and t.isint:
                r = I.conv(r, rty, t)
            I.write(s, acc, r)
        else:
            x = I.read(s, lv)
            et = I.elem(I.read(s, LV(lv.root, lv.path[:-1])).ty)
            w = max(t.width, et.width, 32)
            r = arith('+', cast_int(a, t.width, t.sg, w), cast_int(x, et.width, et.sg, w), w, False)
            I.write(s, acc, cast_int(r, w, False, t.width))
        return None
    n0, outs = loop_range(I, st, first, last, body, key=m)
    finish_void(I, st, n0, outs)
    return I.read(st, acc)


def out_write(I, st, cell, v):
    d = I.read(st, cell)
    if isinstance(d, Ghost) and d.kind == 'inserter':
        how, cont = d.d
        s = I.read(st, cont)
        if isinstance(s, Seq):
            I.write(st, cont, Seq(s.ty, tuple(s.ch) + (E([v]),)))
            return
        from . import maps
        maps.insert_value(I, st, cont, v)
        return
    I.write(st, iter_deref(I, st, d), v)
    I.write(st, cell, I.ptr_add(st, d, 1, 0))


def dest_elem(I, st, d):
    if isinstance(d, Ghost):
        s = I.read(st, d.d[1])
        return I.elem(s.ty) if isinstance(s, Seq) else None
    if isinstance(d, LV) and d.path and d.path[-1][0] == 'i':
        c = I.read(st, LV(d.root, d.path[:-1]))
        if isinstance(c, Seq) and c.ty is not None:
            return I.elem(c.ty)
    if isinstance(d, Iter):
        return I.elem(I.read(st, d.lv).ty)
    return None


def alg_transform(I, st, m, args, ptys, pe, ci):
    A = [val(I, st, a, p) for a, p in zip(args, ptys)]
    if len(args) == 4:
        out = I.new(st, None, A[2], 'out')
        ety = dest_elem(I, st, A[2])

        def body(s, lv):
            fv = rd(I, s, args[3])
            r = I.callv(s, fv, [lv])
            rty = I.ret_type(fv)
            if isinstance(r, LV) and rty is not None and rty.k == 'ref':
                r = I.read(s, r)
                rty = rty.e
            if rty is not None and ety is not None and rty.isint and ety.isint:
                r = I.conv(r, rty, ety)
            elif rty is not None and ety is not None and rty.k == 'rec' and ety.k == 'rec' and rty.id != ety.id and ety.n not in SP and rty.n != ety.n:
                r = make(I, s, ety, [r], [rty])
            out_write(I, s, out, r)
            return None
        n0, outs = loop_range(I, st, A[0], A[1], body, key=m)
        finish_void(I, st, n0, outs)
        return I.read(st, out)
    if len(args) == 5:
        # binary transform
        second = I.new(st, None, A[2], 'it2')
        out = I.new(st, None, A[3], 'out')

        def body(s, lv):
            l2 = iter_deref(I, s, I.read(s, second))
            r = I.callv(s, rd(I, s, args[4]), [lv, l2])
            step_iter(I, s, second)
            out_write(I, s, out, r)
            return None
        n0, outs = loop_range(I, st, A[0], A[1], body, key=m)
        finish_void(I, st, n0, outs)
        return I.read(st, out)
    return NotImplemented


def algo_copy(I, st, args, ptys, ci):
    A = [val(I, st, a, p) for a, p in zip(args, ptys)]
    ch, src = range_chunks(I, st, A[0], A[1])
    d = A[2]
    ety = dest_elem(I, st, d)
    if ety is not None:
        ch = conv_chunks(I, st, ch, src, ety)
    n = chunks_len(ch)
    if isinstance(d, Ghost) and d.kind == 'inserter':
        cont = d.d[1]
        s = I.read(st, cont)
        if isinstance(s, Seq):
            I.write(st, cont, Seq(s.ty, tuple(s.ch) + tuple(ch)))
            return d
        from . import maps
        return maps.insert_range(I, st, cont, ch, d)
    if isinstance(d, Iter) and d.rev:
        # destination reversed
        c = I.read(st, d.lv)
        r = reverse(I, st, Seq(c.ty, ch))
        lo = sub64(d.i, n)
        I.write(st, d.lv, Seq(c.ty, list(I.slice(st, c, 0, lo)) + list(r.ch) + list(I.slice(st, c, d.i, c.len))))
        return Iter(d.lv, lo, True)
    if isinstance(d, LV) and d.path and d.path[-1][0] in ('b', 'w') or not (d.path and d.path[-1][0] == 'i'):
        vals = Seq(None, ch).conc()
        if vals is None:
            raise Unsupported('copy to raw pointer')
        for i, v in enumerate(vals):
            I.write(st, I.ptr_add(st, d, i, 0), v)
        return I.ptr_add(st, d, n, 0)
    cont, i = container_lv(d)
    c = I.read(st, cont)
    I.safe(st, 'copy-in-bounds', And(cmp('<=', i, c.len, 64, False), cmp('<=', n, sub64(c.len, i), 64, False)), ci.e.get('l', 0))
    I.write(st, cont, Seq(c.ty, list(I.slice(st, c, 0, i)) + list(ch) + list(I.slice(st, c, add64(i, n), c.len))))
    return cont.idx(add64(i, n))


def alg_copy(I, st, m, args, ptys, pe, ci):
    if m == 'copy_n':
        a = val(I, st, args[0], ptys[0])
        n = val(I, st, args[1], ptys[1])
        b = I.ptr_add(st, a, cast_int(n, pe[1].width, pe[1].sg, 64), 0)
        return algo_copy(I, st, [a, b, val(I, st, args[2], ptys[2])], [pe[0], pe[0], pe[2]], ci)
    if m == 'copy_if':
        A = [val(I, st, a, p) for a, p in zip(args, ptys)]
        out = I.new(st, None, A[2], 'out')

        def body(s, lv):
            p = lit_s(I.tobool(call_pred(I, s, args[3], [lv])))
            I.branch(s, p, lambda x: out_write(I, x, out, I.read(x, lv)), lambda x: None)
            return None
        n0, outs = loop_range(I, st, A[0], A[1], body, key=m)
        finish_void(I, st, n0, outs)
        return I.read(st, out)
    if m == 'reverse_copy':
        A = [val(I, st, a, p) for a, p in zip(args, ptys)]
        ch, src = range_chunks(I, st, A[0], A[1])
        r = reverse(I, st, Seq(src.ty if src is not None else None, ch))
        tmp = I.new(st, r.ty, r, 'tmp')
        return algo_copy(I, st, [tmp.idx(0), tmp.idx(r.len), A[2]], [pe[0], pe[1], pe[2]], ci)
    return algo_copy(I, st, args, ptys, ci)


def alg_reverse(I, st, m, args, ptys, pe, ci):
    a, b = val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1])
    cont, i = container_lv(a)
    _, j = container_lv(b)
    c = I.read(st, cont)
    r = reverse(I, st, Seq(c.ty, I.slice(st, c, i, j)))
    I.write(st, cont, Seq(c.ty, list(I.slice(st, c, 0, i)) + list(r.ch) + list(I.slice(st, c, j, c.len))))
    return None


def alg_equal(I, st, m, args, ptys, pe, ci):
    A = [val(I, st, a, p) for a, p in zip(args, ptys)]
    ch, src = range_chunks(I, st, A[0], A[1])
    n = chunks_len(ch)
    b = A[2]
    if len(A) == 4:
        ch2, src2 = range_chunks(I, st, A[2], A[3])
        return And(cmp('==', n, chunks_len(ch2), 64, False), I.veq(st, Seq(src.ty, ch), Seq(src.ty, ch2)))
    ch2, _ = range_chunks(I, st, b, I.ptr_add(st, b, n, 0))
    x, y = Seq(src.ty, ch), Seq(src.ty, ch2)
    cx, cy = x.conc(), y.conc()
    if cx is not None and cy is not None:
        return And(*[user_eq(I, st, p, q) for p, q in zip(cx, cy)])
    return I.veq(st, x, y)


def alg_fill(I, st, m, args, ptys, pe, ci):
    a = val(I, st, args[0], ptys[0])
    if m == 'fill_n':
        b = I.ptr_add(st, a, cast_int(val(I, st, args[1], ptys[1]), pe[1].width, pe[1].sg, 64), 0)
    else:
        b = val(I, st, args[1], ptys[1])
    v = val(I, st, args[2], ptys[2])
    cont, i = container_lv(a)
    _, j = container_lv(b)
    c = I.read(st, cont)
    et = I.elem(c.ty)
    if et.isint and pe[2].isint:
        v = I.conv(v, pe[2], et)
    I.write(st, cont, Seq(c.ty, list(I.slice(st, c, 0, i)) + repeat(I, v, sub64(j, i)) + list(I.slice(st, c, j, c.len))))
    return b


def alg_issorted(I, st, m, args, ptys, pe, ci):
    """is_sorted / adjacent_find style: no i with x[i+1] < x[i]"""
    a, b = val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1])
    ch, src = range_chunks(I, st, a, b)
    s = Seq(src.ty, ch)
    tmp = I.new(st, s.ty, s, 'rng')
    cs = s.conc()

    def lt(s_, i, j):
        x, y = tmp.idx(i), tmp.idx(j)
        if len(args) == 3:
            return I.tobool(I.callv(s_, rd(I, s_, args[2]), [x, y]))
        et = I.elem(s.ty)
        return less(I, s_, x, y, et)
    cell = I.new(st, None, 1, 'i')
    I.rty[cell.root] = I.u64ty
    n = s.len

    def cond(s_):
        return cmp('<', I.read(s_, cell), n, 64, False)

    def step(s_):
        i = I.read(s_, cell)
        p = lit_s(lt(s_, i, sub64(i, 1)))
        outs = split(I, s_, p, lambda x: [Out('return', x, False)])
        cont = [o for o in outs if o.k == 'normal']
        outs = [o for o in outs if o.k != 'normal']
        if not cont:
            return None, outs
        I.write(cont[0].st, cell, add64(i, 1))
        return cont[0].st, outs
    n0 = len(st.pc)
    outs = loops.loop(I, st, cond, step, (m, 0))
    s2, v = I.merge(n0, [(o.st, o.v if o.k == 'return' else True) for o in outs])
    st.become(s2)
    return v


def alg_sort(I, st, m, args, ptys, pe, ci):
    a, b = val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1])
    cont, i = container_lv(a)
    _, j = container_lv(b)
    c = I.read(st, cont)
    seg = Seq(c.ty, I.slice(st, c, i, j))
    cs = seg.conc()
    h = I.models.get('std::sort')
    comp = args[2] if len(args) > 2 else None

    def lt(s_, x, y):
        et = I.elem(c.ty)
        lx, ly = I.new(s_, et, x, 'tmp'), I.new(s_, et, y, 'tmp')
        if comp is not None:
            return lit_s(I.tobool(I.callv(s_, rd(I, s_, comp), [lx, ly])))
        return lit_s(less(I, s_, lx, ly, et))
    if cs is not None and len(cs) <= 12:
        # sorting network by insertion (stable)
        et = I.elem(c.ty)
        arr = list(cs)
        for k in range(1, len(arr)):
            for p in range(k, 0, -1):
                sw = lt(st, arr[p], arr[p - 1])
                x, y = arr[p - 1], arr[p]
                arr[p - 1] = I.mval(sw, y, x, et)
                arr[p] = I.mval(sw, x, y, et)
        r = [E(arr)]
    else:
        r = [sorted_chunk(I, st, seg, comp, lt)]
    I.write(st, cont, Seq(c.ty, list(I.slice(st, c, 0, i)) + r + list(I.slice(st, c, j, c.len))))
    return None


def sorted_chunk(I, st, seg, comp, lt):
    """result of sorting a symbolic sequence: a permutation of it (uninterpreted index map), ordered"""
    n = seg.len
    ck = sort_key(I, st, comp)
    if ck is not None:
        # a sorted sequence stays as it is; equal sequences sort to the same result (equivalent elements are interchangeable)
        if len(seg.ch) == 1 and isinstance(seg.ch[0], S) and seg.ch[0].base.tag and seg.ch[0].base.tag[0] == 'sorted' and seg.ch[0].base.tag[4] == ck:
            return seg.ch[0]
        from . import solve
        for seg0, ck0, r0 in I.__dict__.setdefault('sorts', []):
            if ck0 == ck and I.elem(seg0.ty).s == I.elem(seg.ty).s and not I.kks:
                try:
                    c = lit_s(I.seq_eq(st.copy(), seg, seg0, True))
                except Unsupported:
                    continue
                if c is True or c is not False and solve.prove(I, st.pc, c, 40, False).status == 'proved':
                    return r0
    pi = z3.Function(fresh_name('perm'), *([z3.BitVecSort(64)] * (len(I.kks) + 2)))
    inv = z3.Function(fresh_name('perminv'), *([z3.BitVecSort(64)] * (len(I.kks) + 2)))
    kks = list(I.kks)

    def P(i):
        return pi(*(kks + [bv(i, 64)]))

    def Q(i):
        return inv(*(kks + [bv(i, 64)]))
    ety = I.elem(seg.ty)
    base = Base('sorted', lambda i: I.cget(None, seg.ch, P(i), ety), ('sorted', seg, P, Q, ck))
    st.pc.append(Univ(0, n, lambda i: [bl(cmp('<', P(i), n, 64, False)), Q(P(i)) == bv(i, 64)]))
    st.pc.append(Univ(0, n, lambda i: [bl(cmp('<', Q(i), n, 64, False)), P(Q(i)) == bv(i, 64)]))

    def ordered(i):
        # not (x[i+1] < x[i])
        s2 = st.copy()
        try:
            c = lt(s2, base.get(add64(i, 1)), base.get(i))
        except (Unsupported, Dead):
            return []
        return [Implies(cmp('<', add64(i, 1), n, 64, False), Not(c))]
    st.pc.append(Univ(0, n, ordered))
    if ck is not None and not I.kks:
        I.sorts.append((seg, ck, S(base, 0, n)))
    return S(base, 0, n)


def sort_key(I, st, comp):
    if comp is None:
        return 'less'
    v = rd(I, st, comp)
    if isinstance(v, Rec):
        return None if v.f else ('rec', v.ty.s)
    if isinstance(v, FnRef):
        return ('fn', repr(v))
    return None


def alg_minmax_element(I, st, m, args, ptys, pe, ci):
    a, b = val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1])
    cont, i = container_lv(a)
    _, j = container_lv(b)
    c = I.read(st, cont)
    cs = Seq(c.ty, I.slice(st, c, i, j)).conc()
    if cs is None or not is_c(i):
        raise Unsupported(m)
    if not cs:
        return b
    best, bi = cs[0], i
    et = I.elem(c.ty)
    for k, x in enumerate(cs[1:], 1):
        lx, lb = I.new(st, et, x, 'tmp'), I.new(st, et, best, 'tmp')
        if len(args) > 2:
            f = rd(I, st, args[2])
            p = I.tobool(I.callv(st, f, [lx, lb] if m == 'min_element' else [lb, lx]))
        else:
            p = less(I, st, lx, lb, et) if m == 'min_element' else less(I, st, lb, lx, et)
        p = lit_s(p)
        best = I.mval(p, x, best, et)
        bi = Ite(p, add64(i, k), bi, 64)
    return cont.idx(lit_s(bi))


def map_chunks(I, st, ty, ch, f, ety):
    """pure element map"""
    tmp = I.new(st, ty, Seq(ty, ch), 'src')
    outc = I.new(st, None, Seq(None, []), 'dst')

    def body(s, lv):
        v = f(s, lv)
        o = I.read(s, outc)
        I.write(s, outc, Seq(o.ty, tuple(o.ch) + (E([v]),)))
        return None
    n0, outs = loop_range(I, st, tmp.idx(0), tmp.idx(Seq(ty, ch).len), body, key='map')
    finish_void(I, st, n0, outs)
    return list(I.read(st, outc).ch)


def alg_removeif(I, st, m, args, ptys, pe, ci):
    a, b = val(I, st, args[0], ptys[0]), val(I, st, args[1], ptys[1])
    cont, i = container_lv(a)
    _, j = container_lv(b)
    c = I.read(st, cont)
    seg = Seq(c.ty, I.slice(st, c, i, j))
    tmp = I.new(st, seg.ty, seg, 'src')
    dst = I.new(st, seg.ty, Seq(seg.ty), 'dst')

    def body(s, lv):
        p = lit_s(I.tobool(call_pred(I, s, args[2], [lv]))) if m == 'remove_if' else lit_s(user_eq(I, s, lv, args[2]))

        def keep(x):
            o = I.read(x, dst)
            I.write(x, dst, Seq(o.ty, tuple(o.ch) + (E([I.read(x, lv)]),)))
        I.branch(s, p, lambda x: None, keep)
        return None
    n0, outs = loop_range(I, st, tmp.idx(0), tmp.idx(seg.len), body, key=m)
    finish_void(I, st, n0, outs)
    kept = I.read(st, dst)
    nk = kept.len
    restn = sub64(seg.len, nk)
    ety = I.elem(seg.ty)
    junk = Base(fresh_name('junk'), lambda k: I.sym(ety, 'junk', (k,)))
    I.write(st, cont, Seq(c.ty, list(I.slice(st, c, 0, i)) + list(kept.ch) + [S(junk, 0, restn)] + list(I.slice(st, c, j, c.len))))
    return cont.idx(add64(i, nk))


ALGOS = {
    'any_of': alg_anyall, 'all_of': alg_anyall, 'none_of': alg_anyall,
    'find_if': alg_find, 'find': alg_find, 'find_if_not': alg_find,
    'for_each': alg_foreach, 'count_if': alg_count, 'count': alg_count, 'accumulate': alg_accumulate,
    'transform': alg_transform, 'copy': alg_copy, 'copy_n': alg_copy, 'copy_if': alg_copy, 'reverse_copy': alg_copy,
    'reverse': alg_reverse, 'equal': alg_equal, 'fill': alg_fill, 'fill_n': alg_fill,
    'is_sorted': alg_issorted, 'sort': alg_sort, 'stable_sort': alg_sort,
    'min_element': alg_minmax_element, 'max_element': alg_minmax_element,
    'remove_if': alg_removeif, 'remove': alg_removeif,
}


# ---------------------------------------------------------------------------------------------- maps (see maps.py)

class SetIt(MapIt):
    pass


class MapV(Val):
    __slots__ = ('ty', 'b', 'ups')


def symmap(I, ty, name, idxs):
    from . import maps
    return maps.sym(I, ty, name, idxs)


def emptymap(I, ty):
    from . import maps
    return maps.empty(I, ty)


def map_get(I, st, v, k):
    from . import maps
    return maps.get(I, st, v, k)


def map_put(I, st, v, k, x):
    from . import maps
    return maps.put(I, st, v, k, x)


def map_eq(I, st, a, b, goal):
    from . import maps
    return maps.eq(I, st, a, b, goal)


def map_merge(I, c, a, b):
    from . import maps
    return maps.merge(I, c, a, b)
