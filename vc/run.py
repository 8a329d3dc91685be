"""Runner: python3-vt -m vc.run PROPERTY --tier quick|thorough"""
import argparse, glob, json, os, re, sys, time, tempfile, shutil, subprocess, traceback, multiprocessing, hashlib, signal
import z3
from . import prog as P
from .prog import Program, ExtractError, HERE, REPO
from .engine import *
from .values import *
from . import models, solve

NPROC = int(os.environ.get('VC_JOBS', '8'))


def build_tool():
    if os.path.exists(P.TOOL) and os.path.getmtime(P.TOOL) >= os.path.getmtime(os.path.join(HERE, 'tool', 'cxxdump.cpp')):
        return
    os.makedirs(os.path.dirname(P.TOOL), exist_ok=True)
    tmp = P.TOOL + '.%d' % os.getpid()
    subprocess.run(['clang++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', os.path.join(HERE, 'tool', 'cxxdump.cpp'), '-o', tmp,
                    '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1'], check=True)
    os.rename(tmp, P.TOOL)


class Spec:
    """one contract file"""

    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        self.ns = os.path.basename(path)[:-4].split('_')[0]
        self.srcs = re.findall(r'^// vc-src:\s*(.+)$', self.text, re.M)
        self.srcs = [x for l in self.srcs for x in l.split()]
        self.link = [x for l in re.findall(r'^// vc-link:\s*(.+)$', self.text, re.M) for x in l.split()]
        self.opts = {}
        for l in re.findall(r'^// vc-opt:\s*(.+)$', self.text, re.M):
            k, v = l.split('=', 1)
            self.opts[k.strip()] = json.loads(v)
        self.model_mods = [x for l in re.findall(r'^// vc-model:\s*(.+)$', self.text, re.M) for x in l.split()]
        # callee contracts: // vc-use: Real::function Spec::function proved-by-contract
        self.uses = [tuple(l.split()) for l in re.findall(r'^// vc-use:\s*(\S+ \S+ \S+)', self.text, re.M)]
        # spec functions treated as uninterpreted except in the contracts listed: // vc-opaque: name contract,contract
        self.opaque = [tuple(l.split()) for l in re.findall(r'^// vc-opaque:\s*(\S+ \S+)', self.text, re.M)]
        self.names = re.findall(r'^VC_CONTRACT\((\w+)\)', self.text, re.M)
        # contracts that only the thorough check discharges
        self.deep = {x for l in re.findall(r'^// vc-thorough:\s*(.+)$', self.text, re.M) for x in l.split()}
        # per-contract options: // vc-opt(name): key=json
        self.fopts = {}
        for n, l in re.findall(r'^// vc-opt\((\w+)\):\s*(.+)$', self.text, re.M):
            k, v = l.split('=', 1)
            self.fopts.setdefault(n, {})[k.strip()] = json.loads(v)


def specs(prop):
    d = os.path.join(HERE, 'contracts')
    return [Spec(os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.endswith('.cpp') and re.match(prop + r'(_|\.)', f)]


def make_interp(pg, spec, name):
    opts = dict(spec.opts)
    opts.update(spec.fopts.get(name, {}))
    I = Interp(pg, opts)
    I.models = {}
    models.install(I)
    for fnname, specname, by in spec.uses:
        if name in by.split(','):
            continue

        def h(I, st, this, args, ci, specname=specname):
            f = I.prog.find(specname)
            av = [I.read(st, a) if isinstance(a, (LV, Choice)) and f.tu.ty(p['t']).k != 'ref' and ci.pty(i).k == 'ref' else a for i, (p, a) in enumerate(zip(f.d['p'], args))]
            if len(f.d['p']) == len(args) + 1:
                av = [this] + [I.read(st, a) if isinstance(a, (LV, Choice)) and f.tu.ty(p['t']).k != 'ref' and ci.pty(i).k == 'ref' else a for i, (p, a) in enumerate(zip(f.d['p'][1:], args))]
            return I.invoke(st, f, None, av)
        I.contracts[fnname] = h
        m = re.match(r'(.*\w)<([\d,]+)>$', fnname)   # one instance of a function template
        if m:
            inst = 'I' + ''.join('Li%sE' % x for x in m.group(2).split(',')) + 'E'
            for k, f in pg.fns.items():
                if f.n == m.group(1) and inst in k:
                    I.contracts[k] = h
    I.contract_names = {spec.ns + '::' + n for n in spec.names}
    for fnname, by in spec.opaque:
        if name in by.split(','):
            continue

        def ho(I, st, this, args, ci, fnname=fnname):
            rt = ci.rt
            ws = [ci.pty(i).width for i in range(len(args))]
            f = z3.Function('opq_' + fnname, *([z3.BoolSort() if w == 1 else z3.BitVecSort(w) for w in ws] + [z3.BoolSort() if rt.k == 'bool' else z3.BitVecSort(rt.w)]))
            return lit_s(f(*[bl(a) if w == 1 else bv(a, w) for a, w in zip(args, ws)]))
        I.contracts[fnname] = ho
    for m in spec.model_mods:
        __import__('vc.' + m, fromlist=['x']).install(I)
    I.check_safety = bool(opts.get('safety', False))
    return I, opts


def consts_of(pg, names):
    """integer constants of the functions executed (dictionary for the replay search)"""
    out = set()
    byn = pg.byname
    for n in names:
        for fn in byn.get(n, []):
            st = [fn.d.get('b')]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    if x.get('k') == 'int':
                        try:
                            out.add(int(x['x']) & ((1 << 64) - 1))
                        except Exception:
                            pass
                    st += [v for v in x.values() if isinstance(v, (dict, list))]
                elif isinstance(x, list):
                    st += x
    return out


def verify(pg, spec, name, budget, ptimeout):
    """symbolically execute one contract function and discharge its obligations"""
    t0 = time.time()
    if os.environ.get('VC_DUMP'):
        import faulthandler
        import signal; faulthandler.register(signal.SIGUSR1)
    full = spec.ns + '::' + name
    res = dict(contract=full, obligations=[], covers=[], functions=[], models=[], contracts=[], solver_s=0.0, loops=[])
    I, opts = make_interp(pg, spec, name)
    I.deadline = t0 + budget
    ptimeout = opts.get('timeout', ptimeout)
    try:
        fn = pg.find(full)
    except ExtractError as e:
        res['error'] = 'extract: %s' % e
        return res
    st = State()
    st.env = {}
    Interp.noexcept_throws = []
    I.exits = [[]]
    params = []
    normal = None
    try:
        args = []
        for p in fn.d['p']:
            t = fn.tu.ty(p['t'])
            te = t.e if t.k == 'ref' else t
            v = I.sym(te, p['n'])
            params.append((p['n'], te, v))
            args.append(I.new(st, te, v, 'in') if t.k == 'ref' else v)
        try:
            s, v = I.call_fn(st, fn, None, args)
            normal = s
        except Dead:
            pass
    except (Unsupported, Timeout, ExtractError) as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VC_TRACE'):
            traceback.print_exc()
    except RecursionError as e:
        res['error'] = 'RecursionError'
    except Exception as e:
        res['error'] = 'internal: %r' % e
        res['trace'] = traceback.format_exc()[-3000:]
        if os.environ.get('VC_TRACE'):
            traceback.print_exc()
    res['exec_s'] = time.time() - t0
    res['functions'] = sorted(n for n in I.inlined if not n.startswith((spec.ns + '::', 'vc::', 'std::')))
    res['models'] = sorted(I.used_models)
    res['contracts'] = sorted(I.used_contracts)
    res['loops'] = sorted({'%s' % (k,) for k, _ in I.loopinfo})
    # obligations
    obs = []
    for o in I.obligs:
        obs.append((o.name, o.pc, o.cond, o.loc, o.kind))
    for i, ex in enumerate(I.exits[-1]):
        if ex.k == 'throw':
            e = ex.v.e if isinstance(ex.v, ExcV) else ex.v
            obs.append(('no-uncaught-exception:%s' % e.ty, ex.st.pc, False, None, 'exception'))
    for n, pc, v in I.noexcept_throws:
        obs.append(('noexcept-holds:%s' % n, pc, False, None, 'exception'))
    for l in sorted(I.lemmas):
        r = prove_lemma(l)
        res['solver_s'] += r.t
        res['obligations'].append(dict(name='%s/lemma:%s' % (full, l), status=r.status, backend=r.backend, s=round(r.t, 3), kind='lemma', facts=0))
    seen = set()
    for kind, pc, cond, loc in I.safety:
        obs.append(('safety:%s@%s' % (kind, loc), pc, cond, loc, 'safety'))
    lens = []
    for n, t, v in params:
        lengths_ok = solve.lengths(I, v, lens)
    failed = False
    for n, pc, cond, loc, kind in obs:
        left = budget - (time.time() - t0)
        if left < 2:
            r = solve.Result('unknown', 'budget', 0.0)
        else:
            try:
                if opts.get('split'):
                    r = prove_split(I, pc, cond, opts['split'], params, ptimeout, left)
                else:
                    r = solve.prove(I, pc, cond, min(ptimeout, left), lens=lens)
            except Unsupported as e:
                r = solve.Result('unknown', 'unsupported: %s' % e, 0.0)
            except Exception as e:
                r = solve.Result('unknown', 'internal: %r' % e, 0.0)
                if os.environ.get('VC_TRACE'):
                    traceback.print_exc()
        d = dict(name='%s/%s' % (full, n), status=r.status, backend=r.backend, s=round(r.t, 3), kind=kind, facts=r.nfacts)
        res['solver_s'] += r.t
        if r.status == 'refuted' and r.model is not None:
            try:
                toks = []
                for pn, t, v in params:
                    solve.tokens(I, r.model, v, t, toks)
                d['tokens'] = toks
            except Exception as e:
                d['tokens_error'] = str(e)
            if os.environ.get('VC_TRACE'):
                print(d['name'], 'REFUTED', d.get('tokens', d.get('tokens_error')))
                if os.environ.get('VC_TRACE') == '2':
                    print('cond', cond)
                    print('pc', [p for p in pc if not isinstance(p, Univ)][-12:])
        if r.status != 'proved':
            failed = True
        res['obligations'].append(d)
    # reachability: the precondition and named covers must be satisfiable
    covers = [(n, pc) for n, pc in I.covers]
    if normal is not None:
        covers.append(('end-reachable', normal.pc))
    good = {}
    if 'error' not in res and not failed:
        for n, pc in covers:
            if good.get(n) == 'sat':
                continue
            r, t = solve.satisfiable(I, pc)
            res['solver_s'] += t
            if r == 'sat' or n not in good or good[n] == 'unsat':
                good[n] = r
        for n, r in good.items():
            res['covers'].append(dict(name='%s/%s' % (full, n), status=r))
        if normal is None and not covers:
            res['covers'].append(dict(name='%s/end-reachable' % full, status='unsat'))
    res['wall_s'] = time.time() - t0
    res['consts'] = sorted(consts_of(pg, I.inlined))[:3000]
    return res


def prove_lemma(name):
    t0 = time.time()
    try:
        p = subprocess.run(['z3', '-T:60', os.path.join(HERE, 'lemmas', name + '.smt2')], capture_output=True, text=True, timeout=90)
        ok = p.stdout.split()[:1] == ['unsat']
    except subprocess.TimeoutExpired:
        ok = False
    return solve.Result('proved' if ok else 'unknown', 'z3 (integers)', time.time() - t0)


def prove_split(I, pc, cond, split, params, ptimeout, left):
    """complete case split on the value of one integer parameter"""
    nm, lo, hi = split
    t0 = time.time()
    x = [v for n, t, v in params if n == nm][0]
    be = set()
    nf = 0
    for k in range(lo, hi + 1):
        if time.time() - t0 > left:
            return solve.Result('unknown', 'budget', time.time() - t0)
        ps = [(x, k)]
        r = solve.prove(I, [subst(p, ps) for p in pc], tsub(cond, ps) if isinstance(cond, z3.ExprRef) else cond, ptimeout)
        if r.status != 'proved':
            r.t = time.time() - t0
            r.model = None
            return r
        be.add(r.backend)
        nf += r.nfacts
    rest = z3.Or(z3.ULT(x, lo), z3.UGT(x, hi))
    r = solve.prove(I, list(pc) + [rest], cond, ptimeout)
    if r.status != 'proved':
        return r
    return solve.Result('proved', '+'.join(sorted(be)) + ' (%d cases)' % (hi - lo + 2), time.time() - t0, nfacts=nf)


def _child(q, pg, spec, name, budget, ptimeout):
    import resource
    try:
        r = verify(pg, spec, name, budget, ptimeout)
    except MemoryError:
        r = dict(contract=spec.ns + '::' + name, obligations=[], covers=[], functions=[], models=[], contracts=[], solver_s=0, loops=[], error='memory')
    q.put(r)


# -------------------------------------------------------------------------------------------- concrete replay

def compile_replay(spec, tmp, sanitize=True):
    """compile the contract file and the sources it depends on from the current tree; returns binary path or None"""
    out = os.path.join(tmp, 'replay_' + os.path.basename(spec.path)[:-4])
    if os.path.exists(out):
        return out
    base = ['g++', '-std=c++17', '-O1', '-g0', '-w', '-include', 'cstdint', '-Wno-changes-meaning', '-DFMT_HEADER_ONLY=1', '-DUNICODE', '-DNDEBUG', '-DVC_CONCRETE', '-fpermissive', '-fno-access-control']
    if spec.opts.get('safety'):
        base += ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,alignment']
    else:
        base += ['-fsanitize=address']
    if False:
        base += ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,alignment']
    incs = ['-I' + os.path.join(HERE, 'stubs')] + ['-I' + os.path.join(REPO, i) for i in P.INCS]
    srcs = []
    for s in spec.srcs + spec.link:
        if s not in srcs:
            srcs.append(s)
    files = [spec.path, os.path.join(HERE, 'stubs', 'vc_main.cpp')] + [s if os.path.isabs(s) else os.path.join(REPO, s) if os.path.exists(os.path.join(REPO, s)) else os.path.join(HERE, s) for s in srcs]
    procs = []
    objs = []
    od = out + '.o'
    os.makedirs(od, exist_ok=True)
    from concurrent.futures import ThreadPoolExecutor

    def cc(f):
        o = os.path.join(od, hashlib.md5(f.encode()).hexdigest() + '.o')
        if f.endswith('.c'):
            cmd = ['gcc', '-O1', '-g0', '-w'] + incs + ['-c', f, '-o', o]
        else:
            cmd = base + incs + ['-c', f, '-o', o]
        p = subprocess.run(cmd, capture_output=True, text=True)
        return o, p.returncode, p.stderr
    with ThreadPoolExecutor(NPROC) as ex:
        rs = list(ex.map(cc, files))
    bad = [r[2][-3000:] for r in rs if r[1]]
    if bad:
        open(out + '.log', 'w').write('\n'.join(bad))
        return None
    # support code that is not under contract comes from the libraries the repository's build left behind, if any
    libs = sorted(glob.glob(os.path.join(REPO, 'bin', 'Release', '*.a')))
    p = subprocess.run(base + [r[0] for r in rs] + ['-o', out, '-Wl,--allow-multiple-definition', '-Wl,--unresolved-symbols=ignore-all', '-Wl,--start-group'] + libs + ['-Wl,--end-group', '-lpthread', '-lsodium', '-ldl', '-no-pie'], capture_output=True, text=True)
    if p.returncode:
        open(out + '.log', 'w').write(p.stderr)
        return None
    return out


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=0:handle_segv=0:handle_sigfpe=0:handle_sigill=0', UBSAN_OPTIONS='print_stacktrace=0')


def run_tokens(binary, name, toks, tmp, timeout=60):
    f = os.path.join(tmp, 'in_%d' % os.getpid())
    open(f, 'w').write(' '.join(map(str, toks)))
    try:
        p = subprocess.run([binary, 'run', name, f], capture_output=True, text=True, timeout=timeout, cwd=tmp, env=ENV, errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout'
    m = re.search(r'VC-FAIL (.*)', p.stdout)
    if m:
        return m.group(1)
    if p.returncode == 98:
        return None
    if p.returncode not in (0, 1):
        return 'crash rc=%d %s' % (p.returncode, p.stderr[:300])
    return None


def search(binary, name, seed, secs, consts, tmp, jobs=4):
    cf = os.path.join(tmp, 'consts_' + name)
    open(cf, 'w').write(' '.join(map(str, consts)))
    ps = [subprocess.Popen([binary, 'search', name, str(seed + j), str(secs), cf], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=tmp, env=ENV, errors='replace') for j in range(jobs)]
    hit = None
    for p in ps:
        try:
            o, _ = p.communicate(timeout=secs * 2 + 90)
        except subprocess.TimeoutExpired:
            p.kill()
            continue
        m = re.search(r'VC-FAIL (.*)\nVC-INPUT (.*)', o)
        if m and hit is None:
            hit = (m.group(1), m.group(2).split())
    return hit


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--noreplay', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    quick = a.tier == 'quick'
    sps = specs(a.prop)
    if not sps:
        print('no contracts for', a.prop)
        sys.exit(2)
    build_tool()
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % a.prop)
    rc = 1
    try:
        rc = check(a, sps, tmp, seed, quick, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(a, sps, tmp, seed, quick, t0):
    ptimeout = 60 if quick else 300
    results = []
    progs = {}
    extract_errors = []
    for sp in sps:
        pg = Program()
        try:
            pg.load([sp.path] + sp.srcs, os.path.join(tmp, 'ast'))
        except ExtractError as e:
            extract_errors.append((sp, str(e)))
            continue
        progs[sp.path] = pg
    jobs = [(sp, n) for sp in sps if sp.path in progs for n in sp.names
            if (not a.only and not (quick and n in sp.deep)) or n in (a.only or '').split(',')]
    ctx = multiprocessing.get_context('fork')
    running, pending, results = [], list(jobs), []
    while pending or running:
        while pending and len(running) < NPROC:
            sp, n = pending.pop(0)
            q = ctx.Queue()
            b = sp.fopts.get(n, {}).get('budget', 240 if quick else 900)
            p = ctx.Process(target=_child, args=(q, progs[sp.path], sp, n, b, ptimeout))
            p.start()
            running.append((p, q, sp, n, time.time(), b))
        time.sleep(0.02)
        for r in list(running):
            p, q, sp, n, ts, b = r
            got = None
            try:
                got = q.get_nowait()
            except Exception:
                pass
            if got is None and not p.is_alive():
                try:
                    got = q.get(timeout=1)
                except Exception:
                    got = dict(contract=sp.ns + '::' + n, obligations=[], covers=[], functions=[], models=[], contracts=[], solver_s=0, loops=[], error='verifier process died')
            if got is None and time.time() - ts > b * 1.5 + 60:
                p.kill()
                got = dict(contract=sp.ns + '::' + n, obligations=[], covers=[], functions=[], models=[], contracts=[], solver_s=0, loops=[], error='time limit')
            if got is not None:
                p.join(5)
                running.remove(r)
                results.append((sp, n, got))
                if a.v:
                    st = [o['status'] for o in got['obligations']]
                    print('%-50s %3d/%3d proved  %5.1fs %s' % (got['contract'], st.count('proved'), len(st), got.get('wall_s', 0), got.get('error', '')), flush=True)
                    for o in got['obligations']:
                        if o['status'] != 'proved':
                            print('     ', o['status'], o['name'], o['backend'], o['s'], o.get('tokens', o.get('tokens_error', '')) if len(str(o.get('tokens', ''))) < 600 else '')
                    for c in got['covers']:
                        if c['status'] != 'sat':
                            print('      cover', c)
                    if got.get('trace'):
                        print(got['trace'])
    return report(a, sps, results, extract_errors, tmp, seed, quick, t0)


def known(prop):
    p = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) obligation=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def report(a, sps, results, extract_errors, tmp, seed, quick, t0):
    prop = a.prop
    vio = []
    nob = ndis = 0
    backends = {}
    assumptions = set()
    fns, loops, lib = set(), set(), set()
    solver = 0.0
    failing = {}
    find = known(prop)
    kf = []
    per = []
    for sp, e in extract_errors:
        failing.setdefault(sp.path, (sp, []))[1].append((None, 'extraction', e, None))
    for sp, n, r in results:
        fns |= set(r['functions'])
        lib |= set(r['models'])
        loops |= set(r['loops'])
        solver += r['solver_s']
        bad = []
        if r.get('error'):
            nob += 1
            bad.append((n, '%s::%s/verification-conditions' % (sp.ns, n), r['error'], None))
        for o in r['obligations']:
            nob += 1
            if o['status'] == 'proved':
                ndis += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            else:
                hit = [d for k, d in find if k == o['name']]
                if hit:
                    kf.append(hit[0])
                    continue
                bad.append((n, o['name'], '%s by %s' % (o['status'], o['backend']), o.get('tokens')))
        if not r.get('error') and not bad:
            if not r['obligations']:
                bad.append((n, '%s::%s/vacuous' % (sp.ns, n), 'no obligation was generated', None))
            for c in r['covers']:
                nob += 1
                if c['status'] == 'unsat':
                    bad.append((n, c['name'], 'unreachable: the contract is vacuous', None))
                else:
                    ndis += 1
        per.append(dict(contract=r['contract'], obligations=len(r['obligations']), proved=sum(o['status'] == 'proved' for o in r['obligations']),
                        seconds=round(r.get('wall_s', 0), 2), functions=len(r['functions']), loops=len(r['loops'])))
        if bad:
            failing.setdefault(sp.path, (sp, []))[1].extend(bad)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    consts = {n: r.get('consts', []) for sp, n, r in results}
    lines = []
    left = 150.0 if quick else 900.0   # seconds for random search of failing inputs
    for path, (sp, bad) in failing.items():
        binary = None if a.noreplay else compile_replay(sp, tmp)
        byfn = {}
        for n, ob, why, toks in bad:
            byfn.setdefault(n, []).append((ob, why, toks))
        for n, obs in byfn.items():
            hit = None
            names = [n] if n else sp.names
            if binary:
                for ob, why, toks in obs:
                    if toks and n:
                        r = run_tokens(binary, n, toks, tmp)
                        if r and r != 'timeout':
                            hit = (n, ob, r, toks, 'solver counterexample')
                            break
                if not hit:
                    for nn in names:
                        if left <= 0:
                            break
                        left -= (15 if quick else 60) if n else 5
                        h = search(binary, nn, seed, (15 if quick else 60) if n else 5, consts.get(nn, []), tmp, 8)
                        if h:
                            hit = (nn, obs[0][0], h[0], h[1], 'random search')
                            break
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, '%s_%s.json' % (prop, n or 'extract'))
            doc = dict(property=prop, contract_file=sp.path, contract='%s::%s' % (sp.ns, n), failed_obligations=[dict(obligation=o, verifier=w) for o, w, _ in obs])
            if not binary and not a.noreplay:
                lg = os.path.join(tmp, 'replay_' + os.path.basename(sp.path)[:-4] + '.log')
                doc['replay_build'] = open(lg).read()[-2000:] if os.path.exists(lg) else 'not built'
            if hit:
                doc['failing_input'] = dict(function=hit[0], tokens=[int(x) for x in hit[3]], observed=hit[2], found_by=hit[4])
                doc['replay_with'] = 'compile contract_file with -DVC_CONCRETE, stubs/vc_main.cpp and the listed sources; run with the tokens (python3-vt -m vc.replay <this file>)'
            json.dump(doc, open(rp, 'w'), indent=1)
            for o, w, _ in obs[:6]:
                print('failed obligation: %s (%s)' % (o, w[:400]))
            if hit:
                print('replayed on the real code: %s -> %s' % (hit[0], hit[2]))
                lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
            else:
                lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
            vio.append(dict(obligation=obs[0][0], replay=rp, failing_input=bool(hit)))
    ev_write(a, sps, results, nob, ndis, backends, fns, loops, lib, solver, vio, per, t0, seed, kf)
    for d in sorted(set(kf)):
        print('KNOWN-FINDING: property=%s %s' % (prop, d))
    # failing inputs first
    for l in sorted(lines, key=lambda l: l.endswith('found')):
        print(l)
    if a.v or not lines:
        print('%s: %d obligations, %d discharged, %d functions under contract, %.1f s solver, %.1f s wall' % (prop, nob, ndis, len(fns), solver, time.time() - t0))
    return 1 if lines else 0


TRUSTED = ['clang 18 front end (AST, overload resolution, template instantiation) and tool/cxxdump.cpp, which serialises it',
           'vc/engine.py, vc/loops.py, vc/stdlib.py: verification-condition generation and the semantics of C++17 and of the standard library',
           'z3 / cvc5']


def ev_write(a, sps, results, nob, ndis, backends, fns, loops, lib, solver, vio, per, t0, seed, kf):
    assume = ['containers hold fewer than 2^40 elements; no memory exhaustion',
              'single-threaded execution of each function (locks are ignored)',
              'logging has no effect on the result']
    for sp in sps:
        assume += re.findall(r'^// vc-assume:\s*(.+)$', sp.text, re.M)
    ext = sorted(x for x in lib if not x.startswith(('std::', '__gnu', 'operator', 'vc::', '__builtin')))
    for x in ext:
        assume.append('external function under an assumed contract: ' + x)
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level='proof',
              coverage=dict(obligations=nob, discharged=ndis,
                            checker_cmd='python3-vt -m vc.run %s --tier %s' % (a.prop, a.tier),
                            trusted_base=TRUSTED + ['%d standard-library operations modelled in vc/stdlib.py' % sum(x.startswith(('std::', '__gnu')) for x in lib)],
                            functions_under_contract=sorted(fns), loops_with_inductive_summary=sorted(loops), backends=backends, solver_s=round(solver, 2), contracts=per),
              assumptions=assume, wall_s=round(time.time() - t0, 2), violations=vio)
    if kf:
        ev['coverage']['known_findings'] = sorted(set(kf))
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, a.prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
