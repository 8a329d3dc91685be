"""Loading of the mechanically extracted typed AST (see tool/cxxdump.cpp)."""
import json, os, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VC_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = os.path.join(HERE, 'build', 'cxxdump')
CXXFLAGS = ['-std=c++17', '-include', 'cstdint', '-DFMT_HEADER_ONLY=1', '-DUNICODE', '-DNDEBUG', '-w',
            '-DCIVETWEB_CXX_DLL_IMPORTS', '-DCIVETWEB_DLL_IMPORTS', '-ferror-limit=0', '-fno-access-control']
INCS = ['include', 'deps', 'deps/mio/single_include', 'deps/stduuid/include', 'deps/ghc', 'deps/jsoncpp',
        'deps/cppcodec', 'deps/scheduler/include', 'deps/reproc/reproc++/include', 'deps/bitcoin/include',
        'deps/chachapoly', 'deps/rfc6234', 'deps/reproc/reproc++/src', 'src']


class ExtractError(Exception):
    pass


def cxx_args():
    return CXXFLAGS + ['-I' + os.path.join(REPO, i) for i in INCS] + ['-I' + os.path.join(HERE, 'stubs')]


class Ty:
    __slots__ = ('s', 'k', 'w', 'sg', 'n', 'e', 'args', 'id', 'const', 'len', 'lam', 'rv')

    def __repr__(self):
        return '<%s>' % self.s

    @property
    def isint(self):
        return self.k in ('int', 'enum', 'bool')

    @property
    def width(self):
        return 1 if self.k == 'bool' else self.w

    def arg(self, i):
        a = self.args[i]
        return a.get('T') if 'T' in a else int(a['i'])


def norm(n):
    return n.replace('__cxx11::', '').replace('__1::', '')


class TU:
    def __init__(self, prog, path, data):
        self.prog = prog
        self.path = path
        self.raw = data['types']
        self.cache = {}
        self.records = data['records']
        self.functions = data['functions']
        self.globals = data['globals']
        self.enums = data['enums']
        self.errors = data['errors']

    def ty(self, i):
        t = self.cache.get(i)
        if t is not None:
            return t
        r = self.raw[i]
        key = r['s']
        if r.get('lambda'):
            key = key + '#' + self.path + str(r['lambda'])
        g = self.prog.types.get(key)
        if g is None:
            g = Ty()
            self.prog.types[key] = g
            g.s = key
            g.k = r['k']
            g.w = r.get('w')
            g.sg = r.get('sg')
            g.n = norm(r['n']) if isinstance(r.get('n'), str) else None
            g.len = r.get('n') if isinstance(r.get('n'), int) else None
            g.const = bool(r.get('c'))
            g.id = r.get('id')
            g.lam = r.get('lambda')
            g.rv = r.get('rv')
            g.e = None
            g.args = []
            self.cache[i] = g
            if 'e' in r:
                g.e = self.ty(r['e'])
            for a in r.get('a', []):
                g.args.append({'T': self.ty(a['t'])} if 't' in a else a)
        self.cache[i] = g
        return g


class Fn:
    __slots__ = ('tu', 'key', 'n', 'd', 'rec')

    def __init__(self, tu, key, d):
        self.tu = tu
        self.key = key
        self.d = d
        self.n = norm(d['n'])
        self.rec = None

    def __repr__(self):
        return 'Fn(%s)' % self.n


class Program:
    def __init__(self):
        self.types = {}
        self.tus = []
        self.fns = {}
        self.byname = {}
        self.records = {}
        self.overriders = {}

    def dump(self, src, extra=()):
        out = os.path.join(self.tmp, hashlib.md5(src.encode()).hexdigest() + '.json')
        pref = ','.join([os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), os.path.join(REPO, 'deps/bitcoin'),
                         os.path.join(HERE, 'contracts'), os.path.join(HERE, 'stubs')])
        p = subprocess.run([TOOL, out, pref, src, '--'] + cxx_args() + list(extra), capture_output=True, text=True)
        if not os.path.exists(out):
            raise ExtractError('cxxdump failed on %s: %s' % (src, p.stderr[-2000:]))
        with open(out) as f:
            d = json.load(f)
        os.unlink(out)
        d['stderr'] = p.stderr
        return d

    def load(self, srcs, tmp):
        self.tmp = tmp
        os.makedirs(tmp, exist_ok=True)
        paths = [s if os.path.isabs(s) else os.path.join(REPO if os.path.exists(os.path.join(REPO, s)) else HERE, s) for s in srcs]
        with ThreadPoolExecutor(8) as ex:
            datas = list(ex.map(self.dump, paths))
        for p, d in zip(paths, datas):
            if d['errors']:
                raise ExtractError('%s does not parse: %s' % (p, d['stderr'][-3000:]))
            self.add(p, d)

    def add(self, path, d):
        tu = TU(self, path, d)
        self.tus.append(tu)
        for k, f in d['functions'].items():
            if k not in self.fns:
                fn = Fn(tu, k, f)
                self.fns[k] = fn
                self.byname.setdefault(fn.n, []).append(fn)
                for o in f.get('over', []):
                    self.overriders.setdefault(o, []).append(k)
        for k, r in d['records'].items():
            if k not in self.records or (r.get('f') and not self.records[k][1].get('f')):
                self.records[k] = (tu, r)

    def find(self, name, nparams=None, pred=None):
        c = [f for f in self.byname.get(name, []) if (nparams is None or len(f.d['p']) == nparams) and (pred is None or pred(f))]
        if not c:
            raise ExtractError('function under contract not found in source: %s' % name)
        return c[0]

    def type(self, s):
        t = self.types.get(s)
        if t is None:
            # force interning
            for tu in self.tus:
                for i, r in enumerate(tu.raw):
                    if r['s'] == s:
                        return tu.ty(i)
            raise ExtractError('type not found: %s' % s)
        return t

    def rec(self, ty):
        """(tu, record) for a record type"""
        return self.records.get(ty.id)

    def allfields(self, ty):
        """flattened [(name, Ty, init-node, tu)] including bases"""
        c = getattr(self, '_af', None)
        if c is None:
            c = self._af = {}
        if ty.id in c:
            return c[ty.id]
        tr = self.rec(ty)
        res = []
        if tr:
            tu, r = tr
            for b in r.get('b', []):
                bt = tu.ty(b)
                if not bt.n.startswith('std::'):
                    res += self.allfields(bt)
            for f in r.get('f', []):
                res.append((f['n'], tu.ty(f['t']), f.get('i'), tu))
        c[ty.id] = res
        return res

    def bases(self, ty):
        tr = self.rec(ty)
        out = []
        if tr:
            tu, r = tr
            for b in r.get('b', []):
                bt = tu.ty(b)
                out.append(bt)
                out += self.bases(bt)
        return out
