"""Writes and tries a planted bug: seeded/<id>/{patch.diff,demo.cpp,demo.sh,meta.json}.  Works in the scratch copy /tmp/w."""
import os, subprocess, json, sys
W = '/tmp/w'
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
INCS = ['include', 'deps', 'deps/mio/single_include', 'deps/stduuid/include', 'deps/ghc', 'deps/jsoncpp', 'deps/cppcodec', 'deps/scheduler/include',
        'deps/reproc/reproc++/include', 'deps/bitcoin/include', 'deps/chachapoly', 'deps/rfc6234', 'src']


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def seed(id, prop, edits, demo, srcs, needs, breaks, check=True):
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    sh('git -C %s checkout -- .' % W)
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p, newline='').read()
        crlf = '\r\n' in s
        if crlf:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w', newline='').write(s.replace(old, new))
    open(os.path.join(d, 'patch.diff'), 'w', newline='').write(subprocess.run(['git', '-C', W, 'diff'], capture_output=True).stdout.decode())
    open(os.path.join(d, 'demo.cpp'), 'w').write('#include <cstdio>\n#include <cstdlib>\n#define CHECK(x) do { if (!(x)) { std::printf("broken: %s (line %d)\\n", #x, __LINE__); std::exit(1); } } while (0)\n' + demo)
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# compiles the demonstration with the sources of the tree it is run in
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
objs=
for f in "$d/demo.cpp" %s; do
  case $f in *.c) c="gcc -O1 -w";; *) c="g++ -std=c++17 -O1 -w -include cstdint -DFMT_HEADER_ONLY=1 -DNDEBUG -fpermissive -fno-access-control";; esac
  o=$t/$(echo "$f" | md5sum | cut -c1-12).o
  $c %s -c "$f" -o "$o" &
  objs="$objs $o"
done
wait
g++ $objs -o "$t/demo" -Wl,--allow-multiple-definition -Wl,--start-group bin/Release/*.a -Wl,--end-group -lsodium -luuid -lroaring -ldl -Wl,--unresolved-symbols=ignore-all -no-pie -lpthread || exit 4
cd "$t" && timeout 120 ./demo
''' % (' '.join(srcs), ' '.join('-I' + i for i in INCS)))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    b = sh('bash %s/demo.sh' % d, cwd=W)
    sh('git -C %s checkout -- .' % W)
    a = sh('bash %s/demo.sh' % d, cwd=W)
    print(id, 'clean rc', a.returncode, (a.stdout + a.stderr)[-300:].strip(), '| patched rc', b.returncode, (b.stdout + b.stderr)[-200:].strip())
    if check:
        sh('git -C %s apply %s/patch.diff' % (W, d))
        c = sh('cd %s && VC_REPO=%s ./check %s quick' % (os.path.dirname(OUT), W, prop))
        print('   check rc', c.returncode, '\n   '.join(c.stdout.strip().split('\n')[-4:]))
        sh('git -C %s checkout -- .' % W)
