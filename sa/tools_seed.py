#!/usr/bin/env python3
"""developer tool: write seeded/<id>/ from a module defining B = [(id, property, needs, breaks, [(file, old, new)], demo source)]
a demo source starting with '#!' is used as demo.sh itself; otherwise it is C++ built against the installed library"""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
SH = r'''#!/bin/bash
# builds demo.cc against the installed library and runs it in a scratch directory
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
I=/opt/cyclus/install
export HOME="$D" LC_ALL=C.UTF-8 PATH=/opt/venv/bin:$I/bin:/usr/sbin:/usr/bin:/sbin:/bin PYTHONPATH=$I/lib/python3/site-packages PYTHONDONTWRITEBYTECODE=1
g++ -std=c++17 -O0 -w -include /opt/cyclus/cmake/missing_weak.h -I$I/include/cyclus -I$I/include -I/repo/build/src -I/repo/src -I/repo/tests -I/repo/src/toolkit \
  -I/usr/include/hdf5/serial -I/usr/include/coin $(pkg-config --cflags libxml++-2.6) -I/usr/include/libxml2 \
  "$HERE/demo.cc" -o "$D/demo" -L$I/lib -lcyclus -Wl,-rpath,$I/lib -Wl,-rpath,$I/lib/cyclus -Wl,--allow-shlib-undefined \
  -lboost_system -lboost_filesystem -lboost_program_options -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lhdf5_hl -lsqlite3 \
  $(pkg-config --libs libxml++-2.6) || exit 3
cd "$D" && timeout 120 ./demo
'''
for id, prop, needs, breaks, edits, demo in runpy.run_path(sys.argv[1])['B']:
    if len(sys.argv) > 2 and id not in sys.argv[2:]:
        continue
    d = tempfile.mkdtemp(prefix='seed_', dir='/var/tmp')
    r = d + '/r'
    subprocess.run(['git', 'clone', '-q', '-s', '/repo', r], check=True)
    for f, old, new in edits:
        s = open(r + '/' + f).read()
        assert s.count(old) >= 1, (id, f, old)
        open(r + '/' + f, 'w').write(s.replace(old, new, 1))
    diff = subprocess.run(['git', '-C', r, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    o = OUT + '/' + id
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    if demo.startswith('#!'):
        open(o + '/demo.sh', 'w').write(demo)
    else:
        open(o + '/demo.sh', 'w').write(SH)
        open(o + '/demo.cc', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)
    print(id)
