"""Scratch tree + extraction.

prepare() copies the analysed part of /repo's *working tree* (git-tracked and
untracked-but-not-ignored files; no ignored, possibly stale, build product is
ever read) to a scratch directory, regenerates the build-time generated sources
there the way the project's CMake does (configure_file substitutions,
hdf5_back_gen.py, dbtypes_gen.py, cycpp.py, Cython headers), runs the cycx
front-end extractor over every translation unit and returns the merged facts.

Results are cached in $CYCSA_CACHE (default sa/cache, not committed) keyed by a
digest of every consulted input (sources, extractor, this file), so a second
check on the same tree does not parse it again.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('CYCSA_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
SA = os.path.dirname(HERE)
CACHE = os.environ.get('CYCSA_CACHE', SA + '/cache')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable

FLAGS = ('-w -include {weak} -std=c++17 -DNDEBUG -DCYCLUS_WITH_PYTHON '
         '-DHDF_NO_NAMESPACE -DNO_STATIC_CAST -DOLD_HEADER_FILENAME -DBOOST_VERSION_MINOR=83 '
         '-I{w}/agents_gen -I{w}/src -I/usr/include/hdf5/serial -I/usr/include/coin '
         '-I/usr/lib/python3/dist-packages/numpy/core/include '
         '-isystem /usr/include/python3.12 -isystem /usr/include/libxml2 '
         '-isystem /usr/include/libxml++-2.6 -isystem /usr/lib/x86_64-linux-gnu/libxml++-2.6/include '
         '-isystem /usr/include/glibmm-2.4 -isystem /usr/lib/x86_64-linux-gnu/glibmm-2.4/include '
         '-isystem /usr/include/glib-2.0 -isystem /usr/lib/x86_64-linux-gnu/glib-2.0/include '
         '-isystem /usr/include/sigc++-2.0 -isystem /usr/lib/x86_64-linux-gnu/sigc++-2.0/include '
         '-resource-dir /usr/lib/llvm-18/lib/clang/18')

TOPDIRS = ('src', 'agents', 'cli', 'share', 'cyclus')
# third-party code vendored in src/: not the subject of any property
VENDORED = ('src/pyne.cc', 'src/pyne.h', 'src/prettyprint.hpp', 'src/any.hpp', 'src/cram.hpp',
            'src/OsiCbcSolverInterface.cpp', 'src/OsiCbcSolverInterface_2_10.cpp',
            'src/OsiCbcSolverInterface.hpp', 'src/OsiCbcSolverInterface_2_10.hpp')


class AnalysisBroken(Exception):
    pass


class Failed(Exception):
    pass


def tree_files():
    out = subprocess.check_output(
        ['git', '-C', REPO, '-c', 'safe.directory=*', 'ls-files', '-co', '--exclude-standard', '--'] +
        list(TOPDIRS) + ['CMakeLists.txt'], text=True).split('\n')
    r = []
    for f in out:
        p = os.path.join(REPO, f)
        if f and os.path.isfile(p) and not f.startswith('share/webapp'):
            r.append(f)
    return sorted(set(r))


def digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        with open(os.path.join(REPO, f), 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for p in sorted(glob.glob(SA + '/extractor/*.cc') + glob.glob(SA + '/inst/*') + [os.path.abspath(__file__)]):
        with open(p, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:32]


def build_extractor():
    src = SA + '/extractor/cycx.cc'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    for d in (SA + '/bin', CACHE):
        p = '%s/cycx-%s' % (d, h)
        if os.path.exists(p):
            return p
    d = SA + '/bin'
    os.makedirs(d, exist_ok=True)
    out = '%s/cycx-%s' % (d, h)
    tmp = out + '.%d.tmp' % os.getpid()
    cmd = ['g++', '-O2', '-std=c++17', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM-18.so',
           '-Wl,-rpath,/usr/lib/llvm-18/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('extractor does not build:\n' + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


MEMO = os.environ.get('CYCSA_MEMO', CACHE)


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update((p if isinstance(p, bytes) else str(p).encode()) + b'\0')
    return h.hexdigest()[:32]


def memo(w, key, make):
    """text(s) a deterministic generator step produces, by digest of its inputs ({path below w: text})"""
    p = '%s/memo-%s.pkl' % (MEMO, key)
    try:
        with open(p, 'rb') as fh:
            d = pickle.load(fh)
        os.utime(p)
        return {k: v.replace('@W@', w) for k, v in d.items()}
    except Exception:
        pass
    d = make()
    os.makedirs(MEMO, exist_ok=True)
    tmp = '%s.%d.%s' % (p, os.getpid(), key[-4:])
    with open(tmp, 'wb') as fh:
        pickle.dump({k: v.replace(w, '@W@') for k, v in d.items()}, fh, protocol=4)
    os.replace(tmp, p)
    return d


def _subst(text, vals):
    return re.sub(r'@(\w+)@', lambda m: vals.get(m.group(1), ''), text)


def make_tree(w, files, genfail):
    for f in files:
        d = os.path.join(w, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, f), d)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8')
    env.pop('PYTHONPATH', None)
    cm = open(w + '/CMakeLists.txt').read()

    def cmv(name, dflt):
        m = re.search(r'SET\(%s\s+"?([^")]*)"?\)' % name, cm)
        return m.group(1) if m and '$' not in m.group(1) else dflt
    mv = re.search(r'PROJECT\(CYCLUS VERSION (\d+)\.(\d+)\.(\d+)\)', cm)
    ver = mv.groups() if mv else ('1', '6', '0')
    vals = {'CY_LARGE_INT': '2147483647', 'CY_LARGE_DOUBLE': cmv('CY_LARGE_DOUBLE', '1e299'),
            'CY_NEAR_ZERO': cmv('CY_NEAR_ZERO', '1e-08'),
            'cyclus_install_dir': '/opt/cyclus/install', 'cyclus_build_dir': '/repo/build',
            'default_allow_milps': 'true', 'suffix': '.so', 'dynamicloadlib': 'unix_helper_functions.h',
            'cyclus_has_coin': '1', 'cyclus_is_parallel': '0',
            'DATA_MODEL_VERSION': ver[0] + '.' + ver[1],
            'CMAKE_PROJECT_VERSION_MAJOR': ver[0], 'CMAKE_PROJECT_VERSION_MINOR': ver[1],
            'CMAKE_PROJECT_VERSION_PATCH': ver[2]}

    def run(cmd, **kw):
        r = subprocess.run(cmd, capture_output=True, text=True, env=env, **kw)
        if r.returncode:
            raise AnalysisBroken('generator failed: %s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
        return r.stdout
    if os.path.exists(w + '/share/dbtypes_gen.py'):
        vals['DBTYPES_JSON_ENTRIES'] = run([PY, w + '/share/dbtypes_gen.py', vals['DATA_MODEL_VERSION']])
        open(w + '/share/dbtypes.json', 'w').write(_subst(open(w + '/share/dbtypes.json.in').read(), vals))
    me = open(os.path.abspath(__file__), 'rb').read()

    def rd(*fs):
        return [f + ':' + _hash(open(w + '/' + f, 'rb').read()) for f in fs if os.path.exists(w + '/' + f)]
    jobs = {}
    gk = _hash(me, 'h5', rd('src/hdf5_back_gen.py', 'share/dbtypes.json', 'share/dbtypes_gen.py'))
    pk_ = _hash(me, 'cy', rd(*[f for f in files if f.endswith(('.pyx', '.pxd', '.pxi')) and f.startswith('src/')]))
    MS = ('VAL_TO_BUF_H', 'QUERY', 'CREATE', 'VL_DATASET', 'FILL_BUF', 'WRITE', 'VAL_TO_BUF', 'BUF_TO_VAL')
    CY = ('eventhooks', 'pyinfile', 'pymodule')

    def gen_h5():
        with cf.ThreadPoolExecutor(8) as ex:
            js = {m: ex.submit(run, [PY, w + '/src/hdf5_back_gen.py', m]) for m in MS}
            return {m: j.result() for m, j in js.items()}

    def gen_cy():
        before = set(os.listdir(w + '/src'))
        with cf.ThreadPoolExecutor(8) as ex:
            for j in [ex.submit(run, [PY, '-m', 'cython', '--cplus', '-3', '-I' + w + '/src', '--output-file',
                                      w + '/src/%s.cxx' % n, w + '/src/%s.pyx' % n]) for n in CY]:
                j.result()
        return {f: open(w + '/src/' + f, encoding='utf-8').read() for f in set(os.listdir(w + '/src')) - before if not f.endswith('.cxx')}
    os.makedirs(w + '/agents_gen', exist_ok=True)
    with cf.ThreadPoolExecutor(2) as ex:
        j1, j2 = ex.submit(memo, w, gk, gen_h5), ex.submit(memo, w, pk_, gen_cy)
        for m, t in j1.result().items():
            vals['HDF5_BACK_CC_' + m] = t
        for f, t in j2.result().items():
            open(w + '/src/' + f, 'w', encoding='utf-8').write(t)
    os.makedirs(w + '/gen_cy', exist_ok=True)
    for n in ('eventhooks', 'pyinfile', 'pymodule'):
        if os.path.exists(w + '/src/%s.cxx' % n):
            os.remove(w + '/src/%s.cxx' % n)
    for f in glob.glob(w + '/src/*.in'):
        open(f[:-3], 'w').write(_subst(open(f).read(), vals))
    if os.path.exists(w + '/cyclus/system.py.in'):
        open(w + '/cyclus/system.py', 'w').write(_subst(open(w + '/cyclus/system.py.in').read(), vals))
    os.makedirs(w + '/build', exist_ok=True)   # cli/sidecar.py opens ../cyclus/system.py
    # archetypes through the project's own preprocessor
    hk = rd(*sorted(os.path.relpath(p, w) for p in glob.glob(w + '/src/**/*.h', recursive=True) + glob.glob(w + '/agents/*.h')))
    hk += rd('cli/cycpp.py', 'cyclus/system.py', 'share/dbtypes.json')

    def cycpp(src, dst):
        t = memo(w, _hash(me, 'pp', hk, dst.replace(w, ''), open(src, 'rb').read()), lambda: cycpp_(src, dst))
        open(dst, 'w', encoding='utf-8').write(t['t'])

    def cycpp_(src, dst):
        cycpp__(src, dst)
        return {'t': open(dst, encoding='utf-8').read()}

    def cycpp__(src, dst):
        run([PY, w + '/cli/cycpp.py', src, '--cpp-path=cpp', '-o=' + dst, '--pass3-use-orig',
             '-I=:%s/src:/usr/include/hdf5/serial:/usr/include/libxml++-2.6:/usr/lib/x86_64-linux-gnu/libxml++-2.6/include:'
             '/usr/include/glibmm-2.4:/usr/lib/x86_64-linux-gnu/glibmm-2.4/include:/usr/include/glib-2.0:'
             '/usr/lib/x86_64-linux-gnu/glib-2.0/include:/usr/include/libxml2' % w], cwd=w + '/build')
    ins = [f for f in files if f.startswith('agents/') and f.endswith(('.cc', '.h')) and '_tests' not in f]
    with cf.ThreadPoolExecutor(8) as ex:
        js = [ex.submit(cycpp, w + '/' + f, w + '/agents_gen/' + os.path.basename(f)) for f in ins]
        def fixture(p):
            # an archetype of the analysis: that the preprocessor handles it is an obligation (C29), not a precondition
            d = w + '/agents_gen/' + os.path.basename(p).replace('.cycpp', '')
            try:
                cycpp(p, d)
            except AnalysisBroken as e:
                open(d, 'w').close()
                genfail.append(str(e)[-1500:])
        for p in sorted(glob.glob(SA + '/inst/*.cycpp.h')):
            js.append(ex.submit(fixture, p))
        for j in js:
            j.result()
    for p in sorted(glob.glob(SA + '/inst/*.cc')):
        shutil.copyfile(p, w + '/agents_gen/' + os.path.basename(p))
    weak = '/opt/cyclus/cmake/missing_weak.h'
    if not os.path.exists(weak):
        weak = w + '/weak.h'
        open(weak, 'w').close()
    return FLAGS.format(w=w, weak=weak).split()


def extract(w, files, flags, tool, genfail):
    roots = ':'.join([w + '/src/', w + '/agents_gen/', w + '/cli/'])
    units = [f for f in files if f.startswith('src/') and f.endswith('.cc') and f not in VENDORED]
    units += ['src/hdf5_back.cc', 'src/env.cc', 'src/version.cc']
    units = sorted(set(u for u in units if os.path.exists(w + '/' + u)))
    inst = sorted('agents_gen/' + os.path.basename(p) for p in glob.glob(SA + '/inst/*.cc'))
    ag = sorted(os.path.relpath(p, w) for p in glob.glob(w + '/agents_gen/*.cc'))
    ag = [a for a in ag if a not in inst]
    cli = ['cli/cyclus.cc'] if os.path.exists(w + '/cli/cyclus.cc') else []
    n = 8
    groups = [[] for _ in range(n)]
    heavy = ['src/hdf5_back.cc']
    rest = [u for u in units if u not in heavy]
    groups[0] = list(heavy)
    for i, u in enumerate(rest):
        groups[1 + i % (n - 1)].append(u)
    groups[0] += ag[:2]
    for i, u in enumerate(ag[2:]):
        groups[1 + i % (n - 1)].append(u)
    alone = cli
    os.makedirs(w + '/unity', exist_ok=True)
    os.makedirs(w + '/out', exist_ok=True)

    hdr = []
    for d in ('src', 'agents_gen', 'cli'):
        for p in sorted(glob.glob(w + '/' + d + '/**/*', recursive=True)):
            if p.endswith(('.h', '.hpp', '.in')) and not p.endswith('.cc.in'):
                hdr.append(os.path.relpath(p, w) + ':' + _hash(open(p, 'rb').read().replace(w.encode(), b'@W@')))
    hk = _hash(hdr, ' '.join(flags).replace(w, '@W@'), os.path.basename(tool), open(os.path.abspath(__file__), 'rb').read())

    def one(name, path, tolerant=False):
        src = open(path, 'rb').read()
        for u in re.findall(rb'^#include "(%s/[^"]*)"' % re.escape(w.encode()), src, re.M):
            src += b'\0' + open(u.decode(), 'rb').read()
        out = w + '/out/%s.json' % name
        try:
            d = memo(w, _hash('x', hk, name, src.replace(w.encode(), b'@W@')), lambda: one_(name, path, tolerant))
        except Failed as ex:
            return None, ex.args[0]
        if not os.path.exists(out):
            open(out, 'w', encoding='utf-8').write(d['t'])
        return out, d['err']

    def one_(name, path, tolerant):
        o, err = one__(name, path, tolerant)
        if not o:
            raise Failed(err)
        return {'t': open(o, encoding='utf-8').read(), 'err': err}

    def one__(name, path, tolerant):
        out = w + '/out/%s.json' % name
        r = subprocess.run([tool, out, roots, path, '--'] + flags + ['-ferror-limit=0'], capture_output=True, text=True, cwd=w)
        if not os.path.exists(out) or (r.returncode and not tolerant):
            return None, r.stderr[-4000:]
        return out, r.stderr[:3000] if r.returncode else ''

    def group(i, us):
        p = w + '/unity/u%s.cc' % i
        with open(p, 'w') as fh:
            for u in us:
                fh.write('#include "%s/%s"\n' % (w, u))
        o, err = one('u%s' % i, p)
        if o:
            return [o]
        outs = []
        for u in us:
            o, err = one(u.replace('/', '_'), w + '/' + u)
            if not o:
                raise AnalysisBroken('%s does not parse:\n%s' % (u, err))
            outs.append(o)
        return outs
    outs = []
    with cf.ThreadPoolExecutor(8) as ex:
        js = [ex.submit(group, i, g) for i, g in enumerate(groups) if g]
        js += [ex.submit(group, 'c%d' % i, [u]) for i, u in enumerate(alone)]
        # explicit instantiations: a member that does not instantiate (dead code in
        # the tree) is reported by the front end and skipped
        ji = [ex.submit(one, 'i%d' % i, w + '/' + u, True) for i, u in enumerate(inst)]
        for j in js:
            outs += j.result()
        for u, j in zip(inst, ji):
            o, err = j.result()
            if o and err and os.path.exists(SA + '/inst/' + os.path.basename(u)[:-3] + '.cycpp.h'):
                genfail.append('%s: the generated code does not compile:\n%s' % (u, err.replace(w + '/', '')))
            if not o:
                raise AnalysisBroken('instantiation unit does not parse:\n' + err)
            outs.append(o)
    return outs, units + ag + cli


def merge(w, outs, units):
    facts = {'functions': {}, 'records': {}, 'enums': {}, 'globals': {}, 'units': units}

    def rel(p):
        return p[len(w) + 1:] if p.startswith(w + '/') else p

    for o in outs:
        d = json.load(open(o))
        types = d['types']

        def res(x):
            # resolve interned types in place
            stack = [x]
            while stack:
                y = stack.pop()
                if isinstance(y, dict):
                    for k in ('t', 'ot', 'at', 'ct', 'st'):
                        v = y.get(k)
                        if type(v) is int:
                            y[k] = types[v]
                    stack.extend(v for v in y.values() if isinstance(v, (dict, list)))
                elif isinstance(y, list):
                    stack.extend(v for v in y if isinstance(v, (dict, list)))
        for f in d['functions']:
            f['file'] = rel(f['file'])
            if f['file'] in VENDORED:
                continue
            f['key'] = f['key'].replace(w + '/', '')
            if f['key'] in facts['functions']:
                continue
            res(f)
            facts['functions'][f['key']] = f
        for r in d['records']:
            r['file'] = rel(r['file'])
            if r['file'] in VENDORED or r['n'] in facts['records']:
                continue
            res(r)
            facts['records'][r['n']] = r
        for e in d['enums']:
            e['file'] = rel(e['file'])
            facts['enums'].setdefault(e['n'], e)
        for g in d['globals']:
            g['file'] = rel(g['file'])
            if g['file'] in VENDORED:
                continue
            k = g['n']
            if k in facts['globals'] and not g.get('i'):
                continue
            res(g)
            facts['globals'][k] = g
    return facts


def load(verbose=False):
    """facts dict for the current /repo working tree (plus 'texts': the py/pyx sources)."""
    files = tree_files()
    if len(files) < 100:
        raise AnalysisBroken('only %d source files found under %s' % (len(files), REPO))
    dg = digest(files)
    os.makedirs(CACHE, exist_ok=True)
    pk = '%s/facts-%s.pkl' % (CACHE, dg)
    if os.path.exists(pk):
        try:
            with open(pk, 'rb') as fh:
                return pickle.load(fh)
        except Exception:
            pass
    tool = build_extractor()
    w = tempfile.mkdtemp(prefix='cycsa-')
    try:
        genfail = []
        flags = make_tree(w, files, genfail)
        outs, units = extract(w, files, flags, tool, genfail)
        facts = merge(w, outs, units)
        facts['genfail'] = genfail
        facts['digest'] = dg
        facts['files'] = files
        texts = {}
        for f in files:
            if f.endswith(('.py', '.pyx', '.pxd', '.in', '.h', '.cc', '.json')) or f.startswith('share/'):
                try:
                    texts[f] = open(os.path.join(w, f), encoding='utf-8').read()
                except (UnicodeDecodeError, FileNotFoundError):
                    pass
        for p in glob.glob(w + '/agents_gen/*') + [w + '/src/hdf5_back.cc', w + '/src/hdf5_back.h', w + '/share/dbtypes.json']:
            if os.path.exists(p):
                texts[os.path.relpath(p, w)] = open(p, encoding='utf-8').read()
        facts['texts'] = texts
    finally:
        if not os.environ.get('CYCSA_KEEP'):
            shutil.rmtree(w, ignore_errors=True)
        else:
            print('kept', w, file=sys.stderr)
    tmp = pk + '.%d' % os.getpid()
    with open(tmp, 'wb') as fh:
        pickle.dump(facts, fh, protocol=4)
    os.replace(tmp, pk)
    # keep the cache small
    def mt(p):
        try:
            return os.path.getmtime(p)
        except OSError:         # another run removed it meanwhile
            return 0
    olds = sorted(glob.glob(CACHE + '/facts-*.pkl'), key=mt)[:-6]
    olds += sorted(glob.glob(CACHE + '/memo-*.pkl'), key=mt)[:-400]
    for p in olds:
        try:
            os.remove(p)
        except OSError:
            pass
    return facts


if __name__ == '__main__':
    import time
    t = time.time()
    f = load()
    print('units %d functions %d records %d enums %d globals %d in %.1fs' % (
        len(f['units']), len(f['functions']), len(f['records']), len(f['enums']), len(f['globals']), time.time() - t))
