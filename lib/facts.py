"""Obtains the fact base: configures /repo into a scratch folder to get the real compile commands,
builds the extractor if needed, and parses every library translation unit of the current tree."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')


class Broken(Exception):
    """The analysis itself could not be carried out (neither pass nor violation)."""


def _sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


def build_tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    key = _sha([src])[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'extract-' + key)
    if os.path.exists(exe):
        return exe
    tmp = exe + '.%d.tmp' % os.getpid()
    cmd = ['clang++-18', '-O1', '-w', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
           '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken('extractor does not build: ' + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


def repo_sources(repo=REPO):
    out = []
    for base in ('FCollada', 'FColladaPlugins', 'cmake', 'CMakeLists.txt', 'FCollada/CMakeLists.txt'):
        p = os.path.join(repo, base)
        if os.path.isfile(p):
            out.append(p)
        for d, _, fs in os.walk(p):
            for f in fs:
                out.append(os.path.join(d, f))
    return sorted(set(out))


def compile_db(repo, scratch):
    b = os.path.join(scratch, 'cm')
    env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++', LANG='C.UTF-8')
    r = subprocess.run(['cmake', '-S', repo, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug', '-DBUILD_TESTING=ON',
                        '-DBUILD_DOCS=OFF', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'], capture_output=True, text=True, env=env)
    db = os.path.join(b, 'compile_commands.json')
    if r.returncode or not os.path.exists(db):
        raise Broken('cmake configure failed: ' + r.stderr[-2000:])
    import shlex
    units, flags = [], None
    for e in json.load(open(db)):
        if '/FCollada.dir/' not in e.get('output', e['command']):
            continue
        a = shlex.split(e['command'])[1:]
        fl, i = [], 0
        while i < len(a):
            t = a[i]
            if t in ('-o', '-c', '-MT', '-MF', '-MQ'):
                i += 2
                continue
            if t in ('-MD', '-g') or t.startswith('-f'):
                i += 1
                continue
            if t == '-isystem':
                fl += [t, a[i + 1]]
                i += 2
                continue
            if t.startswith('-'):
                fl.append(t)
            i += 1
        units.append((e['file'], tuple(fl)))
    return sorted(set(units))


def extract(repo=REPO, verbose=True):
    """Returns the parsed fact records for the current tree (cached on the content of every source)."""
    t0 = time.time()
    srcs = repo_sources(repo)
    key = hashlib.sha256((_sha(srcs) + _sha([os.path.join(VERIF, 'tool', 'extract.cpp'), os.path.abspath(__file__)]) + repo).encode()).hexdigest()[:20]
    os.makedirs(CACHE, exist_ok=True)
    cf = os.path.join(CACHE, 'facts-%s.jsonl' % key)
    if not os.path.exists(cf):
        exe = build_tool()
        scratch = tempfile.mkdtemp(prefix='vfacts')
        try:
            units = compile_db(repo, scratch)
            if len(units) < 100:
                raise Broken('only %d library translation units found' % len(units))
            groups = {}
            for f, fl in units:
                groups.setdefault(fl, []).append(f)
            jobs = []
            n = os.cpu_count() or 4
            for fl, fs in groups.items():
                fs = sorted(fs, key=lambda f: -os.path.getsize(f))
                k = max(1, min(n, len(fs)))
                for i in range(k):
                    jobs.append((fl, fs[i::k]))

            def run(ij):
                i, (fl, fs) = ij
                o = os.path.join(scratch, 'o%d' % i)
                r = subprocess.run([exe, repo, o] + fs + ['--', '-std=gnu++17', '-w', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-fsyntax-only'] + list(fl),
                                   capture_output=True, text=True)
                return o, r
            with ThreadPoolExecutor(n) as ex:
                res = list(ex.map(run, enumerate(jobs)))
            bad = [r for _, r in res if r.returncode]
            if bad:
                raise Broken('the tree does not parse: ' + bad[0].stderr[-3000:])
            seen = set()
            tmp = cf + '.%d.tmp' % os.getpid()
            with open(tmp, 'w') as out:
                for o, _ in res:
                    for line in open(o):
                        r = json.loads(line)
                        k = r['k'] + '|' + (r.get('id') or r['q']) + '|' + (r['file'] if r['k'] != 'fn' else '')
                        if r['k'] == 'enum':
                            k += str(r['l'])
                        if k in seen:
                            continue
                        seen.add(k)
                        out.write(line)
                out.write(json.dumps({'k': 'units', 'q': '', 'file': '', 'units': [os.path.relpath(f, repo) for f, _ in units]}) + '\n')
            for old in os.listdir(CACHE):
                if old.startswith('facts-') and old.endswith('.jsonl'):
                    p = os.path.join(CACHE, old)
                    if time.time() - os.path.getmtime(p) > 3600 * 6:
                        os.unlink(p)
            os.replace(tmp, cf)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    recs = []
    import gc
    gc.disable()
    for line in open(cf):
        recs.append(json.loads(line))
    gc.enable()
    gc.freeze()
    return recs


def witness(repo=REPO):
    """Fact records of tool/witness.cpp alone: the containers of the current tree, every member of them, for elements of their own.
    None if the witness no longer fits the tree."""
    src = os.path.join(VERIF, 'tool', 'witness.cpp')
    key = hashlib.sha256((_sha(repo_sources(repo)) + _sha([src, os.path.join(VERIF, 'tool', 'extract.cpp'), os.path.abspath(__file__)]) + repo).encode()).hexdigest()[:20]
    os.makedirs(CACHE, exist_ok=True)
    cf = os.path.join(CACHE, 'facts-w%s.jsonl' % key)
    if not os.path.exists(cf):
        exe = build_tool()
        scratch = tempfile.mkdtemp(prefix='vfacts')
        try:
            fl = next((fl for f, fl in compile_db(repo, scratch) if os.path.basename(f) == 'FUTracker.cpp'), None) or compile_db(repo, scratch)[0][1]
            o = os.path.join(scratch, 'w')
            r = subprocess.run([exe, repo, o, src, '--', '-std=gnu++17', '-w', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-fsyntax-only'] + list(fl), capture_output=True, text=True)
            if r.returncode:
                return None
            shutil.copy(o, cf + '.%d.tmp' % os.getpid())
            os.replace(cf + '.%d.tmp' % os.getpid(), cf)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return [json.loads(l) for l in open(cf)]


def variant(repo, base, drop=(), add=()):
    """Fact records of one source file of the tree compiled with other definitions than the build's.  None if it does not compile so."""
    key = hashlib.sha256((_sha(repo_sources(repo)) + _sha([os.path.join(VERIF, 'tool', 'extract.cpp'), os.path.abspath(__file__)]) + repo + base + repr((drop, add))).encode()).hexdigest()[:20]
    os.makedirs(CACHE, exist_ok=True)
    cf = os.path.join(CACHE, 'facts-v%s.jsonl' % key)
    if not os.path.exists(cf):
        exe = build_tool()
        scratch = tempfile.mkdtemp(prefix='vfacts')
        try:
            hit = next(((f, fl) for f, fl in compile_db(repo, scratch) if os.path.basename(f) == base), None)
            if hit is None:
                return None
            f, fl = hit
            fl = [x for x in fl if x not in drop] + list(add)
            o = os.path.join(scratch, 'w')
            r = subprocess.run([exe, repo, o, f, '--', '-std=gnu++17', '-w', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-fsyntax-only'] + fl, capture_output=True, text=True)
            if r.returncode:
                return None
            shutil.copy(o, cf + '.%d.tmp' % os.getpid())
            os.replace(cf + '.%d.tmp' % os.getpid(), cf)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return [json.loads(l) for l in open(cf)]
