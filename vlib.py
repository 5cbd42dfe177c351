"""Shared machinery: generation, compilation (content-addressed cache), sharded execution, evidence."""
import hashlib, json, os, shutil, subprocess, sys, time, glob, struct, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(BUILD, 'cache')
PY = os.path.join(REPO, 'venv/bin/python')
NCPU = max(1, min(8, os.cpu_count() or 8))
SAN = ('-fsanitize=address,shift,integer-divide-by-zero,unreachable,return,signed-integer-overflow,bounds,bool,'
       'float-cast-overflow,pointer-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer').split()
T0 = time.time()


class Broken(Exception):
    """The code under test cannot be generated or compiled: a violation."""
    def __init__(self, what, log):
        super().__init__(what)
        self.what, self.log = what, log


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(struct.pack('<Q', len(p)))
        h.update(p)
    return h.hexdigest()[:32]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def tree_hash(root, pats=('*',)):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x != '__pycache__')
        for f in sorted(files):
            p = os.path.join(d, f)
            out += [os.path.relpath(p, root), read(p)]
    return sha(*out)


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)


def prepare_generator(dst):
    """Copy of the generator of the working tree with its options module."""
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, 'generator'), dst, ignore=shutil.ignore_patterns('__pycache__', 'embedded_proto_options_pb2.py'))
    r = run(['protoc', '-I', '.', '--python_out=EmbeddedProto', 'embedded_proto_options.proto'], cwd=dst)
    if r.returncode:
        raise Broken('the options of the generator cannot be compiled', r.stdout.decode(errors='replace'))
    plug = os.path.join(dst, 'plug')
    with open(plug, 'w') as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH=%s exec %s -c "from EmbeddedProto.main import main_plugin; main_plugin()"\n' % (dst, PY))
    os.chmod(plug, 0o755)
    return plug


def generate(protos, outdir, work):
    """Run protoc with the plugin of the working tree. Returns the descriptor set file."""
    plug = prepare_generator(os.path.join(work, 'gen'))
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    ds = os.path.join(work, 'ds')
    r = run(['protoc', '--plugin=protoc-gen-eams=' + plug, '-I' + os.path.join(VERIF, 'proto'), '-I' + os.path.join(work, 'gen'),
             '--eams_out=' + outdir, '--descriptor_set_out=' + ds, '--include_imports'] + protos)
    if r.returncode:
        raise Broken('the generator fails on the schemas of the harness', r.stdout.decode(errors='replace'))
    return ds


class Builder:
    def __init__(self, work):
        os.makedirs(CACHE, exist_ok=True)
        self.work = work
        self.pool = ThreadPoolExecutor(NCPU)
        self.libh = sha(*[read(p) for p in sorted(glob.glob(os.path.join(VERIF, 'lib', '*.h')))])
        self.srch = tree_hash(os.path.join(REPO, 'src'))
        self.genh = ''

    def set_generated(self, d):
        self.genh = tree_hash(d)

    def obj(self, src, flags, cc='g++', extra=''):
        """Future of an object file."""
        def work():
            key = sha(cc, ' '.join(flags), read(src), self.libh, self.srch, self.genh, extra)
            out = os.path.join(CACHE, key + '.o')
            if os.path.exists(out):
                os.utime(out)
                return out
            tmp = out + '.%d.%s.tmp.o' % (os.getpid(), os.path.basename(src))
            r = run([cc] + flags + ['-c', src, '-o', tmp])
            if r.returncode:
                raise Broken('%s does not compile' % os.path.basename(src), ' '.join([cc] + flags + [src]) + '\n' + r.stdout.decode(errors='replace'))
            os.replace(tmp, out)
            return out
        return self.pool.submit(work)

    def link(self, objs, out, flags, cc='g++', libs=()):
        r = run([cc] + flags + objs + ['-o', out] + list(libs))
        if r.returncode:
            raise Broken('harness does not link', r.stdout.decode(errors='replace'))


def prune_cache(limit=6 << 30):
    fs = sorted((os.stat(p).st_mtime, os.stat(p).st_size, p) for p in glob.glob(os.path.join(CACHE, '*')) if os.path.isfile(p))
    tot = sum(s for _, s, _ in fs)
    for m, s, p in fs:
        if tot <= limit:
            break
        os.unlink(p)
        tot -= s


FIRST = {'Scal', 'Rep', 'T2', 'Opt', 'One', 'T1', 'Opt70'}


WRAP = ['-Wl,--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'strdup', 'posix_memalign', 'aligned_alloc', 'asprintf', 'vasprintf')]


def build_harness(group, instances, defs=(), std='c++17', san=True):
    """Generate, compile and link the harness. Returns (binary, descriptor set)."""
    work = os.path.join(BUILD, 'w_%s_%d' % (group, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    b = Builder(work)
    inc = ['-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(REPO, 'src')]
    base = ['-std=' + std, '-D_GLIBCXX_ASSERTIONS', '-w'] + list(defs) + (SAN if san else []) + inc
    ds = ''
    futs = []
    if instances is not None:
        out = os.path.join(work, 'out')
        protos = sorted(glob.glob(os.path.join(VERIF, 'proto', '*.proto')))
        ds = generate(protos, out, work)
        ad = os.path.join(work, 'ad')
        os.makedirs(ad)
        cfg = [x for x in json.load(open(os.path.join(VERIF, 'gen/instances.json'))) if (x['name'] in instances if instances else not x.get('extra'))]
        cf = os.path.join(work, 'inst.json')
        json.dump(cfg, open(cf, 'w'))
        r = run([PY, os.path.join(VERIF, 'gen/adapter.py'), ds, os.path.join(work, 'gen/EmbeddedProto'), ad, cf])
        if r.returncode:
            print(r.stdout.decode(errors='replace'))
            raise RuntimeError('adapter generation failed')
        b.set_generated(out)
        for x in sorted(cfg, key=lambda x: x['name'] not in FIRST):
            futs.append(b.obj(os.path.join(ad, 'inst_%s.cpp' % x['name']), ['-O1'] + base + ['-I' + out]))
    lib = lambda n: os.path.join(VERIF, 'lib', n)
    b2 = Builder(work)
    plain = ['-std=c++17', '-O2', '-w'] + inc
    for n in ['model.cpp', 'vals.cpp', 'menu.cpp'] + (['gorc.cpp'] if group == 'CODEC' else []):
        futs.append(b2.obj(lib(n), plain))
    for n in {'CODEC': ['p_codec.cpp'], 'OPS': ['p_seq.cpp', 'p_ops.cpp'], 'BUF': ['p_buf.cpp'], 'FIELD': [], 'ENV': ['p_env.cpp', 'p_ops.cpp', 'p_seq.cpp']}[group] + ['harness.cpp']:
        futs.append(b2.obj(lib(n), ['-O1'] + base))
    if group == 'FIELD':
        futs += [b2.obj(lib('p_field.cpp'), ['-O1', '-DPART=%d' % i] + base) for i in range(7)]
    futs.append(b2.obj(lib('main.cpp'), ['-O1', '-DGROUP_' + group] + base))
    for p in sorted(glob.glob(os.path.join(REPO, 'src/*.cpp'))):
        futs.append(b2.obj(p, ['-O1'] + base))
    objs, err = [], None
    for f in futs:
        try:
            objs.append(f.result())
        except Broken as e:
            err = err or e
    if err:
        shutil.rmtree(work, ignore_errors=True)
        raise err
    exe = os.path.join(work, 'harness')
    b.link(objs, exe, (SAN if san else []) + (WRAP if group == 'ENV' else []) + ['-no-pie'], libs=['-lprotobuf'] if group == 'CODEC' else [])
    prune_cache()
    return exe, ds, work


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:quarantine_size_mb=8:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=0')


def explore(exe, ds, prop, tier, work, shards=NCPU, timeout=3600):
    """Run all shards. Returns (fails, merged stats)."""
    procs = []
    for i in range(shards):
        of = open(os.path.join(work, 'shard%d.log' % i), 'wb')
        cmd = [exe, '--prop', prop, '--tier', tier, '--shard', '%d/%d' % (i, shards), '--hashfile', os.path.join(work, 'h%d' % i)] + (['--ds', ds] if ds else [])
        procs.append((subprocess.Popen(cmd, stdout=of, stderr=subprocess.STDOUT, env=ENV), of, cmd))
    fails, stats = [], []
    deadline = time.time() + timeout
    for i, (p, of, cmd) in enumerate(procs):
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            for q, _, _ in procs:
                q.kill()
            raise RuntimeError('exploration exceeds its time limit')
        of.close()
        out = read(of.name).decode(errors='replace')
        f = [l for l in out.splitlines() if l.startswith('FAIL ')]
        st = [l for l in out.splitlines() if l.startswith('STATS ')]
        if p.returncode == 0 and st and not f:
            stats.append(json.loads(st[0][6:]))
        elif f:
            fails.append((i, cmd, f[0], out[-6000:]))
        else:
            fails.append((i, cmd, None, 'exit code %s\n' % p.returncode + out[-6000:]))
    merged = {'evals': 0, 'transitions': 0, 'states': 0, 'traces': 0, 'stats': {}, 'samples': [], 'cases': 0}
    for s in stats:
        for k in ('evals', 'transitions', 'states', 'traces'):
            merged[k] += s[k]
        merged['cases'] = max(merged['cases'], s['cases'])
        for k, v in s['stats'].items():
            if k.startswith(('values_', 'alphabet', 'operations_', 'fields')):
                merged['stats'][k] = v
            elif k.startswith('depth_'):
                merged['stats'][k] = max(v, merged['stats'].get(k, 0))
            else:
                merged['stats'][k] = merged['stats'].get(k, 0) + v
        merged['samples'] += s['samples'][:3]
    merged['distinct'] = distinct([os.path.join(work, 'h%d' % i) for i in range(shards)])
    return fails, merged


def distinct(files):
    """Number of distinct 64 bit hashes over all files."""
    import array
    parts = [[] for _ in range(1)]
    seen = set()
    tot = 0
    data = []
    for f in files:
        if os.path.exists(f):
            a = array.array('Q')
            a.frombytes(read(f))
            data.append(a)
    # bucket by the top bits to bound memory
    n = sum(len(a) for a in data)
    if n == 0:
        return 0
    r = subprocess.run(['python3-vt', '-c',
                        'import numpy,sys\nx=numpy.concatenate([numpy.fromfile(f,dtype="u8") for f in sys.argv[1:]])\nprint(len(numpy.unique(x)))'] +
                       [f for f in files if os.path.exists(f)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    if r.returncode == 0:
        return int(r.stdout)
    for a in data:
        seen.update(a)
    return len(seen)


def replay_case(cmd, fail_line, extra=''):
    """Re-run one case alone. Returns (reproduced, output)."""
    m = re.match(r'FAIL case=(-?\d+)', fail_line or '')
    if not m or int(m.group(1)) < 0:
        return False, ''
    c = list(cmd)
    k = c.index('--shard')
    c[k + 1] = '0/1'
    h = c.index('--hashfile')
    del c[h:h + 2]
    c += ['--case', m.group(1)]
    r = run(c, env=ENV, timeout=800)
    out = r.stdout.decode(errors='replace')
    return any(l.startswith('FAIL ') for l in out.splitlines()), out


def write_evidence(prop, tier, level, coverage, assumptions, violations=0):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': coverage,
          'assumptions': assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': violations}
    p = os.path.join(d, prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


def save_replay(prop, text, n=0):
    d = os.path.join(BUILD, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.txt' % (prop, n))
    with open(p, 'w') as f:
        f.write(text)
    return p
