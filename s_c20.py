"""C20: the same enumeration under a matrix of compilers, standards, optimization levels and options; everything observable is compared."""
from vlib import *

INST = ['MiniA', 'MiniB', 'MiniC', 'Opt', 'One', 'Scal', 'Rep', 'T1', 'C4', 'WithEmpty', 'Num0', 'NumO', 'Opt33']
QUICK_INST = ['MiniA', 'MiniB', 'MiniC', 'One', 'Scal', 'T0', 'C4', 'WithEmpty', 'NumO', 'Opt33', 'Num0']
T, U, N = '-DMSG_TO_STRING', '-funsigned-char', '-DNDEBUG'
QUICK = [('g++', 'c++17', '-O1', ()), ('g++', 'c++11', '-O0', ()), ('g++', 'c++14', '-O2', (T, N)), ('g++', 'c++20', '-O3', (T,)), ('g++', 'c++17', '-Os', (T, U)),
         ('clang++', 'c++11', '-O2', (T,)), ('clang++', 'c++14', '-O3', (N,)), ('clang++', 'c++17', '-O0', (T,)), ('clang++', 'c++20', '-O1', (U,))]
OPS = ['C09', 'C10', 'C11', 'C12', 'C14', 'C15', 'C08', 'C13']


def matrix(tier):
    if tier == 'quick':
        return QUICK
    res = [QUICK[0]]
    for cc in ('g++', 'clang++'):
        for std in ('c++11', 'c++14', 'c++17', 'c++20', 'c++23'):
            for o in ('-O0', '-O1', '-O2', '-O3', '-Os'):
                for d in ((), (T,), (T, U), (T, N)):
                    v = (cc, std, o, d)
                    if v not in res:
                        res.append(v)
    return res


def name(v):
    return '%s -std=%s %s %s' % (v[0], v[1], v[2], ' '.join(v[3]))


def check(tier, report):
    work = os.path.join(BUILD, 'w_C20_%d' % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        b = Builder(work)
        out = os.path.join(work, 'out')
        generate(sorted(glob.glob(os.path.join(VERIF, 'proto', '*.proto'))), out, work)
        ad = os.path.join(work, 'ad')
        os.makedirs(ad)
        inst = QUICK_INST if tier == 'quick' else INST
        cfg = [x for x in json.load(open(os.path.join(VERIF, 'gen/instances.json'))) if x['name'] in inst]
        json.dump(cfg, open(os.path.join(work, 'inst.json'), 'w'))
        r = run([PY, os.path.join(VERIF, 'gen/adapter.py'), os.path.join(work, 'ds'), os.path.join(work, 'gen/EmbeddedProto'), ad, os.path.join(work, 'inst.json')])
        if r.returncode:
            raise RuntimeError('adapter generation failed\n' + r.stdout.decode(errors='replace'))
        b.set_generated(out)
        inc = ['-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(REPO, 'src'), '-I' + out]
        lib = lambda n: os.path.join(VERIF, 'lib', n)
        vs = matrix(tier)
        log('compiling %d variants' % len(vs))
        # the parts without code under test are compiled once
        plain = [b.obj(lib(n), ['-std=c++17', '-O2', '-w'] + inc) for n in ('model.cpp', 'vals.cpp', 'menu.cpp')]
        viol = []
        res = {}

        def submit(v):
            fl = ['-std=' + v[1], v[2], '-w'] + list(v[3]) + inc
            fs = [b.obj(os.path.join(ad, 'inst_%s.cpp' % x['name']), fl, v[0]) for x in cfg]
            fs += [b.obj(p, fl, v[0]) for p in sorted(glob.glob(os.path.join(REPO, 'src/*.cpp')))]
            fs += [b.obj(lib(n), fl + (['-DGROUP_DIGEST'] if n == 'main.cpp' else []), v[0]) for n in ('harness.cpp', 'p_buf.cpp', 'p_ops.cpp', 'p_seq.cpp', 'p_codec.cpp', 'main.cpp')]
            return fs
        futs = {v: submit(v) for v in vs}
        exes = {}
        broken = {}
        for i, v in enumerate(vs):
            objs = []
            for f in futs[v] + plain:
                try:
                    objs.append(f.result())
                except Broken as e:
                    broken.setdefault(v, e)
            if v in broken:
                continue
            exe = os.path.join(work, 'v%d' % i)
            b.link(objs, exe, [], v[0])
            exes[v] = exe
        for v, e in broken.items():
            viol.append(('%s: %s' % (name(v), e.what), e.log[-3000:]))
        log('running')
        lite = 'lite' if tier == 'quick' else 'quick'

        def one(job):
            v, p = job
            r = run([exes[v], '--prop', p, '--tier', ('quick' if tier == 'quick' else 'thorough') if p == 'C20' else lite], env=ENV, timeout=5 * 3600 if tier != 'quick' else 700)
            o = r.stdout.decode(errors='replace')
            if r.returncode == 3:
                raise RuntimeError('exploration %s: %s' % (p, o[-500:]))
            fail = [l for l in o.splitlines() if l.startswith('FAIL ')]
            st = [l for l in o.splitlines() if l.startswith('STATS ')]
            dig = [l for l in o.splitlines() if l.startswith('DIGEST ')]
            return job, ('fail ' + fail[0] if fail else 'ok' if r.returncode == 0 and st else 'abnormal end, code %d' % r.returncode), dig, json.loads(st[0][6:]) if st else None, o[-3000:]
        jobs = [(v, p) for p in OPS + ['C20'] for v in vs if v in exes]
        ev, trans, samples, ndig = 0, 0, [], 0
        done = {}
        with ThreadPoolExecutor(NCPU) as ex:
            for job, outcome, dig, st, o in ex.map(one, jobs):
                done[job] = (outcome, dig, o)
                if st:
                    ev += st['evals']
                    trans += st['transitions']
                    if job[1] == 'C20' and not samples:
                        samples = st['samples'][:5]
        ref = next((v for v in vs if v in exes), None)
        per = {}
        for p in OPS + ['C20']:
            if ref is None:
                break
            ro, rd, rt = done[(ref, p)]
            for v in vs:
                if v not in exes or v == ref:
                    continue
                o, d, t = done[(v, p)]
                if (o == 'ok') != (ro == 'ok'):
                    a, bb = (v, t) if o != 'ok' else (ref, rt)
                    viol.append(('%s gives "%s", %s gives "%s" (exploration %s)' % (name(v), o[:300], name(ref), ro[:300], p), bb))
                elif d != rd:
                    k = next((i for i in range(max(len(d), len(rd))) if i >= len(d) or i >= len(rd) or d[i] != rd[i]), 0)
                    viol.append(('%s and %s differ: %s against %s' % (name(v), name(ref), d[k:k + 1], rd[k:k + 1]), t))
                else:
                    ndig += len(d)
        cov = {'evaluations': ev, 'distinct_nontrivial': ev // max(1, len(exes)),
               'rule': 'the enumeration of values and inputs of C01 and C04 (digest of bytes, sizes, decoded values, error codes per message) and the operation histories of C08 to C15 at reduced depth, repeated in each build variant; '
                       'every case of the reference variant is one distinct case, outcomes and digests of the other variants must be equal',
               'variants': [name(v) for v in vs], 'digest_blocks_compared': ndig, 'operation_steps': trans, 'messages': [x['name'] for x in cfg],
               'samples': (samples or ['(none)']) + [l for l in (done.get((ref, 'C20')) or ('', [], ''))[1][:6]]}
        write_evidence('C20', tier, 'exploration', cov, ['x86-64 Linux, gcc 13 and clang 18, 64 bit, little endian only', 'both compilers use libstdc++'], len(viol))
        for n, (line, text) in enumerate(viol[:1]):
            report('C20', tier, line + '\n' + text, line, n)
        if not viol and not ev:
            raise RuntimeError('nothing was explored')
        return 1 if viol else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
