"""C17: enumerated schemas are generated, compiled, and every message is filled, written, read and compared with protobuf."""
from slib import *
import schemas as S


def check(tier, report):
    work = os.path.join(BUILD, 'w_C17_%d' % os.getpid())
    sc = Schemas(work)
    try:
        T = tier == 'thorough'
        cases = S.fam_fields(tier) + S.fam_names() + S.fam_shadow() + S.fam_files(tier) + S.fam_many(tier)
        g = [c for c in S.all_graphs(tier, 'g', lambda e: e == 'ok') if c['expect'] == 'ok']
        cases += g + [c for c in S.fam_wrap(tier) if c['expect'] == 'ok']
        log('%d schemas' % len(cases))
        sc.parse(cases)
        log('parsed')
        res = sc.plugin([dict(id=c['id'], ds=c['ds'], gen=c['gen']) for c in cases])
        viol = []
        inc = os.path.join(work, 'inc')
        ok = []
        for c in cases:
            r = res[c['id']]
            if r.get('crash') or r.get('error') or r.get('dup'):
                viol.append(('generation fails for schema %s: %s' % (c['id'], r.get('error') or 'crash'), describe(c)))
                continue
            want = sorted([os.path.splitext(f)[0] + '.h' for f in c['files']] + c.get('more', []))
            if sorted(r['files']) != want:
                viol.append(('schema %s gives the files %s' % (c['id'], sorted(r['files'])), describe(c)))
                continue
            for n, t in r['files'].items():
                p = os.path.join(inc, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as f:
                    f.write(t)
            c['headers'] = [os.path.splitext(f)[0] + '.h' for f in c['gen']]
            ok.append(c)
        log('generated')
        # identical text modulo the name of the case needs no second compilation
        uniq, seen = [], {}
        for c in ok:
            k = sha(*[re.sub(r'\b%s\b' % re.escape(c['id']), '@', re.sub(r'%s' % re.escape(c['id'].upper()), '@', t)) for n, t in sorted(res[c['id']]['files'].items())])
            if k in seen:
                continue
            seen[k] = c['id']
            uniq.append(c)
        log('%d distinct results' % len(uniq))
        # programs
        batches, cur, weight = [], [], 0
        for c in uniq:
            w = sum(len(t) for t in res[c['id']]['files'].values())
            if not c['pkg']:
                batches.append([c])
                continue
            cur.append(c)
            weight += w
            if weight > 450000:
                batches.append(cur)
                cur, weight = [], 0
        if cur:
            batches.append(cur)
        cfgs = [('g++', ['-std=c++11', '-O0'], True), ('clang++', ['-std=c++20', '-DMSG_TO_STRING', '-O0'], False)]
        if T:
            cfgs += [('g++', ['-std=c++20', '-O0', '-DMSG_TO_STRING'], True), ('clang++', ['-std=c++11', '-O0'], True), ('g++', ['-std=c++14', '-O1'], True), ('clang++', ['-std=c++17', '-O0'], False)]
        srcs = sorted(glob.glob(os.path.join(REPO, 'src/*.cpp')))
        incs = ['-I' + os.path.join(REPO, 'src'), '-I' + inc]
        lib = {}
        for ci, (cc, fl, runit) in enumerate(cfgs):
            if runit:
                objs = []
                for s in srcs:
                    o = os.path.join(work, 'l%d_%s.o' % (ci, os.path.basename(s)))
                    r = run([cc, '-w'] + fl + incs + ['-c', s, '-o', o])
                    if r.returncode:
                        raise Broken('%s does not compile' % os.path.basename(s), r.stdout.decode(errors='replace'))
                    objs.append(o)
                lib[ci] = objs
        log('%d programs' % len(batches))
        judged = [0]

        def program(job):
            bi, b, ci = job
            cc, fl, runit = cfgs[ci]
            base = os.path.join(work, 'p%d_%d' % (bi, ci))
            json.dump([dict(id=c['id'], ds=c['ds'], headers=c['headers'] if ci == 0 else c['headers'][::-1]) for c in (b if ci == 0 else b[::-1])], open(base + '.json', 'w'))
            r = run([PY, os.path.join(VERIF, 'gen/emit.py'), 'emit', os.path.join(work, 'gen/EmbeddedProto'), base + '.json', base + '.cpp', base + '.exp'])
            if r.returncode:
                raise RuntimeError('emit failed: ' + r.stdout.decode(errors='replace')[-3000:])
            if not runit:
                r = run([cc, '-w', '-fsyntax-only'] + fl + incs + [base + '.cpp'])
                return [] if r.returncode == 0 else [('does not compile with %s %s' % (cc, ' '.join(fl)), r.stdout.decode(errors='replace'))]
            r = run([cc, '-w'] + fl + incs + [base + '.cpp'] + lib[ci] + ['-o', base + '.exe'])
            if r.returncode:
                return [('does not compile with %s %s' % (cc, ' '.join(fl)), r.stdout.decode(errors='replace'))]
            with open(base + '.out', 'wb') as f:
                try:
                    rr = subprocess.run([base + '.exe'], stdout=f, stderr=subprocess.STDOUT, timeout=120)
                except subprocess.TimeoutExpired:
                    return [('the program does not end', '')]
            os.unlink(base + '.exe')
            r = run([PY, os.path.join(VERIF, 'gen/emit.py'), 'judge', os.path.join(work, 'gen/EmbeddedProto'), base + '.exp', base + '.out'])
            o = r.stdout.decode(errors='replace')
            if r.returncode:
                raise RuntimeError('judge failed: ' + o[-3000:])
            bad = [l for l in o.splitlines() if l.startswith('BAD')]
            m = re.search(r'JUDGED (\d+)', o)
            judged[0] += int(m.group(1)) if m else 0
            return [(bad[0], '\n'.join(bad[:20]))] if bad else []

        jobs = [(bi, b, ci) for bi, b in enumerate(batches) for ci in range(len(cfgs))]
        if not T:   # the second configuration on every third program
            jobs = [j for j in jobs if j[2] == 0 or j[0] % 3 == 0 or j[1][0]['fam'] in ('files', 'names')]
        with ThreadPoolExecutor(NCPU) as ex:
            for (bi, b, ci), v in zip(jobs, ex.map(program, jobs)):
                for what, text in v:
                    # narrow down to one schema
                    one = next((c for c in b if (c['id'] + '/') in text[:3000] or (c['id'] + ':') in what), b[0])
                    viol.append(('schema %s %s' % (one['id'], what), describe(one) + '\n' + text[:4000]))
        log('programs done')
        # every header alone, nothing else included before
        alone = [(c, h) for c in uniq for h in c['headers'] if c['fam'] in ('files', 'names', 'fields1', 'numbers') or T]
        alone += [(c, h) for i, c in enumerate(uniq) for h in c['headers'] if not T and c['fam'] not in ('files', 'names', 'fields1', 'numbers') and i % 12 == 0]

        def compile_alone(x):
            c, h = x
            src = os.path.join(work, 'alone_%s.cpp' % sha(h)[:12])
            with open(src, 'w') as f:
                f.write('#include "%s"\n#include "%s"\n' % (h, h))
            k = int(sha(h)[:4], 16) % 4
            cc, std = (('clang++', 'c++11'), ('g++', 'c++11'), ('clang++', 'c++17'), ('clang++', 'c++14'))[k]
            r = run([cc, '-std=' + std, '-w', '-fsyntax-only'] + incs + [src])
            os.unlink(src)
            return None if r.returncode == 0 else ('schema %s: header %s does not compile alone with %s -std=%s' % (c['id'], h, cc, std), describe(c) + '\n' + r.stdout.decode(errors='replace')[:4000])
        if not viol:
            with ThreadPoolExecutor(NCPU) as ex:
                for v in ex.map(compile_alone, alone):
                    if v:
                        viol.append(v)
        for w, t in viol[1:20]:
            log(w[:300])
        fams = {}
        for c in cases:
            fams[c['fam']] = fams.get(c['fam'], 0) + 1
        cov = {'evaluations': len(cases), 'distinct_nontrivial': len(uniq),
               'rule': 'one schema: all field forms alone, in ordered pairs and triples; all dependency graphs and all nestings of two and three messages; chains, stars and diamonds of three messages nested up to three levels deep; import graphs of three files with packages and folders; equal and similar names. '
                       'Each is generated; each distinct result is compiled, every message and oneof member is filled, written and decoded and compared with the protobuf of Python; distinct = distinct generated text',
               'families': fams, 'programs_built': len(jobs), 'messages_compared': judged[0], 'headers_compiled_alone': len(alone), 'exhaustive': True,
               'samples': [describe(uniq[i])[:700] for i in (0, len(uniq) // 2, len(uniq) - 1)] if uniq else ['(none)']}
        write_evidence('C17', tier, 'exploration', cov, ['the enumerated families represent the documented feature set', 'gcc 13 and clang 18; Python protobuf is right about the meaning of bytes'], len(viol))
        if viol:
            report('C17', tier, viol[0][0] + '\n' + viol[0][1], viol[0][0])
        if not uniq and not viol:
            raise RuntimeError('nothing was explored')
        return 1 if viol else 0
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
