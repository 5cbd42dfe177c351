"""C21: schemas that cannot be supported are refused, all others are not, and the generated text depends on the schema alone."""
from slib import *
import itertools
import schemas as S


def cycles(tier):
    """Cycles of 4 and 5 messages in every declaration order, with bystanders; cycles through nested messages and map entries."""
    out = []

    def add(files, gen=None, expect='cycle', fam='cycles'):
        cid = 'y%d' % len(out)
        fs = {k.replace('@', cid): v.replace('@', cid) for k, v in files.items()}
        out.append(dict(id=cid, fam=fam, files=fs, gen=[g.replace('@', cid) for g in gen] if gen else list(fs), pkg=True, expect=expect))
    labs = ['plain', 'repeated', 'one:o', 'optional']
    for n in (4, 5) if tier == 'thorough' else (4,):
        for perm in itertools.permutations(range(n)):
            for extra in (0, 1, 2):
                # node i uses node i + 1; declared in the order of perm; bystanders use and are used by the cycle
                ms = {i: S.Msg('M%d' % i, [('plain', 'uint32', 0), (labs[(i + extra) % 4], 'M%d' % ((i + 1) % n), 0)]) for i in range(n)}
                body = [ms[i].text() for i in perm]
                if extra == 1:
                    body = ['message Leaf { uint32 a = 1; }'] + body + ['message User { M0 a = 1; Leaf l = 2; }']
                if extra == 2:
                    ms[perm[0]].fields.append(('plain', 'Leaf', 0))
                    body = ['message User { M0 a = 1; Leaf l = 2; string s = 3; }'] + [ms[i].text() for i in perm] + ['message Leaf { string a = 1; }']
                add({'@/a.proto': S.proto('@', '\n'.join(body))})
    for body in ('message A { map<uint32, B> m = 1; }\nmessage B { A a = 1; }\n', 'message A { map<string, A> m = 1; }\n',
                 'message A { message I { B b = 1; } I i = 1; }\nmessage B { A a = 1; }\n', 'message A { message I { B b = 1; } }\nmessage B { A a = 1; }\n',
                 'message A { message I { message J { A a = 1; } J j = 1; } I i = 1; }\n', 'message A { message I { B.K b = 1; } }\nmessage B { message K { A a = 1; } }\n',
                 'message A { oneof o { B b = 1; uint32 c = 2; } }\nmessage B { oneof o { A a = 1; uint32 c = 2; } }\n'):
        add({'@/a.proto': S.proto('@', body)})
        add({'@/a.proto': S.proto('', body)})
    # the cycle is in an imported file, or in the last of several files
    cyc = 'message A { B b = 1; }\nmessage B { repeated A a = 1; }\n'
    ok = 'message Fine { uint32 a = 1; }\n'
    add({'@/a.proto': S.proto('@', cyc), '@/b.proto': S.proto('@', 'message U { A a = 1; }', ['@/a.proto'])}, gen=['@/b.proto'])
    add({'@/a.proto': S.proto('@', cyc), '@/b.proto': S.proto('@', ok, ['@/a.proto'])}, gen=['@/b.proto'])
    add({'@/a.proto': S.proto('@', cyc), '@/b.proto': S.proto('@', ok)})
    add({'@/a.proto': S.proto('@', ok), '@/b.proto': S.proto('@', cyc)})
    add({'@/a.proto': S.proto('@', ok), '@/b.proto': S.proto('@', cyc, ['@/a.proto'])})
    return out


def proto2s():
    out = []

    def add(files, gen=None, expect='proto2'):
        cid = 't%d' % len(out)
        fs = {k.replace('@', cid): v.replace('@', cid) for k, v in files.items()}
        out.append(dict(id=cid, fam='proto2', files=fs, gen=[g.replace('@', cid) for g in gen] if gen else list(fs), pkg=True, expect=expect))
    bodies = ['message M { optional uint32 a = 1; }', 'message M { required uint32 a = 1; }', 'message M { optional uint32 a = 1 [default = 4]; }', 'message M { repeated uint32 a = 1; }', 'message M {}', 'enum E { A = 1; B = 0; }', '',
              'message M { optional group G = 1 { optional uint32 a = 1; } }', 'message M { extensions 100 to 199; } extend M { optional uint32 x = 100; }', 'message M { message N { optional string s = 1; } optional N n = 1; enum E { Z = 0; } optional E e = 2; }']
    for head in ('syntax = "proto2";\n', ''):
        for b in bodies:
            for pkg in ('package @;\n', ''):
                add({'@/a.proto': head + pkg + b + '\n'})
        m = head + 'package @;\nmessage M { optional uint32 a = 1; }\n'
        three = 'syntax = "proto3";\npackage @;\nmessage T { uint32 a = 1; }\n'
        imp = 'syntax = "proto3";\nimport "@/a.proto";\npackage @;\nmessage T { uint32 a = 1; M m = 2; }\n'
        add({'@/a.proto': m, '@/b.proto': three})
        add({'@/b.proto': three, '@/c.proto': m})
        add({'@/a.proto': m, '@/b.proto': imp})
        add({'@/a.proto': m, '@/b.proto': imp}, gen=['@/b.proto'])
        add({'@/a.proto': m, '@/b.proto': imp.replace(' M m = 2;', '')}, gen=['@/b.proto'])
    return out


def topological(files, deps):
    """All orders in which every file comes after the files it imports."""
    for p in itertools.permutations(files):
        pos = {f: i for i, f in enumerate(p)}
        if all(pos[d] < pos[f] for f in files for d in deps.get(f, ()) if d in pos):
            yield list(p)


def check(tier, report):
    T = tier == 'thorough'
    work = os.path.join(BUILD, 'w_C21_%d' % os.getpid())
    sc = Schemas(work)
    viol = []
    try:
        graphs = list(S.all_graphs(tier, 'g', lambda e: True))
        fields, names, files, shadow = S.fam_fields(tier), S.fam_names(), S.fam_files(tier), S.fam_shadow()
        if not T:   # acyclic schemas of these families are all generated by C17
            k = 0
            sel = []
            for c in graphs:
                if c['expect'] == 'ok':
                    k += 1
                    if k % 4:
                        continue
                sel.append(c)
            graphs = sel
        cyc, p2 = cycles(tier), proto2s()
        cases = graphs + fields + names + files + shadow + S.fam_many(tier) + [c for c in S.fam_wrap(tier) if c['expect'] == 'ok'] + cyc + p2
        log('%d schemas' % len(cases))
        sc.parse(cases)
        log('parsed')
        res = sc.plugin([dict(id=c['id'], ds=c['ds'], gen=c['gen']) for c in cases])
        log('generated')
        verdict = {}
        refused = []
        for c in cases:
            r = res[c['id']]
            exp = c.get('expect', 'ok')
            if r.get('crash'):
                viol.append(('the generator crashes on schema %s (%s)' % (c['id'], exp), describe(c)))
                continue
            err = r['error']
            verdict[exp] = verdict.get(exp, 0) + 1
            if exp in ('cycle', 'proto2'):
                if not err.strip():
                    viol.append(('schema %s (%s) is not refused' % (c['id'], {'cycle': 'circular dependency', 'proto2': 'proto2'}[exp]), describe(c)))
                refused.append(c)
            elif exp == 'ok':
                if err:
                    viol.append(('schema %s is refused: %s' % (c['id'], err), describe(c)))
                elif not r['files']:
                    viol.append(('schema %s gives no files' % c['id'], describe(c)))
            elif not err and not r['files']:
                viol.append(('schema %s gives neither files nor an error' % c['id'], describe(c)))
        # the text depends on the schema alone
        det = [c for c in cases if c.get('expect', 'ok') in ('ok', 'self') and not res[c['id']].get('crash') and not res[c['id']].get('error')]
        same = 0

        def compare(jobs, results, what):
            n = 0
            for j in jobs:
                r, ref = results[j['id']], res[j['case']]
                n += 1
                if r.get('crash') or r.get('error'):
                    viol.append(('schema %s: generation fails %s: %s' % (j['case'], what(j), r.get('error', 'crash')), ''))
                    continue
                for f, t in r['files'].items():
                    if f in ref['files'] and ref['files'][f] != t:
                        viol.append(('schema %s: the text of %s differs %s' % (j['case'], f, what(j)), t[:2000]))
                        break
                    if f not in ref['files'] and not j.get('more'):
                        viol.append(('schema %s: file %s appears only %s' % (j['case'], f, what(j)), ''))
                        break
                need = [os.path.splitext(g)[0] + '.h' for g in j['gen']]
                miss = [f for f in need if f not in r['files']]
                if miss:
                    viol.append(('schema %s: no file %s %s' % (j['case'], miss[0], what(j)), ''))
            return n
        if not viol:
            seeds = ['1', '2', '4242'] if not T else [str(s) for s in range(1, 9)] + ['4294967295', 'random']
            dd = [c for i, c in enumerate(det) if T or c['fam'] not in ('shadow', 'fields2', 'fields3', 'graph3', 'enum', 'chain4') or i % 11 == 0]
            for s in seeds:
                jobs = [dict(id=c['id'], case=c['id'], ds=c['ds'], gen=c['gen']) for c in dd]
                same += compare(jobs, sc.plugin(jobs, seed=s), lambda j: 'with PYTHONHASHSEED=%s' % s)
            log('seeds done')
        orders = 0
        if not viol:
            jobs = []
            for c in files:
                if res[c['id']].get('error'):
                    continue
                deps = {}
                for f, t in c['files'].items():
                    deps[f] = re.findall(r'import (?:public )?"([^"]+)"', t)
                std = ['google/protobuf/descriptor.proto', 'embedded_proto_options.proto']
                fs = list(c['files'])
                # subsets of the files, in every order on the command line and every order protoc may use
                for n in range(1, len(fs) + 1):
                    for sub in itertools.permutations(fs, n):
                        need = set(sub)
                        while True:
                            more = {d for f in need for d in deps[f] if d in c['files']} - need
                            if not more:
                                break
                            need |= more
                        for o in topological([f for f in fs if f in need], deps):
                            jobs.append(dict(id='%s/%d' % (c['id'], len(jobs)), case=c['id'], ds=c['ds'], gen=list(sub), order=std + o))
            if not T:
                jobs = [j for i, j in enumerate(jobs) if i % 3 == 0 or len(j['gen']) == 1]
            orders = compare(jobs, sc.plugin(jobs), lambda j: 'for the files %s in the order %s' % (j['gen'], j['order'][2:]))
            log('orders done')
        # the complete tool chain
        ends = 0
        if not viol:
            plug = sc.plug
            sample = [c for c in refused if c['fam'] in ('cycles', 'proto2')][::1 if T else 9] + [c for c in refused if c['fam'] in ('graph2', 'graph3')][::7 if T else 60]
            sample += [c for c in det if c['fam'] in ('names', 'files')][::1 if T else 6]

            def endtoend(c):
                out = os.path.join(work, 'o_' + c['id'])
                os.makedirs(out)
                r = run(['protoc', '--plugin=protoc-gen-eams=' + plug, '-I' + c['root'], '-I' + os.path.join(work, 'gen'), '--eams_out=' + out] + c['gen'])
                o = r.stdout.decode(errors='replace')
                got = {os.path.relpath(os.path.join(d, f), out): open(os.path.join(d, f)).read() for d, _, fs in os.walk(out) for f in fs}
                shutil.rmtree(out)
                if c.get('expect', 'ok') in ('cycle', 'proto2'):
                    if r.returncode == 0 or got or not o.strip():
                        return ('protoc with the plugin accepts schema %s (status %d, files %s)' % (c['id'], r.returncode, sorted(got)), describe(c) + o)
                else:
                    if r.returncode:
                        return ('protoc with the plugin fails on schema %s' % c['id'], describe(c) + o)
                    if got != res[c['id']]['files']:
                        return ('protoc with the plugin gives other files for schema %s' % c['id'], describe(c) + o)
                return None
            with ThreadPoolExecutor(NCPU) as ex:
                for v in ex.map(endtoend, sample):
                    ends += 1
                    if v:
                        viol.append(v)
            log('end to end done')
        for w, t in viol[1:20]:
            log(w[:300])
        cov = {'evaluations': len(cases) + same + orders + ends, 'distinct_nontrivial': len({sha(*[re.sub(r'(?i)\b%s\b' % re.escape(c['id']), '@', t) for t in c['files'].values()]) for c in cases}),
               'rule': 'one request to the plugin. Schemas: all directed graphs with all nestings over two and three messages, all declaration orders of cycles of four (thorough five), import graphs of three files, proto2 files direct and imported; '
                       'the verdict of the plugin is compared with an independent classification; distinct = distinct schema texts',
               'verdicts': verdict, 'hash_seed_comparisons': same, 'subset_and_order_comparisons': orders, 'complete_protoc_runs': ends, 'exhaustive': True,
               'samples': [describe(c)[:500] for c in (cyc[0], cyc[-1], p2[0], graphs[len(graphs) // 2])]}
        write_evidence('C21', tier, 'exploration', cov, ['a direct self reference is left out with a compile time warning and use of a definition nested in a templated message is refused by design, both are not judged', 'Python 3.12, protoc 3.21'], len(viol))
        if viol:
            report('C21', tier, viol[0][0] + '\n' + viol[0][1], viol[0][0])
        return 1 if viol else 0
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
