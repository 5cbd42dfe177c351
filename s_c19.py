"""C19: complete sweeps of the 32 bit scalar types and structured families of the 64 bit types."""
import re
from vlib import *


def check(tier, report):
    work = os.path.join(BUILD, 'w_scalar_%d' % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        b = Builder(work)
        inc = ['-I' + os.path.join(REPO, 'src')]
        srcs = [os.path.join(VERIF, 'lib/p_scalar.cpp')] + sorted(glob.glob(os.path.join(REPO, 'src/*.cpp')))
        log('compiling')
        jobs = []
        for name, flags in (('san', ['-std=c++17', '-O1', '-w'] + SAN + inc), ('opt', ['-std=c++17', '-O2', '-w'] + inc)):
            jobs.append((name, flags, [b.obj(s, flags) for s in srcs]))
        exes = {}
        for name, flags, fs in jobs:
            exes[name] = os.path.join(work, name)
            b.link([f.result() for f in fs], exes[name], (SAN if name == 'san' else []) + ['-lpthread'])
        lines, fails = [], []
        for name, args in (('san', ['quick', 'nosweep']), ('opt', [tier])):
            log('running', name)
            r = run([exes[name]] + args, env=ENV, timeout=800 if tier == 'quick' else 6 * 3600)
            out = r.stdout.decode(errors='replace')
            if r.returncode:
                r2 = run([exes[name]] + args, env=ENV, timeout=800 if tier == 'quick' else 6 * 3600)
                if not r2.returncode:
                    raise RuntimeError('failure could not be replayed:\n' + out)
                fails.append((([l for l in out.splitlines() if l.startswith('FAIL')] or ['the sweep ends abnormally'])[0], out[-5000:], [name] + args))
                break
            lines += [(name, l.split()) for l in out.splitlines()]
        sweeps = {l[1]: int(l[2]) for n, l in lines if l[0] == 'SWEEP'}
        fam = {l[1]: int(l[2]) for n, l in lines if l[0] == 'FAMILY' and n == 'opt'}
        ev = sum(int(l[2]) for n, l in lines if l[0] in ('SWEEP', 'FAMILY'))
        # family members of the 32 bit types lie inside the sweeps
        dist = sum(sweeps.values()) + sum(v for k, v in fam.items() if k in ('fixed64', 'sfixed64', 'double', 'bool'))
        cov = {'evaluations': ev, 'distinct_nontrivial': dist, 'exhaustive': False,
               'rule': 'one value of one scalar type, encoded and decoded with bytes behind it and compared with an independent encoder; distinct = (type, value); all values of the 32 bit types, of bool and all tags; '
                       'for the 64 bit types the first 2^28 (thorough 2^34) values and the families: all values and complements with up to 3 (4) bits set, shifted small values, all patterns of 7 bit groups over a small alphabet',
               'complete_sweeps': sweeps, 'families_with_all_functions': fam,
               'samples': ['%s: all %d values from 0' % kv for kv in sorted(sweeps.items())] + ['%s: %d structured values through field class, tagged functions, padded and cut off forms' % kv for kv in sorted(fam.items())]}
        write_evidence('C19', tier, 'exploration', cov, ['64 bit types outside the enumerated families behave like those inside', 'x86-64, gcc'], len(fails))
        for line, out, cmd in fails:
            report('C19', tier, '%s\ncommand: %s\n%s' % (line, cmd, out), line)
        return 1 if fails else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
