#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   exit 0: held on everything explored, 1: VIOLATION line printed."""
import json, os, shutil, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import *
import props


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('open: property=%s ' % prop):
                res.append(l[len('open: '):])
    return res


def report(prop, tier, text, what, n=0):
    p = save_replay(prop, text, n)
    print(what)
    print('VIOLATION property=%s replay=%s' % (prop, p), flush=True)


def run_harness(prop, tier):
    c = props.HARNESS[prop]
    log('building the harness for', prop)
    exe, ds, work = build_harness(c['group'], c.get('inst'), c.get('defs', ()), san=c['group'] != 'ENV')
    try:
        log('exploring')
        fails, m = explore(exe, ds, prop, tier, work, timeout=780 if tier == 'quick' else 6 * 3600)
        log('done: %d evaluations, %d distinct, %d transitions, %d failing shards' % (m['evals'], m['distinct'], m['transitions'], len(fails)))
        viol = []
        for i, cmd, line, out in sorted(fails, key=lambda f: (f[2] is None, f[0])):
            ok, rout = replay_case(cmd, line) if line else (False, '')
            if not ok:   # replay the complete shard
                r = run(cmd, env=ENV, timeout=780)
                rout = r.stdout.decode(errors='replace')
                ok = r.returncode != 0
            if ok:
                viol.append((line or 'the exploration ends abnormally', rout[-6000:], cmd))
                break
            raise RuntimeError('failure could not be replayed: %s\n%s' % (line, out))
        cov = {'samples': m['samples'][:12] or ['(none)'], 'cases_enumerated': m['cases'], 'detail': m['stats'], 'rule': c['rule'], 'bounds': c['bounds'], 'exhaustive': not m['stats'].get('searches_capped')}
        if c['level'] == 'model_checking':
            cov.update(states=m['distinct'], transitions=m['transitions'], traces_validated_against_impl=m['traces'])
        else:
            cov.update(evaluations=m['evals'], distinct_nontrivial=m['distinct'])
            if m['transitions']:
                cov['faults_or_steps_executed'] = m['transitions']
        write_evidence(prop, tier, c['level'], cov, c['assumptions'], len(viol))
        for line, out, cmd in viol:
            text = '%s\n\ncommand (the harness is rebuilt by check.py %s): %s\n\n%s\n' % (line, prop, ' '.join(cmd[1:]), out)
            report(prop, tier, text, line)
        if not viol and m['evals'] + m['transitions'] == 0:
            raise RuntimeError('nothing was explored')
        return 1 if viol else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    level = props.LEVEL[prop]
    for k in known_findings(prop):
        print('KNOWN-FINDING: ' + k)
    try:
        if prop in props.HARNESS:
            return run_harness(prop, tier)
        return props.special(prop, tier, report)
    except Broken as e:
        cov = {'evaluations': 1, 'distinct_nontrivial': 1, 'rule': 'generation and compilation of the harness schemas', 'samples': [e.what]}
        if level == 'model_checking':
            cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [e.what]}
        write_evidence(prop, tier, level, cov, [], 1)
        report(prop, tier, e.what + '\n' + e.log, e.what + ': ' + (e.log.strip().splitlines() or [''])[-1][:300])
        return 1


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
