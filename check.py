"""check.py PROPERTY [--tier quick|thorough] [--budget S] [--only HARNESS...]

Exit 0: the property held on everything explored (known findings are listed).
Exit 1: a counterexample was found and replayed against the unmodified package.
Exit 2: the check itself failed or decided too little."""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def known_findings(prop):
    """ids of the recorded defects of this property -> what fails"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                ident, _, what = line.split(None, 2)[2].partition(' ')
                out[ident] = what
    return out


def replay(path):
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'replay.py'), path], capture_output=True, text=True,
                       timeout=120, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    return p.returncode, p.stdout + p.stderr


def write_replay(prop, rec):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = json.dumps(dict(property=prop, **rec), indent=1, sort_keys=True)
    path = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(body + '\n')
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--only', nargs='*')
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED') or 1)
    evidence = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.remove(evidence)
    from engine import runner
    t0 = time.time()
    r = runner.run(prop, tier, seed, budget=a.budget, only=a.only)
    errors = list(r['errors'])
    known = known_findings(prop)
    violations = []
    for k, rec in sorted(r['known'].items()):
        if k in known:
            print('KNOWN-FINDING: property=%s %s %s (e.g. %s)' % (
                prop, k, known[k], json.dumps(rec['inputs'])[:400]))
        else:
            r['violations'].append(rec)
    seen = set()
    for rec in r['violations']:
        sig = (rec['harness'], json.dumps(rec['params'], sort_keys=True))
        if sig in seen or len(violations) >= 5:
            continue
        seen.add(sig)
        path = write_replay(prop, rec)
        code, out = replay(path)
        if code == 1:
            violations.append((rec, path))
        else:
            errors.append('replay in a separate process did not reproduce %s: %s' % (path, out[-400:]))
    st = r['stats']
    missing = sorted(set(getattr(r['mod'], 'REQUIRED', ())) - r['witness'])
    complete = not r['unfinished'] and not a.only
    if missing and complete and not violations and not st['cut']:
        errors.append('vacuity guard: no path reached ' + ', '.join(missing))
    undecided = st['paths'] - st['validated']
    samples = []
    for s in r['samples']:
        if s not in samples and len(samples) < 12:
            samples.append(s)
    cov = dict(
        states=st['paths'],
        transitions=st['branch_queries'] + st['propagated'],
        traces_validated_against_impl=st['validated'],
        samples=samples or [dict(note='no path was sampled on this run')],
        explanation='states: symbolic paths through the instrumented package (each stands for every concrete '
                    'input that satisfies its path condition); transitions: two-sided branch decisions, by z3 or by '
                    'interval propagation over the character domains; every path ended with a z3 model that was run '
                    'through the same harness on the unmodified package (traces_validated_against_impl)',
        harnesses=r['per'],
        functions_encoded=sorted(r['funcs']),
        queries=dict(total=st['solver_queries'], branch=st['branch_queries'], assertion=st['assertion_queries'],
                     path_model=st['witness_queries'], branches_by_propagation=st['propagated'],
                     path_obligations=st['path_obligation_queries']),
        assertions=dict(total=st['assertions'], each_in_a_query_of_its_own=st['assertion_queries'],
                        formulas_refuted_negated_at_the_end_of_a_path=st['obligations'],
                        paths_whose_propagated_branches_z3_confirmed=st['audited_paths']),
        solver_s=round(st['solver_s'], 2),
        infeasible_paths_dropped=st['aborted'],
        reachability_witnesses=sorted(r['witness']),
        cut=sorted(set(st['cut']))[:20],
        units_unfinished=r['unfinished'],
        exhaustive=bool(complete and not st['cut'] and not r['stopped'] and not undecided),
        known_findings=sorted(k for k in r['known'] if k in known),
        errors=errors[:10],
    )
    with open(evidence, 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
                       assumptions=getattr(r['mod'], 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2),
                       violations=len(violations)), f, indent=1, default=str)
        f.write('\n')
    for h, p in r['per'].items():
        print('%s %s: %d/%d units, %d paths; bounds: %s' % (
            prop, h, p['units_completed'], p['units'], p['paths'], p['bounds']))
    print('%s: %d paths, %d validated on the unmodified package, %d queries (%.1f s in z3), %.1f s%s' % (
        prop, st['paths'], st['validated'], st['solver_queries'], st['solver_s'], r['wall'],
        '' if complete else ', %d units not finished within the budget' % r['unfinished']))
    for c in cov['cut'][:5]:
        print('CUT', c)
    for e in errors[:5]:
        print('ERROR', e)
    for rec, path in violations:
        print('%s on %s %s' % (rec['msg'], rec['harness'], json.dumps(rec['inputs'])[:400]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if violations:
        return 1
    if errors or not st['paths'] or undecided * 2 > st['paths']:
        return 2
    return 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
