#!/usr/bin/env python3
"""check.py Cxx [quick|thorough]: decide one property on /repo's current tree.

1. prove.py: contracts on the real functions, every obligation discharged by z3/cvc5 (the deciding step).
2. replay/run.py: the real code under CPython, to turn a failed obligation into a failing input, and as a bounded cross-check
   (never counted as proved).
Exit 0: held; exit 1 with a VIOLATION line otherwise."""
import json, os, re, subprocess, sys, tempfile, time, signal
here = os.path.dirname(os.path.abspath(__file__))
PYVT = 'python3-vt'
PYRUN = '/opt/venv/bin/python'
KNOWN = os.path.join(here, 'known-findings.txt')


def known(pid):
    out = {}
    try:
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def run(cmd, limit, env):
    p = subprocess.Popen(cmd, cwd=here, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    return p, time.time() + limit


def wait(pw):
    p, end = pw
    try:
        out = p.communicate(timeout=max(1, end - time.time()))[0]
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc, out = 'timeout', b''
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    if rc == 'timeout':
        try:
            p.communicate(timeout=5)
        except Exception:
            pass
    return rc, out.decode('utf-8', 'replace')[-2000:]


def load(path):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return None


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    env = dict(os.environ, VERIF_TIER=tier, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.setdefault('VERIF_REPO', '/repo')
    budget = 40 if tier == 'quick' else 600
    pj, hj = os.path.join(tmp, 'prove.json'), os.path.join(tmp, 'harness.json')
    prover = run([PYVT, 'prove.py', pid, pj, tier], 330 if tier == 'quick' else 3200, env)
    harness = run([PYRUN, 'replay/run.py', pid, hj, tier, str(seed), str(budget)], budget * 3 + 60, env)
    prc, pout = wait(prover)
    hrc, hout = wait(harness)
    P, H = load(pj), load(hj)
    problems = []
    if P is None:
        problems.append(dict(kind='undecided', obligation='all', goal='-', detail='the prover gave no result (%s) %s' % (prc, pout)))
        P = dict(goals=[], wall=0)
    if P.get('error'):
        problems.append(dict(kind='undecided', obligation='all', goal='-', detail=P['error']))
    for g in P['goals']:
        for f in g['failures']:
            problems.append(dict(f, kind='failed'))
        for u in g['unsupported']:
            problems.append(dict(kind='undecided', obligation=g['name'], goal=g['name'], detail=u))
    nob = sum(g.get('obligations', 0) for g in P['goals'])
    if not nob and not problems:
        problems.append(dict(kind='undecided', obligation='all', goal='-', detail='no obligation was generated'))
    H = H or dict(cases=0, distinct=0, samples=[], failures=[], errors=['harness gave no result (%s) %s' % (hrc, hout)], wall=0)
    kn = known(pid)
    kfound = sorted(set(f['key'] for f in H['failures'] if f['key'] in kn))
    hf = [f for f in H['failures'] if f['key'] not in kn]
    if problems and not hf:
        # replay with the counter-models of the failed obligations
        hints = [p['model'] for p in problems if p.get('model')]
        hp = os.path.join(tmp, 'hints.json')
        json.dump(hints, open(hp, 'w'))
        h2j = os.path.join(tmp, 'harness2.json')
        b2 = 90 if tier == 'quick' else 600
        rc2, o2 = wait(run([PYRUN, 'replay/run.py', pid, h2j, 'thorough', str(seed + 1000), str(b2), hp], b2 * 2 + 60, env))
        H2 = load(h2j)
        if H2:
            hf = [f for f in H2['failures'] if f['key'] not in kn]
            H['cases'] += H2['cases']
            H['distinct'] += H2['distinct']
    violations = len(hf) + len([p for p in problems])
    for k in kfound:
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
    code = 0
    if hf or problems:
        code = 1
        rp = os.path.join(here, 'evidence', 'replay-%s.json' % pid)
        json.dump(dict(property=pid, obligations_not_discharged=problems[:20], failing_inputs=hf[:8],
                       replay_cmd='%s %s/replay/run.py %s OUT.json %s %d %d' % (PYRUN, here, pid, tier, seed, budget)),
                  open(rp, 'w'), indent=1)
        for p in problems[:6]:
            print('obligation %s: %s [%s] %s' % (p['kind'], p['obligation'], p.get('goal', ''), p['detail'][:400].replace('\n', ' | ')))
        for f in hf[:4]:
            print('failing input: %s: %s; input %s' % (f['key'], f['what'][:400], str(f['input'])[:400]))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if hf else ' no-failing-input-found'))
    else:
        try:
            os.remove(os.path.join(here, 'evidence', 'replay-%s.json' % pid))
        except OSError:
            pass
    # evidence
    backends, functions, contracts, assumptions, names, solver, covers, sources = {}, set(), set(), set(), {}, {}, {}, {}
    for g in P['goals']:
        for k, v in g.get('backends', {}).items():
            backends[k] = backends.get(k, 0) + v
        functions.update(g.get('functions', ()))
        contracts.update(g.get('contracts', ()))
        assumptions.update(g.get('assumptions', ()))
        sources.update(g.get('sources', {}))
        for k, v in g.get('solver', {}).items():
            solver[k] = round(solver.get(k, 0) + v, 2)
    try:
        from contracts import trusted
        tb, asm = trusted.TRUSTED_BASE, trusted.ASSUMPTIONS
    except Exception:
        tb, asm = ['see DESIGN.md'], []
    disch = sum(g.get('discharged', 0) for g in P['goals'])
    cov = dict(obligations=nob, discharged=disch,
               checker_cmd='python3-vt prove.py %s OUT.json %s (in /verif; extracts and instruments the functions from /repo on each run)' % (pid, tier),
               trusted_base=tb, backends=backends, solver=solver,
               functions_under_contract_inlined=sorted(functions), functions_replaced_by_their_contract=sorted(contracts),
               goals=[dict(goal=g['name'], obligations=g.get('obligations', 0), discharged=g.get('discharged', 0), paths=g.get('paths', 0),
                           loop_restarts=g.get('restarts', 0), covers=g.get('covers', {}), wall_s=g.get('wall', 0),
                           names=dict(list(g.get('names', {}).items())[:40])) for g in P['goals']],
               sources=sources,
               bounded_crosscheck=dict(evaluations=H['cases'], distinct=H['distinct'], errors=[e[-300:] for e in H['errors'][:3]],
                                       samples=[str(s)[:200] for s in H['samples'][:3]], note='CPython runs of the real code; not counted as proved'))
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=sorted(assumptions) + asm,
              wall_s=round(time.time() - t0, 2), violations=violations)
    txt = json.dumps(ev, indent=1)
    if len(txt) > 60000:
        for g in cov['goals']:
            g.pop('names', None)
        cov['bounded_crosscheck'].pop('samples', None)
        txt = json.dumps(ev, indent=1)[:60000] if len(json.dumps(ev)) <= 60000 else json.dumps(ev)
    with open(os.path.join(here, 'evidence', '%s.json' % pid), 'w') as f:
        f.write(txt)
    subprocess.run(['rm', '-rf', tmp])
    print('%s: %d/%d obligations discharged, %d cross-check cases, %.1f s' % (pid, disch, nob, H['cases'], time.time() - t0))
    for e in H['errors'][:1]:
        print('cross-check error (not deciding): %s' % e[-300:])
    sys.exit(code)


if __name__ == '__main__':
    main()
