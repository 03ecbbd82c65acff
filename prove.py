"""discharge every obligation of the contracts of one property, from /repo's current source:
prove.py Cxx OUT.json TIER   (under python3-vt)"""
import sys, os, json, time, importlib, multiprocessing, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def jsonable(v):
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, bytes):
        return v.hex()
    return str(v)[:400]


def hint_of(model, ctxinputs=None):
    return {k: jsonable(v) for k, v in (model or {}).items()}


def run_goal(args):
    pid, idx, limit = args
    from pyvc import core, world
    from contracts import kit
    importlib.import_module('contracts.' + pid.lower())
    name, f, opts = kit.GOALS[pid][idx]
    opts = dict(opts)
    opts['time_limit'] = min(opts.get('time_limit', limit), limit)
    t0 = time.time()
    r = dict(name=name, obligations=0, discharged=0, failures=[], unsupported=[], names={}, backends={}, functions=[], contracts=[],
             assumptions=[], covers={}, paths=0, restarts=0)
    try:
        s = core.explore(name, f, **opts)
    except BaseException:
        r['unsupported'].append('engine failure: ' + traceback.format_exc()[-1500:])
        r['wall'] = time.time() - t0
        return r
    r['obligations'] = len(s.obligations)
    for o in s.obligations:
        if o.status == 'discharged':
            r['discharged'] += 1
            r['backends'][o.backend] = r['backends'].get(o.backend, 0) + 1
        n = o.name.split(' invariant ')[0] if o.name.startswith('loop ') else o.name
        r['names'][n] = r['names'].get(n, 0) + 1
    for o in s.failures:
        m = hint_of(o.model)
        r['failures'].append(dict(obligation=o.name, goal=name, detail=o.detail[:1500], backend=o.backend, model=m, path=o.where[-600:]))
    r['unsupported'] = [u[-1500:] for u in s.unsupported]
    r['functions'] = sorted(s.functions)
    r['contracts'] = sorted(s.contracts_used)
    r['assumptions'] = sorted(s.assumptions)
    r['covers'] = dict(s.covers)
    r['paths'] = s.paths
    r['restarts'] = s.restarts
    r['solver'] = dict(queries=core.STATS.queries, time=round(core.STATS.time, 2), cached=core.STATS.cached, unknown=core.STATS.unknown,
                       cvc5=core.STATS.cvc5, cvc5_time=round(core.STATS.cvc5_time, 2))
    r['sources'] = dict(world.SOURCES)
    r['wall'] = round(time.time() - t0, 2)
    return r


def child(args, q):
    try:
        q.put((args[1], run_goal(args)))
    except BaseException:
        q.put((args[1], dict(name=str(args), unsupported=[traceback.format_exc()[-1500:]], failures=[], obligations=0, discharged=0)))
    q.close()
    q.join_thread()
    os._exit(0)


def main():
    pid, out, tier = sys.argv[1:4]
    hard = 300 if tier == 'quick' else 3000
    t0 = time.time()
    from pyvc import core
    from contracts import kit
    res = dict(property=pid, goals=[])
    try:
        importlib.import_module('contracts.' + pid.lower())
        goals = kit.GOALS.get(pid, [])
    except BaseException:
        goals = []
        res['error'] = traceback.format_exc()[-2000:]
    mp = multiprocessing.get_context('fork')
    q = mp.Queue()
    todo = list(range(len(goals)))
    running = {}
    done = {}
    width = int(os.environ.get('VERIF_JOBS', '8'))
    while todo or running:
        while todo and len(running) < width:
            i = todo.pop(0)
            p = mp.Process(target=child, args=((pid, i, hard - 30), q))
            p.start()
            running[i] = (p, time.time())
        try:
            i, r = q.get(timeout=1)
            done[i] = r
            p, _ = running.pop(i)
            p.join(5)
            if p.is_alive():
                p.kill()
            continue
        except Exception:
            pass
        for i, (p, ts) in list(running.items()):
            if not p.is_alive() and q.empty():
                time.sleep(0.5)
                if q.empty():
                    running.pop(i)
                    done[i] = dict(name=goals[i][0], unsupported=['the prover process ended (exit %s)' % p.exitcode], failures=[], obligations=0, discharged=0)
            elif time.time() - t0 > hard:
                p.kill()
                running.pop(i)
                done[i] = dict(name=goals[i][0], unsupported=['time limit of %d s' % hard], failures=[], obligations=0, discharged=0)
        if time.time() - t0 > hard:
            for i in todo:
                done[i] = dict(name=goals[i][0], unsupported=['time limit of %d s' % hard], failures=[], obligations=0, discharged=0)
            todo = []
    res['goals'] = [done[i] for i in sorted(done)]
    res['wall'] = round(time.time() - t0, 2)
    with open(out, 'w') as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
