#!/usr/bin/env python3
"""mutate.py SEED N [file filter]: N random small changes (one at a time, in scratch copies of /repo) that pass the tests; which checks see them"""
import sys, os, ast, random, subprocess, tempfile, shutil, time, copy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'anthunder/client/aio_client.py': 'C07 C08 C06 C09', 'anthunder/client/client.py': 'C13 C09', 'anthunder/client/base.py': 'C23 C24',
    'anthunder/listener/aio_listener.py': 'C10 C11 C12 C24', 'anthunder/listener/sock_listener.py': 'C14 C12', 'anthunder/listener/base_listener.py': 'C24 C12 C10',
    'mysockpool/connection_pool.py': 'C15', 'mysockpool/pool_manager.py': 'C17', 'mysockpool/recently_used_container.py': 'C16',
    'mysockpool/connection.py': 'C18 C15', 'mysockpool/_wait.py': 'C18', 'mysockpool/utils.py': 'C18 C15', 'anthunder/mesh/mesh_client.py': 'C22 C24 C23',
    'anthunder/protocol/_sofa_header.py': 'C03 C04 C20', 'anthunder/protocol/_package_base.py': 'C01 C02 C04', 'anthunder/protocol/_request_pkg.py': 'C02 C01 C04',
    'anthunder/protocol/_response_pkg.py': 'C02 C01 C04', 'anthunder/protocol/_rpc_trace_context.py': 'C20 C10', 'mytracer/tracer.py': 'C21 C20', 'mytracer/span.py': 'C21',
    'mytracer/span_context.py': 'C20 C21', 'mytracer/_trace_id.py': 'C21', 'mytracer/_rpc_id.py': 'C19', 'mytracer/helpers.py': 'C21', 'anthunder/helpers/request_id.py': 'C05',
    'anthunder/command/fail_response.py': 'C02', 'anthunder/command/heartbeat.py': 'C02 C09', 'anthunder/helpers/immutable_dict.py': 'C23', 'anthunder/protocol/constants.py': 'C02 C10',
    'anthunder/exceptions.py': 'C07 C13',
}
LOG = ('logger', 'logging', 'print', 'print_exc')


def islog(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and any(k in ast.unparse(n.value.func) for k in LOG)


def sites(tree):
    """(description, function that changes a copy of the tree in place)"""
    out = []
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: (ast.LtE,), ast.LtE: (ast.Lt,), ast.Gt: (ast.GtE,), ast.GtE: (ast.Gt,), ast.Eq: (ast.NotEq, ast.GtE, ast.LtE), ast.NotEq: (ast.Eq, ast.Lt, ast.Gt), ast.Is: (ast.IsNot,), ast.IsNot: (ast.Is,),
                   ast.In: (ast.NotIn,), ast.NotIn: (ast.In,)}
            for a in alt.get(type(n.ops[0]), ()):
                out.append((i, 'cmp->' + a.__name__, lambda m, a=a: setattr(m, 'ops', [a()])))
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            out.append((i, 'const+1', lambda m: setattr(m, 'value', m.value + 1)))
            out.append((i, 'const-1', lambda m: setattr(m, 'value', m.value - 1)))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((i, 'flip', lambda m: setattr(m, 'value', not m.value)))
        if isinstance(n, ast.BoolOp):
            out.append((i, 'and/or', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And())))
            out.append((i, 'drop first', lambda m: m.values.pop(0) if len(m.values) > 2 else setattr(m, 'values', [m.values[1], m.values[1]])))
            out.append((i, 'drop last', lambda m: setattr(m, 'values', [m.values[0], m.values[0]])))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            out.append((i, 'plus/minus', lambda m: setattr(m, 'op', ast.Sub() if isinstance(m.op, ast.Add) else ast.Add())))
        if isinstance(n, ast.If):
            out.append((i, 'negate if', lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test))))
            out.append((i, 'never if', lambda m: setattr(m, 'test', ast.Constant(False))))
            out.append((i, 'always if', lambda m: setattr(m, 'test', ast.Constant(True))))
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            for nm in ('ValueError', 'BaseException'):
                out.append((i, 'except->' + nm, lambda m, nm=nm: setattr(m, 'type', ast.Name(nm, ast.Load()))))
        if isinstance(n, ast.Call) and len(n.args) > 1:
            out.append((i, 'swap args', lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]])))
        if isinstance(n, ast.Call) and n.keywords:
            out.append((i, 'drop keyword', lambda m: m.keywords.pop()))
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for k, st in enumerate(b):
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Continue, ast.Break, ast.Delete)) and not islog(st) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)) and not isinstance(n, (ast.Module,)):
                        out.append((i, 'delete %s[%d] %s' % (f, k, ast.unparse(st)[:60]), lambda m, f=f, k=k: getattr(m, f).__setitem__(k, ast.Pass())))
                        if k + 1 < len(b) and not islog(b[k + 1]) and isinstance(b[k + 1], (ast.Expr, ast.Assign, ast.AugAssign)):
                            out.append((i, 'swap %s[%d] %s' % (f, k, ast.unparse(st)[:60]), lambda m, f=f, k=k: getattr(m, f).__setitem__(slice(k, k + 2), getattr(m, f)[k:k + 2][::-1])))
    return out


def main():
    rnd = random.Random(int(sys.argv[1]))
    every = []
    for f in FILES:
        if len(sys.argv) > 3 and sys.argv[3] not in f:
            continue
        src = open('/repo/' + f).read()
        every += [(f, s[0], s[1]) for s in sites(ast.parse(src))]
    # one file as likely as the next, weighted by the root of its sites
    rnd.shuffle(every)
    print(len(every), 'sites', flush=True)
    for f, i, what in every[:int(sys.argv[2])]:
        d = tempfile.mkdtemp(prefix='verif-mut-')
        try:
            subprocess.run(['cp', '-a', '/repo', d + '/repo'])
            src = open('/repo/' + f).read()
            tree = ast.parse(src)
            before = ast.unparse(tree)
            fn = [s[2] for s in sites(tree) if s[0] == i and s[1] == what][0]
            n = list(ast.walk(tree))[i]
            at = getattr(n, 'lineno', 0)
            try:
                fn(n)
                after = ast.unparse(ast.fix_missing_locations(tree))
                compile(after, f, 'exec')
            except Exception as e:
                continue
            import difflib
            diff = '\n'.join(x for x in difflib.unified_diff(before.split('\n'), after.split('\n'), lineterm='', n=0) if x[:2] not in ('--', '++', '@@'))
            open(d + '/repo/' + f, 'w').write(after)
            try:
                r = subprocess.run('timeout 60 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -3', shell=True, cwd=d + '/repo', stdout=subprocess.PIPE, text=True, timeout=90)
            except subprocess.TimeoutExpired:
                continue
            if 'failed' in r.stdout or 'rror' in r.stdout or 'passed' not in r.stdout:
                continue
            res = []
            for p in FILES[f].split():
                t = time.time()
                o = subprocess.run(['python3', ROOT + '/check.py', p, 'quick'], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_EVIDENCE=d + '/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if o.returncode:
                    res.append(p + (' nfi' if 'no-failing-input-found' in o.stdout else ' CAUGHT'))
                    if 'no-failing-input-found' not in o.stdout:
                        break
            print('=== %s %s:%d %s -> %s\n%s' % ('SURVIVED' if not res else 'NFI' if all('nfi' in r for r in res) else 'caught', f, at, what, ', '.join(res), diff), flush=True)
        finally:
            shutil.rmtree(d)


main()
