"""pyvc core: path exploration, facts, obligations, solver access.

A *goal* is a Python function goal(ctx) which builds symbolic inputs satisfying a precondition, runs the real
(instrumented) code of /repo on them, and states the postconditions with ctx.prove.  `explore` runs it once per
feasible path (deterministic re-execution along decision prefixes), so every obligation is discharged for all
inputs of that path; loops are cut with invariants (loops.py), callees may be replaced by their contracts.
"""
import sys, time, os, subprocess, tempfile, zlib
import z3

z3.set_param('smt.random_seed', 0)
z3.set_param('memory_max_size', 3000)       # MB: a solver that runs wild gives 'unknown' instead of taking the machine down

class Internal(BaseException):
    """Engine control flow: must never be swallowed by the code under verification."""
class PathEnd(Internal):
    pass
class Restart(Internal):
    key = None
class Unsupported(Internal):
    pass
class NoFork(Internal):
    pass

CUR = None          # current Ctx

def ctx():
    return CUR

TIER = os.environ.get('VERIF_TIER', 'quick')
Q_TIMEOUT = 10000 if TIER != 'thorough' else 60000

GLOBAL_UFS = set()  # shared specification functions that must not link facts in the cone of influence
_keep = []          # keep asts alive so that ids stay unique
_vars_cache = {}

def gid(t):
    """id of a z3 term, remembered in the Python object"""
    try:
        return t._gid
    except AttributeError:
        t._gid = i = t.get_id()
        return i

def ast_vars(t):
    """names of the uninterpreted constants/functions in a z3 term"""
    i = gid(t)
    r = _vars_cache.get(i)
    if r is not None:
        return r
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                if d.name() not in GLOBAL_UFS:
                    out.add(d.name())
            for j in range(x.num_args()):
                stack.append(x.arg(j))
    r = frozenset(out)
    _vars_cache[i] = r
    _keep.append(t)
    return r

_defs = {}          # id of a fact that only describes one application of a specification function -> id of that application
_apps_cache = {}

def ast_apps(t):
    """ids of the applications of specification functions in a term"""
    i = gid(t)
    r = _apps_cache.get(i)
    if r is not None:
        return r
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and d.name() in GLOBAL_UFS:
                out.add(xi)
            for j in range(x.num_args()):
                stack.append(x.arg(j))
    r = _apps_cache[i] = frozenset(out)
    _keep.append(t)
    return r

def relevant(facts, goal_terms):
    """cone of influence of the goal inside the facts"""
    if any(gid(f) in _defs for f in facts):
        plain = [f for f in facts if gid(f) not in _defs]
        defs = [f for f in facts if gid(f) in _defs]
        got = []
        while True:
            rel = _relevant(plain + got, goal_terms)
            apps = set()
            for f in list(rel) + list(goal_terms):
                apps |= ast_apps(f)
            new = [f for f in defs if _defs[gid(f)] in apps]
            if not new:
                return rel
            got += new
            ids = set(gid(f) for f in new)
            defs = [f for f in defs if gid(f) not in ids]
    return _relevant(facts, goal_terms)

def _relevant(facts, goal_terms):
    vs = set()
    for g in goal_terms:
        vs |= ast_vars(g)
    fv = [(f, ast_vars(f)) for f in facts]
    used = [False] * len(fv)
    changed = True
    while changed:
        changed = False
        for n, (f, v) in enumerate(fv):
            if not used[n] and (not v or v & vs):
                used[n] = True
                if not v <= vs:
                    vs |= v
                    changed = True
                elif not v:
                    pass
    return [f for n, (f, v) in enumerate(fv) if used[n]]

class SolverStats:
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.cached = 0; self.unknown = 0; self.cvc5 = 0; self.cvc5_time = 0.0
STATS = SolverStats()
_qcache = {}

_abs = {}

def _numeric(t):
    return t.sort_kind() in (z3.Z3_BOOL_SORT, z3.Z3_INT_SORT, z3.Z3_REAL_SORT)

def abstract(t):
    """(t', exact, lengths): t with every subterm that reads a string, an array or an uninterpreted function replaced by a constant.
    t' is weaker than t up to the constants' meaning: t' unsatisfiable implies t unsatisfiable."""
    i = gid(t)
    r = _abs.get(i)
    if r is not None:
        return r
    if z3.is_quantifier(t) or z3.is_var(t):
        r = (z3.BoolVal(True), False, ()) if z3.is_quantifier(t) else None
        if r is None:
            raise Unsupported('free variable')
    elif not z3.is_app(t) or t.num_args() == 0:
        r = (t, True, ())
    else:
        kids = t.children()
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED or not all(_numeric(k) for k in kids):
            v = z3.Const('abs!%d' % i, t.sort())
            if z3.is_app_of(t, z3.Z3_OP_SEQ_LENGTH):
                plain = z3.is_const(kids[0]) and kids[0].decl().kind() == z3.Z3_OP_UNINTERPRETED
                r = (v, plain, (v >= 0,))
            else:
                r = (v, False, ())
        else:
            rs = [abstract(k) for k in kids]
            ls = tuple(l for x in rs for l in x[2])
            r = (t.decl()(*[x[0] for x in rs]) if ls or not all(x[0] is k for x, k in zip(rs, kids)) else t, all(x[1] for x in rs), ls)
    _abs[i] = r
    _keep.append(t)
    return r

def abstract_check(assertions):
    """'unsat' | 'sat' (exact) | None"""
    qs, exact, ls = [], True, []
    for a in assertions:
        if z3.is_quantifier(a):
            exact = False
            continue
        x, e, l = abstract(a)
        qs.append(x)
        exact = exact and e
        ls.extend(l)
    s = z3.SimpleSolver()
    s.set('timeout', 1000)
    s.add(*qs)
    s.add(*ls)
    r = str(s.check())
    if r == 'unsat':
        return r
    if r == 'sat' and exact:
        return r
    return None

def query(assertions, timeout=None, want_model=False):
    """-> ('sat'|'unsat'|'unknown', model or None)"""
    key = frozenset(gid(a) for a in assertions)
    hit = _qcache.get(key)
    if hit is not None and (hit[0] == 'unsat' or (hit[0] == 'sat' and (not want_model or hit[1] is not None)) or
                            (hit[0] == 'unknown' and hit[2] >= (timeout or Q_TIMEOUT))):
        STATS.cached += 1
        return hit[:2]
    t0 = time.time()
    r = abstract_check(assertions)
    if r == 'unsat' or (r == 'sat' and not want_model):
        STATS.queries += 1
        STATS.time += time.time() - t0
        _keep.extend(assertions)
        _qcache[key] = (r, None, 0)
        return r, None
    s = z3.Solver()
    s.set('timeout', timeout or Q_TIMEOUT)
    for a in assertions:
        s.add(a)
        _keep.append(a)
    t0 = time.time()
    try:
        r = str(s.check())
    except z3.Z3Exception as e:
        r = 'unknown'
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    m = None
    if r == 'unknown':
        STATS.unknown += 1
        if os.environ.get('PYVC_DEBUG'):
            sys.stderr.write('UNKNOWN query (%.1fs) %s\n' % (dt, s.reason_unknown()))
            if os.environ.get('PYVC_DEBUG') == '2':
                sys.stderr.write(s.sexpr() + '\n')
    elif dt > 3 and os.environ.get('PYVC_DEBUG'):
        sys.stderr.write('SLOW query %.1fs %s\n' % (dt, r))
    if r == 'sat':
        m = s.model()
    _qcache[key] = (r, m, timeout or Q_TIMEOUT)
    return r, m

def query_apart(assertions, inputs, timeout):
    """query() in a process of its own, which is ended when it exceeds its time -> (status, values of the inputs or None)"""
    import marshal, select, signal
    st = abstract_check(assertions)
    if st == 'unsat':
        return st, None
    sys.stdout.flush()
    sys.stderr.flush()
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            s = z3.Solver()
            s.set('timeout', timeout)
            s.add(*assertions)
            r = str(s.check())
            vals = None
            if r == 'sat':
                os.write(wr, marshal.dumps((r, None)))      # the status alone, should making the model fail
                vals = inputs_of(s.model(), inputs)
            os.write(wr, marshal.dumps((r, vals)))
        except BaseException:
            pass
        os._exit(0)
    os.close(wr)
    buf, t0 = b'', time.time()
    while True:
        left = timeout / 1000 + 2 - (time.time() - t0)
        if left <= 0 or not select.select([rd], [], [], left)[0]:
            break
        part = os.read(rd, 1 << 16)
        if not part:
            break
        buf += part
    os.close(rd)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    STATS.queries += 1
    STATS.time += time.time() - t0
    r = ('unknown', None)
    import io
    f = io.BytesIO(buf)
    while True:
        try:
            r = marshal.load(f)
        except (EOFError, ValueError, TypeError):
            break
    if r[0] == 'unknown':
        STATS.unknown += 1
    return r

def inputs_of(m, inputs):
    out = {}
    for k, v in inputs.items():
        try:
            x = model_value(m, v)
            out[k] = x if isinstance(x, (int, str, bytes, bool, type(None))) else str(x)
        except Exception as e:
            out[k] = '?%s' % e
    return out

def cvc5_check(assertions, timeout=20):
    """second opinion: 'unsat' | 'sat' | 'unknown' from cvc5 on the same assertions"""
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    STATS.cvc5 += 1
    t0 = time.time()
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=True) as f:
            f.write(txt)
            f.flush()
            p = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % (timeout * 1000), f.name],
                               capture_output=True, text=True, timeout=timeout + 10)
        out = p.stdout.strip().splitlines()
        r = out[0] if out and out[0] in ('sat', 'unsat', 'unknown') else 'unknown'
    except Exception:
        r = 'unknown'
    STATS.cvc5_time += time.time() - t0
    return r

def zb(c):
    """python bool / SymBool / z3 Bool -> z3 Bool"""
    if c is True:
        return z3.BoolVal(True)
    if c is False:
        return z3.BoolVal(False)
    t = getattr(c, 't', None)
    if t is not None and z3.is_bool(t):
        return t
    if z3.is_expr(c):
        return c
    raise TypeError('not a formula: %r' % (c,))

class Obligation:
    __slots__ = ('name', 'path', 'status', 'backend', 'time', 'model', 'detail', 'where')
    def __init__(self, name, path, status, backend, t, model=None, detail='', where=''):
        self.name = name; self.path = path; self.status = status; self.backend = backend; self.time = t
        self.model = model; self.detail = detail; self.where = where

class Session:
    """one goal, all of its paths"""
    def __init__(self, name):
        self.name = name
        self.obligations = []
        self.loopinfo = {}       # loop key -> LoopInfo (survives restarts)
        self.failures = []
        self.restarts = 0
        self.paths = 0
        self.covers = {}
        self.functions = set()
        self.assumptions = set()
        self.contracts_used = set()
        self.unsupported = []
        self.visited = set()     # paths through loop bodies taken in this pass
        self.entered = set()

class Ctx:
    def __init__(self, sess, prefix):
        self.sess = sess
        self.prefix = prefix
        self.pos = 0
        self.choices = []        # decisions taken on this path
        self.pending = []        # prefixes to explore later
        self.facts = []
        self.counters = {}
        self.trace = []
        self.dead = False
        self.loops = []          # active/finished loop cuts of this path
        self.serial = 0
        self.shape = 0           # digest of the kinds of the objects made so far: loops entered with the same one share their summary
        self.objs = {}           # id(obj) -> (serial, obj)
        self.mut_watch = []      # active loop watchers
        self.cleanup = []
        self.labels = []
        self.inputs = {}         # named inputs for counter-models
        self.background = set()  # ids of facts that are instances of recorded quantified facts: true on every path
        self.foralls = []        # callbacks instantiate(index term)
        self.loop_pos = {}       # loop key -> number of decisions taken before the loop was entered
        self.nofork = False      # decide() must not split the path
        self.described = set()
        self.inst = {}
        self.instlog = []
        self.defs = []
        self.inc = (None, [])
        self.witness = []        # index terms a contract talks about
        self.extra = {}
        self.depth = 0

    # -- naming
    def name(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return '%s!%d' % (base, n) if n else base

    def ser(self, obj):
        e = self.objs.get(id(obj))
        if e is None:
            self.serial += 1
            self.shape = zlib.crc32(type(obj).__name__.encode(), self.shape)
            e = (self.serial, obj)
            self.objs[id(obj)] = e
        return e[0]

    # -- fresh constants; inside a cut loop they are functions of the iteration counter
    def fresh(self, base, sort):
        n = self.name(base)
        ks = [l.k for l in self.loops if l.open]
        if ks:
            f = z3.Function(n, *([z3.IntSort()] * len(ks) + [sort]))
            return f(*ks)
        return z3.Const(n, sort)

    # -- facts
    def assume(self, c):
        c = zb(c)
        c = z3.simplify(c) if not z3.is_quantifier(c) else c
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self.end()
        _keep.append(c)
        self.facts.append(c)

    def describe(self, app, c):
        """assume c, a fact about the application app of a specification function: only needed where app occurs"""
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self.end()
        _keep.append(c); _keep.append(app)
        new = (gid(c), gid(app)) not in self.described
        self.described.add((gid(c), gid(app)))
        _defs[gid(c)] = gid(app)
        if new:
            self.facts.append(c)
            self.defs.append((app, c))

    def end(self):
        self.dead = True
        raise PathEnd()

    def unsupported(self, msg):
        self.dead = True
        raise Unsupported(msg)

    def check_dead(self):
        if self.dead:
            raise PathEnd()

    def cheap(self, c):
        """is c contradicted by the facts, as far as the abstraction can tell?  (one incremental solver per path)"""
        t0 = time.time()
        s, got = self.inc
        n = len(got)
        fs = self.facts
        if s is None or n > len(fs) or any(a is not b for a, b in zip(got, fs)):
            s = z3.SimpleSolver()
            s.set('timeout', 1000)
            got, n = [], 0
            self.inc = (s, got)
        for f in fs[n:]:
            got.append(f)
            if z3.is_quantifier(f):
                continue
            x, e, ls = abstract(f)
            s.add(x, *ls)
        r = 'unknown'
        if c is None:
            r = str(s.check())
        else:
            x, e, ls = abstract(c)
            s.push()
            s.add(x, *ls)
            r = str(s.check())
            s.pop()
        STATS.queries += 1
        STATS.time += time.time() - t0
        return r == 'unsat'

    def feasible(self, c):
        c = zb(c)
        if self.extra.get('cheap'):
            return not self.cheap(c)
        q = relevant(self.facts, [c]) + [c]
        r, _ = query(q, timeout=self.extra.get('q_ms', 2000))
        return r != 'unsat'

    def entails(self, c):
        c = zb(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        n = z3.Not(c)
        if self.extra.get('cheap'):
            return self.cheap(n)
        r, _ = query(relevant(self.facts, [c]) + [n], timeout=self.extra.get('q_ms', 3000))
        return r == 'unsat'

    def _take(self, options):
        """options: list of (label, z3 Bool or None); already filtered to feasible ones"""
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
        else:
            i = 0
            for j in range(1, len(options)):
                self.pending.append(self.choices + [j])
        self.pos += 1
        self.choices.append(i)
        lab, c = options[i]
        if c is not None:
            self.facts.append(c)
        self.labels.append(lab)
        return i

    def decide(self, c, label=None):
        self.check_dead()
        if c is True or c is False:
            return c
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        nc = z3.simplify(z3.Not(c))
        if self.nofork:
            if self.entails(c):
                return True
            if self.entails(nc):
                return False
            raise NoFork()
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
            self.pos += 1
            self.choices.append(i)
            _keep.append(c); _keep.append(nc)
            if i == 0:
                self.facts.append(c); self.labels.append((label, True))
                return True
            elif i == 1:
                self.facts.append(nc); self.labels.append((label, False))
                return False
            self.forced(c if i == 2 else nc)
            return i == 2       # forced: 2 True, 3 False
        if not self.feasible(nc):
            self.pos += 1
            self.choices.append(2)
            self.forced(c)
            return True
        if not self.feasible(c):
            self.pos += 1
            self.choices.append(3)
            self.forced(nc)
            return False
        _keep.append(c); _keep.append(nc)
        self.pending.append(self.choices + [1])
        self.pos += 1
        self.choices.append(0)
        self.facts.append(c)
        self.labels.append((label, True))
        return True

    def forced(self, c):
        """an implied condition: recorded where path conditions of loop bodies are compared"""
        if any(l.open for l in self.loops):
            _keep.append(c)
            self.facts.append(c)

    def choose(self, n, label=None, record=True):
        """n-way nondeterministic choice, returns 0..n-1"""
        self.check_dead()
        if n == 1:
            return 0
        if self.nofork:
            raise NoFork()
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
        else:
            i = 0
            for j in range(1, n):
                self.pending.append(self.choices + [j])
        self.pos += 1
        self.choices.append(i)
        self.labels.append((label, i))
        if record and any(l.open for l in self.loops):
            # part of the path condition of the iteration
            self.facts.append(self.fresh('choice', z3.IntSort()) == i)
        return i

    def pick(self, n, label=None):
        """a choice of scenario made by a contract: loops entered afterwards are summarized separately"""
        i = self.choose(n, label)
        self.shape = zlib.crc32(('%s=%d' % (label, i)).encode(), self.shape)
        return i

    # -- obligations
    def _where(self):
        return self.extra.get('where', '')

    def prove(self, c, name, detail=''):
        self.check_dead()
        t0 = time.time()
        ob = None
        if c is True:
            ob = Obligation(name, len(self.sess.obligations), 'discharged', 'symbolic-evaluation', 0.0)
            self.sess.obligations.append(ob)
            return True
        f = None
        if c is False:
            f = z3.BoolVal(False)
        else:
            f = z3.simplify(zb(c))
        if z3.is_true(f):
            self.sess.obligations.append(Obligation(name, 0, 'discharged', 'z3-simplifier', time.time() - t0))
            return True
        nf = z3.simplify(z3.Not(f))
        q = relevant(self.facts, [f]) + [nf]
        r, m = query(q, timeout=3000, want_model=True)
        be = 'z3'
        if r == 'unknown':
            r2 = cvc5_check(q)
            if r2 == 'unsat':
                r, be = 'unsat', 'cvc5'
            else:
                r, m = query(q, timeout=Q_TIMEOUT * 2, want_model=True)
        elif r == 'unsat' and TIER == 'thorough':
            r2 = cvc5_check(q, timeout=30)
            be = {'unsat': 'z3+cvc5'}.get(r2, 'z3')
            if r2 == 'sat':
                r, be = 'unknown', 'z3/cvc5 disagree'
        if r == 'unsat':
            self.sess.obligations.append(Obligation(name, 0, 'discharged', be, time.time() - t0))
            return True
        # if the path itself is infeasible the obligation is vacuous
        r3, inputs = query_apart(list(self.facts) + [nf], self.inputs, Q_TIMEOUT if not self.sess.failures else 2000)
        if r3 == 'unsat':
            self.sess.obligations.append(Obligation(name, 0, 'discharged', 'z3', time.time() - t0))
            return True
        if inputs is None:
            inputs = inputs_of(m, self.inputs) if m is not None else {}
        ob = Obligation(name, 0, 'failed', be + ':' + r3, time.time() - t0, model=inputs,
                        detail=((detail() if callable(detail) else detail) + ' | goal: ' + str(f)[:600]), where=' / '.join(map(str, self.labels[-25:])))
        self.sess.obligations.append(ob)
        self.sess.failures.append(ob)
        self.end()

    def fail(self, name, detail=''):
        self.prove(False, name, detail)

    def cover(self, name):
        """counts paths reaching this point whose facts are not contradictory (vacuity guard)"""
        self.check_dead()
        if self.sess.covers.get(name, 0) < 3:
            r = ('unsat' if self.cheap(None) else 'unknown') if self.extra.get('cheap') else query(list(self.facts), timeout=self.extra.get('q_ms', 3000))[0]
            if r == 'unsat':
                return
        self.sess.covers[name] = self.sess.covers.get(name, 0) + 1

    def event(self, *ev):
        self.check_dead()
        self.trace.append(ev)

    def track(self, name, v):
        self.inputs[name] = v
        return v

    def mark(self):
        return len(self.facts), len(self.defs), len(self.instlog)

    def undo(self, m):
        """forget the facts added since mark()"""
        for app, f in self.defs[m[1]:]:
            self.described.discard((gid(f), gid(app)))
        for key, n in reversed(self.instlog[m[2]:]):
            self.inst[key] = n
        del self.facts[m[0]:], self.defs[m[1]:], self.instlog[m[2]:]

    def instantiate(self, i):
        """instantiate all recorded quantified facts at index term i (each of them once)"""
        key = gid(i)
        done = self.inst.get(key, 0)
        todo = self.foralls[done:]
        if not todo:
            return
        _keep.append(i)
        self.instlog.append((key, done))
        self.inst[key] = done + len(todo)
        n = len(self.facts)
        for f in todo:
            f(i)
        for f in self.facts[n:]:
            self.background.add(gid(f))

def model_value(m, v):
    if isinstance(v, (int, str, bytes, bool, type(None), float)):
        return v
    f = getattr(v, 'model', None)
    if f is not None:
        return f(m)
    t = getattr(v, 't', v)
    r = m.eval(t, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    if z3.is_string_value(r):
        return zstr_value(r)
    return str(r)

def zstr_value(r):
    s = r.as_string()
    out = []
    i = 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)

class Limits:
    def __init__(self, max_paths, time_limit):
        self.max_paths, self.time_limit, self.t0 = max_paths, time_limit, time.time()
    def reached(self, sess):
        if sess.paths > self.max_paths:
            return 'more than %d paths' % self.max_paths
        if time.time() - self.t0 > self.time_limit:
            return 'time limit of %ds for goal %s' % (self.time_limit, sess.name)

def run_path(sess, goal, prefix):
    """one path; returns (its context, key of the loop to be summarized again or None)"""
    global CUR
    c = Ctx(sess, prefix)
    CUR = c
    key = None
    try:
        goal(c)
        w = c.extra.get('world')
        n = w.changed() if w is not None else ()
        if n:
            c.prove(False, 'a call changes no state of modules, classes and functions, which later calls would find', ', '.join(n[:5]))
    except PathEnd:
        pass
    except Restart as e:
        key = (e.key,)
    except Unsupported as e:
        sess.unsupported.append(str(e))
        if os.environ.get('PYVC_DEBUG'):
            import traceback
            traceback.print_exc()
    except RecursionError as e:
        sess.unsupported.append('recursion too deep')
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        sess.unsupported.append('engine/goal exception: %s' % tb[-3000:])
    finally:
        c.dead = True
        for f in reversed(c.cleanup):
            try:
                f()
            except BaseException:
                pass
        CUR = None
    return c, key

def enough(sess):
    return len(sess.failures) > 20 or len(sess.unsupported) > 5

def _worker(sess, goal, work, lim, secs, fd):
    """in a forked process: explore some of the paths, report what was found and what is left"""
    from . import world
    end = time.time() + secs
    s0 = dict(vars(STATS))
    sess.obligations, sess.failures, sess.unsupported, sess.paths = [], [], [], 0
    c0 = dict(sess.covers)
    again = []
    while work and time.time() < end and not enough(sess):
        prefix = work.pop()
        sess.paths += 1
        if lim.time_limit < time.time() - lim.t0:
            work.append(prefix)
            break
        c, key = run_path(sess, goal, prefix)
        if key is not None:
            again.append(prefix)
            break
        work.extend(c.pending)
    import pickle
    r = dict(obligations=sess.obligations, failures=[sess.obligations.index(o) for o in sess.failures], unsupported=sess.unsupported, paths=sess.paths,
             covers={k: v - c0.get(k, 0) for k, v in sess.covers.items()}, functions=sess.functions, assumptions=sess.assumptions,
             contracts_used=sess.contracts_used, visited=sess.visited, entered=sess.entered, steps_used=sess.steps_used, left=work, again=again,
             stats={k: v - s0[k] for k, v in vars(STATS).items()}, sources=dict(world.SOURCES))
    with os.fdopen(fd, 'wb') as f:
        pickle.dump(r, f)

def explore_parallel(sess, goal, work, lim, width, secs=6.0):
    """explore the paths in forked processes until none is left; returns the prefixes that need another summary of a loop"""
    import pickle, selectors
    from . import world
    again = []
    running = {}
    sel = selectors.DefaultSelector()
    def kill():
        for fd, (pid, buf, items) in list(running.items()):
            try:
                os.kill(pid, 9)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(fd)
    while work or running:
        m = lim.reached(sess)
        if m or enough(sess) or again:
            if m:
                sess.unsupported.append(m)
            if again and not m:
                again.extend(work)
                for fd in running:
                    again.extend(running[fd][2])
            kill()
            break
        while work and len(running) < width:
            # short prefixes have more below them
            work.sort(key=len)
            k = max(1, min(64, len(work) // (2 * width)))
            items = [work.pop(0)] + [work.pop() for i in range(k - 1)]
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    _worker(sess, goal, list(reversed(items)), lim, secs if len(work) + len(items) > 2 * width else secs / 4, w)
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (pid, [], items)
            sel.register(r, selectors.EVENT_READ)
        for key, ev in sel.select(1.0):
            fd = key.fd
            b = os.read(fd, 1 << 20)
            if b:
                running[fd][1].append(b)
                continue
            sel.unregister(fd)
            os.close(fd)
            pid, buf, items = running.pop(fd)
            os.waitpid(pid, 0)
            try:
                r = pickle.loads(b''.join(buf))
            except Exception as e:
                sess.unsupported.append('a prover process gave no result: %s' % e)
                continue
            sess.obligations.extend(r['obligations'])
            sess.failures.extend(r['obligations'][i] for i in r['failures'])
            sess.unsupported.extend(r['unsupported'])
            sess.paths += r['paths']
            for k, v in r['covers'].items():
                sess.covers[k] = sess.covers.get(k, 0) + v
            for n in ('functions', 'assumptions', 'contracts_used', 'visited', 'entered'):
                getattr(sess, n).update(r[n])
            sess.steps_used.update(r['steps_used'])
            for k, v in r['stats'].items():
                setattr(STATS, k, getattr(STATS, k) + v)
            world.SOURCES.update(r['sources'])
            work.extend(r['left'])
            again.extend(r['again'])
            if os.environ.get("PYVC_DEBUG"): sys.stderr.write("batch paths %d left %d again %d err %s\n" % (r["paths"], len(r["left"]), len(r["again"]), r["unsupported"][:1]))
    sel.close()
    # the caller takes from the end: the paths whose loops want another summary come first
    return again[::-1]

def explore(name, goal, max_paths=40000, time_limit=600, covers=(), parallel=False):
    """run goal over all paths; returns Session"""
    sess = Session(name)
    lim = Limits(max_paths, time_limit)
    width = int(os.environ.get('VERIF_JOBS', '8'))
    passes = 0
    stop = False
    while True:
        sess.obligations = []
        sess.failures = []
        sess.covers = {}
        sess.paths = 0
        sess.unsupported = []
        sess.steps_used = {}
        sess.visited = set()
        sess.entered = set()
        work = [[]]
        restart = False
        quiet = 0               # paths since the last restart
        while work:
            if parallel and width > 1 and quiet >= 12 and len(work) > 4:
                work = explore_parallel(sess, goal, work, lim, width)
                if enough(sess) or (sess.unsupported and not work):
                    break
                quiet = 0
                continue
            prefix = work.pop()
            sess.paths += 1
            m = lim.reached(sess)
            if m:
                sess.unsupported.append(m)
                break
            c, key = run_path(sess, goal, prefix)
            if key is not None:
                restart = True
                if parallel:
                    sess.restarts += 1
                    break
                p = c.loop_pos.get(key[0], 0)
                stem = c.choices[:p]
                work = [x for x in work if not (len(x) > p and x[:p] == stem)]
                work.append(stem)
                work.extend(x for x in c.pending if len(x) <= p)
                sess.restarts += 1
                quiet = 0
                if sess.restarts > 2000:
                    sess.unsupported.append('too many restarts')
                    stop = True
                    break
                if time.time() - lim.t0 > time_limit:
                    sess.unsupported.append('time limit of %ds for goal %s' % (time_limit, name))
                    stop = True
                    break
                continue
            quiet += 1
            work.extend(c.pending)
            if enough(sess):
                break
        if os.environ.get("PYVC_DEBUG"): sys.stderr.write("pass: paths %d restart %s at %.1f\n" % (sess.paths, restart, time.time() - lim.t0))
        if stop or (sess.restarts > 2000):
            break
        if restart and parallel:
            if time.time() - lim.t0 > time_limit:
                sess.unsupported.append('time limit of %ds for goal %s' % (time_limit, name))
                break
            continue
        if not restart:
            from .loops import drop_stale
            same = all(len(sess.loopinfo[k].steps) == n for k, n in sess.steps_used.items())
            if sess.failures or sess.unsupported or (not drop_stale(sess) and same):
                break
        passes += 1
        if passes > 60:
            sess.unsupported.append('too many restarts')
            break
    sess.wall = time.time() - lim.t0
    for cv in covers:
        if not sess.covers.get(cv) and not sess.failures and not sess.unsupported:
            sess.unsupported.append('vacuous: no feasible path reaches %r' % cv)
    if not sess.obligations and not sess.unsupported:
        sess.unsupported.append('goal generated no obligation')
    return sess
