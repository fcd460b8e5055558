"""Discharging obligations: z3 (in process), then cvc5 (process) as back ends."""
import os
import subprocess
import tempfile
import time
import z3
from .terms import *
from . import terms

# second-order symbols: name -> number of extents (first arguments); the last
# argument is a lambda over that many indices; everything between is compared
# for equality.  value depends only on the lambda's values inside the extents
HO = {'SUM': 1}


REAL_FUNS = {'atan', 'atan2', 'sqrt', 'sin', 'cos', 'tan', 'log', 'exp',
             'asin', 'acos'}


def _size(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            stack.extend(x.children())
    return len(seen)


class Obl(object):
    def __init__(self, name, hyps, goal, func, kind='post', exact=True):
        self.name = name
        self.hyps = list(hyps)
        self.goal = goal
        self.func = func
        self.kind = kind
        self.exact = exact
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None
        self.detail = ''


def _apps(t, out, seen, depth=0):
    """maximal ground HO applications (no free de Bruijn variables)"""
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                    x.decl().name() in HO:
                out[i] = x
                continue
            stack.extend(x.children())


class Prover(object):
    def __init__(self, timeout=8.0):
        self.facts = []            # (formula, names of its trigger symbols)
        self.timeout = timeout
        self.nq = 0
        self.solver_time = 0.0
        self.backends = {}
        self.quick_cache = {}
        self.deadline = None
        self._fresh = 0

    # ------------------------------------------------------------- facts
    def add_fact(self, formula, names=None):
        formula = norm(formula)
        if formula is True:
            return
        formula = zb(formula)
        self.facts.append((formula, frozenset(names) if names is not None
                           else consts_of(formula)))

    def relevant(self, forms):
        names = set()
        for f in forms:
            names |= consts_of(f)
        out, used = [], set()
        changed = True
        while changed:
            changed = False
            for i, (f, tr) in enumerate(self.facts):
                if i in used:
                    continue
                if tr <= names:
                    used.add(i)
                    out.append(f)
                    new = consts_of(f) - names
                    if new:
                        names |= new
                        changed = True
        return out

    # ----------------------------------------------------------- solving
    def _prep(self, forms, depth):
        """abstract HO applications, add congruence equalities"""
        apps = {}
        seen = set()
        for f in forms:
            _apps(f, apps, seen)
        if not apps:
            return forms, False
        apps = list(apps.values())
        extra = []
        hyps = forms[:-1]
        groups = {}
        for a in apps:
            groups.setdefault(a.decl().name(), []).append(a)
        for name, g in groups.items():
            for i in range(len(g)):
                for j in range(i):
                    c = self._congruent(hyps, g[i], g[j], depth)
                    if c is not None:
                        extra.append(z3.Implies(c, g[i] == g[j]))
                        if z3.is_true(c):
                            break
            if name == 'SUM':
                for a in g:
                    extra.append(z3.Implies(a.arg(0) <= 0, a == 0))
        pairs = []
        for k, a in enumerate(apps):
            self._fresh += 1
            pairs.append((a, z3.Const('ho!%d' % self._fresh, a.sort())))
        out = [z3.substitute(f, *pairs) for f in forms]
        out = out[:-1] + [z3.substitute(e, *pairs) for e in extra] + out[-1:]
        return out, True

    def _congruent(self, hyps, a, b, depth):
        """condition (equal extents) under which a = b, or None"""
        if depth > 3:
            return None
        k = HO[a.decl().name()]
        n = a.num_args()
        goals = [a.arg(i) == b.arg(i) for i in range(n - 1)]
        la, lb = a.arg(n - 1), b.arg(n - 1)
        self._fresh += 1
        vs = [z3.Int('hoi!%d!%d' % (self._fresh, i)) for i in range(k)]

        def body(lam):
            if z3.is_quantifier(lam) and lam.is_lambda():
                return z3.substitute_vars(lam.body(), *reversed(vs))
            return z3.Select(lam, *vs)
        ba, bb = body(la), body(lb)
        rng = []
        for i in range(k):
            rng += [vs[i] >= 0, vs[i] < a.arg(i)]
        cond = []
        for g in goals:
            if g.arg(0).eq(g.arg(1)) or (
                    g.arg(0).sort() in (I, R) and
                    poly_eq(norm(g.arg(0)), norm(g.arg(1)))):
                continue
            cond.append(g)
        c = z3.And(*cond) if cond else z3.BoolVal(True)
        if ba.eq(bb):
            return c
        if self._prove(hyps + cond + rng, ba == bb, depth + 1,
                       self.timeout)[0] == 'proved':
            return c
        return None

    def _prove(self, hyps, goal, depth=0, timeout=None):
        timeout = timeout or self.timeout
        goal = norm(goal)
        if goal is True:
            return 'proved', None, 'trivial'
        goal = zb(goal)
        hyps = [zb(h) for h in hyps if norm(h) is not True]
        if z3.is_eq(goal) and goal.arg(0).sort() in (I, R):
            if poly_eq(goal.arg(0), goal.arg(1)):
                return 'proved', None, 'normal-form'
        forms = list(hyps) + [z3.Not(goal)]
        facts = self.relevant(forms)
        forms = facts + forms
        forms, ho = self._prep(forms, depth)
        # facts about symbols introduced by congruences
        return self._solve(forms, timeout)

    def _solve(self, forms, timeout):
        self.nq += 1
        t0 = time.time()
        res = ('unknown', None, 'z3')
        hasq = any(_has_quant(f) for f in forms)
        stages = []
        short = min(timeout, 2.0)
        stages.append((None, {}, short))
        if hasq:
            stages.append((None, {'smt.mbqi': False,
                                  'smt.auto_config': False}, timeout))
        stages.append((None, {'smt.arith.solver': 2,
                              'smt.auto_config': False}, timeout))
        if not hasq:
            stages.append(('qfnra', {}, timeout))
        stages.append((None, {'smt.random_seed': 7}, timeout))
        for tac, opts, tmo in stages:
            if tac == 'qfnra':
                s = z3.Then('simplify', 'solve-eqs', 'elim-term-ite', 'smt') \
                    .solver()
            else:
                s = z3.Solver()
            s.set('timeout', int(tmo * 1000))
            for k, v in opts.items():
                try:
                    s.set(k, v)
                except z3.Z3Exception:
                    pass
            for f in forms:
                s.add(f)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                res = ('proved', None, 'z3')
                break
            if r == z3.sat:
                try:
                    m = s.model()
                except z3.Z3Exception:
                    m = None
                res = ('cex', m, 'z3')
                break
            if self.deadline and time.time() > self.deadline:
                break
        if res[0] == 'unknown' and timeout >= 4.0:
            r = _cvc5(forms, timeout)
            if r == 'unsat':
                res = ('proved', None, 'cvc5')
        dt = time.time() - t0
        self.solver_time += dt
        self.backends[res[2]] = self.backends.get(res[2], 0) + 1
        return res

    def align(self, hyps, goal):
        """replace applications of real functions (square root, arc tangent,
        ...) whose arguments are provably the same rational function by one
        another; innermost first"""
        goal = zb(goal)
        for _ in range(6):
            apps, seen, stack = {}, set(), [goal]
            while stack:
                x = stack.pop()
                if x.get_id() in seen or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                        x.num_args() and x.decl().name() in REAL_FUNS:
                    apps.setdefault(x.decl().name(), []).append(x)
                stack.extend(x.children())
            sub = None
            for g in apps.values():
                g.sort(key=_size)
                for i in range(len(g)):
                    for j in range(i):
                        if self._same_args(hyps, g[i], g[j]):
                            sub = (g[i], g[j])
                            break
                    if sub:
                        break
                if sub:
                    break
            if not sub:
                break
            goal = z3.substitute(goal, sub)
        return goal

    def _same_args(self, hyps, a, b):
        dens = []
        for x, y in zip(a.children(), b.children()):
            if x.eq(y):
                continue
            d = rat_eq(x, y)
            if d is None:
                return False
            dens += d
        return all(self.quick(hyps, z3.Not(zr(d) == 0)) for d in dens)

    # ------------------------------------------------------------- public
    def prove(self, hyps, goal, timeout=None):
        return self._prove(hyps, goal, 0, timeout)

    def prove_split(self, hyps, goal, limit=20000, leaf=3.0, deadline=None):
        """case analysis on the conditions of if-then-else terms; every
        case must be proved"""
        count = [0]
        zhyps = [zb(h) for h in hyps if norm(h) is not True]
        todo = [(zhyps, z3.simplify(zb(goal)))]
        while todo:
            hs, g = todo.pop()
            count[0] += 1
            if count[0] > limit or (deadline and time.time() > deadline):
                return False
            if z3.is_true(g):
                continue
            if z3.is_and(g):
                todo += [(hs, c) for c in g.children()]
                continue
            c = _ite_cond(g)
            if c is None:
                for h in hs:
                    c = _ite_cond(h)
                    if c is not None:
                        break
            if c is None:
                r = self._prove(hs, g, 0, leaf)
                if r[0] != 'proved':
                    return False
                continue
            if self.quick(hs, c):
                cases = [(c, True)]
            elif self.quick(hs, z3.Not(c)):
                cases = [(c, False)]
            else:
                cases = [(c, True), (c, False)]
            for cc, val in cases:
                lit = cc if val else z3.Not(cc)
                b = z3.BoolVal(val)
                h2 = [_simp(h, cc, b) for h in hs] + [lit]
                todo.append((h2, _simp(g, cc, b)))
        return True

    def quick(self, hyps, goal):
        """cheap validity test used for simplification during execution"""
        goal = norm(goal)
        if isinstance(goal, bool):
            return goal
        key = (tuple(h.get_id() for h in hyps if is_z3(h)), goal.get_id(),
               len(self.facts))
        r = self.quick_cache.get(key)
        if r is None:
            s = z3.Solver()
            s.set('timeout', 400)
            s.set('smt.mbqi', False)
            forms = [zb(h) for h in hyps] + [z3.Not(goal)]
            for f in self.relevant(forms):
                s.add(f)
            for f in forms:
                s.add(f)
            t0 = time.time()
            try:
                r = s.check() == z3.unsat
            except z3.Z3Exception:
                r = False
            self.solver_time += time.time() - t0
            self.nq += 1
            self.quick_cache[key] = r
            _keepalive.append((hyps, goal))
        return r

    def consistent(self, hyps, timeout=3.0):
        """False if the hypotheses are certainly contradictory"""
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        forms = [zb(h) for h in hyps]
        for f in self.relevant(forms) + forms:
            s.add(f)
        return s.check() != z3.unsat


_ic_cache = {}


def _ite_cond(t):
    """an innermost condition of an if-then-else in t, or None"""
    i = t.get_id()
    if i in _ic_cache:
        return _ic_cache[i][1]
    r, seen, stack = None, set(), [t]
    while stack and r is None:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            c = x.arg(0)
            r = _ite_cond(c)
            if r is None:
                r = c
                while z3.is_and(r) or z3.is_or(r) or z3.is_not(r):
                    r = r.arg(0)
            break
        stack.extend(x.children())
    _ic_cache[i] = (t, r)
    return r


def _simp(t, c, b):
    u = z3.substitute(t, (c, b))
    return t if u.eq(t) else z3.simplify(u)


_keepalive = []
_q_cache = {}


def _has_quant(t):
    i = t.get_id()
    if i in _q_cache:
        return _q_cache[i]
    stack, seen, r = [t], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if x.is_lambda():
                stack.append(x.body())
                continue
            r = True
            break
        if z3.is_app(x):
            stack.extend(x.children())
    _q_cache[i] = r
    _keepalive.append(t)
    return r


def _cvc5(forms, timeout):
    s = z3.Solver()
    for f in forms:
        s.add(f)
    try:
        txt = '(set-logic ALL)\n' + s.to_smt2()
    except z3.Z3Exception:
        return 'unknown'
    if 'lambda' in txt:
        txt = txt.replace('(set-logic ALL)', '(set-logic HO_ALL)')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000),
                            name], capture_output=True, text=True,
                           timeout=timeout + 5)
        out = p.stdout.strip().splitlines()
        return out[0] if out else 'unknown'
    except (OSError, subprocess.SubprocessError):
        return 'unknown'
    finally:
        os.unlink(name)
