"""Verification tasks: contracts applied to functions of the repository."""
import time
import traceback
from .terms import *
from .values import *
from .interp import Interp, Contract, NORMAL, St
from .prove import Prover, Obl
from . import lib
from . import terms


class Task(object):
    def __init__(self, name, fn, funcs, timeout, note):
        self.name, self.fn, self.funcs = name, fn, funcs
        self.timeout, self.note = timeout, note


class Registry(object):
    """tasks of one property"""
    def __init__(self, prop):
        self.prop = prop
        self.tasks = []

    def task(self, name, funcs=(), timeout=8.0, note='', params=None):
        def deco(fn):
            if params is None:
                self.tasks.append(Task(name, fn, funcs, timeout, note))
            else:
                for p in params:
                    self.tasks.append(Task(
                        '%s[%s]' % (name, p),
                        (lambda v, p=p: fn(v, p)), funcs, timeout, note))
            return fn
        return deco


class V(object):
    """one verification session"""

    def __init__(self, repo=None, timeout=8.0, budget=600.0):
        self.ip = Interp(repo, Prover(timeout))
        self.ip.budget = budget
        self.st = St()
        self.st.frames['top'] = {'#parent': None, '#module': 'contract',
                                 '#globals': set(), '#qual': ''}
        self.st.cur = 'top'
        self.inputs = {}
        terms.FLOOR_HOOK[0] = None
        self.pres = []
        self.trusted = []
        self.covers = []
        self.left = set()
        self.keeps = set()

    # ------------------------------------------------------------ inputs
    def int(self, name, lo=None, hi=None):
        c = z3.Int(name)
        self.inputs[name] = c
        if lo is not None:
            self.pre(ge(c, lo))
        if hi is not None:
            self.pre(le(c, hi))
        return c

    def real(self, name, lo=None, hi=None):
        c = z3.Real(name)
        self.inputs[name] = c
        if lo is not None:
            self.pre(ge(c, lo))
        if hi is not None:
            self.pre(le(c, hi))
        return c

    def bool(self, name):
        c = z3.Bool(name)
        self.inputs[name] = c
        return c

    def arr(self, name, shape, kind='f', nan=False):
        """fresh symbolic array; returns (ref, accessor)"""
        nd = len(shape)
        sort = {'f': R, 'i': I, 'b': B}[kind]
        f = z3.Function(name, *([I] * nd + [sort]))
        if nan:
            g = z3.Function(name + '_nan', *([I] * nd + [B]))
            get = lambda idx: FN(f(*[zi(i) for i in idx]),
                                 g(*[zi(i) for i in idx]))
        else:
            get = lambda idx: f(*[zi(i) for i in idx])
        rec = ArrRec(shape, kind, get)
        return self.st.new(rec), (lambda *idx: get(idx))

    def list(self, items):
        return self.st.new(SeqRec([Items(items)]))

    def pre(self, c):
        """precondition"""
        c = norm(c)
        if c is True:
            return
        self.pres.append(c)
        self.st.assume(c)

    def fact(self, f, names=None):
        """an axiom about a library symbol: trusted"""
        self.ip.prover.add_fact(f, names)

    def name_floors(self, names):
        """floors of terms over these inputs become named constants c with
        c <= term < c + 1"""
        rigid, made = set(names), {}

        def hook(a):
            if not consts_of(a) <= rigid:
                return None
            a = norm(a)
            k = a.get_id()
            if k not in made:
                for c, b in list(made.values()):
                    if rat_eq(a, b) is not None:
                        made[k] = (c, a)
            if k not in made:
                c = z3.Int('floor_%d' % len({str(x) for x, _ in made.values()}))
                made[k] = (c, a)
                rigid.add(str(c))
                self.ip.prover.add_fact(z3.And(z3.ToReal(c) <= a,
                                               a < z3.ToReal(c) + 1),
                                        {str(c)})
            return made[k][0]
        terms.FLOOR_HOOK[0] = hook

    def lemma(self, st, name, goal, hyps=None):
        """an obligation that later obligations may use"""
        self.ip.obl(st, 'lemma: ' + name, goal, 'lemma', True)
        st.assume(goal)

    def only(self, st, *conds):
        """the state with no more path condition than these known facts"""
        s = st.copy()
        s.pc = ()
        known = {c.get_id() for c in st.pc}
        for c in conds:
            t = St()
            t.assume(c)
            for x in t.pc:
                if x.get_id() not in known:
                    raise Unsupported('unknown fact')
            s.assume(c)
        return s

    def trust(self, text):
        self.trusted.append(text)

    # ------------------------------------------------------------- code
    def module(self, name):
        m = self.ip.load_module(self.st, name)
        if isinstance(m, UnknownLib):
            raise Unsupported('module %s not found' % name)
        return m

    def fn(self, module, name):
        m = self.module(module)
        o = m
        for p in name.split('.'):
            o = self.ip.getattr(self.st, o, p) if o is m else \
                self.ip.class_attr(self.st, o, p)
        return o

    def script(self, module):
        """the part of a module that runs when it is the script: a function
        whose names are those of the module"""
        import ast
        from .interp import assigned_names
        m = self.module(module)
        fr = self.st.frames[m.frame]
        rel = fr['#module']
        found = [n for n in self.ip.mod_ast[rel].body if isinstance(
            n, ast.If) and '__main__' in ast.dump(n.test)]
        if not found:
            raise Unsupported('%s is no script' % rel)
        fr['__name__'] = '__main__'
        names = assigned_names(found)
        body = ([ast.Global(names=sorted(set(names)))] if names else
                []) + found
        node = ast.FunctionDef(
            name='<script>', args=ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                defaults=[]), body=body, decorator_list=[])
        for n in (node, body[0]):
            ast.copy_location(n, found[0])
        return FuncVal(rel, node, m.frame, rel + ':<script>')

    def setmod(self, module, name, value):
        """replace a module-level name (a dependency) by its contract"""
        m = self.module(module)
        self.st.frames[m.frame][name] = value

    # state of the modules that outlives a call
    def lasting(self, st):
        """{where: value} of everything the modules hold: names, containers
        and objects reachable from them, defaults of functions"""
        out, seen = {}, set()

        def walk(v, name):
            if isinstance(v, Choice):
                walk(v.a, name)
                walk(v.b, name)
            elif isinstance(v, Ref):
                if v.id in seen or v.id not in st.heap:
                    return
                seen.add(v.id)
                r = st.heap[v.id]
                out[('#', v.id)] = (name, r)
                if isinstance(r, InstRec):
                    for n, x in r.attrs.items():
                        walk(x, '%s.%s' % (name, n))
                elif isinstance(r, DictRec):
                    for n, x in r.d.items():
                        walk(x, name + '[]')
            elif isinstance(v, (FuncVal, ClassVal)):
                if id(v) in seen:
                    return
                seen.add(id(v))
                if isinstance(v, ClassVal):
                    for n, x in v.attrs.items():
                        walk(x, '%s.%s' % (v.name, n))
                    return
                for x in list(v.defaults) + list(v.kwdefaults.values()):
                    walk(x, name + '()')
                fid = v.frame
                while fid in st.frames and not str(fid).startswith('mod:'):
                    if fid in seen:
                        break
                    seen.add(fid)
                    for n, x in list(st.frames[fid].items()):
                        if not n.startswith('#'):
                            walk(x, '%s/%s' % (name, n))
                    fid = st.frames[fid]['#parent']

        for fid, fr in list(st.frames.items()):
            if str(fid).startswith('mod:'):
                for n, x in list(fr.items()):
                    if not n.startswith('#'):
                        out[(fid, n)] = (n, x)
                        walk(x, n)
        return out

    def kept(self, before, st):
        """what a call leaves behind in the modules"""
        if not before:
            return
        for k, (name, x) in before.items():
            if k[0] == '#':
                now = st.heap.get(k[1])
            else:
                now = st.frames.get(k[0], {}).get(k[1])
            if now is x or isinstance(x, (int, float, str)) and \
                    type(now) is type(x) and now == x:
                continue
            self.left.add(name)

    def call(self, f, *args, **kw):
        """run the real function; [(state, outcome)]"""
        ip = self.ip
        st = kw.pop('_st', None) or self.st.copy()
        before = self.lasting(st)
        ip.side.append([])
        try:
            try:
                v = ip.call(f, list(args), kw, st)
                outs = [(st, ('return', v))]
            except NeedFork as e:
                outs = None
                fork = e.cond
            except Exception as e:
                from .interp import PathEnds
                if isinstance(e, PathEnds):
                    outs = []
                else:
                    raise
            extra = ip.side[-1]
        finally:
            ip.side.pop()
        if outs is None:
            res = []
            for c in (fork, b_not(fork)):
                s = self.st.copy()
                s.assume(c)
                if self.ip.feasible(s, True):
                    res += self.call(f, *args, _st=s, **kw)
            return res
        for s, o in outs + extra:
            self.kept(before, s)
        return outs + extra

    def call1(self, f, *args, **kw):
        """run; exceptions are not allowed; one merged state"""
        outs = self.call(f, *args, **kw)
        ok = []
        for s, o in outs:
            if o[0] == 'return':
                ok.append((s, o[1]))
            else:
                self.oblig(s, 'no %s is raised' % o[1].cls, False,
                           'exception')
        if len(ok) != 1:
            if not ok:
                raise Unsupported('no normal result')
            raise Unsupported('several result states')
        return ok[0]

    def outcomes(self, f, *args, **kw):
        """run; every result separately, unmerged: [(state, value)]"""
        st = self.st.copy()
        before = self.lasting(st)
        self.ip.side.append([])
        try:
            outs, save = self.ip.run_function(f, list(args), kw, st)
            outs = outs + self.ip.side[-1]
        finally:
            self.ip.side.pop()
        res = []
        for s, o in outs:
            self.kept(before, s)
            if o[0] == 'return':
                res.append((s, o[1]))
            elif o[0] == 'raise':
                self.oblig(s, 'no %s is raised' % o[1].cls, False,
                           'exception')
            else:
                raise Unsupported('outcome ' + o[0])
        if not res:
            raise Unsupported('no normal result')
        return res

    def oblig(self, st, name, goal, kind='post', exact=True):
        self.ip.obl(st, name, goal, kind, exact)

    def ensure(self, st, name, goal, exact=True):
        self.ip.obl(st, name, goal, 'post', exact)

    def ensure_cells(self, st, name, ref, shape, spec, exact=True,
                     where=None):
        """array result: shape and the value of an arbitrary cell"""
        a = self.ip.av(st, ref)
        if a is None:
            self.ensure(st, name + ': is an array', False)
            return
        if a.ndim != len(shape):
            self.ensure(st, name + ': number of dimensions', False)
            return
        for k, (x, y) in enumerate(zip(a.shape, shape)):
            self.ensure(st, '%s: extent %d' % (name, k), eq(x, y))
        idx = tuple(z3.Int('cell!%d' % k) for k in range(a.ndim))
        s2 = st.copy()
        for i, s in zip(idx, shape):
            s2.assume(b_and(ge(i, 0), lt(i, s)))
        if where is not None:
            s2.assume(where(*idx))
        self.ensure(s2, name + ': every cell', same(a.get(idx),
                                                    spec(*idx)), exact)

    def cell(self, st, ref, *idx):
        return self.ip.av(st, ref).get(idx)

    # ------------------------------------------------------------- finish
    def discharge(self, deadline=None):
        """prove all obligations; list of result dictionaries"""
        p = self.ip.prover
        p.deadline = None
        res = []
        cache = {}
        for o in self.ip.obls:
            t0 = time.time()
            n0 = p.solver_time
            if norm(o.goal) is True:
                status, model, be = 'proved', None, 'trivial'
            else:
                key = (tuple(h.get_id() for h in o.hyps), o.goal.get_id()
                       if is_z3(o.goal) else o.goal)
                if key in cache:
                    status, model, be = cache[key]
                elif deadline and time.time() > deadline:
                    status, model, be = 'unknown', None, 'time'
                else:
                    status, model, be = p.prove(o.hyps, o.goal, 1.5)
                    goal = o.goal
                    if status == 'unknown':
                        goal = p.align(o.hyps, o.goal)
                        if not goal.eq(zb(o.goal)):
                            status, model, be = p.prove(o.hyps, goal, 3.0)
                            if status == 'cex':
                                status = 'unknown'
                    if status == 'unknown' and p.prove_split(
                            o.hyps, goal, deadline=min(
                                deadline or 1e18, time.time() + 90)):
                        status, be = 'proved', 'z3 (case analysis)'
                    if status == 'unknown' and not (
                            deadline and time.time() > deadline):
                        status, model, be = p.prove(o.hyps, o.goal)
                    cache[key] = (status, model, be)
            hints = {}
            if status == 'cex' and model is not None:
                for k, c in self.inputs.items():
                    try:
                        x = model.eval(c, model_completion=True)
                        hints[k] = str(x)
                    except z3.Z3Exception:
                        pass
            exact = o.exact and status == 'cex' and self.is_exact(o)
            res.append({'name': o.name, 'func': o.func, 'kind': o.kind,
                        'status': status, 'backend': be, 'exact': exact,
                        'time': round(time.time() - t0, 3),
                        'model': hints,
                        'detail': (str(model)[:1500] if model is not None
                                   else '')})
        return res

    def is_exact(self, o):
        """linear arithmetic, no abstraction: a model is a real failure"""
        names = set()
        for h in list(o.hyps) + [zb(o.goal)]:
            names |= consts_of(h)
        bad = {'SUM', 'SUM2', 'sqrt', 'log', 'sin', 'cos', 'tan', 'atan',
               'asin', 'acos', 'atan2', 'pi', 'exp'}
        if names & bad:
            return False
        return not any('!' in n and not n.startswith(('cell!', 'gi!', 'wi!',
                                                      'dz!', 'ix!', 'tau!'))
                       for n in names)

    def vacuity(self):
        """the preconditions must not be contradictory"""
        s = z3.Solver()
        s.set('timeout', 5000)
        forms = [zb(c) for c in self.pres]
        for f in self.ip.prover.relevant(forms) + forms:
            s.add(f)
        return str(s.check())


def run_task(task, repo=None, budget=300.0):
    """result record of one task"""
    t0 = time.time()
    v = V(repo, task.timeout, budget)
    rec = {'task': task.name, 'status': 'ok', 'obligations': [],
           'error': None}
    try:
        task.fn(v)
        rec['obligations'] = v.discharge(t0 + budget)
        vac = v.vacuity()
        rec['vacuity'] = vac
        if vac == 'unsat':
            rec['status'] = 'vacuous'
            rec['error'] = 'contradictory precondition'
        if not rec['obligations']:
            rec['status'] = 'empty'
            rec['error'] = 'no obligation was generated'
        left = sorted(v.left - v.keeps)
        if left and rec['status'] == 'ok':
            # the contract speaks about one call in a fresh process
            rec['status'] = 'unsupported'
            rec['error'] = 'a call leaves something in its module: ' + \
                ', '.join(left)
    except Unsupported as e:
        rec['status'] = 'unsupported'
        rec['error'] = '%s (at %s)' % (e, getattr(e, 'where', '?'))
    except NeedFork as e:
        rec['status'] = 'unsupported'
        rec['error'] = 'fork outside a statement'
    except RecursionError:
        rec['status'] = 'unsupported'
        rec['error'] = 'recursion limit'
    except Exception:
        rec['status'] = 'unsupported'
        rec['error'] = 'internal: ' + traceback.format_exc()[-1500:]
    if rec['status'] == 'unsupported' and not rec['obligations']:
        # what was generated before the unsupported construct still counts
        try:
            rec['partial'] = v.discharge(min(t0 + budget,
                                             time.time() + 30))
        except Exception:
            rec['partial'] = []
    p = v.ip.prover
    rec.update({'time': round(time.time() - t0, 2),
                'solver_time': round(p.solver_time, 2), 'queries': p.nq,
                'backends': p.backends, 'functions': sorted(v.ip.used),
                'contracts_used': sorted(getattr(v.ip, 'used_contracts',
                                                 ())),
                'assumed': sorted(v.ip.assumed), 'trusted': v.trusted})
    return rec
