"""Symbolic executor / verification-condition generator for Python source.

The source text of every module is read from the repository on each run.
"""
import ast
import os
import time
from .terms import *
from .values import *
from .prove import Prover, Obl
from . import values

REPO = os.environ.get('VERIF_REPO', '/repo')


class St(object):
    """symbolic state"""
    __slots__ = ('frames', 'heap', 'pc', 'cur')

    def __init__(self):
        self.frames, self.heap, self.pc, self.cur = {}, {}, (), None

    def copy(self):
        s = St()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.cur = self.cur
        return s

    def become(self, o):
        self.frames, self.heap, self.pc, self.cur = \
            o.frames, o.heap, o.pc, o.cur

    def assume(self, c):
        c = norm(c)
        if c is True:
            return
        for x in conjuncts(c if is_z3(c) else zb(c)):
            x = zb(x)
            i = x.get_id()
            if not any(y.get_id() == i for y in self.pc):
                self.pc = self.pc + (x,)

    def new(self, rec):
        r = Ref()
        self.heap[r.id] = rec
        return r


def settle(st, cond, side):
    """replace the choices that a fork has decided"""
    if not is_z3(cond):
        return
    yes, no = cond.get_id(), norm(b_not(cond))
    no = no.get_id() if is_z3(no) else None

    memo = {}

    def pick(v):
        if isinstance(v, (Choice, tuple)):
            if id(v) not in memo:
                memo[id(v)] = (v, pick_(v))
            return memo[id(v)][1]
        return v

    def pick_(v):
        while isinstance(v, Choice):
            c = norm(v.cond)
            i = c.get_id() if is_z3(c) else None
            if i == yes:
                v = v.a if side else v.b
            elif i is not None and i == no:
                v = v.b if side else v.a
            else:
                a, b = pick(v.a), pick(v.b)
                return v if a is v.a and b is v.b else Choice(v.cond, a, b)
        if isinstance(v, tuple) and any(isinstance(x, (Choice, tuple))
                                        for x in v):
            return tuple(pick(x) for x in v)
        return v
    for fr in st.frames.values():
        for k, v in list(fr.items()):
            if isinstance(v, (Choice, tuple)):
                fr[k] = pick(v)
    for k, r in list(st.heap.items()):
        if isinstance(r, InstRec):
            if any(isinstance(v, Choice) for v in r.attrs.values()):
                st.heap[k] = InstRec(r.cls, {a: pick(v) for a, v in
                                             r.attrs.items()})
        elif isinstance(r, DictRec):
            if any(isinstance(v, Choice) for v in r.d.values()):
                st.heap[k] = DictRec({a: pick(v) for a, v in r.d.items()},
                                     r.default, r.sym)
        elif isinstance(r, SeqRec):
            if any(isinstance(s, Items) and any(
                    isinstance(v, Choice) for v in s.items)
                    for s in r.segs):
                st.heap[k] = SeqRec([Items([pick(v) for v in s.items])
                                     if isinstance(s, Items) else s
                                     for s in r.segs], r.kind)


NORMAL = ('normal',)


class Contract(object):
    """stands for a call of a function under contract"""
    def __init__(self, fn):
        self.fn = fn


class Interp(object):
    MAXSTATES = 64

    def __init__(self, repo=None, prover=None):
        self.repo = repo or REPO
        self.set_hints = []
        self.prover = prover or Prover()
        self.obls = []
        self.side = [[]]
        self.loopvars = []
        self.loop_guard = []
        self.contracts = {}
        self.func_stack = ['<top>']
        self.fresh_n = {}
        self.part_lens = {}
        self.rounding = None     # contracts/rounding.py
        self.enums = {}
        self.writer_hints = []
        self.libs = {}
        self.mod_ast = {}
        self.mute = 0
        self.notes = []
        self.used = set()          # functions actually executed from source
        self.assumed = set()       # library contracts used
        self.start = time.time()
        self.budget = 600.0
        self.safety = True
        self.steps = 0
        self._divs = {}
        self.invariants = {}
        self.loop_count = {}
        from . import lib
        lib.install(self)

    # ---------------------------------------------------------------- misc
    def fresh(self, name, sort, extra=()):
        """fresh symbol, a function of the enclosing loop variables"""
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        nm = '%s!%d' % (name, n)
        args = [zi(a) for a in self.loopvars] + list(extra)
        if not args:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *([a.sort() for a in args] + [sort]))
        return f(*args)

    def fresh_fun(self, name, *sorts):
        """fresh function f(args) (also of the enclosing loop variables)"""
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        nm = '%s!%d' % (name, n)
        lv = list(self.loopvars)
        f = z3.Function(nm, *([I] * len(lv) + list(sorts)))

        def call(*args):
            return f(*(lv + [a for a in args]))
        call.decl = f
        return call

    def fact(self, st, formula, vars=(), patterns=None, trig=None):
        """assumption about fresh symbols, guarded by the path condition"""
        formula = norm(formula)
        if formula is True:
            return
        vs = [v for v in self.loopvars] + list(vars)
        g = b_implies(b_and(*st.pc) if not vs else b_and(
            *st.pc), formula)
        g = zb(g)
        if vs:
            free = consts_of(g)
            vs = [v for v in vs if v.decl().name() in free]
        if trig is None:
            pats = patterns or []
            names = set()
            for p in pats:
                names |= {d for d in consts_of(p) if '!' in d}
            trig = names - {v.decl().name() for v in vs}
        if vs:
            pats = patterns
            if pats:
                # a pattern must mention every bound variable
                good = []
                for p in pats:
                    if all(v.decl().name() in consts_of(p) for v in vs):
                        good.append(p)
                pats = good
            if pats:
                mp = z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]
                g = z3.ForAll(vs, g, patterns=[mp])
            else:
                g = z3.ForAll(vs, g)
        self.prover.add_fact(g, trig)

    def obl(self, st, name, goal, kind='safety', exact=True):
        if self.mute:
            return
        goal = norm(goal)
        if goal is True:
            self.trivial = getattr(self, 'trivial', 0) + 1
            self.obls.append(Obl(name, [], True, self.func_stack[-1], kind))
            return
        self.obls.append(Obl(name, st.pc, goal, self.func_stack[-1], kind,
                             exact))

    def valid(self, st, goal):
        return self.prover.quick(st.pc, goal)

    def feasible(self, st, c):
        c = norm(c)
        if isinstance(c, bool):
            return c
        return not self.prover.quick(st.pc, b_not(c))

    def truth(self, st, v):
        v = norm(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        if is_z3(v):
            if v.sort() == B:
                return v
            return ne(v, 0)
        if isinstance(v, FN):
            return b_or(v.nan, ne(v.v, 0))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, SymStr):
            if any(isinstance(p, str) or p.nonempty for p in v.parts):
                return True
            raise Unsupported('truth of symbolic string')
        if isinstance(v, Choice):
            return merge_value(v.cond, self.truth(st, v.a),
                               self.truth(st, v.b))
        if isinstance(v, ObjV):
            return b_and(ne(v.term, code_of(None)), ne(v.term, code_of('')))
        if isinstance(v, Ref):
            r = st.heap[v.id]
            if isinstance(r, SeqRec):
                return gt(self.seq_len(r), 0)
            if isinstance(r, DictRec):
                if r.sym:
                    raise Unsupported('truth of symbolic dict')
                return len(r.d) > 0
            if isinstance(r, InstRec):
                return True
            if isinstance(r, (ArrRec, ViewRec)):
                a = self.av(st, v)
                if a.ndim == 0 or all(norm(x) == 1 and not is_z3(norm(x))
                                      for x in a.shape):
                    return self.truth(st, a.get((0,) * a.ndim))
                raise Unsupported('truth value of an array')
            if isinstance(r, TokSet):
                raise Unsupported('reading a set changed by a loop')
            if isinstance(r, SetRec):
                if r.sym:
                    return gt(r.sym[0], 0)
                return len(r.items) > 0
        if isinstance(v, (FuncVal, Native, Bound, ModuleVal, ClassVal,
                          NObj, NativeClass, DType)):
            return True
        if isinstance(v, Opaque):
            return self.opaque_bool(v)
        raise Unsupported('truth of %r' % (v,))

    def opaque_bool(self, v):
        key = 'truth_%s' % v.name
        return uf(key, B)()

    # ------------------------------------------------------------- arrays
    def av(self, st, v):
        """immutable snapshot of an array value, None if v is no array"""
        if isinstance(v, ArrRec):
            return v
        if isinstance(v, Choice):
            a, b = self.av(st, v.a), self.av(st, v.b)
            if a is None or b is None:
                return None
            return merge_arr(v.cond, a, b)
        if not isinstance(v, Ref):
            return None
        r = st.heap.get(v.id)
        if isinstance(r, ArrRec):
            return r
        if isinstance(r, ViewRec):
            base = self.av(st, r.ref)
            a = ArrRec(r.shape, base.kind, lambda idx: base.get(r.fwd(idx)),
                       info=r.info if base.info is not None else None)
            return a
        return None

    def to_array(self, st, v):
        """np.asarray"""
        a = self.av(st, v)
        if a is not None:
            return a
        if isinstance(v, Choice):
            x, y = self.to_array(st, v.a), self.to_array(st, v.b)
            return merge_arr(v.cond, x, y)
        if isinstance(v, WhereV):
            if v.mask.ndim == 1:
                s = self.lib_nonzero(st, v)
                return ArrRec((1, s.shape[0]), 'i',
                              lambda idx: s.get((idx[1],)),
                              info=('row', s))
            raise Unsupported('array of where()')
        if is_scalar(v):
            return ArrRec((), kind_of(v), lambda idx: v)
        if isinstance(v, tuple):
            v = st.new(SeqRec([Items(v)]))
        if isinstance(v, Ref):
            r = st.heap[v.id]
            if isinstance(r, SeqRec):
                items = r.concrete()
                if items is not None:
                    if all(is_scalar(i) for i in items):
                        k = 'i'
                        for i in items:
                            kk = kind_of(i)
                            if kk == 'f':
                                k = 'f'
                        if items and all(kind_of(i) == 'b' for i in items):
                            k = 'b'
                        if not items:
                            k = 'f'
                        def get(idx):
                            if not items:
                                return Fraction(0)
                            return conv(k, seg_get(Items(items), idx[0]))
                        return ArrRec((len(items),), k, get)
                    rows = [self.to_array(st, i) for i in items]
                    if rows and all(x is not None for x in rows):
                        def get2(idx):
                            i = norm(idx[0])
                            if isinstance(i, int):
                                return rows[i].get(idx[1:])
                            v = rows[-1].get(idx[1:])
                            for n in range(len(rows) - 2, -1, -1):
                                v = ite(eq(i, n), rows[n].get(idx[1:]), v)
                            return v
                        return ArrRec((len(rows),) + rows[0].shape,
                                      rows[0].kind, get2)
                    raise Unsupported('array of objects')
                n = r.length()
                segs = r.segs
                probe = segs_get(segs, z3.Int('probe!seq'))
                if is_scalar(probe):
                    return ArrRec((n,), kind_of(probe),
                                  lambda idx: segs_get(segs, idx[0]))
            if isinstance(r, RangeV):
                return ArrRec((r.length(),), 'i', lambda idx: r.elem(idx[0]))
        if isinstance(v, (RangeV, SymIter)):
            p = v.elem(z3.Int('probe!seq'))
            return ArrRec((v.length(),), kind_of(p),
                          lambda idx: v.elem(idx[0]))
        return None

    def dim_eq(self, st, a, b):
        """are two extents equal on this path?"""
        if same_term(a, b):
            return True
        return self.valid(st, eq(a, b))

    def broadcast(self, st, arrs):
        """common shape of ArrRecs; returns shape and index adaptors"""
        nd = max(a.ndim for a in arrs)
        shape = []
        for d in range(nd):
            cur = 1
            for a in arrs:
                k = d - (nd - a.ndim)
                if k < 0:
                    continue
                s = norm(a.shape[k])
                if isinstance(s, int) and s == 1:
                    continue
                if isinstance(cur, int) and cur == 1:
                    cur = s
                    continue
                if not self.dim_eq(st, cur, s):
                    # either may be 1 at run time: require equality
                    self.obl(st, 'array shapes agree', eq(cur, s))
            shape.append(cur)
        shape = tuple(shape)

        def adapt(a):
            off = nd - a.ndim
            ones = [isinstance(norm(s), int) and norm(s) == 1
                    for s in a.shape]

            def get(idx):
                return a.get(tuple(0 if o else i
                                   for o, i in zip(ones, idx[off:])))
            return get
        return shape, [adapt(a) for a in arrs]

    def decide(self, st, v):
        """drop the branch of a conditional the path condition excludes"""
        while is_z3(v) and v.decl().kind() == z3.Z3_OP_ITE:
            c = norm(v.arg(0))
            if self.valid(st, c):
                v = norm(v.arg(1))
            elif self.valid(st, b_not(c)):
                v = norm(v.arg(2))
            else:
                break
        return v

    def elementwise(self, st, fn, args, kind=None):
        """apply a scalar function to scalars/arrays/selections"""
        sels = [a for a in args if isinstance(a, Sel)]
        if sels:
            s0 = sels[0]
            for s in sels[1:]:
                self.same_mask(st, s0.mask, s.mask)
            gets = []
            for a in args:
                if isinstance(a, Sel):
                    gets.append(a.get)
                elif is_scalar(a):
                    gets.append(lambda idx, a=a: a)
                else:
                    raise Unsupported('selection with array operand')
            probe = fn(*[g(tuple(z3.Int('pi!%d' % i)
                                 for i in range(s0.mask.ndim)))
                         for g in gets])
            return Sel(s0.mask, s0.shape, kind or kind_of(probe),
                       lambda idx: fn(*[g(idx) for g in gets]))
        arrs = []
        anyarr = False
        for a in args:
            r = self.to_array(st, a) if not is_scalar(a) else None
            if r is not None:
                anyarr = True
                arrs.append(r)
            elif is_scalar(a):
                arrs.append(ArrRec((), kind_of(a), lambda idx, a=a: a))
            else:
                raise Unsupported('elementwise operand %r' % (a,))
        if not anyarr:
            return self.decide(st, fn(*args))
        if all(a.ndim == 0 for a in arrs):
            return fn(*[a.get(()) for a in arrs])
        shape, gets = self.broadcast(st, arrs)
        probe = fn(*[g(tuple(z3.Int('pi!%d' % i)
                             for i in range(len(shape)))) for g in gets])
        k = kind or kind_of(probe)
        info = None
        masks = [a for a in arrs if isinstance(a.info, MaskInfo)]
        if masks:
            ms = self.broadcast(st, arrs + [ArrRec(
                a.shape, 'b', a.info.get) for a in masks])[1][len(arrs):]
            info = MaskInfo(lambda idx: b_or(*[zb(m(idx)) for m in ms]))
        return st.new(ArrRec(shape, k,
                             lambda idx: fn(*[g(idx) for g in gets]),
                             info=info))

    def same_mask(self, st, m1, m2):
        if m1 is m2:
            return
        idx = tuple(self.fresh('mk', I) for _ in range(m1.ndim))
        g = b_iff(m1.get(idx), m2.get(idx))
        s2 = st.copy()
        for i, s in zip(idx, m1.shape):
            s2.assume(b_and(ge(i, 0), lt(i, s)))
        if norm(g) is True or self.valid(s2, g):
            return
        self.obl(s2, 'the two selections choose the same cells', g)

    def is_array(self, st, v):
        if isinstance(v, (ArrRec, Sel)):
            return True
        if isinstance(v, Ref):
            return isinstance(st.heap.get(v.id), (ArrRec, ViewRec))
        if isinstance(v, Choice):
            return self.is_array(st, v.a) and self.is_array(st, v.b)
        return False

    # ----------------------------------------------------------- modules
    def module_path(self, name):
        p = name.replace('.', '/') + '.py'
        for pre in ('', 'utilities/'):
            f = os.path.join(self.repo, pre + p)
            if os.path.exists(f):
                return f, pre + p
        return None, None

    def load_module(self, st, name):
        """module value of an imported name"""
        if name in self.libs:
            return self.libs[name]
        path, rel = self.module_path(name)
        if path is None:
            pk = os.path.join(self.repo, name.replace('.', '/'))
            if os.path.isdir(pk):
                return ModuleVal(name, None, {}, pk)
            return UnknownLib(name)
        fid = 'mod:' + rel
        mv = ModuleVal(name, fid, {}, rel)
        if fid in st.frames:
            return mv
        if rel not in self.mod_ast:
            with open(path) as f:
                self.mod_ast[rel] = ast.parse(f.read(), rel)
        st.frames[fid] = {'#parent': None, '#module': rel, '#globals': set(),
                          '__name__': name, '__file__': path}
        save = st.cur
        st.cur = fid
        self.mute += 1
        try:
            for node in self.mod_ast[rel].body:
                if isinstance(node, ast.If) and 'main' in ast.dump(node.test):
                    continue
                try:
                    outs = self.exec_stmt(node, st)
                    ok = [o for o in outs if o[1] == NORMAL]
                    if not ok:
                        raise Unsupported('module statement raises')
                    st.become(ok[0][0])
                except (Unsupported, KeyError, AttributeError, TypeError,
                        IndexError, NotImplementedError) as e:
                    for n in assigned_names([node]):
                        st.frames[fid].setdefault(
                            n, UnknownLib('%s.%s (%s)' % (rel, n, e)))
                finally:
                    st.cur = fid
        finally:
            self.mute -= 1
            st.cur = save
        return mv

    # ------------------------------------------------------------- names
    def lookup(self, st, name):
        fid = st.cur
        while fid is not None:
            fr = st.frames[fid]
            if name in fr:
                v = fr[name]
                if v is UNBOUND:
                    self.obl(st, 'local variable %s is bound' % name, False)
                    raise Unsupported('unbound variable ' + name)
                if isinstance(v, Choice) and (v.a is UNBOUND or
                                              v.b is UNBOUND):
                    c = v.cond if v.b is UNBOUND else b_not(v.cond)
                    w = v.a if v.b is UNBOUND else v.b
                    if not self.valid(st, c):
                        self.obl(st, 'local variable %s is bound' % name, c)
                    return w
                return v
            fid = fr['#parent']
        if name in self.builtins:
            return self.builtins[name]
        raise Unsupported('unknown name ' + name)

    def bind(self, st, name, v):
        fr = st.frames[st.cur]
        if name in fr['#globals']:
            st.frames['mod:' + fr['#module']][name] = v
            return
        if name in fr.get('#nonlocals', ()):
            fid = fr['#parent']
            while fid is not None:
                if name in st.frames[fid]:
                    st.frames[fid][name] = v
                    return
                fid = st.frames[fid]['#parent']
        fr[name] = v

    # --------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        cur, outs = [st], []
        for s in stmts:
            nxt = []
            for c in cur:
                for (s2, o) in self.exec_stmt(s, c):
                    if o[0] == 'normal':
                        nxt.append(s2)
                    else:
                        outs.append((s2, o))
            cur = self.merge_states(nxt)
            if not cur:
                break
            if len(cur) > self.MAXSTATES:
                raise Unsupported('too many paths')
        return self.merge_outcomes(outs + [(c, NORMAL) for c in cur])

    def exec_stmt(self, node, st):
        self.steps += 1
        if time.time() - self.start > self.budget:
            raise Unsupported('time budget exceeded')
        snap = st.copy()
        mark = len(self.obls)
        depth = (len(self.side), list(self.loopvars), list(self.func_stack),
                 self.mute)
        self.side.append([])
        try:
            outs = self._exec(node, st)
            outs = list(outs) + self.side.pop()
            return outs
        except NeedFork as f:
            del self.side[depth[0]:]
            self.loopvars = depth[1]
            self.func_stack = depth[2]
            self.mute = depth[3]
            del self.obls[mark:]
            outs = []
            c = norm(f.cond)
            for cc in (c, b_not(c)):
                if not self.feasible(snap, cc):
                    continue
                s = snap.copy()
                s.assume(cc)
                settle(s, c, cc is c)
                outs += self.exec_stmt(node, s)
            return self.merge_outcomes(outs)
        except PathEnds:
            outs = [o for l in self.side[depth[0]:] for o in l]
            del self.side[depth[0]:]
            self.loopvars = depth[1]
            self.func_stack = depth[2]
            self.mute = depth[3]
            return self.merge_outcomes(outs)
        except Unsupported as e:
            del self.side[depth[0]:]
            if not getattr(e, 'where', None):
                e.where = '%s:%s' % (self.func_stack[-1],
                                     getattr(node, 'lineno', '?'))
            raise

    def _exec(self, node, st):
        m = getattr(self, 'x_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(node).__name__)
        return m(node, st)

    def x_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return [(st, NORMAL)]
        self.ev(node.value, st)
        return [(st, NORMAL)]

    def x_Pass(self, node, st):
        return [(st, NORMAL)]

    def x_Import(self, node, st):
        for a in node.names:
            m = self.load_module(st, a.name)
            if a.asname:
                self.bind(st, a.asname, m)
            else:
                top = a.name.split('.')[0]
                if '.' in a.name and top not in self.libs:
                    # package namespace object
                    cur = None
                    try:
                        cur = self.lookup(st, top)
                    except Unsupported:
                        pass
                    attrs = dict(cur.attrs) if isinstance(cur, ModuleVal) \
                        else {}
                    attrs[a.name.split('.')[1]] = m
                    self.bind(st, top, ModuleVal(top, None, attrs))
                else:
                    self.bind(st, top, self.load_module(st, top)
                              if top != a.name else m)
        return [(st, NORMAL)]

    def x_ImportFrom(self, node, st):
        if node.module == 'mpi4py' and self.no_mpi:
            return [(st, ('raise', ExcVal('ModuleNotFoundError')))]
        m = self.load_module(st, node.module)
        for a in node.names:
            v = None
            if isinstance(m, ModuleVal) and m.frame is not None and \
                    a.name in st.frames[m.frame]:
                v = st.frames[m.frame][a.name]
            elif isinstance(m, ModuleVal) and a.name in m.attrs:
                v = m.attrs[a.name]
            else:
                v = self.load_module(st, node.module + '.' + a.name)
            self.bind(st, a.asname or a.name, v)
        return [(st, NORMAL)]

    no_mpi = True

    def x_FunctionDef(self, node, st):
        fr = st.frames[st.cur]
        defaults = [self.ev(d, st) for d in node.args.defaults]
        kwd = {a.arg: self.ev(d, st) for a, d in
               zip(node.args.kwonlyargs, node.args.kw_defaults)
               if d is not None}
        q = fr.get('#qual', '')
        qual = '%s:%s%s' % (fr['#module'], q + '.' if q else '', node.name)
        v = FuncVal(fr['#module'], node, st.cur, qual, defaults, kwd)
        v.raw = v
        for d in reversed(node.decorator_list):
            dv = self.ev(d, st)
            raw = v
            v = self.call(dv, [v], {}, st)
            if isinstance(v, FuncVal) and not hasattr(v, 'raw'):
                v.raw = raw
        self.bind(st, node.name, v)
        return [(st, NORMAL)]

    def x_ClassDef(self, node, st):
        fr = st.frames[st.cur]
        bases = [self.ev(b, st) for b in node.bases]
        fid = 'cls%d' % Ref().id
        st.frames[fid] = {'#parent': st.cur, '#module': fr['#module'],
                          '#globals': set(), '#qual': node.name}
        save = st.cur
        st.cur = fid
        for s in node.body:
            outs = self.exec_stmt(s, st)
            if len(outs) != 1:
                raise Unsupported('class body')
            st.become(outs[0][0])
        st.cur = save
        attrs = {k: v for k, v in st.frames[fid].items()
                 if not k.startswith('#')}
        # method bodies must not see class-level names
        for v in attrs.values():
            if isinstance(v, FuncVal):
                v.frame = save
        cv = ClassVal(node.name, fr['#module'], bases, attrs)
        for v in attrs.values():
            if isinstance(v, FuncVal):
                v.cls = cv
            if isinstance(v, FuncVal) and getattr(v, 'raw', None):
                v.raw.cls = cv
        self.bind(st, node.name, cv)
        return [(st, NORMAL)]

    def x_Return(self, node, st):
        v = self.ev(node.value, st) if node.value else None
        return [(st, ('return', v))]

    def x_Break(self, node, st):
        return [(st, ('break',))]

    def x_Continue(self, node, st):
        return [(st, ('continue',))]

    def x_Global(self, node, st):
        fr = st.frames[st.cur]
        fr['#globals'] = set(fr['#globals']) | set(node.names)
        return [(st, NORMAL)]

    def x_Nonlocal(self, node, st):
        fr = st.frames[st.cur]
        fr['#nonlocals'] = set(fr.get('#nonlocals', ())) | set(node.names)
        return [(st, NORMAL)]

    def x_Assert(self, node, st):
        c = self.truth(st, self.ev(node.test, st))
        self.obl(st, 'assert holds', c)
        st.assume(c)
        return [(st, NORMAL)]

    def x_Assign(self, node, st):
        v = self.ev(node.value, st)
        for t in node.targets:
            self.assign(t, v, st)
        return [(st, NORMAL)]

    def x_AnnAssign(self, node, st):
        if node.value is not None:
            self.assign(node.target, self.ev(node.value, st), st)
        return [(st, NORMAL)]

    def x_AugAssign(self, node, st):
        t = node.target
        load = ast.copy_location(_as_load(t), t)
        if isinstance(t, ast.Name):
            old = self.ev(load, st)
            rhs = self.ev(node.value, st)
            if self.is_array(st, old) and not is_scalar(old):
                # in-place array operation
                new = self.binop(type(node.op).__name__, old, rhs, st)
                a = self.av(st, new)
                self.store_all(st, old, a)
                return [(st, NORMAL)]
            if isinstance(old, Ref) and isinstance(st.heap[old.id], SeqRec) \
                    and isinstance(node.op, ast.Add):
                self.lib_extend(st, old, rhs)
                return [(st, NORMAL)]
            v = self.binop(type(node.op).__name__, old, rhs, st)
            self.bind(st, t.id, v)
            return [(st, NORMAL)]
        if isinstance(t, ast.Attribute):
            obj = self.ev(t.value, st)
            old = self.getattr(st, obj, t.attr)
            v = self.binop(type(node.op).__name__, old,
                           self.ev(node.value, st), st)
            self.setattr(st, obj, t.attr, v)
            return [(st, NORMAL)]
        if isinstance(t, ast.Subscript):
            obj = self.ev(t.value, st)
            ix = self.ev_index(t.slice, st)
            old = self.getitem(st, obj, ix)
            v = self.binop(type(node.op).__name__, old,
                           self.ev(node.value, st), st)
            self.setitem(st, obj, ix, v)
            return [(st, NORMAL)]
        raise Unsupported('augmented assignment')

    def store_all(self, st, ref, a):
        if isinstance(ref, Choice):
            raise NeedFork(ref.cond)
        self.write_arr(st, ref, lambda idx: True, a.get)

    def assign(self, t, v, st):
        if isinstance(v, SeqRec):
            v = st.new(v)
        if isinstance(t, ast.Name):
            self.bind(st, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(st, v, len(t.elts))
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    raise Unsupported('starred target')
                self.assign(e, x, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.ev(t.value, st), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, st)
            ix = self.ev_index(t.slice, st)
            self.setitem(st, obj, ix, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, st, v, n):
        if isinstance(v, Choice):
            raise NeedFork(v.cond)
        if isinstance(v, tuple):
            if len(v) != n:
                self.obl(st, 'tuple has %d items' % n, False)
                raise Unsupported('unpacking')
            return list(v)
        if isinstance(v, Ref):
            r = st.heap[v.id]
            if isinstance(r, SeqRec):
                it = r.concrete()
                if it is not None and len(it) == n:
                    return list(it)
                if it is None:
                    self.obl(st, 'sequence has %d items' % n,
                             eq(r.length(), n))
                    return [r.get(i) for i in range(n)]
            a = self.av(st, v)
            if a is not None:
                self.obl(st, 'sequence has %d items' % n, eq(a.shape[0], n))
                return [self.getitem(st, v, i) for i in range(n)]
        if isinstance(v, ArrRec):
            self.obl(st, 'sequence has %d items' % n, eq(v.shape[0], n))
            return [v.get((i,)) for i in range(n)]
        raise Unsupported('unpacking %r' % (v,))

    def x_Delete(self, node, st):
        for t in node.targets:
            if isinstance(t, ast.Name):
                fr = st.frames[st.cur]
                if t.id in fr:
                    v = fr[t.id]
                    fr[t.id] = UNBOUND
                    self.on_delete(st, v)
            elif isinstance(t, ast.Subscript):
                obj = self.ev(t.value, st)
                ix = self.ev_index(t.slice, st)
                self.delitem(st, obj, ix)
            elif isinstance(t, ast.Attribute):
                raise Unsupported('del attribute')
        return [(st, NORMAL)]

    def on_delete(self, st, v):
        pass

    def delitem(self, st, obj, ix):
        if isinstance(obj, Ref) and isinstance(st.heap[obj.id], DictRec):
            r = st.heap[obj.id]
            d = dict(r.d)
            if ix in d:
                del d[ix]
                st.heap[obj.id] = DictRec(d, r.default, r.sym)
                return
        raise Unsupported('del item')

    def x_If(self, node, st):
        c = norm(self.truth(st, self.ev(node.test, st)))
        if c is True:
            return self.exec_block(node.body, st)
        if c is False:
            return self.exec_block(node.orelse, st)
        t, f = self.feasible(st, c), self.feasible(st, b_not(c))
        outs = []
        if t:
            s1 = st.copy()
            s1.assume(c)
            outs += self.exec_block(node.body, s1)
        if f:
            s2 = st.copy()
            s2.assume(b_not(c))
            outs += self.exec_block(node.orelse, s2)
        return self.merge_outcomes(outs)

    def x_Raise(self, node, st):
        if node.exc is None:
            e = st.frames[st.cur].get('#exc')
            return [(st, ('raise', e or ExcVal('Exception')))]
        v = self.ev(node.exc, st)
        if isinstance(v, ExcClass):
            v = ExcVal(v.name)
        if not isinstance(v, ExcVal):
            raise Unsupported('raise of %r' % (v,))
        return [(st, ('raise', v))]

    def x_Try(self, node, st):
        outs = self.exec_block(node.body, st)
        res = []
        for (s, o) in outs:
            if o[0] == 'raise':
                handled = False
                for h in node.handlers:
                    if self.handler_matches(h, o[1], s):
                        s.frames[s.cur]['#exc'] = o[1]
                        if h.name:
                            self.bind(s, h.name, o[1])
                        res += self.exec_block(h.body, s)
                        handled = True
                        break
                if not handled:
                    res.append((s, o))
            elif o[0] == 'normal' and node.orelse:
                res += self.exec_block(node.orelse, s)
            else:
                res.append((s, o))
        if node.finalbody:
            out2 = []
            for (s, o) in res:
                for (s3, o3) in self.exec_block(node.finalbody, s):
                    out2.append((s3, o if o3 == NORMAL else o3))
            res = out2
        return self.merge_outcomes(res)

    def handler_matches(self, h, exc, st):
        if h.type is None:
            return True
        t = self.ev(h.type, st)
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, ExcClass) and x.covers(exc.cls):
                return True
            if isinstance(x, UnknownLib):
                continue
        return False

    def x_With(self, node, st):
        if len(node.items) != 1:
            raise Unsupported('with')
        it = node.items[0]
        cm = self.ev(it.context_expr, st)
        enter = self.getattr(st, cm, '__enter__')
        v = self.call(enter, [], {}, st)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, st)
        outs = self.exec_block(node.body, st)
        res = []
        for (s, o) in outs:
            ex = self.getattr(s, cm, '__exit__')
            self.call(ex, [None, None, None], {}, s)
            res.append((s, o))
        return res

    # -------------------------------------------------------------- loops
    def seq_len(self, r):
        """length of a list; that of the parts a loop puts together is a
        number that is zero exactly if every part is empty"""
        total = 0
        for g in r.segs:
            try:
                n = g.length()
            except Unsupported:
                if not isinstance(g, LoopSeg) or self.loopvars:
                    raise
                n = self.part_len(g)
            total = add(total, n)
        return total

    def part_len(self, g):
        if id(g) not in self.part_lens:
            k = segs_len(g.body)
            n = self.fresh('length', I)
            w = self.fresh('longest', I)
            inside = lambda t: b_and(ge(t, 0), lt(t, g.n))
            at = lambda t: segs_len([subst_seg(b, [(g.tau, t)])
                                     for b in g.body])
            t = z3.Int('part!%d' % len(self.part_lens))
            trig = {n.decl().name()}
            self.prover.add_fact(zb(b_and(ge(n, 0), b_or(eq(n, 0), b_and(
                inside(w), gt(at(w), 0))))), trig)
            self.prover.add_fact(z3.ForAll([t], zb(b_implies(
                inside(t), le(at(t), n)))), trig)
            self.assumed.add('lemma (proved in lemmas/Sums.lean: part_le, '
                             'some_part): the length of concatenated lists '
                             'is at least that of every part, and zero if '
                             'all are empty')
            self.part_lens[id(g)] = n, g
        return self.part_lens[id(g)][0]

    def iteration(self, st, v):
        """list of concrete items, or a symbolic (n, elem)"""
        if isinstance(v, Choice):
            raise NeedFork(v.cond)
        if isinstance(v, SeqRec):
            v = st.new(v)
        if isinstance(v, RangeV):
            n = norm(v.length())
            if isinstance(n, int):
                return [norm(v.elem(k)) for k in range(n)]
            return (n, v.elem)
        if isinstance(v, SymIter):
            n = norm(v.length())
            if isinstance(n, int):
                return [v.elem(k) for k in range(n)]
            return (n, v.elem)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, ArrRec):
            a = v
        else:
            a = self.av(st, v)
        if a is not None:
            n = norm(a.shape[0])
            if a.ndim == 1:
                if isinstance(n, int):
                    return [a.get((k,)) for k in range(n)]
                return (n, lambda k: a.get((k,)))
            def row(k):
                return ArrRec(a.shape[1:], a.kind,
                              lambda idx: a.get((k,) + tuple(idx)))
            if isinstance(n, int):
                return [row(k) for k in range(n)]
            return (n, row)
        if isinstance(v, NObj):
            f = v.attr('__iter__')
            if f is not None:
                return self.iteration(st, self.call(f, [], {}, st))
        if isinstance(v, Ref):
            r = st.heap[v.id]
            if isinstance(r, SeqRec):
                it = r.concrete()
                if it is not None:
                    return list(it)
                n = norm(r.length())
                if isinstance(n, int):
                    return [r.get(k) for k in range(n)]
                return (n, r.get)
            if isinstance(r, DictRec):
                if r.sym or r.default is not None:
                    raise Unsupported('iteration over symbolic dict')
                return list(r.d.keys())
            if isinstance(r, TokSet):
                raise Unsupported('reading a set changed by a loop')
            if isinstance(r, SetRec):
                if r.sym:
                    return self.enumeration(r)
                if len(r.items) > 1:
                    self.assumed.add('the result does not depend on the '
                                     'order in which a set of fixed names '
                                     'is gone through')
                return list(r.items)
            if isinstance(r, InstRec):
                f = self.inst_attr(st, v, '__iter__', None)
                if f is not None:
                    return self.iteration(st, self.call(f, [], {}, st))
        raise Unsupported('iteration over %r' % (v,))

    def enumeration(self, r):
        """the members of {elem(i): i < n}, each once, in some order"""
        got = self.enums.get(id(r.sym))
        if got is not None:
            return got[1]
        n, elem = r.sym

        def key(x):
            if isinstance(x, ObjV):
                return x.term
            if isinstance(x, SymStr):
                t = [p for p in x.parts if isinstance(p, Atom)]
                if len(t) == 1 and t[0].term is not None:
                    t = t[0].term
                    if isinstance(t, tuple) and len(t) == 1:
                        t = t[0]
                    x = t
            if is_z3(x):
                return x
            raise Unsupported('set of %r' % (x,))
        i, k = z3.Ints('en!i en!k')
        K = key(elem(i))
        m = self.fresh('members', I)
        pos = self.fresh_fun('member', I, I)
        rank = self.fresh_fun('number_of', K.sort(), I)
        if self.loopvars:
            raise Unsupported('set inside a loop')

        def at(j):
            return z3.substitute(K, (i, zi(j)))
        P, Rk = pos(k), rank(K)
        f = [m >= 0,
             z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(
                 0 <= P, P < zi(n), rank(at(P)) == k)), patterns=[P]),
             z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(n)), z3.And(
                 0 <= Rk, Rk < m, at(pos(Rk)) == K)), patterns=[K])]
        for g, t in zip(f, (m.decl(), pos.decl, rank.decl)):
            self.prover.add_fact(g, {t.name()})
        res = (m, lambda j: elem(pos(zi(j))))
        self.enums[id(r.sym)] = (r.sym, res, rank)
        return res

    def x_For(self, node, st):
        it = self.iteration(st, self.ev(node.iter, st))
        if isinstance(it, list):
            cur, outs, broke = [st], [], []
            for item in it:
                nxt = []
                for s in cur:
                    self.assign(node.target, item, s)
                    for (s2, o) in self.exec_block(node.body, s):
                        if o[0] in ('normal', 'continue'):
                            nxt.append(s2)
                        elif o[0] == 'break':
                            broke.append(s2)
                        else:
                            outs.append((s2, o))
                cur = self.merge_states(nxt)
                if not cur:
                    break
            res = [(s, o) for s, o in outs]
            if node.orelse:
                for s in cur:
                    res += self.exec_block(node.orelse, s)
                res += [(s, NORMAL) for s in broke]
            else:
                res += [(s, NORMAL) for s in self.merge_states(cur + broke)]
            return self.merge_outcomes(res)
        n, elem = it
        from . import loops
        return loops.summarise_for(self, node, st, n, elem)

    def x_While(self, node, st):
        from . import loops
        return loops.exec_while(self, node, st)

    # ------------------------------------------------------------ merging
    def merge_states(self, states):
        states = list(states)
        if len(states) <= 1:
            return states
        out = []
        for s in states:
            merged = False
            for i, t in enumerate(out):
                m = self.merge2(t, s)
                if m is not None:
                    out[i] = m
                    merged = True
                    break
            if not merged:
                out.append(s)
        return out

    def merge_outcomes(self, outs):
        groups = {}
        order = []
        for (s, o) in outs:
            k = o[0]
            if k == 'raise':
                k = ('raise', o[1].cls)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((s, o))
        res = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                res += g
                continue
            if k == 'return':
                for (s, o) in g:
                    s.frames[s.cur] = dict(s.frames[s.cur])
                    s.frames[s.cur]['#ret'] = o[1]
                for s in self.merge_states([s for s, o in g]):
                    v = s.frames[s.cur].pop('#ret')
                    res.append((s, ('return', v)))
            else:
                for s in self.merge_states([s for s, o in g]):
                    res.append((s, g[0][1]))
        return res

    def merge2(self, a, b):
        if a.cur != b.cur:
            return None
        n = 0
        while n < min(len(a.pc), len(b.pc)) and a.pc[n].eq(b.pc[n]):
            n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        if not ra or not rb:
            return None
        # exclusive?
        if not any(x.eq(zb(b_not(y))) for x in ra for y in rb):
            if not self.prover.quick(a.pc[:n] + ra, b_not(b_and(*rb))):
                return None
        # shortest selector: the conjunct whose negation is on the other side
        sel = None
        for x in ra:
            if any(x.eq(zb(b_not(y))) for y in rb):
                sel = x
                break
        if sel is None:
            sel = b_and(*ra)
        m = St()
        m.cur = a.cur
        disj = b_or(b_and(*ra), b_and(*rb))
        if len(ra) == 1 and len(rb) == 1:
            disj = True if zb(b_not(ra[0])).eq(rb[0]) else disj
        m.pc = a.pc[:n]
        if disj is not True:
            # keep the information of both sides as implications
            restA = [x for x in ra if x is not sel]
            restB = [y for y in rb if not zb(b_not(y)).eq(zb(sel))]
            if len(restA) < len(ra) and len(restB) < len(rb):
                for x in restA:
                    m.pc = m.pc + (zb(b_implies(sel, x)),)
                for y in restB:
                    m.pc = m.pc + (zb(b_implies(b_not(sel), y)),)
            else:
                m.pc = m.pc + (zb(disj),)
        for fid in set(a.frames) | set(b.frames):
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is None or fb is None:
                m.frames[fid] = fa if fb is None else fb
                continue
            fr = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                if k == '#exc':
                    fr[k] = fa.get(k, fb.get(k))
                    continue
                if k.startswith('#') and k != '#ret':
                    fr[k] = fa.get(k, fb.get(k))
                    continue
                fr[k] = merge_value(sel, fa.get(k, UNBOUND),
                                    fb.get(k, UNBOUND))
            m.frames[fid] = fr
        for rid in set(a.heap) | set(b.heap):
            x, y = a.heap.get(rid), b.heap.get(rid)
            if x is None or y is None:
                m.heap[rid] = x if y is None else y
            else:
                r = merge_rec(sel, x, y)
                if r is None:
                    return None
                m.heap[rid] = r
        return m

    # -------------------------------------------------------- expressions
    def ev(self, node, st):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(node).__name__)
        return m(node, st)

    def e_Constant(self, node, st):
        v = node.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float('inf') \
                else (NAN if v != v else Opaque('inf'))
        if isinstance(v, (bool, int, str, type(None))):
            return v
        if v is Ellipsis:
            return v
        if isinstance(v, bytes):
            return Opaque('bytes')
        raise Unsupported('constant %r' % (v,))

    def e_Name(self, node, st):
        return self.lookup(st, node.id)

    def e_Tuple(self, node, st):
        out = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                out += self.concrete_items(st, self.ev(e.value, st))
            else:
                out.append(self.ev(e, st))
        return tuple(out)

    def concrete_items(self, st, v):
        it = self.iteration(st, v)
        if not isinstance(it, list):
            raise Unsupported('unbounded argument list')
        return it

    def e_List(self, node, st):
        return st.new(SeqRec([Items(self.e_Tuple(node, st))]))

    def e_Set(self, node, st):
        items = []
        for e in node.elts:
            v = self.ev(e, st)
            if v not in items:
                items.append(v)
        return st.new(SetRec(items))

    def e_Dict(self, node, st):
        d = {}
        for k, v in zip(node.keys, node.values):
            if k is None:
                o = self.ev(v, st)
                r = st.heap[o.id]
                if not isinstance(r, DictRec) or r.sym:
                    raise Unsupported('dict unpacking')
                d.update(r.d)
                continue
            kk = self.ev(k, st)
            kk = norm(kk)
            if isinstance(kk, (SymStr, ObjV)) and len(node.keys) == 1:
                return st.new(DictRec({}, None, (
                    (kk, self.ev(v, st), None),)))
            if isinstance(kk, (SymStr, ObjV)) or is_z3(kk):
                raise Unsupported('symbolic dict key')
            d[kk] = self.ev(v, st)
        return st.new(DictRec(d))

    def e_JoinedStr(self, node, st):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            elif v.format_spec is not None or v.conversion not in (-1, 115):
                self.ev(v.value, st)
                parts.append(self.opaque_str())
            else:
                parts.append(self.to_str(st, self.ev(v.value, st)))
        return sstr(*parts)

    def opaque_str(self):
        self._opq = getattr(self, '_opq', 0) + 1
        return SymStr([Atom('opaque%d' % self._opq, '', None, False)])

    def to_str(self, st, v):
        v = norm(v)
        if isinstance(v, (str, SymStr)):
            return v
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, int):
            return str(v)
        if is_scalar(v):
            k = 'f' if is_floatlike(v) else 'i'
            return SymStr([Atom('str' + k, '/_', (v,))])
        if isinstance(v, ObjV):
            return SymStr([Atom('obj', '', (v.term,), False)])
        self._opq = getattr(self, '_opq', 0) + 1
        return SymStr([Atom('opaque%d' % self._opq, '', None, False)])

    def e_UnaryOp(self, node, st):
        v = self.ev(node.operand, st)
        op = type(node.op).__name__
        if op == 'Not':
            return b_not(self.truth(st, v))
        if op == 'USub':
            if isinstance(v, Opaque):
                return Opaque('neg', v)
            if is_scalar(v):
                return neg(v)
            return self.elementwise(st, neg, [v])
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isinstance(v, bool):
                raise Unsupported('~bool')
            if is_scalar(v):
                if is_sym_bool(v):
                    return b_not(v)
                return sub(neg(v), 1)
            return self.elementwise(st, lambda x: b_not(self.truth(st, x)),
                                    [v], 'b')
        raise Unsupported('unary ' + op)

    def e_BoolOp(self, node, st):
        is_and = isinstance(node.op, ast.And)
        cur = self.ev(node.values[0], st)
        for nxt in node.values[1:]:
            c = norm(self.truth(st, cur))
            if isinstance(c, bool):
                if c != is_and:
                    return cur
                cur = self.ev(nxt, st)
                continue
            guard = c if is_and else b_not(c)
            if not self.feasible(st, guard):
                return cur
            pc0 = st.pc
            st.assume(guard)
            h0 = dict(st.heap)
            mark = len(st.heap)
            v = self.ev(nxt, st)
            changed = any(st.heap.get(k) is not r for k, r in h0.items())
            if changed or pc0 != st.pc[:len(pc0)]:
                raise NeedFork(c)
            st.pc = pc0
            bools = all(isinstance(x, bool) or is_sym_bool(x)
                        for x in (cur, v))
            if bools:
                cur = b_and(cur, v) if is_and else b_or(cur, v)
            else:
                cur = merge_value(c, v if is_and else cur,
                                  cur if is_and else v)
        return cur

    def e_IfExp(self, node, st):
        c = norm(self.truth(st, self.ev(node.test, st)))
        if c is True:
            return self.ev(node.body, st)
        if c is False:
            return self.ev(node.orelse, st)
        if not self.feasible(st, c):
            return self.ev(node.orelse, st)
        if not self.feasible(st, b_not(c)):
            return self.ev(node.body, st)
        pc0 = st.pc
        h0 = dict(st.heap)
        st.assume(c)
        a = self.ev(node.body, st)
        st.pc = pc0
        st.assume(b_not(c))
        b = self.ev(node.orelse, st)
        st.pc = pc0
        if any(st.heap.get(k) is not r for k, r in h0.items()):
            raise NeedFork(c)
        return merge_value(c, a, b)

    def e_Compare(self, node, st):
        left = self.ev(node.left, st)
        res = True
        arrs = False
        for op, rn in zip(node.ops, node.comparators):
            right = self.ev(rn, st)
            r = self.compare(type(op).__name__, left, right, st)
            if not (isinstance(r, bool) or is_sym_bool(r)):
                if len(node.ops) > 1:
                    raise Unsupported('chained array comparison')
                return r
            res = b_and(res, r)
            if res is False:
                return False
            left = right
        return res

    CMP = {'Lt': lt, 'LtE': le, 'Gt': gt, 'GtE': ge}

    def compare(self, op, a, b, st):
        if op in ('Is', 'IsNot'):
            r = self.is_same(st, a, b)
            return r if op == 'Is' else b_not(r)
        if op in ('In', 'NotIn'):
            r = self.contains(st, b, a)
            return r if op == 'In' else b_not(r)
        if isinstance(a, Choice) or isinstance(b, Choice):
            c = a if isinstance(a, Choice) else b
            raise NeedFork(c.cond)
        if op in self.CMP:
            if is_scalar(a) and is_scalar(b):
                return self.CMP[op](a, b)
            if isinstance(a, tuple) or isinstance(b, tuple):
                raise Unsupported('tuple ordering')
            return self.elementwise(st, self.CMP[op], [a, b], 'b')
        # Eq / NotEq
        r = self.equal(st, a, b)
        if op == 'Eq':
            return r
        if isinstance(r, bool) or is_sym_bool(r):
            return b_not(r)
        return self.elementwise(st, lambda x: b_not(x), [r], 'b')

    def equal(self, st, a, b):
        if is_scalar(a) and is_scalar(b):
            return eq(a, b)
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            return self.obj_eq(a, b)
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            r = str_eq(a, b)
            if r is None:
                raise Unsupported('string comparison %r == %r' % (a, b))
            return r
        if isinstance(a, DType) or isinstance(b, DType):
            x = a if isinstance(a, DType) else b
            y = b if isinstance(a, DType) else a
            if isinstance(y, str):
                return x.name == y
            if isinstance(y, DType):
                return x.name == y.name
            if isinstance(y, Native):
                return {'int': 'int64', 'float': 'float64',
                        'bool': 'bool'}.get(y.name) == x.name
        if self.is_array(st, a) or self.is_array(st, b):
            if a is None or b is None:
                raise Unsupported('array == None')
            return self.elementwise(st, eq, [a, b], 'b')
        if a is None or b is None:
            if a is None and b is None:
                return True
            o = b if a is None else a
            if isinstance(o, Opaque):
                raise Unsupported('opaque compared with None')
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return b_and(*[self.equal(st, x, y) for x, y in zip(a, b)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return True
            ra, rb = st.heap[a.id], st.heap[b.id]
            if isinstance(ra, SeqRec) and isinstance(rb, SeqRec):
                ia, ib = ra.concrete(), rb.concrete()
                if ia is not None and ib is not None:
                    return self.equal(st, tuple(ia), tuple(ib))
                for x, y in ((ia, rb), (ib, ra)):
                    if x is not None and len(x) == 0:
                        return eq(self.seq_len(y), 0)
        if isinstance(a, ExcClass) or isinstance(b, ExcClass):
            return a is b
        if isinstance(a, (Native, ClassVal, NativeClass)) or \
                isinstance(b, (Native, ClassVal, NativeClass)):
            return a is b
        if type(a) != type(b) and isinstance(a, (str, int, SymStr)) and \
                isinstance(b, (str, int, SymStr)):
            return False
        raise Unsupported('comparison of %r and %r' % (a, b))

    def obj_eq(self, a, b):
        def code(x):
            if isinstance(x, ObjV):
                return x.term
            if x is None or isinstance(x, str):
                return code_of(x)
            raise Unsupported('comparison with %r' % (x,))
        return eq(code(a), code(b))

    def is_same(self, st, a, b):
        if isinstance(a, Choice) or isinstance(b, Choice):
            c = a if isinstance(a, Choice) else b
            o = b if isinstance(a, Choice) else a
            return merge_value(c.cond, self.is_same(st, c.a, o),
                               self.is_same(st, c.b, o))
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            return self.obj_eq(a, b)
        if a is None or b is None:
            if a is None and b is None:
                return True
            o = b if a is None else a
            if isinstance(o, Opaque):
                raise Unsupported('is None of opaque %s' % o.name)
            return False
        if isinstance(a, bool) and (isinstance(b, bool) or is_sym_bool(b)):
            return b_iff(a, b) if is_sym_bool(b) else a == b
        if isinstance(b, bool) and is_sym_bool(a):
            return b_iff(b, a)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return a is b

    def contains(self, st, c, x):
        if isinstance(c, Choice):
            raise NeedFork(c.cond)
        if isinstance(c, (str, SymStr)):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(x, str) and len(x) == 1:
                r = False
                for p in str_parts(c):
                    if isinstance(p, str):
                        if x in p:
                            return True
                    elif x in p.free:
                        continue
                    else:
                        raise Unsupported('in of symbolic string')
                return r
            if isinstance(x, SymStr):
                raise Unsupported('in of symbolic string')
            if isinstance(x, str):
                r = False
                for p in str_parts(c):
                    if isinstance(p, str):
                        if x in p:
                            return True
                    elif not any(ch in p.free for ch in x):
                        raise Unsupported('in of symbolic string')
                return r
        if isinstance(c, tuple):
            return b_or(*[zb(self.equal(st, x, y)) for y in c])
        if isinstance(c, RangeV):
            return b_and(ge(x, c.lo), lt(x, c.hi)) if c.step == 1 \
                else self._unsup('in range')
        if isinstance(c, Ref):
            r = st.heap[c.id]
            if isinstance(r, SeqRec):
                it = r.concrete()
                if it is not None:
                    return b_or(*[zb(self.equal(st, x, y)) for y in it])
            if isinstance(r, SetRec) and not r.sym:
                return b_or(*[zb(self.equal(st, x, y)) for y in r.items])
            if isinstance(r, DictRec):
                if r.default is not None:
                    raise Unsupported('in of a defaultdict')
                return self.dict_has(st, r, x)
            if isinstance(r, InstRec):
                f = self.inst_attr(st, c, '__contains__', None)
                if f is not None:
                    return self.truth(st, self.call(f, [x], {}, st))
            if isinstance(r, (ArrRec, ViewRec)):
                raise Unsupported('in array')
        if isinstance(c, NObj):
            f = self.getattr(st, c, '__contains__')
            return self.truth(st, self.call(f, [x], {}, st))
        raise Unsupported('in %r' % (c,))

    def _unsup(self, m):
        raise Unsupported(m)

    def dict_has(self, st, r, x):
        if r.sym:
            raise Unsupported('key test on symbolic dict')
        if isinstance(x, (str, int, tuple)) or x is None:
            if x not in r.d:
                if not any(isinstance(k, (SymStr,)) for k in r.d):
                    return False
            v = r.d[x]
            if isinstance(v, Choice) and (v.a is UNBOUND or v.b is UNBOUND):
                return v.cond if v.b is UNBOUND else b_not(v.cond)
            return True
        return b_or(*[zb(self.equal(st, x, k)) for k in r.d])

    # ----------------------------------------------------------- operators
    def e_BinOp(self, node, st):
        a = self.ev(node.left, st)
        b = self.ev(node.right, st)
        return self.binop(type(node.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        if isinstance(a, Choice) and not self.is_array(st, a):
            raise NeedFork(a.cond)
        if isinstance(b, Choice) and not self.is_array(st, b):
            raise NeedFork(b.cond)
        if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
            return self.str_binop(op, a, b, st)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op == 'Mult':
            return a * b
        if isinstance(a, Ref) and isinstance(b, Ref) and op == 'Add' and \
                isinstance(st.heap[a.id], SeqRec) and \
                isinstance(st.heap[b.id], SeqRec):
            return st.new(SeqRec(st.heap[a.id].segs + st.heap[b.id].segs))
        if isinstance(a, Ref) and isinstance(st.heap[a.id], SeqRec) and \
                op == 'Mult' and isinstance(norm(b), int):
            return st.new(SeqRec(st.heap[a.id].segs * norm(b)))
        if isinstance(a, Ref) and isinstance(st.heap[a.id], SeqRec) and \
                op == 'Mult' and is_scalar(b):
            it = st.heap[a.id].concrete()
            if it is not None and len(it) == 1:
                return st.new(SeqRec([SymSeg(smax(b, 0),
                                             lambda k: it[0])]))
        if isinstance(a, Ref) and isinstance(st.heap[a.id], SetRec) and \
                isinstance(b, Ref) and isinstance(st.heap[b.id], SetRec) \
                and op in ('Sub', 'BitOr', 'BitAnd'):
            from . import lib
            return lib.set_op({'Sub': 'difference', 'BitOr': 'union',
                               'BitAnd': 'intersection'}[op])(
                self, st, [a, b], {})
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque(op, a, b)
        if is_scalar(a) and is_scalar(b):
            r = self.scalar_binop(op, a, b, st)
            if self.rounding and op in ('Add', 'Sub', 'Mult', 'Div', 'Pow'):
                r = self.rounding(st, op, r)
            return r
        if self.rounding:
            raise Unsupported('rounding of arrays')
        self.cur_st = st

        def f(x, y):
            return self.scalar_binop(op, x, y, None)
        if op in ('Div', 'FloorDiv', 'Mod'):
            self.array_div_check(st, b, op)
        k = None
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            k = None
        return self.elementwise(st, f, [a, b], k)

    def array_div_check(self, st, b, op):
        if is_scalar(b):
            self.div_check(st, b)
            return
        if isinstance(b, Sel):
            idx = tuple(self.fresh('dz', I) for _ in b.mask.shape)
            s2 = st.copy()
            for i, s in zip(idx, b.mask.shape):
                s2.assume(b_and(ge(i, 0), lt(i, s)))
            s2.assume(b.mask.get(idx))
            self.div_check(s2, b.get(idx))
            return
        a = self.to_array(st, b)
        idx = tuple(self.fresh('dz', I) for _ in a.shape)
        s2 = st.copy()
        for i, s in zip(idx, a.shape):
            s2.assume(b_and(ge(i, 0), lt(i, s)))
        self.div_check(s2, a.get(idx))

    def div_check(self, st, b):
        if isinstance(b, FN):
            g = b_or(b.nan, ne(b.v, 0))
        else:
            g = ne(b, 0)
        if norm(g) is True:
            return
        if self.mute:
            return
        self.obl(st, 'divisor is not zero', g)

    def scalar_binop(self, op, a, b, st):
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mult':
            return mul(a, b)
        if op == 'Div':
            if st is not None:
                self.div_check(st, b)
            return truediv(a, b)
        if op == 'FloorDiv':
            if st is not None:
                self.div_check(st, b)
            q = self.idiv(st or self.cur_st, a, b)
            return q
        if op == 'Mod':
            if st is not None:
                self.div_check(st, b)
            return self.imod(st or self.cur_st, a, b)
        if op == 'Pow':
            return power(a, norm(b))
        if op in ('BitAnd', 'BitOr'):
            ba = isinstance(a, bool) or is_sym_bool(a)
            bb = isinstance(b, bool) or is_sym_bool(b)
            if ba and bb:
                return b_and(a, b) if op == 'BitAnd' else b_or(a, b)
            if isinstance(a, int) and isinstance(b, int):
                return a & b if op == 'BitAnd' else a | b
        if op == 'BitXor':
            if (isinstance(a, bool) or is_sym_bool(a)) and \
                    (isinstance(b, bool) or is_sym_bool(b)):
                return b_not(b_iff(a, b))
        if op in ('LShift', 'RShift') and isinstance(norm(a), int) and \
                isinstance(norm(b), int):
            return a << b if op == 'LShift' else a >> b
        raise Unsupported('operator ' + op)

    # integer division with symbolic divisor: q, r with a = b q + r
    def divmod_sym(self, st, a, b):
        a, b = norm(a), norm(b)
        fl = is_floatlike(a) or is_floatlike(b)
        if isinstance(a, int) and isinstance(b, int) and b:
            return a // b, a % b
        if fl:
            if isinstance(a, FN) or isinstance(b, FN):
                if isinstance(b, FN):
                    raise Unsupported('mod of NaN-able divisor')
                q, r = self.divmod_sym(st, a.v, b)
                return FN(q, a.nan), FN(r, a.nan)
            if isinstance(a, Fraction) and isinstance(b, (Fraction, int)):
                q = a // b
                return Fraction(q), a - b * q
            # both integral?
            ia, ib = int_of_real(zr(a)) if is_z3(a) else a, \
                int_of_real(zr(b)) if is_z3(b) else b
            if ia is not None and ib is not None and \
                    not isinstance(ia, Fraction) and \
                    not isinstance(ib, Fraction):
                q, r = self.divmod_sym(st, ia, ib)
                return tofloat(q), tofloat(r)
            x = truediv(a, b)
            q = floor_int(x)
            return tofloat(q), sub(a, mul(b, q))
        if isinstance(b, int):
            if b > 0:
                pa = poly(a)
                qp, rp = {}, {}
                for m, c in pa.d.items():
                    if c % b == 0:
                        qp[m] = c / b
                    else:
                        rp[m] = c
                if not rp:
                    return norm(Poly(qp).term(False)), 0
                z = zi(a)
                return z / b, z % b
            raise Unsupported('division by negative constant')
        pa, pb = poly(a), poly(b)
        # a = b * A + R with 0 <= R < b
        if len(pb.d) == 1:
            (mb, cb), = pb.d.items()
            q, r = {}, {}
            for m, c in pa.d.items():
                one = Poly({m: c})
                d = one.div_monomial(mb)
                if d is not None and (c / cb).denominator == 1:
                    for mm, cc in d.d.items():
                        q[mm] = cc / cb
                else:
                    r[m] = c
            if q or not pa.d:
                Q = norm(Poly(q).term(False))
                Rm = norm(Poly(r).term(False))
                if self.valid(st, b_and(ge(Rm, 0), lt(Rm, b))):
                    return Q, Rm
                if self.valid(st, b_and(lt(Rm, 0), ge(Rm, neg(b)))):
                    return sub(Q, 1), add(Rm, b)
        a = norm(pa.term(False))
        qf = uf('idiv', I, I, I)
        q = qf(zi(a), zi(b))
        r = sub(a, mul(b, q))
        key = ('idiv', zi(a).get_id(), zi(b).get_id())
        if key not in self._divs:
            self._divs[key] = (a, b)
            x, y = zi(a), zi(b)
            f = z3.Implies(y > 0, z3.And(x - y * q >= 0, x - y * q < y))
            vs = [v for v in self.loopvars if v.decl().name() in consts_of(f)]
            if vs and has_ite(q):
                f = True      # the general fact below
            elif vs:
                f = z3.ForAll(vs, f, patterns=[q]) if all(
                    v.decl().name() in consts_of(q) for v in vs) \
                    else z3.ForAll(vs, f)
            if f is not True:
                self.prover.add_fact(f, {'idiv'})
            self.div_general()
        return q, r

    def div_general(self):
        if getattr(self, '_dg', False):
            return
        self._dg = True
        x, y = z3.Ints('dx dy')
        q = uf('idiv', I, I, I)(x, y)
        self.prover.add_fact(
            z3.ForAll([x, y], z3.Implies(
                y > 0, z3.And(x - y * q >= 0, x - y * q < y)),
                patterns=[q]), {'idiv'})

    def idiv(self, st, a, b):
        return self.divmod_sym(st, a, b)[0]

    def imod(self, st, a, b):
        return self.divmod_sym(st, a, b)[1]

    def str_binop(self, op, a, b, st):
        if op == 'Add' and isinstance(a, (str, SymStr)) and \
                isinstance(b, (str, SymStr)):
            return sstr(a, b)
        if op == 'Mod':
            self._opq = getattr(self, '_opq', 0) + 1
            if isinstance(a, str) and isinstance(b, (str, SymStr)) and \
                    a.count('%') == 1 and '%s' in a:
                x, y = a.split('%s')
                return sstr(x, b, y)
            return SymStr([Atom('opaque%d' % self._opq, '', None, False)])
        if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
            return a * b
        raise Unsupported('string operator %s' % op)

    # ---------------------------------------------------------- attributes
    def e_Attribute(self, node, st):
        return self.getattr(st, self.ev(node.value, st), node.attr)

    def getattr(self, st, o, name):
        if isinstance(o, Choice):
            if self.is_array(st, o) and name in ('shape', 'dtype', 'ndim',
                                                 'size'):
                return self.array_attr(st, o, name)
            raise NeedFork(o.cond)
        if isinstance(o, ModuleVal):
            if name in o.attrs:
                return o.attrs[name]
            if o.frame is not None:
                fr = st.frames[o.frame]
                if name in fr:
                    v = fr[name]
                    if isinstance(v, UnknownLib):
                        raise Unsupported('module member ' + v.name)
                    return v
                if name == '__name__':
                    return o.name
            m = self.load_module(st, o.name + '.' + name)
            if not isinstance(m, UnknownLib):
                return m
            return UnknownLib(o.name + '.' + name)
        if isinstance(o, UnknownLib):
            return UnknownLib(o.name + '.' + name)
        if isinstance(o, NObj):
            v = o.attr(name)
            if v is None:
                raise Unsupported('attribute %s of %s' % (name, o.name))
            return v
        if isinstance(o, DType):
            if name in ('kind', 'name'):
                return o.kind if name == 'kind' else o.name
            if name == 'char':
                raise Unsupported('dtype.char')
        if isinstance(o, ClassVal):
            v = self.class_attr(st, o, name)
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'static':
                return v[1]
            return v
        if isinstance(o, NativeClass):
            if name in o.extra:
                return o.extra[name]
            return UnknownLib(o.name + '.' + name)
        if isinstance(o, SuperV):
            for b in o.cls.bases:
                v = self.class_attr(st, b, name, None)
                if v is not None:
                    return self.bind_method(v, o.self_)
            return Native('super().' + name, lambda ip, st, a, k: None)
        if isinstance(o, Ref):
            r = st.heap[o.id]
            if isinstance(r, InstRec):
                v = self.inst_attr(st, o, name, UNBOUND)
                if v is UNBOUND:
                    raise Unsupported('attribute %s of %s' % (
                        name, getattr(r.cls, 'name', r.cls)))
                return v
            if isinstance(r, (ArrRec, ViewRec)):
                return self.array_attr(st, o, name)
            if isinstance(r, SeqRec):
                return self.method('list', name, o)
            if isinstance(r, DictRec):
                return self.method('dict', name, o)
            if isinstance(r, SetRec):
                return self.method('set', name, o)
        if isinstance(o, (ArrRec, Sel)):
            return self.array_attr(st, o, name)
        if isinstance(o, (str, SymStr)):
            return self.method('str', name, o)
        if isinstance(o, tuple):
            return self.method('tuple', name, o)
        if isinstance(o, FuncVal):
            if name == '__name__':
                return o.node.name
            if name == '__module__':
                return o.module
            if name == '__doc__':
                return None
        if isinstance(o, WhereV) or isinstance(o, RangeV):
            return self.method('where', name, o)
        if is_scalar(o):
            return self.method('num', name, o)
        if isinstance(o, ExcVal):
            return Opaque('exc.' + name)
        if isinstance(o, Opaque):
            return Opaque(o.name + '.' + name)
        if isinstance(o, Native) and hasattr(o, 'extra') and name in o.extra:
            return o.extra[name]
        if o is None:
            self.obl(st, 'attribute %s of None' % name, False)
        if isinstance(o, Native) and name in ('__name__', '__qualname__',
                                              '__module__', '__doc__'):
            return o.name
        raise Unsupported('attribute %s of %r' % (name, o))

    def method(self, kind, name, self_):
        fn = self.methods.get((kind, name))
        if fn is None:
            raise Unsupported('method %s.%s' % (kind, name))
        return Bound(Native('%s.%s' % (kind, name), fn), self_)

    def array_attr(self, st, o, name):
        if name == 'shape':
            if isinstance(o, Sel):
                raise Unsupported('shape of selection')
            a = self.av(st, o)
            return tuple(a.shape)
        a = o if isinstance(o, Sel) else self.av(st, o)
        if name == 'ndim':
            return a.ndim
        if name == 'size':
            n = 1
            for s in a.shape:
                n = mul(n, s)
            return n
        if name == 'dtype':
            return DType(a.kind, {'f': 'float64', 'i': 'int32',
                                  'b': 'bool', 'o': 'object'}[a.kind])
        if name == 'T':
            return self.methods[('array', 'transpose')](self, st, [o], {})
        if name in ('data', 'mask'):
            if not isinstance(a, ArrRec) or not isinstance(
                    a.info, MaskInfo):
                raise Unsupported('%s of an array' % name)
            from . import lib
            return (lib.ma_data if name == 'data' else lib.ma_getmask)(
                self, st, [o], {})
        if name == 'filled' and not isinstance(
                getattr(a, 'info', None), MaskInfo):
            raise Unsupported('filled of an array')
        return self.method('array', name, o)

    def bind_method(self, v, self_):
        if isinstance(v, (FuncVal, Native)):
            return Bound(v, self_)
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'static':
            return v[1]
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'class':
            raise Unsupported('class method')
        return v

    def class_attr(self, st, c, name, default=UNBOUND):
        if isinstance(c, ClassVal):
            if name in c.attrs:
                return c.attrs[name]
            for b in c.bases:
                v = self.class_attr(st, b, name, None)
                if v is not None:
                    return v
        elif isinstance(c, NativeClass):
            if name in c.extra:
                return c.extra[name]
        if default is UNBOUND:
            raise Unsupported('class attribute ' + name)
        return default

    def inst_attr(self, st, o, name, default):
        r = st.heap[o.id]
        if name in r.attrs:
            v = r.attrs[name]
            if isinstance(v, Choice) and (v.a is UNBOUND or v.b is UNBOUND):
                c = v.cond if v.b is UNBOUND else b_not(v.cond)
                if not self.valid(st, c):
                    self.obl(st, 'attribute %s is set' % name, c)
                return v.a if v.b is UNBOUND else v.b
            return v
        c = r.cls
        if isinstance(c, ClassVal):
            v = self.class_attr(st, c, name, None)
            if v is not None:
                if isinstance(v, tuple) and v and v[0] == 'property':
                    return self.call(Bound(v[1], o), [], {}, st)
                return self.bind_method(v, o)
            for b in c.bases:
                if isinstance(b, NativeClass) and b.attr is not None:
                    v = b.attr(self, st, o, name)
                    if v is not None:
                        return v
            return default
        if isinstance(c, NativeClass):
            if name in c.extra:
                return self.bind_method(c.extra[name], o)
            if c.attr is not None:
                v = c.attr(self, st, o, name)
                if v is not None:
                    return v
        return default

    def setattr(self, st, o, name, v):
        if isinstance(o, Choice):
            raise NeedFork(o.cond)
        if isinstance(o, Ref):
            r = st.heap[o.id]
            if isinstance(r, InstRec):
                if isinstance(r.cls, NativeClass) and r.cls.setattr_:
                    r.cls.setattr_(self, st, o, name, v)
                    return
                a = dict(r.attrs)
                a[name] = v
                st.heap[o.id] = InstRec(r.cls, a)
                return
        if isinstance(o, ModuleVal) and o.frame is not None:
            st.frames[o.frame][name] = v
            return
        raise Unsupported('attribute assignment')

    # ---------------------------------------------------------- subscripts
    def ev_index(self, node, st):
        if isinstance(node, ast.Slice):
            f = lambda x: self.ev(x, st) if x is not None else None
            return slice(f(node.lower), f(node.upper), f(node.step))
        if isinstance(node, ast.Tuple):
            return tuple(self.ev_index(e, st) for e in node.elts)
        return self.ev(node, st)

    def e_Subscript(self, node, st):
        o = self.ev(node.value, st)
        ix = self.ev_index(node.slice, st)
        return self.getitem(st, o, ix)

    def norm_index(self, st, i, n, what='index in range'):
        """Python index -> offset; emits the bounds obligation"""
        i = norm(i)
        if is_floatlike(i):
            self.obl(st, 'index is an integer', False)
            raise Unsupported('float index')
        i = as_int(i)
        n = norm(n)
        if is_z3(i) and i.num_args() and i.decl().kind() in (
                z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            i = norm(z3.simplify(i))
        if isinstance(i, int) and isinstance(n, int):
            if not (-n <= i < n):
                self.obl(st, what, False)
                raise Unsupported('constant index out of range')
            return i if i >= 0 else i + n
        if isinstance(i, int):
            if i >= 0:
                self.bound_obl(st, what, lt(i, n))
                return i
            self.bound_obl(st, what, le(-i, n))
            return add(n, i)
        if self.valid(st, ge(i, 0)):
            self.bound_obl(st, what, lt(i, n))
            return i
        if self.valid(st, lt(i, 0)):
            self.bound_obl(st, what, ge(i, neg(n)))
            return add(n, i)
        self.bound_obl(st, what, b_and(ge(i, neg(n)), lt(i, n)))
        return ite(ge(i, 0), i, add(i, n))

    def bound_obl(self, st, what, g):
        if self.mute:
            return
        self.obl(st, what, g)

    def norm_slice(self, st, s, n):
        """(start, length, step) of a slice over extent n"""
        step = norm(s.step) if s.step is not None else 1
        n = norm(n)

        def clampit(v, dflt):
            if v is None:
                return dflt
            v = norm(v)
            if is_floatlike(v):
                self.obl(st, 'slice bound is an integer', False)
                raise Unsupported('float slice bound')
            v = as_int(v)
            if isinstance(v, int) and isinstance(n, int):
                if v < 0:
                    v += n
                return max(0, min(v, n))
            if isinstance(v, int):
                if v < 0:
                    v = add(n, v)
                    if self.valid(st, ge(v, 0)):
                        return v
                    return smax(v, 0)
                if v == 0:
                    return 0
                if self.valid(st, le(v, n)):
                    return v
                return smin(v, n)
            if self.valid(st, ge(v, 0)):
                pass
            elif self.valid(st, lt(v, 0)):
                v = smax(add(v, n), 0)
            else:
                v = ite(ge(v, 0), v, smax(add(v, n), 0))
            if self.valid(st, le(v, n)):
                return v
            return smin(v, n)
        if step == 1:
            a = clampit(s.start, 0)
            b = clampit(s.stop, n)
            d = sub(b, a)
            if not (isinstance(d, int) and d >= 0):
                if not self.valid(st, ge(d, 0)):
                    d = smax(d, 0)
            if is_z3(d) and poly_ok(d):
                d = norm(poly(d).term(False))
            return a, d, 1
        if step == -1 and s.start is None and s.stop is None:
            return sub(n, 1), n, -1
        if is_intlike(step) and s.stop is None:
            # x[a::k], k > 0
            if not isinstance(step, int):
                self.obl(st, 'slice step is positive', gt(step, 0))
            elif step <= 0:
                raise Unsupported('negative slice step')
            a = clampit(s.start, 0)
            num = sub(add(sub(n, a), step), 1)
            if isinstance(step, int):
                ln = smax(floor_div_const(num, step), 0)
            else:
                ln = smax(self.idiv(st, num, step), 0)
            return a, ln, step
        raise Unsupported('slice with step')

    def getitem(self, st, o, ix):
        v = self.getitem_(st, o, ix)
        return st.new(v) if isinstance(v, SeqRec) else v

    def getitem_(self, st, o, ix):
        if isinstance(o, NObj):
            f = o.attr('__getitem__')
            if f is not None:
                return self.call(f, [ix], {}, st)
        if isinstance(o, SeqRec):
            o = st.new(o)
        if isinstance(o, Choice):
            if self.is_array(st, o):
                o = self.av(st, o)
            else:
                raise NeedFork(o.cond)
        while isinstance(ix, Choice):
            if self.valid(st, ix.cond):
                ix = ix.a
            elif self.valid(st, b_not(ix.cond)):
                ix = ix.b
            else:
                raise NeedFork(ix.cond)
        if isinstance(o, tuple):
            return self.tuple_item(st, o, ix)
        if isinstance(o, (str, SymStr)):
            return self.str_item(st, o, ix)
        if isinstance(o, WhereV):
            if norm(ix) == 0 and o.mask.ndim == 1:
                return self.lib_nonzero(st, o)
            raise Unsupported('item of where()')
        if isinstance(o, RangeV):
            i = self.norm_index(st, ix, o.length())
            return o.elem(i)
        if isinstance(o, SymIter):
            return o.elem(self.norm_index(st, ix, o.length()))
        if isinstance(o, NObj):
            f = o.attr('__getitem__')
            if f is not None:
                return self.call(f, [ix], {}, st)
        if isinstance(o, Opaque):
            return Opaque('item', o, ix if is_scalar(ix) else None)
        if isinstance(o, Ref):
            r = st.heap[o.id]
            if isinstance(r, SeqRec):
                if isinstance(ix, slice):
                    return self.seq_slice(st, r, ix)
                i = self.norm_index(st, ix, r.length())
                return r.get(i)
            if isinstance(r, DictRec):
                return self.dict_item(st, o, ix)
            if isinstance(r, InstRec):
                f = self.inst_attr(st, o, '__getitem__', None)
                if f is not None:
                    return self.call(f, [ix], {}, st)
        a = self.av(st, o)
        if a is not None:
            return self.array_item(st, o, a, ix)
        raise Unsupported('subscript of %r' % (o,))

    def tuple_item(self, st, o, ix):
        if isinstance(ix, slice):
            f = lambda v: None if v is None else norm(v)
            return o[slice(f(ix.start), f(ix.stop), f(ix.step))]
        ix = norm(ix)
        if isinstance(ix, int):
            if -len(o) <= ix < len(o):
                return o[ix]
            self.obl(st, 'tuple index in range', False)
            raise Unsupported('tuple index')
        i = self.norm_index(st, ix, len(o))
        v = o[-1]
        for k in range(len(o) - 2, -1, -1):
            v = merge_value(eq(i, k), o[k], v)
        return v

    def str_item(self, st, o, ix):
        if isinstance(o, str):
            if isinstance(ix, slice):
                f = lambda v: None if v is None else norm(v)
                return o[slice(f(ix.start), f(ix.stop), f(ix.step))]
            return o[norm(ix)]
        parts = list(o.parts)
        if isinstance(ix, slice) and ix.step is None:
            a = norm(ix.start) if ix.start is not None else None
            b = norm(ix.stop) if ix.stop is not None else None
            if isinstance(a, int) and a < 0 and b is None and \
                    isinstance(parts[-1], str) and len(parts[-1]) >= -a:
                return parts[-1][a:]
            if a in (None, 0) and isinstance(b, int) and b < 0 and \
                    isinstance(parts[-1], str) and len(parts[-1]) >= -b:
                return sstr(*(parts[:-1] + [parts[-1][:b]]))
            if a in (None, 0) and isinstance(b, int) and b >= 0:
                if isinstance(parts[0], str) and len(parts[0]) >= b:
                    return parts[0][:b]
                if len(parts) == 1:
                    p = parts[0]
                    return SymStr([Atom('%s[:%d]' % (p.name, b), p.free,
                                        p.term)])
        if not isinstance(ix, slice):
            i = norm(ix)
            if isinstance(i, int) and i < 0 and isinstance(parts[-1], str) \
                    and len(parts[-1]) >= -i:
                return parts[-1][i]
            if isinstance(i, int) and i >= 0 and isinstance(parts[0], str) \
                    and len(parts[0]) > i:
                return parts[0][i]
        raise Unsupported('slice of symbolic string')

    def seq_slice(self, st, r, ix):
        it = r.concrete()
        if it is not None:
            f = lambda v: None if v is None else norm(v)
            a, b, c = f(ix.start), f(ix.stop), f(ix.step)
            if all(x is None or isinstance(x, int) for x in (a, b, c)):
                return st.new(SeqRec([Items(it[slice(a, b, c)])]))
        start, ln, step = self.norm_slice(st, ix, r.length())
        return st.new(SeqRec([SymSeg(
            ln, lambda k: r.get(add(start, mul(k, step))))]))

    def dict_item(self, st, o, ix):
        r = st.heap[o.id]
        ix = norm(ix)
        if isinstance(ix, (str, int, tuple)) or ix is None:
            if ix in r.d:
                v = r.d[ix]
                if isinstance(v, Choice) and (v.a is UNBOUND
                                              or v.b is UNBOUND):
                    c = v.cond if v.b is UNBOUND else b_not(v.cond)
                    self.raise_unless(st, c, 'KeyError')
                    return v.a if v.b is UNBOUND else v.b
                if r.sym:
                    for (k, val, info) in r.sym:
                        e = str_eq(ix, k) if isinstance(k, (str, SymStr)) \
                            else None
                        if e is not False:
                            raise Unsupported('key may be overwritten')
                return v
            if r.default is not None:
                return r.default[0]
            if r.sym:
                raise Unsupported('lookup in symbolic dict')
            self.raise_unless(st, False, 'KeyError')
            raise Unsupported('missing key %r' % (ix,))
        # symbolic key
        v = None
        has = []
        if r.default is not None:
            v = r.default[0]
        for k, val in reversed(list(r.d.items())):
            c = self.equal(st, ix, k)
            if c is False:
                continue
            has.append(c)
            v = val if v is None else merge_value(c, val, v)
        if v is None:
            raise Unsupported('lookup with symbolic key')
        if r.default is None:
            self.obl(st, 'key is present', b_or(*[zb(h) for h in has]))
        return v

    def raise_unless(self, st, c, exc):
        """the current expression raises exc unless c"""
        c = norm(c)
        if c is True:
            return
        if c is False or self.feasible(st, b_not(c)):
            s = st.copy()
            s.assume(b_not(c))
            self.side[-1].append((s, ('raise', ExcVal(exc))))
        if c is not False:
            st.assume(c)
        else:
            raise PathEnds()

    def setitem(self, st, o, ix, v):
        if isinstance(o, Choice):
            raise NeedFork(o.cond)
        if isinstance(ix, Choice):
            raise NeedFork(ix.cond)
        if isinstance(o, NObj):
            f = self.getattr(st, o, '__setitem__')
            if isinstance(f, UnknownLib):
                raise Unsupported('item assignment to %s' % o.name)
            self.call(f, [ix, v], {}, st)
            return
        if not isinstance(o, Ref):
            raise Unsupported('item assignment to %r' % (o,))
        r = st.heap[o.id]
        if isinstance(r, SeqRec):
            it = r.concrete()
            if isinstance(ix, slice):
                raise Unsupported('slice assignment to list')
            i = self.norm_index(st, ix, r.length())
            if it is not None and isinstance(i, int):
                its = list(it)
                its[i] = v
                st.heap[o.id] = SeqRec([Items(its)], r.kind)
                return
            st.heap[o.id] = SeqRec([SymSeg(
                r.length(),
                lambda k: merge_value(eq(k, i), v, r.get(k)))], r.kind)
            return
        if isinstance(r, DictRec):
            ix = norm(ix)
            if isinstance(ix, (SymStr,)) or is_z3(ix) or \
                    isinstance(ix, ObjV):
                st.heap[o.id] = DictRec(r.d, r.default,
                                        r.sym + ((ix, v, None),))
                return
            d = dict(r.d)
            d[ix] = v
            st.heap[o.id] = DictRec(d, r.default, r.sym)
            return
        if isinstance(r, InstRec):
            f = self.inst_attr(st, o, '__setitem__', None)
            if f is not None:
                self.call(f, [ix, v], {}, st)
                return
        if isinstance(r, (ArrRec, ViewRec)):
            self.array_set(st, o, ix, v)
            return
        raise Unsupported('item assignment')

    # ---- implemented in arrays.py
    def array_item(self, st, o, a, ix):
        from . import arrays
        return arrays.array_item(self, st, o, a, ix)

    def array_set(self, st, o, ix, v):
        from . import arrays
        return arrays.array_set(self, st, o, ix, v)

    def write_arr(self, st, ref, cond, val):
        from . import arrays
        return arrays.write_arr(self, st, ref, cond, val)

    def lib_nonzero(self, st, w):
        from . import arrays
        return arrays.nonzero1(self, st, w)

    def lib_extend(self, st, ref, v):
        r = st.heap[ref.id]
        if isinstance(v, Ref) and isinstance(st.heap[v.id], SeqRec):
            st.heap[ref.id] = r.extend(st.heap[v.id].segs)
            return
        it = self.iteration(st, v)
        if isinstance(it, list):
            st.heap[ref.id] = r.extend([Items(it)])
        else:
            st.heap[ref.id] = r.extend([SymSeg(it[0], it[1])])

    # ---------------------------------------------------------------- calls
    def e_Lambda(self, node, st):
        fr = st.frames[st.cur]
        fn = ast.FunctionDef(name='<lambda>', args=node.args,
                             body=[ast.copy_location(
                                 ast.Return(value=node.body), node.body)],
                             decorator_list=[], lineno=node.lineno,
                             col_offset=0)
        defaults = [self.ev(d, st) for d in node.args.defaults]
        return FuncVal(fr['#module'], fn, st.cur,
                       fr['#module'] + ':<lambda>', defaults)

    def comp(self, node, st, elt):
        """list of values, or (n, elem) for a symbolic comprehension"""
        g = node.generators
        save = st.cur
        fid = 'comp%d' % Ref().id
        st.frames[fid] = {'#parent': st.cur, '#globals': set(),
                          '#module': st.frames[st.cur]['#module']}
        try:
            first = self.iteration(st, self.ev(g[0].iter, st))
            st.cur = fid
            if isinstance(first, list):
                out = []
                self._comp(g, 0, first, st, elt, out)
                return out
            if len(g) > 1:
                raise Unsupported('nested symbolic comprehension')
            n, elem = first
            return self.sym_comp(g[0], n, elem, st, elt)
        finally:
            st.cur = save

    def _comp(self, g, i, items, st, elt, out):
        for it in items:
            self.assign(g[i].target, it, st)
            ok = True
            for c in g[i].ifs:
                t = norm(self.truth(st, self.ev(c, st)))
                if t is False:
                    ok = False
                    break
                if t is not True:
                    if self.valid(st, t):
                        continue
                    if self.valid(st, b_not(t)):
                        ok = False
                        break
                    raise NeedFork(t)
            if not ok:
                continue
            if i + 1 < len(g):
                nxt = self.iteration(st, self.ev(g[i + 1].iter, st))
                if not isinstance(nxt, list):
                    raise Unsupported('nested symbolic comprehension')
                self._comp(g, i + 1, nxt, st, elt, out)
            else:
                out.append(elt(st))

    def sym_comp(self, gen, n, elem, st, elt):
        tau = z3.Int('tau!%d' % Ref().id)
        pc0 = st.pc
        st.assume(b_and(ge(tau, 0), lt(tau, n)))
        self.loopvars.append(tau)
        h0 = dict(st.heap)
        try:
            self.assign(gen.target, elem(tau), st)
            cond = True
            for c in gen.ifs:
                t = norm(self.truth(st, self.ev(c, st)))
                cond = b_and(cond, t)
                st.assume(t)
            v = elt(st)
        finally:
            self.loopvars.pop()
        for k, r in h0.items():
            if st.heap.get(k) is not r:
                raise Unsupported('comprehension with effects')
        v = self.freeze(st, v)
        st.pc = pc0
        if norm(cond) is not True:
            from . import arrays
            return arrays.filter_seq(self, st, n, tau, cond, v)
        return (n, lambda k: subst_value(v, [(tau, k)]))

    def freeze(self, st, v):
        """value that does not refer to the heap (inside symbolic maps)"""
        if isinstance(v, tuple):
            return tuple(self.freeze(st, x) for x in v)
        if isinstance(v, Ref):
            a = self.av(st, v)
            if a is not None:
                return a
            r = st.heap[v.id]
            if isinstance(r, SeqRec) and r.concrete() is not None:
                return tuple(self.freeze(st, x) for x in r.concrete())
            if isinstance(r, SeqRec):
                return r
        return v

    def e_ListComp(self, node, st):
        r = self.comp(node, st, lambda s: self.ev(node.elt, s))
        if isinstance(r, list):
            return st.new(SeqRec([Items(r)]))
        if isinstance(r, SymSeg):
            return st.new(SeqRec([r]))
        return st.new(SeqRec([SymSeg(r[0], r[1])]))

    def e_GeneratorExp(self, node, st):
        return self.e_ListComp(node, st)

    def e_SetComp(self, node, st):
        r = self.comp(node, st, lambda s: self.ev(node.elt, s))
        if isinstance(r, list):
            items = []
            for x in r:
                if x not in items:
                    items.append(x)
            return st.new(SetRec(items))
        return st.new(SetRec((), (r.n, r.get) if isinstance(r, SymSeg)
                             else r))

    def e_DictComp(self, node, st):
        r = self.comp(node, st, lambda s: (self.ev(node.key, s),
                                           self.ev(node.value, s)))
        if isinstance(r, list):
            return st.new(DictRec(dict(r)))
        raise Unsupported('symbolic dict comprehension')

    def e_NamedExpr(self, node, st):
        v = self.ev(node.value, st)
        self.bind(st, node.target.id, v)
        return v

    def e_Starred(self, node, st):
        raise Unsupported('starred')

    def unzip(self, st, it):
        """zip(*items) of tuples of one length, at least one item"""
        n, elem = it
        x = elem(z3.Int('uz!k'))
        if not isinstance(x, tuple):
            raise Unsupported('zip of %r' % (x,))
        self.obl(st, 'something to unpack', ge(n, 1))
        return tuple(SymIter(n, lambda k, j=j: elem(k)[j])
                     for j in range(len(x)))

    def e_Call(self, node, st):
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and \
                not node.args:
            fr = st.frames[st.cur]
            return SuperV(fr['#cls'], fr['#self'])
        f = self.ev(node.func, st)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                it = self.iteration(st, v)
                if not isinstance(it, list) and len(node.args) == 1 and \
                        isinstance(f, Native) and f.name == 'zip':
                    return self.unzip(st, it)
                args += self.concrete_items(st, v)
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in node.keywords:
            if k.arg is None:
                d = self.ev(k.value, st)
                r = st.heap[d.id]
                if not isinstance(r, DictRec) or r.sym:
                    raise Unsupported('**kwargs')
                kw.update(r.d)
            else:
                kw[k.arg] = self.ev(k.value, st)
        return self.call(f, args, kw, st)

    def call(self, f, args, kw, st):
        if isinstance(f, Choice):
            raise NeedFork(f.cond)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kw, st)
        if isinstance(f, Native):
            self.cur_st = st
            if f.name in self.lib_assumed:
                self.assumed.add(self.lib_assumed[f.name])
            return f.fn(self, st, list(args), dict(kw))
        if isinstance(f, FuncVal):
            c = self.contracts.get(f.qual)
            if c is not None:
                return c.fn(self, st, *self.bind_args(f, args, kw, st))
            return self.inline(f, args, kw, st)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw, st)
        if isinstance(f, NativeClass):
            if f.init is None:
                raise Unsupported('construct ' + f.name)
            return f.init(self, st, args, kw)
        if isinstance(f, ExcClass):
            return ExcVal(f.name, tuple(args))
        if isinstance(f, UnknownLib):
            raise Unsupported('call of %s' % f.name)
        if isinstance(f, Ref) and isinstance(st.heap[f.id], InstRec):
            m = self.inst_attr(st, f, '__call__', None)
            if m is not None:
                return self.call(m, args, kw, st)
        if isinstance(f, DType):
            return self.call(self.libs['numpy'].attrs['array'],
                             list(args) + [f], {}, st)
        raise Unsupported('call of %r' % (f,))

    def instantiate(self, c, args, kw, st):
        q = self.contracts.get('%s:%s' % (c.module, c.name))
        if q is not None:
            return q.fn(self, st, *args, **kw)
        ref = st.new(InstRec(c))
        init = self.class_attr(st, c, '__init__', None)
        if init is not None:
            self.call(Bound(init, ref), args, kw, st)
        return ref

    def bind_args(self, f, args, kw, st):
        """positional list in parameter order"""
        env = self.bind_params(f, args, kw, st)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = [env[n] for n in names]
        out += [env[x.arg] for x in a.kwonlyargs]
        return out

    def bind_params(self, f, args, kw, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
            elif n in kw:
                env[n] = kw.pop(n)
            else:
                j = i - (len(names) - len(f.defaults))
                if j < 0:
                    self.obl(st, 'argument %s is given' % n, False)
                    raise Unsupported('missing argument ' + n)
                env[n] = f.defaults[j]
        extra = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            self.obl(st, 'number of arguments', False)
            raise Unsupported('too many arguments')
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                env[x.arg] = f.kwdefaults[x.arg]
            else:
                raise Unsupported('missing keyword ' + x.arg)
        if a.kwarg:
            env[a.kwarg.arg] = st.new(DictRec(kw))
        elif kw:
            self.obl(st, 'known keyword arguments', False)
            raise Unsupported('unknown keyword')
        return env

    def run_function(self, f, args, kw, st):
        """execute a function body; list of outcomes (states at return)"""
        if len(self.func_stack) > 60:
            raise Unsupported('recursion too deep')
        env = self.bind_params(f, args, kw, st)
        fid = 'f%d' % Ref().id
        fr = {'#parent': f.frame, '#module': f.module, '#globals': set(),
              '#qual': f.qual.split(':')[1] + '.<locals>', '#cls': f.cls}
        if f.cls is not None and args:
            fr['#self'] = args[0]
        fr.update(env)
        # names assigned in the body are local
        for n in assigned_names(f.node.body):
            fr.setdefault(n, UNBOUND)
        for n in global_names(f.node.body):
            if fr.get(n) is UNBOUND:
                del fr[n]
        st.frames[fid] = fr
        save = st.cur
        st.cur = fid
        self.func_stack.append(f.qual)
        self.used.add(f.qual)
        try:
            outs = self.exec_block(f.node.body, st)
        finally:
            self.func_stack.pop()
        res = []
        for (s, o) in outs:
            s.cur = save
            if o[0] == 'normal':
                o = ('return', None)
            res.append((s, o))
        return res, save

    def inline(self, f, args, kw, st):
        outs, save = self.run_function(f, args, kw, st)
        rets = []
        for (s, o) in outs:
            if o[0] == 'return':
                rets.append((s, o))
            elif o[0] == 'raise':
                self.side[-1].append((s, o))
            else:
                raise Unsupported('break outside loop')
        if not rets:
            raise PathEnds()
        if len(rets) > 1:
            key = '#rv%d' % Ref().id
            for (s, o) in rets:
                s.frames[s.cur] = dict(s.frames[s.cur])
                s.frames[s.cur]['#ret'] = o[1]
            ms = self.merge_states([s for s, o in rets])
            if len(ms) > 1:
                raise Unsupported('cannot merge the results of ' + f.qual)
            s = ms[0]
            v = s.frames[s.cur].pop('#ret')
        else:
            s, o = rets[0]
            v = o[1]
        st.become(s)
        return v


class PathEnds(Unsupported):
    """the current path certainly raises (recorded as a side outcome)"""
    def __init__(self):
        Unsupported.__init__(self, 'path ends')


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    return t


def has_ite(t):
    return t.decl().kind() == z3.Z3_OP_ITE or any(
        has_ite(c) for c in t.children())


def assigned_names(body):
    """names bound in a block (not in nested functions)"""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)

        def visit_FunctionDef(self, n):
            out.append(n.name)

        def visit_ClassDef(self, n):
            out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                out.append((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)
    v = V()
    for s in body:
        v.visit(s)
    return out


def global_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                out |= set(n.names)
    return out


def kind_of(v):
    if isinstance(v, (FN, Fraction)):
        return 'f'
    if isinstance(v, bool):
        return 'b'
    if isinstance(v, int):
        return 'i'
    if is_z3(v):
        return {'Int': 'i', 'Real': 'f', 'Bool': 'b'}.get(str(v.sort()), 'o')
    return 'o'


def conv(kind, v):
    """value as stored in an array of the given kind"""
    if kind == 'f':
        return tofloat(v)
    if kind == 'i':
        if isinstance(v, FN):
            return trunc_int(v.v)      # NaN reported separately
        return trunc_int(v)
    if kind == 'b':
        if isinstance(v, bool) or is_sym_bool(v):
            return v
        if isinstance(v, FN):
            return b_or(v.nan, ne(v.v, 0))
        return ne(v, 0)
    return v


def poly_ok(d):
    try:
        return len(poly(d).d) < 8
    except Unsupported:
        return False
