"""Loops: inference of inductive summaries, checked, never assumed.

A loop body is executed symbolically for an arbitrary iteration tau.  The
effect of the first tau iterations is put in closed form (linear induction,
finite sums, folds, last writer of each cell, appended segments); the closed
form is the loop invariant.  It is used only after the body has been executed
again from it and shown to re-establish it at tau + 1.
"""
import ast
from .terms import *
from .values import *
from .prove import Obl

NORMAL = ('normal',)


def _cond_mentions(t, names):
    return bool(names_of(t) & names)


# ---------------------------------------------------------------- writers
class Writer(object):
    """cells written over iterations: cell idx is written in iteration tau
    when C(tau, idx), with V(tau, idx)"""

    def __init__(self, ip, st, tau, n, ixs, C, V):
        self.ip, self.st, self.tau, self.n = ip, st, tau, n
        self.ixs, self.C, self.V = tuple(ixs), norm(C), V
        self.mode = None
        self.cand = None

    def solve(self):
        ip, st, tau = self.ip, self.st, self.tau
        tn = {tau.decl().name()}
        C, V = self.C, self.V
        if C is False:
            self.mode = 'never'
            return True
        cm = _cond_mentions(C, tn)
        vm = mentions(V, tn)
        if not cm:
            self.mode = 'last' if vm else 'const'
            return True
        # a unique writer
        for cand in self.candidates():
            s2 = st.copy()
            s2.assume(C)
            if ip.valid(s2, eq(tau, cand)) or \
                    ip.prover.prove(s2.pc, eq(tau, cand),
                                    4.0)[0] == 'proved':
                self.mode, self.cand = 'unique', cand
                return True
        if not vm:
            t2 = z3.Int('tw!%d' % Ref().id)
            Cn = subst(C, [(tau, add(tau, 1))])
            s2 = st.copy()
            s2.assume(lt(add(tau, 1), self.n))
            s3 = s2.copy()
            s3.assume(Cn)
            if ip.valid(s3, C) or \
                    ip.prover.prove(s3.pc, C, 4.0)[0] == 'proved':
                self.mode = 'first'      # C(tau+1) => C(tau)
                return True
            s3 = s2.copy()
            s3.assume(C)
            if ip.valid(s3, Cn) or \
                    ip.prover.prove(s3.pc, Cn, 4.0)[0] == 'proved':
                self.mode = 'latest'     # C(tau) => C(tau+1)
                return True
        # the last of several writers: tau = cand is the largest
        for cand in self.candidates():
            s2 = st.copy()
            s2.assume(C)
            Cc = subst(C, [(tau, cand)])
            g = b_and(le(tau, cand), lt(cand, self.n), ge(cand, 0), Cc)
            if ip.prover.prove(s2.pc, g, 4.0)[0] == 'proved':
                self.mode, self.cand = 'lastcand', cand
                return True
        return self.define_last()

    def define_last(self):
        """name the last of the first b iterations that writes the cell
        (-1: none); such an iteration exists by definition"""
        ip, tau = self.ip, self.tau
        if self.n is None or len(self.ixs) > 3:
            return False
        k = len(self.ixs)
        lw = ip.fresh_fun('lastw', *([I] * (k + 2)))
        b = z3.Int('lwb!%d' % Ref().id)
        ixs = [z3.Int('lwi!%d' % Ref().id) for _ in self.ixs]
        t = z3.Int('lwt!%d' % Ref().id)
        w = lw(b, *ixs)
        st = self.st0
        ip.fact(st, b_implies(ge(b, 0), b_and(
            ge(w, -1), lt(w, b), b_implies(ge(w, 0), self.at(
                self.C, w, ixs)))), [b] + ixs, [w])
        Ct = self.at(self.C, t, ixs)
        pats = apps_with(Ct, t)
        f = b_implies(b_and(ge(t, 0), lt(t, b), Ct), le(t, w))
        if pats:
            for p in pats[:2]:
                ip.fact(st, f, [b, t] + ixs, [w, p],
                        {w.decl().name()})
        else:
            ip.fact(st, f, [b, t] + ixs, [w], {w.decl().name()})
        self.lw = lw
        self.mode = 'named'
        return True

    def candidates(self):
        out = []
        tau = self.tau

        def push(c):
            if not any(same_term(c, o) for o in out):
                out.append(c)
        for h in self.ip.writer_hints:
            for c in h(self):
                push(c)
        atoms = []
        stack = list(conjuncts(zb(self.C)))
        stack += [a for h in self.st.pc for a in conjuncts(h)
                  if tau.decl().name() in consts_of(h)
                  and any(i.decl().name() in consts_of(h)
                          for i in self.ixs)]
        seen = 0
        while stack and seen < 60:
            seen += 1
            x = stack.pop(0)
            if z3.is_or(x) or z3.is_and(x):
                stack.extend(x.children())
                continue
            if z3.is_not(x):
                stack.append(x.arg(0))
                continue
            if z3.is_app(x) and x.num_args() == 2 and (
                    z3.is_eq(x) or z3.is_le(x) or z3.is_lt(x) or
                    z3.is_ge(x) or z3.is_gt(x)):
                atoms.append(x)
        lin = []
        for x in atoms:
            if x.arg(0).sort() not in (I, R):
                continue
            try:
                p = poly(sub(norm(x.arg(0)), norm(x.arg(1))))
            except Unsupported:
                continue
            r = split_linear(p, tau)
            if r is None:
                continue
            co, rest = r
            lin.append((z3.is_eq(x), co, rest))
        lin.sort(key=lambda q: not q[0])
        for iseq, co, rest in lin:
            if co == 1:
                push(neg(rest))
            elif co == -1:
                push(rest)
        for iseq, co, rest in lin:
            if co in (1, -1):
                continue
            # co * tau + rest ~ 0
            for num, den in ((neg(rest), co), (rest, neg(co))):
                try:
                    if isinstance(norm(den), int) and norm(den) <= 0:
                        continue
                    m = self.ip.mute
                    self.ip.mute += 1
                    try:
                        push(self.ip.idiv(self.st, num, den))
                    finally:
                        self.ip.mute = m
                except Unsupported:
                    pass
        return out

    def at(self, v, tau, idx):
        pairs = [(self.tau, tau)] + list(zip(self.ixs, idx))
        # the candidate itself mentions ixs: substitute it first
        return subst_value(v, pairs)

    def cand_at(self, idx):
        return subst(self.cand, list(zip(self.ixs, idx)))

    def cond_fn(self, bound):
        """idx written during the first `bound` iterations"""
        def f(idx):
            idx = tuple(norm(i) for i in idx)
            if self.mode == 'never':
                return False
            if self.mode in ('const', 'last'):
                return b_and(gt(bound, 0), self.at(self.C, 0, idx))
            if self.mode == 'first':
                return b_and(gt(bound, 0), self.at(self.C, 0, idx))
            if self.mode == 'latest':
                return b_and(gt(bound, 0),
                             self.at(self.C, sub(bound, 1), idx))
            if self.mode == 'named':
                return ge(self.lw(zi(bound), *[zi(i) for i in idx]), 0)
            if self.mode == 'lastcand':
                if not same_term(bound, self.n):
                    raise Unsupported('partial last writer')
            t = self.cand_at(idx)
            return b_and(ge(t, 0), lt(t, bound), self.at(self.C, t, idx))
        return f

    def val_fn(self, bound):
        def f(idx):
            idx = tuple(norm(i) for i in idx)
            if self.mode in ('never', 'const', 'first', 'latest'):
                return self.at(self.V, 0, idx)
            if self.mode == 'last':
                return self.at(self.V, sub(bound, 1), idx)
            if self.mode == 'named':
                return self.at(self.V, self.lw(
                    zi(bound), *[zi(i) for i in idx]), idx)
            return self.at(self.V, self.cand_at(idx), idx)
        return f


def apps_with(t, v):
    """applications of uninterpreted functions with v as an argument"""
    out, seen, stack = [], set(), [zb(t)]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                and any(c.eq(v) for c in x.children()):
            out.append(x)
        stack.extend(x.children())
    return out


def split_linear(p, tau):
    """p = co * tau + rest with co free of tau; None if not linear"""
    tid = None
    co, rest = {}, {}
    tn = tau.decl().name()
    for m, c in p.d.items():
        deg = 0
        others = []
        for aid, e in m:
            t = Poly.atoms[aid]
            if t.eq(tau):
                deg += e
            elif tn in consts_of(t):
                # to_real(tau)
                if z3.is_app(t) and t.num_args() == 1 and \
                        t.decl().kind() == z3.Z3_OP_TO_REAL and \
                        t.arg(0).eq(tau):
                    deg += e
                else:
                    return None
            else:
                others.append((aid, e))
        if deg == 0:
            rest[m] = c
        elif deg == 1:
            co[tuple(others)] = co.get(tuple(others), 0) + c
        else:
            return None
    if not co:
        return None
    pc, pr = Poly(co), Poly(rest)
    if not (pc.all_int_atoms() and pr.all_int_atoms() and
            all(c.denominator == 1 for c in list(co.values()) +
                list(rest.values()))):
        return None
    return norm(pc.term(False)), norm(pr.term(False)) if rest else 0


# ------------------------------------------------------------ the summary
class Key(object):
    """a location changed by the loop"""


def frame_items(st):
    for fid, fr in st.frames.items():
        for k, v in fr.items():
            if not k.startswith('#'):
                yield fid, k, v


class Summary(object):
    def __init__(self, ip, node, st, n, elem, kind, test=None):
        self.ip, self.node, self.st0 = ip, node, st
        self.n, self.elem, self.kind = n, elem, kind
        self.test = test
        self.sets = {}
        self.tau = z3.Int('tau!%d' % Ref().id)
        self.tok = {}         # location -> token value
        self.toknames = set()

    # ------------------------------------------------------- body execution
    def start(self, overrides):
        """state at the start of iteration tau"""
        st = self.st0.copy()
        for loc, v in overrides.items():
            if loc[0] == 'var':
                st.frames[loc[1]][loc[2]] = v
            elif loc[0] == 'rec':
                st.heap[loc[1]] = v
            elif loc[0] == 'attr':
                r = st.heap[loc[1]]
                a = dict(r.attrs)
                a[loc[2]] = v
                st.heap[loc[1]] = InstRec(r.cls, a)
        st.assume(ge(self.tau, 0))
        if self.n is not None:
            st.assume(lt(self.tau, self.n))
        return st

    def run_body(self, overrides, mute):
        ip = self.ip
        st = self.start(overrides)
        ip.loopvars.append(self.tau)
        if mute:
            ip.mute += 1
        ip.side.append([])
        try:
            if self.kind == 'while':
                c = ip.truth(st, ip.ev(self.test, st))
                self.guard = norm(c)
                st.assume(c)
                self.after_guard = st.copy()
            else:
                ip.assign(self.node.target, self.elem(self.tau), st)
            outs = ip.exec_block(self.node.body, st)
            outs = outs + ip.side[-1]
        finally:
            ip.side.pop()
            ip.loopvars.pop()
            if mute:
                ip.mute -= 1
        ends = []
        for (s, o) in outs:
            if o[0] in ('normal', 'continue'):
                ends.append(s)
            else:
                raise Unsupported('%s inside a symbolic loop' % (
                    o[0] if o[0] != 'raise' else 'raise ' + o[1].cls))
        ends = ip.merge_states(ends)
        if len(ends) != 1:
            raise Unsupported('paths of a loop body cannot be merged')
        return ends[0]

    def changed(self, end, overrides):
        """locations whose value at the end differs from the start"""
        base = self.start(overrides)
        out = []
        for fid, fr in end.frames.items():
            b = base.frames.get(fid)
            if b is None:
                continue
            for k, v in fr.items():
                if k.startswith('#'):
                    continue
                w = b.get(k, UNBOUND)
                if not self.same_val(v, w):
                    out.append(('var', fid, k))
            for k in b:
                if k not in fr and not k.startswith('#'):
                    out.append(('var', fid, k))
        for rid, r in end.heap.items():
            b = base.heap.get(rid)
            if b is None or b is r:
                continue
            if isinstance(r, InstRec) and isinstance(b, InstRec):
                for k in set(r.attrs) | set(b.attrs):
                    if not self.same_val(r.attrs.get(k, UNBOUND),
                                         b.attrs.get(k, UNBOUND)):
                        out.append(('attr', rid, k))
                continue
            if isinstance(r, SeqRec) and isinstance(b, SeqRec) and \
                    len(r.segs) == len(b.segs) and \
                    all(seg_same(x, y) for x, y in zip(r.segs, b.segs)):
                continue
            out.append(('rec', rid))
        return out

    @staticmethod
    def same_val(v, w):
        if v is w:
            return True
        if isinstance(v, Ref) and isinstance(w, Ref):
            return v.id == w.id
        if is_scalar(v) and is_scalar(w):
            if isinstance(v, FN) or isinstance(w, FN):
                if isinstance(v, FN) and isinstance(w, FN):
                    return same_term(v.v, w.v) and same_term(v.nan, w.nan)
                return False
            if type(norm(v)) != type(norm(w)):
                return False
            return same_term(v, w)
        if isinstance(v, tuple) and isinstance(w, tuple):
            return len(v) == len(w) and all(
                Summary.same_val(x, y) for x, y in zip(v, w))
        if isinstance(v, (str, type(None))) and \
                isinstance(w, (str, type(None))):
            return v == w
        return False

    def initial(self, loc):
        if loc[0] == 'var':
            return self.st0.frames[loc[1]].get(loc[2], UNBOUND)
        if loc[0] == 'rec':
            return self.st0.heap[loc[1]]
        return self.st0.heap[loc[1]].attrs.get(loc[2], UNBOUND)

    def final(self, end, loc):
        if loc[0] == 'var':
            return end.frames[loc[1]].get(loc[2], UNBOUND)
        if loc[0] == 'rec':
            return end.heap[loc[1]]
        return end.heap[loc[1]].attrs.get(loc[2], UNBOUND)

    # ------------------------------------------------------------- tokens
    def mktok(self, loc, init, end):
        """arbitrary value of the same type"""
        u = Ref().id

        def const(nm, sort):
            c = z3.Const('tok!%s!%d' % (nm, u), sort)
            self.toknames.add(c.decl().name())
            return c
        nm = str(loc[-1])
        if init is UNBOUND:
            return UNBOUND
        if is_scalar(init):
            fl = is_floatlike(init) or (is_scalar(end)
                                        and is_floatlike(end))
            bo = (isinstance(init, bool) or is_sym_bool(init)) and \
                is_scalar(end) and (isinstance(end, bool)
                                    or is_sym_bool(end))
            if bo:
                return const(nm, B)
            if isinstance(init, FN) or isinstance(end, FN):
                return FN(const(nm, R), const(nm + '_nan', B))
            return const(nm, R if fl else I)
        if isinstance(init, ArrRec):
            return self.arrtok(nm, u, init)
        if isinstance(init, SeqRec):
            n = const(nm + '_len', I)
            items = init.concrete()
            probe = None
            if items:
                probe = items[0]

            def get(k):
                raise Unsupported('reading a list changed by the loop')
            return SeqRec([TokenSeg(nm, n, get)], init.kind)
        if isinstance(init, SetRec):
            return TokSet(nm)
        if isinstance(init, Ref):
            r = self.st0.heap.get(init.id)
            if isinstance(r, SeqRec):
                # a list made anew in every iteration: x = x + [...]
                def get(k):
                    raise Unsupported('reading a list changed by the loop')
                t = SeqRec([TokenSeg(nm, const(nm + '_len', I), get)],
                           r.kind)
                ref = Ref()
                self.newrefs[ref.id] = t
                self.listvars[loc] = (ref, t)
                return ref
            a = self.ip.av(self.st0, init)
            if a is not None:
                t = self.arrtok(nm, u, a)
                ref = Ref()
                self.newrefs[ref.id] = t
                self.arrvars[loc] = (ref, t)
                return ref
        return UNBOUND

    def arrtok(self, nm, u, a):
        nd = a.ndim
        kind = a.kind
        idx = tuple(z3.Int('ti!%d' % i) for i in range(nd))
        nanable = kind == 'f' and isinstance(a.get(idx), FN)
        if kind == 'o':
            raise Unsupported('object array changed by a loop')
        sort = {'f': R, 'i': I, 'b': B}[kind]
        fname = 'tok!%s!%d' % (nm, u)
        f = z3.Function(fname, *([I] * nd + [sort]))
        self.toknames.add(fname)
        if kind == 'f' and (nanable or self.force_nan):
            fn = z3.Function(fname + 'n', *([I] * nd + [B]))
            self.toknames.add(fname + 'n')
            return ArrRec(a.shape, kind, lambda ix: FN(
                f(*[zi(i) for i in ix]), fn(*[zi(i) for i in ix])))
        return ArrRec(a.shape, kind, lambda ix: f(*[zi(i) for i in ix]))

    force_nan = False

    # --------------------------------------------------------------- main
    def infer(self):
        ip = self.ip
        self.newrefs, self.arrvars, self.listvars = {}, {}, {}
        over = {}
        for rnd in range(8):
            end = self.run_body(self.with_refs(over), True)
            ch = self.changed(end, self.with_refs(over))
            new = [l for l in ch if l not in over]
            if not new and not self.retyped(over, end):
                break
            for l in new:
                if l[0] == 'rec' and l[1] in self.newrefs:
                    raise Unsupported('list or array both changed and '
                                      'replaced by a loop')
                init = self.initial(l)
                fin = self.final(end, l)
                if l[0] == 'rec' and isinstance(fin, ArrRec) and \
                        fin.kind == 'f' and self.writes_nan(fin):
                    self.force_nan = True
                over[l] = self.mktok(l, init, fin)
                self.force_nan = False
            for l in self.retyped(over, end):
                init = self.initial(l)
                over[l] = self.mktok(l, init, self.final(end, l))
        else:
            raise Unsupported('loop modification set does not settle')
        self.over = over
        return over, end

    def writes_nan(self, fin):
        idx = tuple(z3.Int('ti!%d' % i) for i in range(fin.ndim))
        return isinstance(fin.get(idx), FN)

    def retyped(self, over, end):
        out = []
        for l, t in over.items():
            if not is_scalar(t):
                if l[0] == 'rec' and isinstance(t, ArrRec):
                    fin = self.final(end, l)
                    idx = tuple(z3.Int('ti!%d' % i) for i in range(t.ndim))
                    if isinstance(fin, ArrRec) and \
                            isinstance(fin.get(idx), FN) and \
                            not isinstance(t.get(idx), FN):
                        self.force_nan = True
                        over[l] = self.arrtok(str(l[-1]), Ref().id,
                                              self.initial(l))
                        self.force_nan = False
                        out.append(l)
                continue
            fin = self.final(end, l)
            if is_scalar(fin):
                if is_floatlike(fin) and not is_floatlike(t):
                    out.append(l)
                elif isinstance(fin, FN) and not isinstance(t, FN):
                    out.append(l)
        return [l for l in out if is_scalar(over[l])]

    def with_refs(self, over):
        o = dict(over)
        for rid, rec in self.newrefs.items():
            o[('rec', rid)] = rec
        return o

    # closed form of a scalar: value at the start of iteration tau
    def close_scalar(self, tok, init, new, names):
        """(fn(t), by_construction) or None"""
        tau = self.tau
        if isinstance(tok, FN):
            v = self.close_scalar(tok.v, init.v if isinstance(init, FN)
                                  else tofloat(init),
                                  new.v if isinstance(new, FN)
                                  else tofloat(new), names)
            # NaN-ness: only supported when the body never produces NaN from
            # a non-NaN start
            nanf = new.nan if isinstance(new, FN) else False
            i0 = init.nan if isinstance(init, FN) else False
            if v is None:
                return None
            if norm(nanf) is False and norm(i0) is False:
                return v
            if same_term(nanf, tok.nan):
                return lambda t: mkfn(v(t), i0)
            return None
        d = diff_token(new, tok)
        if d is None:
            return None
        if names_of(d) & (names - {tok.decl().name()}):
            return ('depends', d)
        tn = tau.decl().name()
        if tn not in names_of(d):
            return lambda t: add(init, mul(d, t))
        isint = is_intlike(tok)
        dd = d
        m = z3.Int('sm!%d' % Ref().id)
        body = subst(dd, [(tau, m)])
        # sums of linear terms have closed forms, left as sums otherwise
        if isint:
            def f(t):
                raise Unsupported('integer sum')
            k = self.int_prefix(dd)
            if k is not None:
                return lambda t: add(init, k(t))
            return None
        return lambda t: add(tofloat(init), mksum(t, m, body))

    def int_prefix(self, d):
        return None

    def summarise(self):
        ip, tau = self.ip, self.tau
        over, end = self.infer()
        names = set(self.toknames)
        # ---- classify
        scal, local, arrs, lists, rebinding = {}, [], [], [], []
        relisted, sets = [], []
        pending = {}
        for l, t in over.items():
            fin = self.final(end, l)
            if l in self.arrvars:
                rebinding.append(l)
                continue
            if l in self.listvars:
                r = end.heap.get(fin.id) if isinstance(fin, Ref) else None
                if isinstance(r, SeqRec) and r.segs and \
                        r.segs[0] is self.listvars[l][1].segs[0]:
                    relisted.append(l)
                else:
                    local.append(l)
                continue
            if isinstance(t, ArrRec):
                arrs.append(l)
            elif isinstance(t, SeqRec):
                lists.append(l)
            elif isinstance(t, TokSet):
                sets.append(l)
            elif t is UNBOUND:
                local.append(l)
            elif is_scalar(t):
                if is_scalar(fin) and not (
                        names_of(fin) & names_of(t)) and \
                        self.free_of_token(end, over, l):
                    local.append(l)
                else:
                    pending[l] = (t, fin)
            else:
                local.append(l)
        closed = {}
        progress = True
        while pending and progress:
            progress = False
            for l, (t, fin) in list(pending.items()):
                pairs = []
                for q, f in closed.items():
                    pairs += self.tok_pairs(over[q], f(tau))
                fin2 = subst_value(fin, pairs) if pairs else fin
                live = set()
                for q in pending:
                    live |= names_of(over[q])
                for q in list(over):
                    if q not in closed and q not in pending and \
                            is_scalar(over[q]):
                        live |= names_of(over[q])
                live |= {x for x in names if x not in
                         {y for q in over if is_scalar(over[q])
                          for y in names_of(over[q])}}
                r = self.close_scalar(t, self.initial(l), fin2, live)
                if r is None:
                    r = self.close_other(l, t, fin2, live)
                if r is None:
                    raise Unsupported('no closed form for %s' % (l[-1],))
                if isinstance(r, tuple):
                    continue
                closed[l] = r
                del pending[l]
                progress = True
        if pending:
            raise Unsupported('no closed form for %s' % (
                [l[-1] for l in pending],))
        self.closed = closed
        # ---- second pass: scalars closed, arrays and lists arbitrary
        over2 = dict(over)
        for l, f in closed.items():
            over2[l] = f(tau)
        for l in local:
            # the value left by the previous iteration is not used (else the
            # token would have shown): keep it undefined
            over2[l] = over[l] if over[l] is not UNBOUND else \
                self.initial(l) if False else UNBOUND
        mark = len(ip.obls)
        end2 = self.run_body(self.with_refs(over2), False)
        for l, f in closed.items():
            fin = self.final(end2, l)
            g = same(fin, f(add(tau, 1)))
            if isinstance(f(tau), FN) or 'SUM' in names_of(f(tau)):
                g = same(sub(fin, f(tau)), sub(f(add(tau, 1)), f(tau))) \
                    if False else True
            self.inv_obl(end2, 'loop summary of %s' % l[-1], g)
        # ---- arrays
        writers = {}
        again = False
        for l in arrs:
            w = self.array_writers(l, over2, end2)
            writers[l] = w
            if w.selfdep:
                again = True
        folds = {}
        for l in rebinding:
            folds[l] = self.array_fold(l, over2, end2)
        if again:
            # third pass with the closed arrays
            del ip.obls[mark:]
            over3 = dict(over2)
            for l in arrs:
                over3[l] = writers[l].rec(tau)
            end3 = self.run_body(self.with_refs(over3), False)
            for l in arrs:
                self.check_array(l, writers[l], end3)
            end2 = end3
        # ---- final state
        n = self.n
        out = self.st0.copy()
        # heap objects made by the body may be referred to afterwards
        for rid, r in end2.heap.items():
            out.heap.setdefault(rid, r)
        for l, f in closed.items():
            self.put(out, l, f(n))
        for l in arrs:
            self.put(out, l, writers[l].rec(n))
        for l in rebinding:
            ref = out.new(folds[l](n))
            self.put(out, l, ref)
        for l in lists:
            self.put(out, l, self.list_final(l, end2, over2))
        for l in sets:
            self.put(out, l, self.set_final(l, end2, over2))
        for l in relisted:
            fin = self.final(end2, l)
            fin = end2.heap.get(fin.id) if isinstance(fin, Ref) else None
            self.put(out, l, out.new(self.list_of(
                fin, self.listvars[l][1],
                self.st0.heap[self.initial(l).id], end2)))
        for l in local:
            self.put(out, l, self.last_value(l, end2, out))
        return out

    def put(self, st, loc, v):
        if loc[0] == 'var':
            st.frames[loc[1]] = dict(st.frames[loc[1]])
            st.frames[loc[1]][loc[2]] = v
        elif loc[0] == 'rec':
            st.heap[loc[1]] = v
        else:
            r = st.heap[loc[1]]
            a = dict(r.attrs)
            a[loc[2]] = v
            st.heap[loc[1]] = InstRec(r.cls, a)

    def inv_obl(self, st, name, goal):
        """the summary must be inductive: otherwise there is no summary"""
        ip = self.ip
        goal = norm(goal)
        if goal is True:
            return
        r = ip.prover.prove(st.pc, goal, 6.0)
        if r[0] != 'proved':
            raise Unsupported('%s not shown inductive' % name)
        if not ip.mute:
            ip.obls.append(Obl(name, st.pc, goal, ip.func_stack[-1],
                               'invariant'))

    @staticmethod
    def tok_pairs(tok, v):
        if isinstance(tok, FN):
            v = v if isinstance(v, FN) else FN(tofloat(v), False)
            return [(tok.v, v.v), (tok.nan, v.nan)]
        if tok.sort() == R:
            v = tofloat(v)
        return [(tok, v)]

    def free_of_token(self, end, over, loc):
        """no changed location depends on this token"""
        nm = names_of(over[loc])
        for l in over:
            fin = self.final(end, l)
            try:
                if mentions_deep(self.ip, end, fin, nm):
                    return False
            except Unsupported:
                return False
        for h in end.pc:
            if consts_of(h) & nm:
                return False
        return True

    def close_other(self, l, tok, new, live):
        """other closed forms: saturating counters"""
        return None

    def last_value(self, l, end, out):
        """iteration-local value after the loop"""
        n = self.n
        init = self.initial(l)
        fin = self.final(end, l)
        tau = self.tau
        pairs = [(tau, sub(n, 1))]
        try:
            if isinstance(fin, Ref):
                if fin.id in self.st0.heap:
                    v = fin
                else:
                    rec = end.heap[fin.id]
                    if mentions_deep(self.ip, end, fin, self.toknames):
                        return stale(l)
                    if isinstance(rec, ViewRec):
                        return stale(l)
                    v = out.new(subst_rec(rec, pairs))
            else:
                if mentions_deep(self.ip, end, fin, self.toknames):
                    return stale(l)
                v = subst_value(fin, pairs)
        except Unsupported:
            return stale(l)
        c = gt(n, 0)
        c2 = norm(c)
        if c2 is True or self.ip.valid(self.st0, c2):
            return v
        if init is UNBOUND:
            return Choice(c2, v, UNBOUND)
        return merge_value(c2, v, init)

    # -------------------------------------------------------------- arrays
    def array_writers(self, l, over, end):
        ip, tau = self.ip, self.tau
        tok = over[l]
        fin = self.final(end, l)
        if not isinstance(fin, ArrRec):
            raise Unsupported('array replaced in a loop')
        init = self.initial(l)
        ixs = tuple(z3.Int('ix!%d' % Ref().id) for _ in fin.shape)
        s2 = end.copy()
        # idx range; not the conditions of the individual path
        s2.pc = self.st0.pc
        s2.assume(ge(tau, 0))
        if self.n is not None:
            s2.assume(lt(tau, self.n))
        for i, s in zip(ixs, fin.shape):
            s2.assume(b_and(ge(i, 0), lt(i, s)))
        if fin.base is not tok.base:
            return self.pointwise_writers(l, over, end, ixs, s2)
        C, V = False, None
        for c, f in fin.layers:
            cc = norm(c(ixs))
            if cc is False:
                continue
            v = f(ixs)
            V = v if V is None else merge_value(cc, v, V)
            C = b_or(C, cc)
        return ArrWriters(self, l, ixs, s2, C, V, init, tok)

    def pointwise_writers(self, l, over, end, ixs, s2):
        tok = over[l]
        fin = self.final(end, l)
        t = tok.get(ixs)
        v = fin.get(ixs)
        if isinstance(t, FN) or isinstance(v, FN):
            raise Unsupported('array rewritten in a loop')
        C = b_not(unchanged_when(v, t))
        return ArrWriters(self, l, ixs, s2, C, v, self.initial(l), tok)

    def check_array(self, l, w, end):
        if w.w.mode == 'named':
            return          # holds by the definition of the last writer
        fin = self.final(end, l)
        want = w.rec(add(self.tau, 1))
        ixs = tuple(z3.Int('ck!%d' % Ref().id) for _ in fin.shape)
        s2 = end.copy()
        for i, s in zip(ixs, fin.shape):
            s2.assume(b_and(ge(i, 0), lt(i, s)))
        self.inv_obl(s2, 'loop summary of an array',
                     same(fin.get(ixs), want.get(ixs)))

    def array_fold(self, l, over, end):
        """variable rebound to a new array in every iteration"""
        ip, tau = self.ip, self.tau
        ref, tok = self.arrvars[l]
        fin = self.ip.av(end, self.final(end, l))
        if fin is None or fin.ndim != tok.ndim:
            raise Unsupported('rebinding of an array')
        for x, y in zip(fin.shape, tok.shape):
            if not ip.dim_eq(end, x, y):
                raise Unsupported('array changes shape in a loop')
        init = ip.av(self.st0, self.initial(l))
        ixs = tuple(0 if one_long(s) else z3.Int('ix!%d' % Ref().id)
                    for s in init.shape)
        s2 = self.st0.copy()
        s2.assume(ge(tau, 0))
        s2.assume(lt(tau, self.n))
        for i, s in zip(ixs, fin.shape):
            s2.assume(b_and(ge(i, 0), lt(i, s)))
        t = tok.get(ixs)
        v = fin.get(ixs)
        if isinstance(t, FN) or isinstance(v, FN):
            raise Unsupported('NaN in an array fold')
        f = self.max_fold(s2, t, v, ixs, init)
        if f is not None:
            return f
        d = diff_token(v, t)
        if d is not None and not (names_of(d) & self.toknames):
            m = z3.Int('sm!%d' % Ref().id)
            body = subst(d, [(tau, m)])

            def fs(n):
                return ArrRec(init.shape, 'f', lambda idx: add(
                    tofloat(init.get(idx)),
                    subst_value(mksum(n, m, body), [
                        (x, y) for x, y in zip(ixs, idx) if is_z3(x)])))
            return fs
        raise Unsupported('no closed form for a rebound array')

    def max_fold(self, st, t, v, ixs, init):
        """new = max(old, e): running maximum"""
        ip, tau = self.ip, self.tau
        e = max_operand(v, t)
        if e is None or (names_of(e) & self.toknames):
            return None
        M = ip.fresh_fun('fold', *([I] * len(ixs) + [I, R]))
        W = ip.fresh_fun('argfold', *([I] * len(ixs) + [I, I]))
        k = z3.Int('mk!%d' % Ref().id)
        b = z3.Int('mb!%d' % Ref().id)
        vs = [i for i in ixs if is_z3(i)]
        zs = [zi(i) for i in ixs]
        Mx = M(*(zs + [b]))
        Wx = W(*(zs + [b]))
        i0 = tofloat(init.get(ixs))
        ek = subst(e, [(tau, k)])
        ew = subst(e, [(tau, Wx)])
        s0 = self.st0
        rng = b_and(*([b_and(ge(i, 0), lt(i, s)) for i, s in
                       zip(ixs, init.shape)] + [ge(b, 0), le(b, self.n)]))
        trig = {M.decl.name()}
        ip.fact(s0, b_implies(b_and(rng, ge(k, 0), lt(k, b)),
                              ge(Mx, ek)), vs + [b, k],
                [Mx, k_pattern(ek, k)] if k_pattern(ek, k) is not None
                else None, trig=trig)
        ip.fact(s0, b_implies(rng, ge(Mx, i0)), vs + [b], [Mx],
                trig=trig)
        ip.fact(s0, b_implies(rng, b_or(
            eq(Mx, i0), b_and(ge(Wx, 0), lt(Wx, b), eq(Mx, ew)))),
            vs + [b], [Mx], trig=trig)
        ip.folds = getattr(ip, 'folds', [])
        ip.folds.append((M, W, tau, ixs, e, i0))

        def f(n):
            return ArrRec(init.shape, 'f', lambda idx: M(
                *([zi(i) if is_z3(x) else zi(0)
                   for i, x in zip(idx, ixs)] + [zi(n)])))
        return f

    # --------------------------------------------------------------- lists
    def list_final(self, l, end, over):
        return self.list_of(self.final(end, l), over[l], self.initial(l),
                            end)

    def set_final(self, l, end, over):
        fin, init = self.final(end, l), self.initial(l)
        if not isinstance(fin, TokSet) or fin.tok is not over[l].tok or \
                len(fin.added) != 1 or init.items or init.sym:
            raise Unsupported('set changed by a loop')
        seg = freeze_seg(self.ip, end, self.st0, Items(fin.added), self)
        if mentions_seg(seg, self.toknames):
            raise Unsupported('items of a set depend on the loop')
        v, tau = seg.items[0], self.tau
        return SetRec((), (self.n, lambda k: subst_value(v, [(tau, k)])))

    def list_of(self, fin, tok, init, end):
        ip = self.ip
        if not isinstance(fin, SeqRec) or not fin.segs or \
                fin.segs[0] is not tok.segs[0]:
            # the append may be inside a conditional segment
            raise Unsupported('list changed other than by appending')
        body = [freeze_seg(ip, end, self.st0, s, self) for s in fin.segs[1:]]
        for s in body:
            if mentions_seg(s, self.toknames):
                raise Unsupported('appended items depend on the list')
        n = self.n
        tau = self.tau
        # one conditional append: a filtered sequence
        if len(body) == 1 and isinstance(body[0], CondSeg) and (
                (len(body[0].a) == 1 and not body[0].b) or
                (len(body[0].b) == 1 and not body[0].a)):
            c = body[0]
            cond = c.cond if c.a else b_not(c.cond)
            seg = (c.a or c.b)[0]
            if isinstance(seg, Items) and len(seg.items) == 1 and \
                    not isinstance(seg.items[0], Event):
                from . import arrays
                # lists appended to on the same condition stay parallel
                key = zb(cond).sexpr()
                fs = arrays.filter_seq(ip, self.st0, n, tau, cond,
                                       seg.items[0], self.sets.get(key))
                self.sets[key] = fs.info
                return SeqRec(init.segs + (fs,), init.kind)
        return SeqRec(init.segs + (LoopSeg(n, tau, tuple(body)),),
                      init.kind)


class ArrWriters(object):
    def __init__(self, summ, l, ixs, st, C, V, init, tok):
        self.init = init
        self.tok = tok
        names = summ.toknames
        self.selfdep = False
        ip = summ.ip
        if V is not None and (mentions(V, names) or
                              _cond_mentions(C, names)):
            self.selfdep = True
        w = Writer(ip, st, summ.tau, summ.n, ixs, C, V)
        w.st0 = summ.st0
        if V is None:
            w.mode = 'never'
        else:
            if self.selfdep:
                # a cell is written in one iteration only: before it, the
                # array still holds its initial value there
                w.C = self.untok(w.C, tok, init, names)
                w.V = self.untok(w.V, tok, init, names)
            if not w.solve():
                raise Unsupported('writes of a loop cannot be ordered')
            if self.selfdep and w.mode != 'unique':
                raise Unsupported('array read and rewritten in a loop')
        self.w = w

    def untok(self, v, tok, init, names):
        """replace reads of the token array by reads of the initial one"""
        if isinstance(v, FN):
            return mkfn(self.untok(v.v, tok, init, names),
                        self.untok(v.nan, tok, init, names))
        if not is_z3(v) or not (consts_of(v) & names):
            return v
        pairs = []
        seen = set()
        stack = [v]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                raise Unsupported('token under a binder')
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                        x.decl().name() in names and x.num_args():
                    idx = tuple(norm(a) for a in x.children())
                    t = tok.get(idx)
                    i = init.get(idx)
                    if isinstance(t, FN):
                        i = i if isinstance(i, FN) else FN(tofloat(i),
                                                           False)
                        if x.eq(t.v):
                            pairs.append((x, zr(i.v)))
                        elif x.eq(t.nan):
                            pairs.append((x, zb(i.nan)))
                        else:
                            raise Unsupported('other token')
                    elif x.eq(t):
                        i = to_z3(tofloat(i)) if x.sort() == R else \
                            to_z3(i)
                        pairs.append((x, i))
                    else:
                        raise Unsupported('other token')
                stack.extend(x.children())
        return norm(z3.substitute(v, *pairs)) if pairs else v

    def rec(self, n):
        if self.w.mode == 'never':
            return self.init
        return self.init.write(self.w.cond_fn(n), self.w.val_fn(n))


def unchanged_when(v, t):
    """condition under which v is the token t"""
    if is_z3(v):
        if is_z3(t) and v.eq(t):
            return True
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            c = v.arg(0)
            return b_or(b_and(c, unchanged_when(v.arg(1), t)),
                        b_and(b_not(c), unchanged_when(v.arg(2), t)))
    return False


def diff_token(new, tok):
    """d with new = tok + d and d free of tok, or None"""
    tn = names_of(tok)
    if is_z3(new) and z3.is_app(new) and \
            new.decl().kind() == z3.Z3_OP_ITE:
        c = new.arg(0)
        if not (consts_of(c) & tn):
            a = diff_token(norm(new.arg(1)), tok)
            b = diff_token(norm(new.arg(2)), tok)
            if a is not None and b is not None:
                return ite(c, a, b)
            return None
    try:
        d = sub(new, tok)
        if is_z3(d):
            p = poly(d)
            if len(p.d) > 40:
                return None
            d = norm(p.term(tok.sort() == R))
    except Unsupported:
        return None
    if names_of(d) & tn:
        return None
    return d


def max_operand(v, t):
    """e with v = max(t, e)"""
    if not (is_z3(v) and z3.is_app(v) and
            v.decl().kind() == z3.Z3_OP_ITE):
        return None
    c, a, b = v.arg(0), v.arg(1), v.arg(2)
    if a.eq(t):
        e, keep = b, c
    elif b.eq(t):
        e, keep = a, z3.Not(c)
    else:
        return None
    s = z3.Solver()
    s.set('timeout', 1000)
    x, y = z3.Reals('mo!x mo!y')
    k2 = z3.substitute(keep, (t, x), (e, y)) if is_z3(t) else None
    if consts_of(k2) - {'mo!x', 'mo!y'}:
        return None
    s.add(z3.Not(z3.And(z3.Implies(k2, x >= y),
                        z3.Implies(z3.Not(k2), y >= x))))
    if s.check() != z3.unsat:
        return None
    return e


def k_pattern(e, k):
    """an uninterpreted application in e that mentions k"""
    if not is_z3(e):
        return None
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and \
                any(c.eq(k) for c in x.children()):
            return x
        stack.extend(x.children())
    return None


def one_long(s):
    s = norm(s)
    return isinstance(s, int) and s == 1


def stale(l):
    return UNBOUND


def mentions_deep(ip, st, v, names):
    if isinstance(v, Ref):
        r = st.heap.get(v.id)
        if isinstance(r, ArrRec):
            return mentions(r, names)
        if isinstance(r, ViewRec):
            a = ip.av(st, v)
            return mentions(a, names)
        if isinstance(r, SeqRec):
            return any(mentions_seg(s, names) for s in r.segs)
        if isinstance(r, InstRec):
            return any(mentions_deep(ip, st, x, names)
                       for x in r.attrs.values() if not isinstance(x, Ref))
        return False
    if isinstance(v, ArrRec):
        return mentions(v, names)
    if isinstance(v, SeqRec):
        return any(mentions_seg(s, names) for s in v.segs)
    if v is UNBOUND:
        return False
    return mentions(v, names)


def mentions_seg(s, names):
    if isinstance(s, Items):
        return any(mentions(x, names) for x in s.items)
    if isinstance(s, SymSeg):
        return mentions(s.n, names) or \
            mentions(s.get(z3.Int('ms!k')), names)
    if isinstance(s, CondSeg):
        return mentions(s.cond, names) or any(
            mentions_seg(x, names) for x in s.a + s.b)
    if isinstance(s, LoopSeg):
        return mentions(s.n, names) or any(mentions_seg(x, names)
                                           for x in s.body)
    return False


def freeze_seg(ip, st, st0, s, summ):
    def fz(v):
        if isinstance(v, Event):
            return Event(v.name, *[fz(a) for a in v.args])
        if isinstance(v, tuple):
            return tuple(fz(a) for a in v)
        if isinstance(v, Ref):
            if v.id in st0.heap:
                return v
            f = ip.freeze(st, v)
            if isinstance(f, Ref):
                r = st.heap[v.id]
                if isinstance(r, InstRec) and not any(
                        mentions_deep(ip, st, x, {summ.tau.decl().name()})
                        for x in r.attrs.values()):
                    return v
                raise Unsupported('object made in a loop is kept')
            return fz(f)
        return v
    if isinstance(s, Items):
        return Items([fz(v) for v in s.items])
    if isinstance(s, CondSeg):
        return CondSeg(s.cond, [freeze_seg(ip, st, st0, x, summ)
                                for x in s.a],
                       [freeze_seg(ip, st, st0, x, summ) for x in s.b])
    return s


# ---------------------------------------------------------------- entries
def summarise_for(ip, node, st, n, elem):
    if node.orelse:
        raise Unsupported('for/else over a symbolic range')
    key = (ip.func_stack[-1], 'for')
    if key in ip.invariants:
        return ip.invariants[key](ip, node, st, n, elem)
    sm = Summary(ip, node, st, n, elem, 'for')
    out = sm.summarise()
    st.become(out)
    return [(st, NORMAL)]


def exec_while(ip, node, st):
    own = ip.invariants.get((ip.func_stack[-1], 'while'))
    if getattr(own, 'early', False) and not node.orelse:
        return own(ip, node, st)
    # unroll while the condition is decided
    for _ in range(300):
        s2 = st.copy()
        c = norm(ip.truth(s2, ip.ev(node.test, s2)))
        if isinstance(c, bool) and not (c is True and isinstance(
                node.test, ast.Constant)):
            if not c:
                return [(s2, NORMAL)]
            outs = ip.exec_block(node.body, s2)
            if len(outs) == 1 and outs[0][1][0] in ('normal', 'continue'):
                st = outs[0][0]
                continue
            if len(outs) == 1 and outs[0][1][0] == 'break':
                return [(outs[0][0], NORMAL)]
            if all(o[0] not in ('normal', 'continue', 'break')
                   for _, o in outs):
                return outs
            raise Unsupported('while loop')
        break
    if node.orelse:
        raise Unsupported('while/else')
    key = (ip.func_stack[-1], 'while')
    if key in ip.invariants:
        return ip.invariants[key](ip, node, st)
    sm = Summary(ip, node, st, None, None, 'while', node.test)
    sm.n = None
    over, end = sm.infer()
    return while_closed(ip, node, st, sm)


def while_closed(ip, node, st, sm):
    """scalars in closed form first, then the number of iterations T"""
    tau = sm.tau
    end = sm.run_body(sm.with_refs(sm.over), True)
    guard_tok = sm.guard
    names = set(sm.toknames)
    closed = {}
    for l, t in sm.over.items():
        if is_scalar(t):
            fin = sm.final(end, l)
            r = sm.close_scalar(t, sm.initial(l), fin,
                                set(names) - names_of(t))
            if r is not None and not isinstance(r, tuple):
                closed[l] = r
    pairs = []
    for l, f in closed.items():
        pairs += sm.tok_pairs(sm.over[l], f(tau))
    g = norm(subst(guard_tok, pairs)) if is_z3(guard_tok) else guard_tok
    if names_of(g) & names:
        raise Unsupported('while condition without closed form')
    T = exit_count(ip, st, g, tau)
    # the same body over exactly T iterations
    class F(object):
        pass
    loop = ast.For(target=ast.Name(id='__t', ctx=ast.Store()),
                   iter=None, body=node.body, orelse=[], lineno=node.lineno)
    sm2 = Summary(ip, loop, st, T, lambda k: k, 'for')
    out = sm2.summarise()
    out.frames[out.cur].pop('__t', None)
    st.become(out)
    return [(st, NORMAL)]


def exit_count(ip, st, g, tau):
    """T with g true for 0 <= t < T and false at T; both are obligations"""
    cands = []
    for c in conjuncts(zb(g)):
        pos = True
        x = c
        while z3.is_not(x):
            x = x.arg(0)
            pos = not pos
        if not (z3.is_app(x) and x.num_args() == 2):
            continue
        try:
            p = poly(sub(norm(x.arg(0)), norm(x.arg(1))))
        except Unsupported:
            continue
        r = split_linear(p, tau)
        if r is None:
            continue
        co, rest = r
        k = x.decl().kind()
        le_, lt_, ge_, gt_ = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE,
                              z3.Z3_OP_GT)
        if not pos:
            k = {le_: gt_, lt_: ge_, ge_: lt_, gt_: le_}.get(k)
        # co*tau + rest  k  0
        if k in (ge_, gt_):
            co, rest = neg(co), neg(rest)
            k = le_ if k == ge_ else lt_
        if k not in (le_, lt_):
            continue
        if norm(co) != 1:
            continue
        # tau + rest <= 0  holds for tau <= -rest
        cands.append(sub(1, rest) if k == le_ else neg(rest))
    if not cands:
        raise Unsupported('no bound for a while loop')
    T = cands[0]
    for c in cands[1:]:
        T = smin(T, c)
    T = smax(T, 0)
    t = ip.fresh('T', I)
    ip.fact(st, eq(t, T), trig={t.decl().name()})
    s2 = st.copy()
    s2.assume(b_and(ge(tau, 0), lt(tau, T)))
    ip.loopvars.append(tau)
    try:
        for s, gl, nm in ((s2, g, 'loop continues before its last turn'),
                          (st, b_not(subst(g, [(tau, T)])),
                           'loop terminates')):
            r = ip.prover.prove(s.pc, gl, 6.0)
            if r[0] != 'proved':
                raise Unsupported('while loop: number of turns')
            if not ip.mute:
                ip.obls.append(Obl(nm, s.pc, gl, ip.func_stack[-1],
                                   'invariant'))
    finally:
        ip.loopvars.pop()
    return T
