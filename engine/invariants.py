"""Loops over ghost state: an inductive invariant is searched among candidate
formulas (the largest inductive subset), then the body is verified from it.

Every local the loop assigns and all ghost state is arbitrary at the start of
an iteration, apart from the invariant."""
import ast
from .terms import *
from .values import *
from .prove import Obl

NORMAL = ('normal',)


class Spec(object):
    """ghost: reference of an InstRec of integers and integer arrays;
    candidates(names): [(text, function(entry, now, k))] over values by
    name, ghost ones as '.name', arrays as functions; variant: the same;
    values: [(text, function(now))], what a local that is no number may be
    at the start of every iteration"""

    def __init__(self, ghost, candidates, variant=None, values=()):
        self.ghost, self.candidates, self.variant = ghost, candidates, variant
        self.values = list(values)


def same_value(v, w):
    if isinstance(v, Choice) or isinstance(w, Choice):
        if not isinstance(v, Choice):
            v, w = w, v
        c = zb(v.cond)
        a, b = (w.a, w.b) if isinstance(w, Choice) and norm(
            eq(w.cond, c)) is True else (w, w)
        if a is b and isinstance(w, Choice):
            a = b = w
            return b_and(b_implies(b_and(c, w.cond), same_value(v.a, w.a)),
                         b_implies(b_and(c, b_not(w.cond)),
                                   same_value(v.a, w.b)),
                         b_implies(b_and(b_not(c), w.cond),
                                   same_value(v.b, w.a)),
                         b_implies(b_and(b_not(c), b_not(w.cond)),
                                   same_value(v.b, w.b)))
        return b_and(b_implies(c, same_value(v.a, a)),
                     b_implies(b_not(c), same_value(v.b, b)))
    if isinstance(v, tuple) and isinstance(w, tuple):
        return len(v) == len(w) and b_and(*[same_value(x, y)
                                            for x, y in zip(v, w)])
    if isinstance(v, ObjV) and isinstance(w, ObjV):
        return eq(v.term, w.term)
    if is_scalar(v) and is_scalar(w):
        return eq(v, w)
    return v is None and w is None


class Loop(object):
    def __init__(self, ip, node, st, spec, n=None, elem=None):
        self.ip, self.node, self.st, self.spec = ip, node, st, spec
        self.n, self.elem = n, elem
        from .interp import assigned_names
        frame = st.frames[st.cur]
        names = assigned_names(node.body)
        if isinstance(node, ast.For):
            names = names + [x.id for x in ast.walk(node.target)
                             if isinstance(x, ast.Name)]
        self.names = sorted(set(names))
        self.ints = [x for x in self.names if x in frame and
                     is_scalar(frame[x]) and not isinstance(frame[x], bool)
                     and is_intlike(norm(frame[x]))]
        self.ghost = st.heap[spec.ghost.id].attrs
        self.fresh = {}
        self.carried = []

    def env(self, st):
        f = st.frames[st.cur]
        e = {x: norm(f[x]) for x in self.ints}
        for g, x in st.heap[self.spec.ghost.id].attrs.items():
            if isinstance(x, Ref):
                r = st.heap[x.id]
                e['.' + g] = lambda k, r=r: r.get((k,))
            else:
                e['.' + g] = norm(x)
        return e

    def arbitrary(self):
        ip, s = self.ip, self.st.copy()
        f = s.frames[s.cur]
        for x in self.names:
            if x in self.ints:
                if x not in self.fresh:
                    self.fresh[x] = ip.fresh('any_' + x, I)
                f[x] = self.fresh[x]
            elif x in f:
                f[x] = UNBOUND
        a = {}
        for g, x in self.ghost.items():
            if g + '.' not in self.fresh:
                self.fresh[g + '.'] = (
                    ip.fresh_fun('ghost_' + g, I, I) if isinstance(x, Ref)
                    else ip.fresh('ghost_' + g, I))
            q = self.fresh[g + '.']
            if isinstance(x, Ref):
                r = s.heap[x.id]
                s.heap[x.id] = ArrRec(r.shape, 'i', lambda ix, q=q: q(
                    zi(ix[0])))
                a[g] = x
            else:
                a[g] = q
        s.heap[self.spec.ghost.id] = InstRec(None, a)
        e = self.env(s)
        for x, _, fn in self.carried:
            f[x] = fn(e)
        return s

    def own(self):
        ok = {self.spec.ghost.id}
        for x in self.ghost.values():
            if isinstance(x, Ref):
                ok.add(x.id)
        return ok

    def framed(self, s0, s):
        """the body changes nothing but its locals and the ghost state"""
        ok = self.own()
        for k, r in s0.heap.items():
            if k not in ok and s.heap.get(k) is not r:
                raise Unsupported('loop changes an object')
        for fid, fr in s0.frames.items():
            for x, y in fr.items():
                if not (fid == s0.cur and x in self.names) and \
                        s.frames[fid].get(x, UNBOUND) is not y:
                    raise Unsupported('loop changes %s' % (x,))

    def body(self, active, k):
        """[(state, outcome)], exit state, arbitrary state"""
        ip = self.ip
        s = self.arbitrary()
        e = self.env(s)
        for _, c in active:
            s.assume(c(self.entry, e, k))
        if self.n is not None:
            s.assume(b_and(ge(k, 0), lt(k, self.n)))
            out = self.arbitrary()
            e2 = self.env(out)
            for _, c in active:
                out.assume(c(self.entry, e2, self.n))
            s0 = s.copy()
            ip.assign(self.node.target, self.elem(k), s)
        else:
            c = norm(ip.truth(s, ip.ev(self.node.test, s)))
            out = s.copy()
            s.assume(c)
            out.assume(b_not(c))
            if c is True:
                out = None
            s0 = s.copy()
        res = ip.exec_block(self.node.body, s)
        for t, o in res:
            self.framed(s0, t)
        return res, out, s0

    def shown(self, st, f):
        f = norm(f)
        return f is True or f is not False and self.ip.prover.prove(
            st.pc, zb(f), 1.5)[0] == 'proved'

    def carry(self, s, q):
        return same_value(s.frames[s.cur].get(q[0], UNBOUND),
                          q[2](self.env(s)))

    def run(self):
        ip = self.ip
        p = ip.prover
        self.entry = self.env(self.st)
        k = ip.fresh('turn', I) if self.n is not None else None
        z = 0 if self.n is not None else None
        nxt = add(k, 1) if k is not None else None
        active = []
        frame = self.st.frames[self.st.cur]
        for x in self.names:
            if x in frame and x not in self.ints:
                for text, fn in self.spec.values:
                    if self.shown(self.st, same_value(frame[x],
                                                      fn(self.entry))):
                        self.carried.append((x, text, fn))
                        break
        for name, c in self.spec.candidates(sorted(self.entry)):
            f = norm(c(self.entry, self.entry, z))
            if f is True or f is not False and p.prove(
                    self.st.pc, zb(f), 1.0)[0] == 'proved':
                active.append((name, c))
        while True:
            ip.mute += 1
            m = len(ip.obls)
            try:
                res, _, _ = self.body(active, k)
            finally:
                ip.mute -= 1
            keep = []
            for name, c in active:
                ok = True
                for s, o in res:
                    if o[0] not in ('normal', 'continue'):
                        continue
                    f = norm(c(self.entry, self.env(s), nxt))
                    if f is True:
                        continue
                    if f is False or p.prove(s.pc, zb(f), 1.5)[0] != \
                            'proved':
                        ok = False
                        break
                if ok:
                    keep.append((name, c))
            carried = [q for q in self.carried if all(
                o[0] not in ('normal', 'continue') or self.shown(
                    s, self.carry(s, q)) for s, o in res)]
            if len(keep) == len(active) and \
                    len(carried) == len(self.carried):
                break
            active, self.carried = keep, carried
        where = ip.func_stack[-1]
        if not ip.mute:
            for name, c in active:
                f = norm(c(self.entry, self.entry, z))
                ip.obls.append(Obl('holds before the loop: ' + name,
                                   self.st.pc, f, where, 'invariant'))
            for x, text, fn in self.carried:
                ip.obls.append(Obl('before the loop: %s is %s' % (x, text),
                                   self.st.pc, same_value(
                                       frame[x], fn(self.entry)), where,
                                   'invariant'))
        res, out, s0 = self.body(active, k)
        outs = []
        for s, o in res:
            if o[0] in ('normal', 'continue'):
                if ip.mute:
                    continue
                for name, c in active:
                    ip.obls.append(Obl('kept by the loop: ' + name, s.pc,
                                       norm(c(self.entry, self.env(s), nxt)),
                                       where, 'invariant'))
                for q in self.carried:
                    ip.obls.append(Obl('kept by the loop: %s is %s' % q[:2],
                                       s.pc, self.carry(s, q), where,
                                       'invariant'))
                if self.spec.variant is not None and self.n is None:
                    a = self.spec.variant(self.entry, self.env(s0))
                    b = self.spec.variant(self.entry, self.env(s))
                    ip.obls.append(Obl('the loop ends', s.pc, zb(b_and(
                        lt(b, a), ge(a, 0))), where, 'invariant', False))
            elif o[0] == 'break':
                outs.append((s, NORMAL))
            else:
                outs.append((s, o))
        if out is not None:
            outs.append((out, NORMAL))
        return ip.merge_outcomes(outs)


def install(ip, qual, spec):
    """spec for the loops of the function"""
    def loop(ip, node, st, n=None, elem=None):
        return Loop(ip, node, st, spec, n, elem).run()
    ip.invariants[(qual, 'while')] = loop
    ip.invariants[(qual, 'for')] = loop
