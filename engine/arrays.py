"""numpy indexing, assignment and index sets."""
from .terms import *
from .values import *


class Region(object):
    """a rectangular (strided) part of an array"""
    def __init__(self, shape, fwd, inv, scalar):
        self.shape, self.fwd, self.inv, self.scalar = shape, fwd, inv, scalar


def is_bool_array(ip, st, ix):
    a = ip.av(st, ix)
    return a is not None and a.kind == 'b' and a.ndim > 0


def is_int_array(ip, st, ix):
    if isinstance(ix, Ref) and isinstance(st.heap[ix.id], SeqRec):
        return True
    if isinstance(ix, (RangeV, SymIter)):
        return True
    a = ip.av(st, ix)
    return a is not None and a.kind in ('i', 'f') and a.ndim > 0


def scalar_index(ip, st, ix):
    """0-d or size-1 arrays used as an index"""
    if is_scalar(ix):
        return ix
    a = ip.av(st, ix)
    if a is not None and a.ndim == 0:
        return a.get(())
    return None


def region(ip, st, a, ix):
    ixs = list(ix) if isinstance(ix, tuple) else [ix]
    n_spec = sum(1 for i in ixs if i is not None and i is not Ellipsis)
    if Ellipsis in [i for i in ixs if i is Ellipsis]:
        p = [k for k, i in enumerate(ixs) if i is Ellipsis][0]
        ixs = ixs[:p] + [slice(None, None, None)] * (a.ndim - n_spec) + \
            ixs[p + 1:]
    else:
        ixs = ixs + [slice(None, None, None)] * (a.ndim - n_spec)
    if sum(1 for i in ixs if i is not None) > a.ndim:
        ip.obl(st, 'not too many indices', False)
        raise Unsupported('too many indices')
    d = 0
    dims = []          # per result/array dimension
    shape = []
    for i in ixs:
        if i is None:
            dims.append(('n', len(shape)))
            shape.append(1)
            continue
        n = a.shape[d]
        if isinstance(i, slice):
            s, ln, step = ip.norm_slice(st, i, n)
            dims.append(('s', d, len(shape), s, ln, step))
            shape.append(ln)
        else:
            k = scalar_index(ip, st, i)
            if k is None:
                raise Unsupported('index %r' % (i,))
            k = ip.norm_index(st, k, n)
            dims.append(('i', d, k))
        d += 1
    nd = a.ndim

    def fwd(idx):
        out = [None] * nd
        for q in dims:
            if q[0] == 's':
                _, dd, r, s, ln, step = q
                out[dd] = add(s, mul(idx[r], step))
            elif q[0] == 'i':
                out[q[1]] = q[2]
        return tuple(out)

    def inv(idx):
        c = True
        out = [0] * len(shape)
        for q in dims:
            if q[0] == 's':
                _, dd, r, s, ln, step = q
                i = idx[dd]
                if step == 1:
                    k = sub(i, s)
                    full = isinstance(s, int) and s == 0 and \
                        same_term(ln, a.shape[dd])
                    if not full:
                        c = b_and(c, ge(i, s), lt(i, add(s, ln)))
                elif step == -1:
                    k = sub(s, i)
                    if not same_term(ln, a.shape[dd]):
                        c = b_and(c, ge(k, 0), lt(k, ln))
                else:
                    dlt = sub(i, s)
                    k, rem = ip.divmod_sym(st, dlt, step)
                    c = b_and(c, ge(dlt, 0), eq(rem, 0), lt(k, ln))
                out[r] = k
            elif q[0] == 'i':
                c = b_and(c, eq(idx[q[1]], q[2]))
        return c, tuple(out)
    return Region(tuple(shape), fwd, inv, len(shape) == 0)


def mask_of(ip, st, ix, a):
    """the mask a where()/boolean index stands for, or None"""
    if isinstance(ix, tuple) and len(ix) == 1:
        ix = ix[0]
    if isinstance(ix, WhereV):
        m = ix.mask
    elif is_bool_array(ip, st, ix):
        m = ip.av(st, ix)
    elif isinstance(ix, bool) or is_sym_bool(ix):
        raise Unsupported('boolean scalar index')
    else:
        return None
    if m.ndim == 0:
        if norm(m.get(())) is False:
            return ArrRec(a.shape, 'b', lambda idx: False)
        raise Unsupported('where() of a scalar')
    if m.ndim != a.ndim:
        if isinstance(ix, WhereV) or m.ndim > a.ndim:
            ip.obl(st, 'mask fits the array', False)
        raise Unsupported('mask of lower rank')
    for x, y in zip(m.shape, a.shape):
        if not ip.dim_eq(st, x, y):
            # a where() of a smaller array is accepted by numpy when all
            # indices fit; a mask must have the same shape
            ip.obl(st, 'mask shape fits the array',
                   le(x, y) if isinstance(ix, WhereV) else eq(x, y))
            m0 = m
            if isinstance(ix, WhereV):
                sh = m0.shape
                m = ArrRec(a.shape, 'b', lambda idx: b_and(
                    *([lt(i, s) for i, s in zip(idx, sh)] +
                      [m0.get(idx)])))
    return m


def array_item(ip, st, o, a, ix):
    if isinstance(a.info, MaskInfo):
        raise Unsupported('item of a masked array')
    m = mask_of(ip, st, ix, a)
    if m is not None:
        return Sel(m, None, a.kind, a.get)
    if isinstance(ix, tuple) and len(ix) == 1 and \
            not isinstance(ix[0], (slice, type(None))) and \
            ix[0] is not Ellipsis:
        ix = ix[0]
    if not isinstance(ix, (tuple, slice)) and ix is not None and \
            ix is not Ellipsis and scalar_index(ip, st, ix) is None and \
            is_int_array(ip, st, ix):
        p = ip.to_array(st, ix)
        return gather(ip, st, a, p)
    if isinstance(ix, tuple) and any(
            not is_scalar(i) and isinstance(i, (Ref, ArrRec))
            and scalar_index(ip, st, i) is None for i in ix):
        return gather_nd(ip, st, a, ix)
    r = region(ip, st, a, ix)
    if r.scalar:
        return a.get(r.fwd(()))
    info = None
    if isinstance(a.info, SetInfo) and len(r.shape) == 1:
        lo = r.fwd((0,))[0]
        if same_term(sub(r.fwd((1,))[0], lo), 1):
            info = sub_set(a.info, lo, r.shape[0])
    if isinstance(o, Ref):
        rec = st.heap[o.id]
        if isinstance(rec, ViewRec):
            f0, i0 = rec.fwd, rec.inv

            def fwd(idx):
                return f0(r.fwd(idx))

            def inv(idx):
                c, k = i0(idx)
                c2, k2 = r.inv(k)
                return b_and(c, c2), k2
            nv = ViewRec(rec.ref, r.shape, fwd, inv)
        else:
            nv = ViewRec(o, r.shape, r.fwd, r.inv)
        nv.info = info
        return st.new(nv)
    return st.new(ArrRec(r.shape, a.kind, lambda idx: a.get(r.fwd(idx)),
                         info=info))


def check_gather(ip, st, p, n):
    idx = tuple(ip.fresh('gi', I) for _ in p.shape)
    s2 = st.copy()
    for i, s in zip(idx, p.shape):
        s2.assume(b_and(ge(i, 0), lt(i, s)))
    v = p.get(idx)
    if p.kind == 'f':
        ip.obl(st, 'index is an integer', False)
        raise Unsupported('float index array')
    nonneg = ip.valid(s2, ge(v, 0))
    g = b_and(lt(v, n), ge(v, 0) if nonneg else ge(v, neg(n)))
    if not ip.mute:
        ip.obl(s2, 'index in range', g)
    return nonneg


def gather(ip, st, a, p):
    if p.ndim != 1 and a.ndim != 1:
        raise Unsupported('fancy indexing')
    n = a.shape[0]
    nonneg = check_gather(ip, st, p, n)

    def at(idx):
        v = p.get(idx)
        return v if nonneg else ite(ge(v, 0), v, add(v, n))
    nd = p.ndim
    return st.new(ArrRec(tuple(p.shape) + tuple(a.shape[1:]), a.kind,
                         lambda idx: a.get((at(idx[:nd]),) +
                                           tuple(idx[nd:]))))


def gather_nd(ip, st, a, ix):
    ps = []
    if len(ix) != a.ndim:
        raise Unsupported('partial fancy index')
    for d, i in enumerate(ix):
        if is_scalar(i):
            k = ip.norm_index(st, i, a.shape[d])
            ps.append(ArrRec((), 'i', lambda idx, k=k: k))
        else:
            p = ip.to_array(st, i)
            if p is None:
                raise Unsupported('mixed fancy index')
            nonneg = check_gather(ip, st, p, a.shape[d])
            n = a.shape[d]
            if nonneg:
                ps.append(p)
            else:
                ps.append(ArrRec(p.shape, 'i', lambda idx, p=p, n=n: ite(
                    ge(p.get(idx), 0), p.get(idx), add(p.get(idx), n))))
    shape, gets = ip.broadcast(st, ps)
    return st.new(ArrRec(shape, a.kind,
                         lambda idx: a.get(tuple(g(idx) for g in gets))))


def array_set(ip, st, o, ix, v):
    a = ip.av(st, o)
    if isinstance(a.info, MaskInfo):
        raise Unsupported('item assignment to a masked array')
    m = mask_of(ip, st, ix, a)
    if m is not None:
        if isinstance(v, Sel):
            ip.same_mask(st, m, v.mask)
            get = v.get
        elif is_scalar(v):
            nan_check(ip, st, a, v)
            get = lambda idx: v
        else:
            w = ip.to_array(st, v)
            if w is not None and w.ndim == 0:
                get = lambda idx: w.get(())
            else:
                raise Unsupported('array assigned to a selection')
        ip.write_arr(st, o, m.get, get)
        return
    if isinstance(ix, tuple) and len(ix) == 1 and \
            not isinstance(ix[0], (slice, type(None))):
        ix = ix[0]
    if not isinstance(ix, (tuple, slice)) and ix is not None and \
            ix is not Ellipsis and scalar_index(ip, st, ix) is None and \
            is_int_array(ip, st, ix):
        scatter(ip, st, o, a, ip.to_array(st, ix), v)
        return
    r = region(ip, st, a, ix)
    if isinstance(v, Sel):
        raise Unsupported('selection assigned to a region')
    if is_scalar(v):
        nan_check(ip, st, a, v)
        val = lambda idx: v
    elif isinstance(v, ObjV) or v is None or isinstance(v, (str, SymStr)):
        val = lambda idx: v
    else:
        w = ip.to_array(st, v)
        if w is None:
            raise Unsupported('assignment of %r' % (v,))
        off = len(r.shape) - w.ndim
        if off < 0:
            # leading extents of one are dropped by numpy
            for s in w.shape[:-off]:
                ip.obl(st, 'value fits the region', eq(s, 1))
            w0, lead = w, -off
            w = ArrRec(w0.shape[lead:], w0.kind,
                       lambda idx: w0.get((0,) * lead + tuple(idx)))
            off = 0
        ones = []
        for k, s in enumerate(w.shape):
            one = isinstance(norm(s), int) and norm(s) == 1
            ones.append(one)
            if not one and not ip.dim_eq(st, s, r.shape[off + k]):
                ip.obl(st, 'value fits the region',
                       eq(s, r.shape[off + k]))

        def val(idx):
            c, k = r.inv(idx)
            return w.get(tuple(0 if z else i
                               for z, i in zip(ones, k[off:])))
    ip.write_arr(st, o, lambda idx: r.inv(idx)[0], val)


def nan_check(ip, st, a, v):
    if a.kind == 'i' and isinstance(v, FN):
        ip.obl(st, 'NaN is not stored in an integer array', b_not(v.nan))


def write_arr(ip, st, ref, cond, val):
    if isinstance(ref, Choice):
        raise NeedFork(ref.cond)
    rec = st.heap[ref.id]
    if isinstance(rec, ViewRec):
        inv = rec.inv

        def c2(idx):
            c, k = inv(idx)
            if norm(c) is False:
                return False
            return b_and(c, cond(k))
        write_arr(ip, st, rec.ref, c2, lambda idx: val(inv(idx)[1]))
        return
    k = rec.kind
    from .interp import conv
    if k == 'i':
        idx = tuple(z3.Int('wi!%d' % i) for i in range(rec.ndim))
        v = val(idx)
        if isinstance(v, FN):
            fi = tuple(ip.fresh('wi', I) for _ in idx)
            s2 = st.copy()
            for i, s in zip(fi, rec.shape):
                s2.assume(b_and(ge(i, 0), lt(i, s)))
            s2.assume(cond(fi))
            v = val(fi)
            ip.obl(s2, 'NaN is not stored in an integer array',
                   b_not(v.nan))
    st.heap[ref.id] = rec.write(cond, lambda idx: conv(k, val(idx)))


def scatter(ip, st, o, a, p, v):
    """a[p] = v with an index array p: p[k] gets v[k], the last one wins"""
    if p.ndim != 1 or a.ndim != 1:
        raise Unsupported('scatter')
    nonneg = check_gather(ip, st, p, a.shape[0])
    if not nonneg:
        raise Unsupported('scatter with negative indices')
    n = p.shape[0]
    if is_scalar(v):
        nan_check(ip, st, a, v)
        get = lambda k: v
    else:
        w = ip.to_array(st, v)
        if w is None or w.ndim != 1:
            raise Unsupported('scatter value')
        if isinstance(norm(w.shape[0]), int) and norm(w.shape[0]) == 1:
            get = lambda k: w.get((0,))
        else:
            if not ip.dim_eq(st, w.shape[0], n):
                ip.obl(st, 'one value per index', eq(w.shape[0], n))
            get = lambda k: w.get((k,))
    k = z3.Int('sc!%d' % Ref().id)
    ix = z3.Int('sx!%d' % Ref().id)
    s2 = st.copy()
    s2.assume(b_and(ge(k, 0), lt(k, n)))
    s2.assume(b_and(ge(ix, 0), lt(ix, a.shape[0])))
    from .loops import Writer
    w = Writer(ip, s2, k, n, (ix,), eq(p.get((k,)), ix), get(k))
    if not w.solve():
        raise Unsupported('scatter: no inverse of the index array')
    ip.write_arr(st, o, w.cond_fn(n), w.val_fn(n))


# ------------------------------------------------------------- index sets
def index_set(ip, st, n, P, name='ix'):
    """{i in [0, n): P(i)} in increasing order, as (count, sel, rank);
    n is None: a finite set of integers without known bounds"""
    if n is None:
        return value_set(ip, st, P, name)
    i = z3.Int('fi!%d' % Ref().id)
    cnt = ip.fresh(name + '_n', I)
    sel = ip.fresh_fun(name + '_sel', I, I)
    rank = ip.fresh_fun(name + '_rank', I, I)
    k, j = z3.Ints('sk!%d sj!%d' % (Ref().id, Ref().id))
    sn = sel.decl.name()
    cn = cnt.decl().name()

    def facts(f, vars=(), pats=None):
        ip.fact(st, f, vars, pats, trig={sn})
    ip.fact(st, b_and(cnt >= 0, le(cnt, n)), trig={cn})
    inr = z3.And(k >= 0, k < cnt)
    facts(z3.Implies(inr, zb(b_and(sel(k) >= 0, lt(sel(k), n), P(sel(k)),
                                   rank(sel(k)) == k))), [k], [sel(k)])
    facts(z3.Implies(zb(b_and(i >= 0, lt(i, n), P(i))),
                     z3.And(rank(i) >= 0, rank(i) < cnt,
                            sel(rank(i)) == i)), [i], [rank(i)])
    facts(z3.Implies(z3.And(k >= 0, k < j, j < cnt), sel(k) < sel(j)),
          [k, j], [sel(k), sel(j)])
    # strictly increasing in [0, n)
    facts(z3.Implies(inr, zb(b_and(sel(k) >= k, le(
        sel(k), add(sub(n, cnt), k))))), [k], [sel(k)])
    w = ip.fresh(name + '_gap', I)
    ip.fact(st, b_or(eq(cnt, n), b_and(ge(w, 0), lt(w, n), b_not(P(w)))),
            trig={cn})
    # instances for the witness terms a contract names
    for t in ip.set_hints:
        P_t = b_and(ge(t, 0), lt(t, n), P(t))
        ip.fact(st, b_implies(P_t, b_and(
            ge(rank(zi(t)), 0), lt(rank(zi(t)), cnt),
            eq(sel(rank(zi(t))), t))), trig={cn})
        ip.fact(st, b_implies(b_and(eq(cnt, n), ge(t, 0), lt(t, n)), P(t)),
                trig={cn})
    return cnt, sel, rank


def value_set(ip, st, P, name):
    cnt = ip.fresh(name + '_n', I)
    sel = ip.fresh_fun(name + '_sel', I, I)
    rank = ip.fresh_fun(name + '_rank', I, I)
    i = z3.Int('fi!%d' % Ref().id)
    k, j = z3.Ints('sk!%d sj!%d' % (Ref().id, Ref().id))
    sn = sel.decl.name()
    ip.fact(st, cnt >= 0, trig={cnt.decl().name()})
    inr = z3.And(k >= 0, k < cnt)
    ip.fact(st, z3.Implies(inr, zb(b_and(P(sel(k)), rank(sel(k)) == k))),
            [k], [sel(k)], trig={sn})
    ip.fact(st, z3.Implies(zb(P(i)), z3.And(
        rank(i) >= 0, rank(i) < cnt, sel(rank(i)) == i)), [i], [rank(i)],
        trig={sn})
    ip.fact(st, z3.Implies(z3.And(k >= 0, k < j, j < cnt), sel(k) < sel(j)),
            [k, j], [sel(k), sel(j)], trig={sn})
    return cnt, sel, rank


def nonzero1(ip, st, w):
    key = tuple(v.decl().name() for v in ip.loopvars)
    if key in w.sets:
        return w.sets[key]
    m = w.mask
    if m.ndim != 1:
        raise Unsupported('nonzero of a matrix')
    n = m.shape[0]
    P = lambda i: ip.truth(st, m.get((i,)))
    cnt, sel, rank = index_set(ip, st, n, P)
    a = ArrRec((cnt,), 'i', lambda idx: sel(zi(idx[0])),
               info=SetInfo(P, 0, n, cnt, sel, rank))
    w.sets[key] = a
    return a


def filter_seq(ip, st, n, tau, cond, v, same=None):
    P = lambda i: subst_value(cond, [(tau, i)])
    cnt, sel, rank = (same.n, same.sel, same.rank) if same else \
        index_set(ip, st, n, P)
    return SymSeg(cnt, lambda k: subst_value(v, [(tau, sel(zi(k)))]),
                  info=SetInfo(P, 0, n, cnt, sel, rank))
