"""Heap records and non-scalar values."""
from .terms import *


class Ref(object):
    __slots__ = ('id',)
    counter = [0]

    def __init__(self):
        Ref.counter[0] += 1
        self.id = Ref.counter[0]

    def __repr__(self):
        return '<ref %d>' % self.id


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Unbound(object):
    def __repr__(self):
        return 'UNBOUND'


UNBOUND = Unbound()


class Choice(object):
    """a if cond else b, for values that have no ite"""
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class ArrRec(object):
    """n-dimensional array: base content plus an ordered list of writes"""
    __slots__ = ('shape', 'kind', 'base', 'layers', 'info', 'memo')

    def __init__(self, shape, kind, base, layers=(), info=None):
        self.shape = tuple(shape)
        self.kind = kind            # f float, i int, b bool, o object
        self.base = base
        self.layers = tuple(layers)
        self.info = info
        self.memo = {}

    def get(self, idx):
        idx = tuple(norm(i) for i in idx)
        key = tuple(i.get_id() if is_z3(i) else ('c', i) for i in idx)
        if key in self.memo:
            return self.memo[key][1]
        v = self.base(idx)
        for c, f in self.layers:
            cc = norm(c(idx))
            if cc is False:
                continue
            v = merge_scalar(cc, f(idx), v)
        self.memo[key] = (idx, v)
        return v

    @property
    def ndim(self):
        return len(self.shape)

    def write(self, cond, val):
        return ArrRec(self.shape, self.kind, self.base,
                      self.layers + ((cond, val),))


class ViewRec(object):
    __slots__ = ('ref', 'shape', 'fwd', 'inv', 'info')

    def __init__(self, ref, shape, fwd, inv):
        self.ref = ref
        self.shape = tuple(shape)
        self.fwd = fwd        # view index -> base index
        self.inv = inv        # base index -> (inside, view index)
        self.info = None


class MaskInfo(object):
    """info of a numpy.ma array: get(index) is true where it is masked;
    known: the array holds the values under the mask"""
    def __init__(self, get, known=False):
        self.get, self.known = get, known


class Sel(object):
    """values of an array at the cells selected by a mask"""
    __slots__ = ('mask', 'shape', 'kind', 'get')

    def __init__(self, mask, shape, kind, get):
        self.mask, self.shape, self.kind, self.get = mask, shape, kind, get


class WhereV(object):
    """the tuple returned by np.where(mask) / mask.nonzero()"""
    __slots__ = ('mask', 'sets')

    def __init__(self, mask):
        self.mask = mask
        self.sets = {}


class SetInfo(object):
    """strictly increasing index array {i in [lo, hi) : P(i)}"""
    def __init__(self, P, lo, hi, n, sel, rank):
        self.P, self.lo, self.hi = P, lo, hi
        self.n, self.sel, self.rank = n, sel, rank


class RangeV(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def length(self):
        if self.step == 1:
            return smax(sub(self.hi, self.lo), 0)
        if self.step > 0:
            return smax(floor_div_const(
                add(sub(self.hi, self.lo), self.step - 1), self.step), 0)
        return smax(floor_div_const(
            add(sub(self.lo, self.hi), -self.step - 1), -self.step), 0)

    def elem(self, k):
        return add(self.lo, mul(k, self.step))


def floor_div_const(a, k):
    a = norm(a)
    if isinstance(a, int):
        return a // k
    return norm(zi(a) / k)


class SymIter(object):
    """symbolic iterable: n elements, elem(k)"""
    def __init__(self, n, elem):
        self.n, self.elem_ = n, elem

    def length(self):
        return self.n

    def elem(self, k):
        return self.elem_(k)


class Items(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def length(self):
        return len(self.items)


class SymSeg(object):
    __slots__ = ('n', 'get', 'info')

    def __init__(self, n, get, info=None):
        self.n, self.get, self.info = n, get, info

    def length(self):
        return self.n


class CondSeg(object):
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, tuple(a), tuple(b)

    def length(self):
        return ite(self.cond, segs_len(self.a), segs_len(self.b))


class LoopSeg(object):
    """for tau in 0..n-1: body(tau) (a tuple of segments)"""
    __slots__ = ('n', 'tau', 'body')

    def __init__(self, n, tau, body):
        self.n, self.tau, self.body = n, tau, body

    def length(self):
        k = segs_len(self.body)
        if isinstance(norm(k), int):
            return mul(self.n, k)
        raise Unsupported('length of a loop with varying appends')


class TokenSeg(object):
    """unknown prefix of a list at the start of a loop iteration"""
    __slots__ = ('name', 'n', 'get')

    def __init__(self, name, n, get):
        self.name, self.n, self.get = name, n, get

    def length(self):
        return self.n


def segs_len(segs):
    n = 0
    for s in segs:
        n = add(n, s.length())
    return n


class SeqRec(object):
    __slots__ = ('segs', 'kind')

    def __init__(self, segs, kind='list'):
        out = []
        for s in segs:
            if isinstance(s, Items):
                if not s.items:
                    continue
                if out and isinstance(out[-1], Items):
                    out[-1] = Items(out[-1].items + s.items)
                    continue
            out.append(s)
        self.segs = tuple(out)
        self.kind = kind

    def concrete(self):
        if not self.segs:
            return ()
        if len(self.segs) == 1 and isinstance(self.segs[0], Items):
            return self.segs[0].items
        return None

    def length(self):
        return segs_len(self.segs)

    def append(self, v):
        return SeqRec(self.segs + (Items((v,)),), self.kind)

    def extend(self, segs):
        return SeqRec(self.segs + tuple(segs), self.kind)

    def get(self, k):
        return segs_get(self.segs, k)


def segs_get(segs, k):
    """element k of the concatenation (k inside is the caller's concern)"""
    k = norm(k)
    if not segs:
        raise Unsupported('element of an empty sequence')
    s = segs[0]
    rest = segs[1:]
    n = norm(s.length())
    if isinstance(k, int) and isinstance(n, int):
        if k < n or not rest:
            return seg_get(s, k)
        return segs_get(rest, k - n)
    here = lambda: seg_get(s, k)
    if not rest:
        return here()
    c = lt(k, n)
    if c is True:
        return here()
    if c is False:
        return segs_get(rest, sub(k, n))
    return merge_value(c, here(), segs_get(rest, sub(k, n)))


def seg_get(s, k):
    k = norm(k)
    if isinstance(s, Items):
        if isinstance(k, int):
            if -len(s.items) <= k < len(s.items):
                return s.items[k]
            raise Unsupported('index outside concrete list')
        v = s.items[-1]
        for i in range(len(s.items) - 2, -1, -1):
            v = merge_value(eq(k, i), s.items[i], v)
        return v
    if isinstance(s, (SymSeg, TokenSeg)):
        return s.get(k)
    if isinstance(s, CondSeg):
        if not s.a:
            return segs_get(s.b, k)
        if not s.b:
            return segs_get(s.a, k)
        return merge_value(s.cond, segs_get(s.a, k), segs_get(s.b, k))
    if isinstance(s, LoopSeg):
        w = norm(segs_len(s.body))
        if not isinstance(w, int) or w == 0:
            raise Unsupported('element of a loop with varying appends')
        if w == 1:
            return subst_value(segs_get(s.body, 0), [(s.tau, k)])
        q = floor_div_const(k, w)
        r = sub(k, mul(q, w))
        v = None
        for i in range(w):
            e = subst_value(segs_get(s.body, i), [(s.tau, q)])
            v = e if v is None else merge_value(eq(r, i), e, v)
        return v
    raise Unsupported('segment %r' % (s,))


class DictRec(object):
    __slots__ = ('d', 'default', 'sym')

    def __init__(self, d, default=None, sym=()):
        self.d = dict(d)          # concrete key -> value
        self.default = default    # default factory value
        self.sym = tuple(sym)     # (symbolic key, value, loop info) writes


class SetRec(object):
    __slots__ = ('items', 'sym')

    def __init__(self, items=(), sym=None):
        self.items = tuple(items)
        self.sym = sym            # (n, elem) of a symbolic iterable


class TokSet(SetRec):
    """a set at the start of a loop iteration and the items added since"""
    __slots__ = ('tok', 'added')

    def __init__(self, tok, added=()):
        SetRec.__init__(self, (), (tok, None))
        self.tok, self.added = tok, tuple(added)


class InstRec(object):
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = dict(attrs or {})


# ------------------------------------------------------------ callable kinds
class FuncVal(object):
    def __init__(self, module, node, frame, qual, defaults=None,
                 kwdefaults=None, cls=None):
        self.module, self.node, self.frame = module, node, frame
        self.qual = qual
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.cls = cls


class Bound(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Native(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'Native(%s)' % self.name


class ClassVal(object):
    def __init__(self, name, module, bases, attrs):
        self.name, self.module, self.bases = name, module, bases
        self.attrs = attrs


class NativeClass(object):
    """a library class: attribute access goes to `attr`"""
    def __init__(self, name, init=None, attr=None, setattr_=None, extra=None):
        self.name, self.init, self.attr = name, init, attr
        self.setattr_ = setattr_
        self.extra = extra or {}


class ModuleVal(object):
    def __init__(self, name, frame=None, attrs=None, path=None):
        self.name, self.frame, self.attrs, self.path = \
            name, frame, attrs or {}, path


class NObj(object):
    """stateless library object: attr(name) -> value or None;
    again(pairs): the object with terms replaced, for members of a sequence"""
    def __init__(self, name, attr, again=None):
        self.name, self.attr, self.again = name, attr, again


class UnknownLib(object):
    def __init__(self, name):
        self.name = name


class ExcVal(object):
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return 'Exc(%s)' % self.cls


class ExcClass(object):
    tree = {'Exception': None, 'RuntimeError': 'Exception',
            'ValueError': 'Exception', 'KeyError': 'LookupError',
            'IndexError': 'LookupError', 'LookupError': 'Exception',
            'OSError': 'Exception', 'IOError': 'OSError',
            'FileNotFoundError': 'OSError', 'PermissionError': 'OSError',
            'FileExistsError': 'OSError', 'NotADirectoryError': 'OSError',
            'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError',
            'TypeError': 'Exception', 'AttributeError': 'Exception',
            'NameError': 'Exception', 'AssertionError': 'Exception',
            'ZeroDivisionError': 'ArithmeticError',
            'ArithmeticError': 'Exception', 'SystemExit': 'BaseException',
            'BaseException': None, 'StopIteration': 'Exception',
            'NotImplementedError': 'RuntimeError',
            'KeyboardInterrupt': 'BaseException',
            'UnboundLocalError': 'NameError'}

    def __init__(self, name):
        self.name = name

    def covers(self, other):
        if self.name in ('BaseException',):
            return True
        a = other
        canon = {'IOError': 'OSError'}
        me = canon.get(self.name, self.name)
        while a is not None:
            if canon.get(a, a) == me:
                return True
            a = ExcClass.tree.get(a)
        return False


class SuperV(object):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class DType(object):
    def __init__(self, kind, name):
        self.kind, self.name = kind, name


# --------------------------------------------------------------- strings
class Atom(object):
    """symbolic string piece; `free` = characters it surely does not contain"""
    def __init__(self, name, free='', term=None, nonempty=True):
        self.name, self.free, self.term = name, free, term
        self.nonempty = nonempty

    def __repr__(self):
        return '{%s}' % self.name


class SymStr(object):
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                ps = p.parts
            else:
                ps = (p,)
            for q in ps:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)

    def simple(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return self

    def __repr__(self):
        return 'S' + ''.join(str(p) for p in self.parts)


def sstr(*parts):
    return SymStr(parts).simple()


def str_parts(s):
    if isinstance(s, str):
        return (s,) if s else ()
    if isinstance(s, SymStr):
        return s.parts
    raise Unsupported('not a string: %r' % (s,))


def atom_eq(a, b):
    if isinstance(a, Atom) and isinstance(b, Atom):
        if a is b or (a.name == b.name and a.term is None
                      and b.term is None):
            return True
        if a.name == b.name and a.term is not None and b.term is not None:
            r = scalar_tuple_eq(a.term, b.term)
            if '[' in a.name and norm(r) is not True:
                return None        # a cut text does not tell the value
            return r
    return None


def scalar_tuple_eq(a, b):
    if not isinstance(a, tuple):
        a, b = (a,), (b,)
    return b_and(*[same(x, y) for x, y in zip(a, b)])


def str_eq(a, b):
    """equality of two strings: bool, z3 Bool or None when not decidable"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    pa, pb = list(str_parts(a)), list(str_parts(b))
    cond = True
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa[0], pb[0] = x[n:], y[n:]
            if not pa[0]:
                pa.pop(0)
            if not pb[0]:
                pb.pop(0)
            continue
        r = atom_eq(x, y)
        if r is None:
            break
        cond = b_and(cond, r)
        pa.pop(0)
        pb.pop(0)
    if not pa and not pb:
        return cond
    if not pa or not pb:
        rest = pa or pb
        if any(isinstance(p, str) or p.nonempty for p in rest):
            return False
        return None
    # suffixes
    while pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
        x, y = pa[-1], pb[-1]
        n = min(len(x), len(y))
        if x[-n:] != y[-n:]:
            return False
        pa[-1], pb[-1] = x[:-n], y[:-n]
        if not pa[-1]:
            pa.pop()
        if not pb[-1]:
            pb.pop()
    # an atom that cannot contain a character against a literal that does
    if len(pa) == 1 and len(pb) == 1:
        x, y = pa[0], pb[0]
        if isinstance(x, Atom) and isinstance(y, str):
            x, y = y, x
        if isinstance(x, str) and isinstance(y, Atom):
            if any(ch in y.free for ch in x):
                return False
    return None


class ObjV(object):
    """symbolic object compared by identity of its code (None or a string)"""
    __slots__ = ('term',)

    def __init__(self, term):
        self.term = term


_intern = {None: -1}


def code_of(x):
    """integer code of a literal string / None"""
    if x not in _intern:
        _intern[x] = len(_intern) + 1000
    return _intern[x]


# ---------------------------------------------------------------- merging
def merge_scalar(c, a, b):
    if is_scalar(a) and is_scalar(b):
        return ite(c, a, b)
    return merge_value(c, a, b)


def merge_value(c, a, b):
    c = norm(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        return a
    if is_scalar(a) and is_scalar(b):
        return ite(c, a, b)
    if isinstance(a, (str, type(None))) and isinstance(b, (str, type(None))) \
            and a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_value(c, x, y) for x, y in zip(a, b))
    if isinstance(a, ObjV) and isinstance(b, ObjV):
        return ObjV(ite(c, a.term, b.term))
    if isinstance(a, ObjV) and isinstance(b, (str, type(None))):
        return ObjV(ite(c, a.term, code_of(b)))
    if isinstance(b, ObjV) and isinstance(a, (str, type(None))):
        return ObjV(ite(c, code_of(a), b.term))
    if isinstance(a, ArrRec) and isinstance(b, ArrRec):
        r = merge_arr(c, a, b)
        if r is not None:
            return r
    if isinstance(a, SymStr) and isinstance(b, SymStr) and \
            str_eq(a, b) is True:
        return a
    if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func:
        return Bound(a.func, merge_value(c, a.self_, b.self_))
    return Choice(c, a, b)


def merge_arr(c, a, b):
    if a is b:
        return a
    if len(a.shape) != len(b.shape):
        return None
    shape = tuple(x if same_term(x, y) else ite(c, x, y)
                  for x, y in zip(a.shape, b.shape))
    kind = a.kind if a.kind == b.kind else (
        'f' if 'f' in (a.kind, b.kind) else 'o')
    if a.base is b.base and a.kind == b.kind:
        n = 0
        while n < min(len(a.layers), len(b.layers)) and \
                a.layers[n] is b.layers[n]:
            n += 1
        layers = list(a.layers[:n])
        for (cf, vf) in a.layers[n:]:
            layers.append(((lambda idx, cf=cf: b_and(c, cf(idx))), vf))
        for (cf, vf) in b.layers[n:]:
            layers.append(((lambda idx, cf=cf: b_and(b_not(c), cf(idx))), vf))
        if isinstance(a.info, MaskInfo) or isinstance(b.info, MaskInfo):
            return ArrRec(shape, kind, a.base, layers,
                          merge_info(c, a.info, b.info)) \
                if isinstance(a.info, MaskInfo) and isinstance(
                    b.info, MaskInfo) else None
        return ArrRec(shape, kind, a.base, layers)
    if isinstance(a.info, MaskInfo) != isinstance(b.info, MaskInfo):
        return None
    return ArrRec(shape, kind,
                  lambda idx: merge_scalar(c, a.get(idx), b.get(idx)),
                  info=merge_info(c, a.info, b.info))


def merge_info(c, x, y):
    if x is None or y is None:
        return None
    if x is y:
        return x
    if isinstance(x, MaskInfo) and isinstance(y, MaskInfo):
        return MaskInfo(lambda i: ite(c, x.get(i), y.get(i)))
    if isinstance(x, SetInfo) and isinstance(y, SetInfo):
        return SetInfo(lambda i: b_or(b_and(c, x.P(i)),
                                      b_and(b_not(c), y.P(i))),
                       ite(c, x.lo, y.lo), ite(c, x.hi, y.hi),
                       ite(c, x.n, y.n),
                       lambda k: ite(c, x.sel(k), y.sel(k)),
                       lambda i: ite(c, x.rank(i), y.rank(i)))
    return None


def sub_set(x, lo, n):
    """elements number lo .. lo + n - 1 of an index set"""
    return SetInfo(lambda i: b_and(x.P(i), ge(x.rank(zi(i)), lo),
                                   lt(x.rank(zi(i)), add(lo, n))),
                   x.lo, x.hi, n, lambda k: x.sel(zi(add(k, lo))),
                   lambda i: sub(x.rank(zi(i)), lo))


def same_term(x, y):
    x, y = norm(x), norm(y)
    if is_z3(x) and is_z3(y):
        return x.eq(y) or poly_eq(x, y)
    if is_z3(x) or is_z3(y):
        return False
    return x == y


def seg_same(x, y):
    if x is y:
        return True
    return isinstance(x, Items) and isinstance(y, Items) and \
        len(x.items) == len(y.items) and \
        all(p is q for p, q in zip(x.items, y.items))


def merge_seq(c, a, b):
    n = 0
    while n < min(len(a.segs), len(b.segs)) and \
            seg_same(a.segs[n], b.segs[n]):
        n += 1
    ra, rb = list(a.segs[n:]), list(b.segs[n:])
    pre = list(a.segs[:n])
    # common items at the start of the first differing Items segments
    if ra and rb and isinstance(ra[0], Items) and isinstance(rb[0], Items):
        x, y = ra[0].items, rb[0].items
        m = 0
        while m < min(len(x), len(y)) and x[m] is y[m]:
            m += 1
        if m:
            pre.append(Items(x[:m]))
            ra = ([Items(x[m:])] if x[m:] else []) + ra[1:]
            rb = ([Items(y[m:])] if y[m:] else []) + rb[1:]
    if not ra and not rb:
        return SeqRec(pre, a.kind)
    if len(ra) == 1 and len(rb) == 1 and isinstance(ra[0], Items) and \
            isinstance(rb[0], Items) and \
            len(ra[0].items) == len(rb[0].items):
        items = [merge_event(c, p, q)
                 for p, q in zip(ra[0].items, rb[0].items)]
        if all(i is not None for i in items):
            return SeqRec(pre + [Items(items)], a.kind)
    return SeqRec(pre + [CondSeg(c, ra, rb)], a.kind)


class Event(object):
    """an observable effect: name and argument snapshots"""
    __slots__ = ('name', 'args')

    def __init__(self, name, *args):
        self.name, self.args = name, args

    def __repr__(self):
        return 'Event(%s%r)' % (self.name, self.args)


def merge_event(c, p, q):
    if isinstance(p, Event) or isinstance(q, Event):
        if not (isinstance(p, Event) and isinstance(q, Event)
                and p.name == q.name and len(p.args) == len(q.args)):
            return None
        return Event(p.name, *[merge_value(c, x, y)
                               for x, y in zip(p.args, q.args)])
    return merge_value(c, p, q)


def merge_rec(c, a, b):
    if a is b:
        return a
    if type(a) is not type(b):
        return None
    if isinstance(a, ArrRec):
        return merge_arr(c, a, b)
    if isinstance(a, SeqRec):
        return merge_seq(c, a, b)
    if isinstance(a, InstRec):
        if a.cls is not b.cls:
            return None
        attrs = {}
        for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
            attrs[k] = merge_value(c, a.attrs.get(k, UNBOUND),
                                   b.attrs.get(k, UNBOUND))
        return InstRec(a.cls, attrs)
    if isinstance(a, DictRec):
        if a.sym != b.sym or a.default is not b.default:
            return None
        d = {}
        for k in list(a.d) + [k for k in b.d if k not in a.d]:
            d[k] = merge_value(c, a.d.get(k, UNBOUND), b.d.get(k, UNBOUND))
        return DictRec(d, a.default, a.sym)
    if isinstance(a, TokSet) or isinstance(b, TokSet):
        return a if a is b else None
    if isinstance(a, SetRec):
        if a.items == b.items and a.sym == b.sym:
            return a
        return None
    return None


# ----------------------------------------------------------- substitution
def subst_value(v, pairs):
    if is_scalar(v):
        return subst(v, pairs)
    if isinstance(v, tuple):
        return tuple(subst_value(x, pairs) for x in v)
    if isinstance(v, ArrRec):
        return ArrRec([subst(s, pairs) for s in v.shape], v.kind,
                      lambda idx: subst_idx(v.get, idx, pairs))
    if isinstance(v, Event):
        return Event(v.name, *[subst_value(x, pairs) for x in v.args])
    if isinstance(v, Choice):
        return merge_value(subst(v.cond, pairs), subst_value(v.a, pairs),
                           subst_value(v.b, pairs))
    if isinstance(v, ObjV):
        return ObjV(subst(v.term, pairs))
    if isinstance(v, SymStr):
        return SymStr([Atom(p.name, p.free, subst_value(p.term, pairs),
                            p.nonempty)
                       if isinstance(p, Atom) and p.term is not None else p
                       for p in v.parts]).simple()
    if isinstance(v, Sel):
        return Sel(subst_value(v.mask, pairs), v.shape, v.kind,
                   lambda idx: subst_idx(v.get, idx, pairs))
    if isinstance(v, Opaque):
        return Opaque(v.name, *[subst_value(a, pairs) if is_scalar(a) or
                                isinstance(a, (tuple, Opaque)) else a
                                for a in v.args])
    if isinstance(v, RangeV):
        return RangeV(subst(v.lo, pairs), subst(v.hi, pairs), v.step)
    if isinstance(v, SeqRec):
        return subst_rec(v, pairs)
    if isinstance(v, NObj) and v.again is not None:
        return v.again(pairs)
    return v


_ph = [0]


def subst_idx(get, idx, pairs):
    """evaluate get at idx under a substitution that must not touch idx"""
    names = set()
    for a, b in pairs:
        names.add(a.decl().name())
    if any(names & names_of(i) for i in idx):
        # protect the index terms with placeholders
        ph = []
        for i in idx:
            _ph[0] += 1
            ph.append(z3.Int('ph!%d' % _ph[0]))
        v = subst_value(get(tuple(ph)), pairs)
        return subst_value(v, [(p, zi(i)) for p, i in zip(ph, idx)])
    return subst_value(get(idx), pairs)


def subst_seg(s, pairs):
    if isinstance(s, Items):
        return Items([subst_value(x, pairs) for x in s.items])
    if isinstance(s, SymSeg):
        return SymSeg(subst(s.n, pairs),
                      lambda k: subst_idx(lambda ix: s.get(ix[0]), (k,),
                                          pairs))
    if isinstance(s, CondSeg):
        return CondSeg(subst(s.cond, pairs),
                       [subst_seg(x, pairs) for x in s.a],
                       [subst_seg(x, pairs) for x in s.b])
    if isinstance(s, LoopSeg):
        return LoopSeg(subst(s.n, pairs), s.tau,
                       tuple(subst_seg(x, pairs) for x in s.body))
    return s


def subst_rec(r, pairs):
    if isinstance(r, ArrRec):
        return subst_value(r, pairs)
    if isinstance(r, SeqRec):
        return SeqRec([subst_seg(s, pairs) for s in r.segs], r.kind)
    if isinstance(r, InstRec):
        return InstRec(r.cls, {k: subst_value(v, pairs)
                               for k, v in r.attrs.items()})
    if isinstance(r, DictRec):
        return DictRec({k: subst_value(v, pairs) for k, v in r.d.items()},
                       r.default, r.sym)
    return r


def mentions(v, names):
    """does the value (conservatively) mention one of the symbols?"""
    if is_scalar(v):
        return bool(names_of(v) & names)
    if isinstance(v, tuple):
        return any(mentions(x, names) for x in v)
    if isinstance(v, ArrRec):
        idx = tuple(z3.Int('mi!%d' % i) for i in range(len(v.shape)))
        return any(mentions(s, names) for s in v.shape) or \
            mentions(v.get(idx), names)
    if isinstance(v, Choice):
        return mentions(v.cond, names) or mentions(v.a, names) or \
            mentions(v.b, names)
    if isinstance(v, ObjV):
        return mentions(v.term, names)
    if isinstance(v, SymStr):
        return any(isinstance(p, Atom) and p.term is not None and
                   mentions(p.term, names) for p in v.parts)
    if isinstance(v, Event):
        return any(mentions(a, names) for a in v.args)
    if isinstance(v, Opaque):
        return any(mentions(a, names) for a in v.args)
    if isinstance(v, RangeV):
        return mentions(v.lo, names) or mentions(v.hi, names)
    if isinstance(v, SeqRec):
        return any(seg_mentions(s, names) for s in v.segs)
    return False


def seg_mentions(s, names):
    if isinstance(s, Items):
        return any(mentions(x, names) for x in s.items)
    if isinstance(s, (SymSeg, TokenSeg)):
        return mentions(s.n, names) or mentions(s.get(z3.Int('mi!s')), names)
    if isinstance(s, CondSeg):
        return mentions(s.cond, names) or any(
            seg_mentions(x, names) for x in s.a + s.b)
    return mentions(s.n, names) or any(seg_mentions(x, names)
                                       for x in s.body)
