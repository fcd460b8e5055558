"""C08: every window function gives weight 1/N to the N cells of its upwind
sector and 0 elsewhere; blur_image applies it with 1.0 beyond the edge."""
from engine.vc import *
from contracts.lemmas import *

REG = Registry('C08')
F = 'shielding/shield_mult.py:'
DIRS = ['n', 's', 'e', 'w', 'ne', 'nw', 'se', 'sw']
UP = {'n': (-1, 0), 's': (1, 0), 'w': (0, -1), 'e': (0, 1),
      'nw': (-1, -1), 'ne': (-1, 1), 'sw': (1, -1), 'se': (1, 1)}


def sector(d, size, dr, dc):
    """offset (dr, dc) belongs to the upwind sector of direction d"""
    ur, uc = UP[d]
    if ur and uc:
        a, b = mul(ur, dr), mul(uc, dc)
        return b_and(ge(a, 1), ge(b, 1), le(add(a, b), add(size, 1)))
    along = mul(ur, dr) if ur else mul(uc, dc)
    across = dc if ur else dr
    return b_and(ge(along, 1), le(along, size),
                 b_or(eq(across, 0), b_and(
                     ge(along, 2), ge(across, -1), le(across, 1))))


def ind(d, size):
    """kernel cell (a, b) weighs the input at offset (size-a, size-b)"""
    return lambda a, b: ite(sector(d, size, sub(size, a), sub(size, b)),
                            Fraction(1), Fraction(0))


def count(size, n, d='n'):
    return sum2(n, n, ind(d, size))


def base(d):
    return 'n' if len(d) == 1 else 'sw'


def flips(d):
    """how the kernel of d follows from that of its base direction"""
    return {'n': (0, 0, 0), 's': (1, 1, 0), 'w': (0, 0, 1), 'e': (1, 1, 1),
            'sw': (0, 0, 0), 'nw': (1, 0, 0), 'se': (0, 1, 0),
            'ne': (1, 1, 0)}[d]


def base_task(name, d, near):
    @REG.task(name, [F + name])
    def task(v):
        f = v.fn('shielding.shield_mult', name)
        size = v.int('size', 1)
        n = add(mul(2, size), 1)
        N = sum2(n, n, ind(d, size))
        member(v, v.st, Total(n, n, ind(d, size), N), *near(size))
        st, res = v.call1(f, size)
        s = st
        v.ensure(s, 'the sector has a cell', ge(N, 1))
        v.ensure_cells(s, 'equal weights on the upwind sector only', res,
                       (n, n), lambda a, b: truediv(ind(d, size)(a, b), N))


base_task('init_kern', 'n', lambda s: (add(s, 1), s))
base_task('init_kern_diag', 'sw', lambda s: (sub(s, 1), add(s, 1)))


def base_contract(N, d):
    """what base_task proves, for callers"""
    def c(ip, st, size):
        ip.obl(st, 'the window size is at least one', ge(size, 1))
        n = add(mul(2, size), 1)
        return st.new(ArrRec((n, n), 'f', lambda ix: truediv(
            ind(d, size)(*ix), N)))
    return Contract(c)


@REG.task('window', [F + 'kern_' + d for d in DIRS], params=DIRS)
def window(v, d):
    f = v.fn('shielding.shield_mult', 'kern_' + d)
    size, N = v.int('size', 1), v.real('N', 1)
    n = add(mul(2, size), 1)
    M = v.real('N_other', 1)
    v.ip.contracts[F + 'init_kern'] = base_contract(
        N if base(d) == 'n' else M, 'n')
    v.ip.contracts[F + 'init_kern_diag'] = base_contract(
        N if base(d) == 'sw' else M, 'sw')
    st, res = v.call1(f, size)
    v.ensure_cells(st, 'equal weights on the upwind sector only', res,
                   (n, n), lambda a, b: truediv(ind(d, size)(a, b), N))
    # the weights sum to one: N is the number of cells of the base sector
    s, (fr, fc, tr) = st.copy(), flips(d)
    T = Total(n, n, ind(base(d), size), N)
    if tr:
        T = flip(v, s, T, False, False, True)
    T = flip(v, s, T, fr, fc)
    T = scale(v, s, T, truediv(Fraction(1), N))
    T = ext(v, s, T, lambda a, b: v.cell(st, res, a, b))
    v.ensure(s, 'the weights sum to one', eq(T.value, 1))
    ur, uc = UP[d]
    if ur and uc:
        far = [(ur, mul(uc, size)), (mul(ur, size), uc)]
    else:
        far = [(mul(ur, size), mul(uc, size))]
    for r, c in far:
        v.ensure(st, 'the sector reaches the window size', gt(v.cell(
            st, res, sub(size, r), sub(size, c)), 0))


@REG.task('blur_image', [F + 'blur_image'])
def blur(v):
    f = v.fn('shielding.shield_mult', 'blur_image')
    rows, cols = v.int('rows', 0), v.int('cols', 0)
    size = v.int('size', 1)
    n = add(mul(2, size), 1)
    im, gi = v.arr('im', (rows, cols))
    k, gk = v.arr('kernel', (n, n))
    st, res = v.call1(f, im, k)

    def ext(r, c):
        return ite(b_and(ge(r, 0), lt(r, rows), ge(c, 0), lt(c, cols)),
                   gi(r, c), Fraction(1))

    def avg(i, j):
        return sum2(n, n, lambda a, b: mul(gk(a, b), ext(
            add(i, sub(size, a)), add(j, sub(size, b)))))
    v.ensure_cells(st, 'weighted sum over the window, 1.0 beyond the edge',
                   res, (rows, cols), avg)
    v.ensure_cells(st, 'the image is unchanged', im, (rows, cols), gi)
    v.ensure_cells(st, 'the window is unchanged', k, (n, n), gk)


@REG.task('range', [F + 'blur_image'])
def rng(v):
    """lemma: non-negative weights summing to one keep factors in [0, 1]"""
    rows, cols, size = v.int('rows', 1), v.int('cols', 1), v.int('size', 1)
    n = add(mul(2, size), 1)
    f = v.fn('shielding.shield_mult', 'blur_image')
    im, gi = v.arr('im', (rows, cols))
    k, gk = v.arr('kernel', (n, n))
    a, b = z3.Ints('qa qb')
    v.fact(z3.ForAll([a, b], z3.And(gi(a, b) >= 0, gi(a, b) <= 1),
                     patterns=[gi(a, b)]), {'im'})
    v.fact(z3.ForAll([a, b], gk(a, b) >= 0, patterns=[gk(a, b)]),
           {'kernel'})
    st, res = v.call1(f, im, k)
    i, j = z3.Ints('i j')
    s = st.copy()
    s.assume(b_and(ge(i, 0), lt(i, rows), ge(j, 0), lt(j, cols)))

    def term(a, b):
        r, c = add(i, sub(size, a)), add(j, sub(size, b))
        return mul(gk(a, b), ite(b_and(ge(r, 0), lt(r, rows), ge(c, 0), lt(
            c, cols)), gi(r, c), Fraction(1)))
    one = Total(n, n, gk, Fraction(1))
    avg = Total(n, n, term, sum2(n, n, term))
    mono(v, s, avg, one)
    mono(v, s, zero(n, n), avg)
    v.ensure(s, 'the average is in [0, 1]', b_and(
        ge(v.cell(s, res, i, j), 0), le(v.cell(s, res, i, j), 1)))
