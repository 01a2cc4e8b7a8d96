"""C03: chain rule on random expression graphs: wide, deep, with shared parts, ladders of diamonds and aliased inputs."""
import numpy as np

from engine import Node, Session, compare, dense
from refops import A, OPS

CASES = {'quick': 2200, 'thorough': 40000}
RULE = ('a distinct observation is (operation on top, shapes, parameters, target operation, target shape, kind of graph) '
        'of a derivative compared with the reference chain rule')
REQUIRED = ('jacobian wrt variable', 'jacobian wrt intermediate', 'jacobian wrt itself', 'unrelated variable',
            'graph:random', 'graph:chain', 'graph:ladder', 'graph:fan', 'graph:scales', 'graph:deep', 'graph:big', 'graph:ranges', 'class churn')

CHAIN = ('sin', 'cos', 'arctan', 'square', 'negative', 'getitem', 'reshape', 'transpose', 'ravel', 'cumsum', 'sum', 'mean',
         'tile', 'repeat', 'roll', 'sort', 'UDense', 'UScalar', 'expand_dims', 'flipud', 'amax', 'multiply', 'add')
PAIR = ('add', 'subtract', 'multiply', 'maximum', 'minimum', 'USparse', 'concatenate', 'hstack', 'vstack', 'dot', 'divide')


def known(names):
    return [k for k in names if k in OPS]


def chain(s, rng):
    """One long path."""
    n = s.leaf()
    names = known(CHAIN)
    for _ in range(rng.randint(6, 22)):
        m = s.grow(names[rng.randint(len(names))], first=n)
        if m is not None and s.good(m):
            n = m
    return 'chain'


def ladder(s, rng):
    """Every rung uses the previous one twice, so paths multiply."""
    n = s.leaf(s.rand_shape())
    un = known(('sin', 'cos', 'arctan', 'UDense', 'UScalar', 'negative', 'square'))
    for _ in range(rng.randint(2, 7)):
        a = s.grow(un[rng.randint(len(un))], first=n) if rng.rand() < .7 else n
        if a is None or not s.good(a):
            a = n
        q = ('add', 'multiply', 'subtract', 'maximum')[rng.randint(4)]
        m = s.grow(q, first=a) if rng.rand() < .5 else s.grow(q, first=n)
        if m is not None and s.good(m):
            n = m
    return 'ladder'


def fan(s, rng):
    """Many users of few variables, joined again."""
    for _ in range(rng.randint(1, 3)):
        s.leaf()
    names = known(CHAIN)
    mid = []
    for _ in range(rng.randint(2, 6)):
        m = s.grow(names[rng.randint(len(names))], first=s.pick(s.leaves()))
        if m is not None and s.good(m):
            mid.append(m)
    pair = known(PAIR)
    for _ in range(rng.randint(2, 6)):
        if mid:
            m = s.grow(pair[rng.randint(len(pair))], first=mid[rng.randint(len(mid))])
            if m is not None and s.good(m):
                mid.append(m)
    return 'fan'


def scales(s, rng):
    """Tiny or huge factors that cancel further up: no derivative on the way is negligible."""
    n = s.leaf(shape=(int(rng.randint(3, 24)),))
    f = 10. ** (rng.randint(5, 15) * (1 if rng.rand() < .3 else -1))
    s.vmax = s.tmax = 1e18
    s.rel = f > 1                          # a single path of operations that cannot cancel anything

    def times(n, f):
        for name, c in ([('divide', 1. / f)] if rng.rand() < .4 else []) + [('multiply', f)]:
            k = Node('const', x=A(c), ch=float(c))
            m = Node('op', op=OPS[name], ins=[n, k], p={'form': int(rng.randint(3))})
            if s.good(m):
                return s.realise(m)
        return None
    lin = known(('negative', 'UDense', 'UScalar', 'getitem', 'reshape', 'cumsum', 'tile', 'repeat', 'roll', 'flipud', 'add',
                 'concatenate', 'sort')) if f < 1 else known(('negative', 'UScalar', 'getitem', 'reshape', 'cumsum', 'roll'))
    s.consts = False
    n = times(n, f)
    if n is None:
        return 'scales'
    for _ in range(rng.randint(1, 4)):
        m = s.grow(lin[rng.randint(len(lin))], first=n)
        if m is not None and s.good(m):
            n = m
    n = times(n, 1. / f)
    if n is not None and rng.rand() < .5:
        s.grow(('sin', 'sum', 'square')[rng.randint(3)], first=n)
    return 'scales'


def deep(s, rng):
    """Far more operations between variable and result than usual."""
    n = s.leaf(shape=(int(rng.randint(1, 4)),))
    first = n
    names = known(('sin', 'cos', 'arctan', 'negative', 'UScalar', 'roll', 'flipud', 'getitem'))
    for k in range(rng.randint(50, 160)):
        m = None
        if k % 7 == 3:
            m = Node('op', op=OPS['add'], ins=[n, first], p={'form': 2})
            m = s.realise(m) if s.good(m) and s.val(m).shape == s.val(n).shape else None
        if m is None:
            name = names[rng.randint(len(names))]
            m = s.grow(name, first=n)
        if m is not None and s.good(m) and s.val(m).size == s.val(first).size:
            n = m
    return 'deep'


def big(s, rng):
    """Hundreds of elements: derivatives are large and mostly zero."""
    s.sizemax = 1200
    d = int(rng.randint(100, 600))
    for _ in range(rng.randint(1, 3)):
        q = rng.randint(3)
        s.leaf(shape=(d,) if q == 0 else (d // 10, 10) if q == 1 else (3, d // 3))
    names = known(('sin', 'square', 'getitem', 'reshape', 'transpose', 'ravel', 'sum', 'mean', 'amax', 'roll', 'sort', 'tile',
                   'multiply', 'add', 'subtract', 'maximum', 'concatenate', 'divide', 'UScalar', 'cumsum'))
    for _ in range(rng.randint(2, 6)):
        s.grow(names[rng.randint(len(names))])
    return 'big'


def churn(ch, rng, mon):
    """Operation classes come and go; a later class may live where a discarded one lived."""
    import gc

    def make():
        class Twice(ch.Ch):
            dterms = 'inp'
            terms = 'gain'
            term_order = 'inp', 'gain'

            def compute_r(self):
                return self.inp.r * self.gain

            def compute_dr_wrt(self, wrt):
                if wrt is self.inp:
                    return self.gain
        return Twice

    x = ch.Ch(np.round(rng.randn(3), 3))
    e = x * 3.
    try:                                   # compiled loops would keep the discarded classes alive
        import pypyjit
        pypyjit.set_param('off')
    except ImportError:
        pypyjit = None
    try:
        places = set()
        c = None
        for c in [make() for _ in range(150)]:
            c(e, 2.)
            places.add(id(c))
        c = None
        for _ in range(3):
            gc.collect()
        new = [make() for _ in range(800)]
        again = [c for c in new if id(c) in places][:20] + new[:5]
    finally:
        if pypyjit is not None:
            pypyjit.set_param('default')
    for c in again:
        o = c(ch.sin(e), 2.) + 1.
        J = dense(o.dr_wrt(x))
        want = np.diag(6. * np.cos(3. * x.r))
        mon.saw('class churn', id(c) in places)
        if J is None or compare(J, want, 1e-9):
            mon.fail('class churn', 'derivative through an operation class created after others were discarded is %s, '
                     'expected %s' % (J, want))
        x.x = np.round(rng.randn(3), 3)
        if compare(o.r, 2. * np.sin(3. * x.x) + 1., 1e-9):
            mon.fail('class churn', 'stale value through an operation class created after others were discarded')


_gain = []


def ranges(ch, rng, mon):
    """Derivatives whose entries span many orders of magnitude, each reached without any cancellation: every entry
    has to be right relative to itself, and absent ones have to be exactly zero."""
    import scipy.sparse as sp
    if not _gain:
        class Gain(ch.Ch):
            dterms = 'x',
            terms = 'g', 'kind'

            def compute_r(self):
                return self.x.r * self.g.reshape(self.x.shape)

            def compute_dr_wrt(self, wrt):
                if wrt is self.x:
                    d = np.ravel(self.g)
                    if self.kind == 0:
                        return np.diag(d)
                    if self.kind == 1:
                        return sp.diags([d], [0]).tocsc()
                    return sp.coo_matrix((d[::-1], (np.arange(d.size)[::-1], np.arange(d.size)[::-1])))
        _gain.append(Gain)
    n = int(rng.randint(2, 9)) if rng.rand() < .5 else int(rng.randint(9, 60))
    shape = (n,) if n % 2 or rng.rand() < .5 else (2, n // 2)
    x = ch.Ch(np.round(rng.uniform(.5, 1.5, shape), 3))
    start = x.r.copy()

    def spread(k):
        e = rng.uniform(-14, 14, k)
        if rng.rand() < .3:
            e = np.where(rng.rand(k) < .2, rng.uniform(8, 15), rng.uniform(-2, 2))
        return np.where(rng.rand(k) < .3, -1., 1.) * 10. ** e

    def step(c, v, M):
        q = rng.randint(9)
        if q < 3:
            g = spread(v.size)
            kind = int(rng.randint(3))
            return _gain[0](x=c, g=g, kind=kind), v * g.reshape(v.shape), g[:, None] * M, 'gain%d' % kind
        if q == 3:
            g = spread(v.size).reshape(v.shape)
            return (c * g if rng.rand() < .5 else c / (1. / g)), v * g, g.reshape(-1, 1) * M, 'times'
        idx = np.arange(v.size).reshape(v.shape)
        if q == 4:
            k, name = idx[::-1], 'flip'
            c = c[::-1]
        elif q == 5:
            k, name = idx.T, 'T'
            c = c.T
        elif q == 6:
            k, name = np.roll(idx, 2), 'roll'
            c = ch.roll(c, 2)
        elif q == 7:
            k, name = np.concatenate((idx, idx[:1])), 'concatenate'
            c = ch.concatenate((c, c[:1]))
        else:
            k, name = idx.ravel(), 'ravel'
            c = c.ravel()
        return c, v.ravel()[k], M[k.ravel()], name
    c, v, M, names = x, start, np.eye(x.size), []
    inner = []
    for _ in range(rng.randint(1, 6)):
        c, v, M, name = step(c, v, M)
        names.append(name)
        inner.append((c, v, M))
    if len(inner) > 1 and rng.rand() < .3:       # an earlier one is stacked underneath
        c2, v2, M2 = inner[rng.randint(len(inner) - 1)]
        c, v, M = ch.concatenate((c.ravel(), c2.ravel())), np.concatenate((v.ravel(), v2.ravel())), np.vstack((M, M2))
        names.append('and')
    elif rng.rand() < .3:
        c, v, M = ch.sum(c), np.sum(v), np.sum(M, axis=0, keepdims=True)
        names.append('sum')
    how = rng.randint(3)
    mon.saw('graph:ranges', (tuple(names), shape, how))
    mon.note('ranges %s %s' % (names, shape))
    if how == 0:
        c.r
    if names[-1] == 'sum':                       # one column may take several paths of opposite signs
        return judge(mon, dense(c.dr_wrt(x)), M, np.abs(M) * 1e-9 + 1e-12 * np.abs(M).max(), names)
    J = dense(c.dr_wrt(x, reverse_mode=True) if how == 2 else c.dr_wrt(x))
    judge(mon, J, M, np.abs(M) * 1e-9, names)


def judge(mon, J, M, tol, names):
    if J is None or J.shape != M.shape:
        mon.fail('graph:ranges', 'derivative of %s is %s' % (names, None if J is None else J.shape))
    bad = ~(np.abs(J - M) <= tol)
    if bad.any():
        k = tuple(int(q[0]) for q in np.nonzero(bad))
        mon.fail('graph:ranges', 'derivative through %s: entry %s is %r, expected %r (largest entry %r)' % (
            names, k, J[k], M[k], np.abs(M).max()))


def case(ch, rng, mon, tier, i):
    if i % 8 == 3:
        ranges(ch, rng, mon)
    if i % 1100 == 350:
        churn(ch, rng, mon)
    s = Session(ch, rng, mon)
    q = rng.rand()
    if rng.rand() < .03:
        q = 2.
    if q == 2.:
        kind = deep(s, rng) if rng.rand() < .4 else big(s, rng)
    elif q < .08:
        kind = scales(s, rng)
    elif q < .55:
        s.build(rng.randint(2, 9), rng.randint(1, 4))
        kind = 'random'
    elif q < .7:
        kind = chain(s, rng)
    elif q < .85:
        kind = ladder(s, rng)
    else:
        kind = fan(s, rng)
    mon.saw('graph:' + kind)
    tops = s.ops()[::-1][:4]
    if rng.rand() < .5:
        tops = tops[::-1]                  # inner derivatives are asked for first
    for n in tops:
        for t in s.targets(n):
            if t.kind == 'leaf':
                s.check_jac(n, t, 'jacobian wrt variable', kind)
            elif t is n:
                if rng.rand() < .3:
                    s.check_jac(n, t, 'jacobian wrt itself', kind)
            elif rng.rand() < .5:
                s.check_jac(n, t, 'jacobian wrt intermediate', kind)
        for t in s.leaves():
            if t not in s.reach(n) and rng.rand() < .2:
                s.check_jac(n, t, 'unrelated variable', kind, strict_none=True)
