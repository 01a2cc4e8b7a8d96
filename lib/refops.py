"""Reference semantics of chumpy's operations, written against NumPy only.

Every operation has an independent value function `f`, an exact directional derivative `jvp`
(tangent of one input position), a `risk` predicate naming the points where the derivative does not
exist or is ill-conditioned (there the derivative monitors abstain), a generator of parameters, and
the ways in which a chumpy user writes the operation (`build`, selected by `form`).
"""
import numpy as np


def A(v):
    """chumpy's documented normalisation: float64, at least one dimension."""
    return np.atleast_1d(np.asarray(v, dtype=np.float64))


NEAR = [1e-5]         # ties closer than this are left alone (smaller where inputs are exact and tiny)


def near(a, b, eps=None):
    return bool(np.any(np.abs(a - b) < (NEAR[0] if eps is None else eps)))


class Op(object):
    name = None
    nin = 1
    names = ('x',)       # attribute names of the inputs, None when the written form is a composite
    nondiff = ()         # input positions that never carry a derivative
    attrs = {}           # parameter -> attribute that changes it on a live node
    fixed_layout = False  # True: something was derived from the input shape when it was written down
    permute = False      # a pure re-arrangement of its first input (usable as a view)
    forms = 1
    alias_ok = True
    weight = 1.0

    def second(self, rng, sa):
        return None

    def gen(self, rng, shapes):
        return {}

    def regen(self, rng, shapes, p):
        """New parameters for a live node of the same form (for parameter changes)."""
        q = self.gen(rng, shapes)
        return None if q is None else dict(p, **dict((k, q[k]) for k in self.attrs if k in q))

    def valid(self, shapes, p):
        """Are these input shapes supported (after a shape change or rewiring)?"""
        return True

    def f(self, v, p):
        raise NotImplementedError

    def jvp(self, v, p, pos, t, out):
        raise NotImplementedError

    def risk(self, v, p, out, active, same):
        return False

    def build(self, ch, x, p):
        raise NotImplementedError


class Linear(Op):
    def jvp(self, v, p, pos, t, out):
        return A(self.f([t], p))


OPS = {}


def reg(o):
    OPS[o.name] = o
    return o


# ---------------------------------------------------------------------------------- element-wise

class Unary(Op):
    def __init__(self, name, f, d, risk=None, method=None, oper=None):
        self.name, self._f, self._d, self._risk = name, f, d, risk
        self._alts = [a for a in (method, oper) if a]
        self.forms = 2 + len(self._alts)

    def f(self, v, p):
        return A(self._f(v[0]))

    def jvp(self, v, p, pos, t, out):
        return self._d(v[0]) * t

    def risk(self, v, p, out, active, same):
        return self._risk is not None and bool(self._risk(v[0]))

    def build(self, ch, x, p):
        k = p['form']
        if k == 0:
            return getattr(ch, self.name)(x[0])
        if k == 1:
            return getattr(ch, self.name)(x=x[0])
        return self._alts[k - 2](x[0])


for _n, _f, _d, _r, _o in [
        ('sin', np.sin, np.cos, None, None),
        ('cos', np.cos, lambda x: -np.sin(x), None, None),
        ('tan', np.tan, lambda x: 1. / np.cos(x) ** 2, lambda x: np.any(np.abs(np.cos(x)) < .05), None),
        ('arcsin', np.arcsin, lambda x: 1. / np.sqrt(1 - x * x), lambda x: np.any(np.abs(x) > .98), None),
        ('arccos', np.arccos, lambda x: -1. / np.sqrt(1 - x * x), lambda x: np.any(np.abs(x) > .98), None),
        ('arctan', np.arctan, lambda x: 1. / (1 + x * x), None, None),
        ('exp', np.exp, np.exp, None, None),
        ('log', np.log, lambda x: 1. / x, lambda x: np.any(x < .02), None),
        ('sqrt', np.sqrt, lambda x: .5 / np.sqrt(x), lambda x: np.any(x < .02), None),
        ('square', np.square, lambda x: 2 * x, None, None),
        ('reciprocal', lambda x: 1. / x, lambda x: -1. / (x * x), lambda x: np.any(np.abs(x) < .05), None),
        ('negative', np.negative, lambda x: -np.ones_like(x), None, lambda x: -x),
        ('absolute', np.abs, np.sign, lambda x: np.any(np.abs(x) < NEAR[0]), lambda x: abs(x)),
        ('nan_to_num', np.nan_to_num, lambda x: np.isfinite(x) * 1., lambda x: np.any(~np.isfinite(x)), None)]:
    reg(Unary(_n, _f, _d, _r, None, _o))


class NonDiffUnary(Op):
    nondiff = (0,)

    def __init__(self, name, f, method=None):
        self.name, self._f, self._m = name, f, method
        self.forms = 3 if method else 2
        self.weight = .5

    def f(self, v, p):
        return A(self._f(v[0]))

    def build(self, ch, x, p):
        if p['form'] == 2:
            return getattr(x[0], self._m)()
        if p['form'] == 1:
            return getattr(ch, self.name)(x=x[0])
        return getattr(ch, self.name)(x[0])


reg(NonDiffUnary('floor', np.floor, 'floor'))
reg(NonDiffUnary('ceil', np.ceil, 'ceil'))
reg(NonDiffUnary('sign', np.sign))


class Logic(Op):
    nondiff = (0,)
    names = ('a',)

    def __init__(self, name, reduces):
        self.name, self.red = name, reduces
        self.weight = .3

    def gen(self, rng, shapes):
        ax = None
        if self.red and rng.rand() < .6:
            ax = int(rng.randint(-len(shapes[0]), len(shapes[0])))
        return {'axis': ax}

    def f(self, v, p):
        fn = getattr(np, self.name)
        if self.red and p['axis'] is not None:
            return A(fn(v[0], axis=p['axis']))
        return A(fn(v[0]))

    def build(self, ch, x, p):
        fn = getattr(ch, self.name)
        if self.red and p['axis'] is not None:
            return fn(x[0], axis=p['axis'])
        return fn(x[0])


for _n in ('isfinite', 'isinf', 'isnan', 'isneginf', 'isposinf', 'logical_not'):
    reg(Logic(_n, False))
for _n in ('all', 'any'):
    reg(Logic(_n, True))


def bcast_partner(rng, sa):
    """A shape that broadcasts against sa."""
    k = rng.randint(9)
    s = list(sa)
    if k == 0:
        return tuple(s)
    if k >= 7:                            # equally many elements laid out differently, so that both spread
        if len(s) == 1 and s[0] <= 6:
            return (s[0], 1)
        if len(s) > 1 and 1 in s and max(s) <= 6:
            return tuple(s[::-1]) if k == 7 else tuple(s[i] for i in rng.permutation(len(s)))
    if k == 1:
        return (1,)
    if k == 2 and len(s) > 1:
        return tuple(s[rng.randint(1, len(s)):])
    if k == 3:
        return tuple(1 if rng.rand() < .5 else d for d in s)
    if k == 4 and np.prod(s) <= 8 and len(s) < 4:
        return tuple([int(rng.randint(1, 4))] + s)
    if k == 5:
        return tuple(int(rng.randint(2, 4)) if (d == 1 and np.prod(s) <= 8) else d for d in s)
    if k == 6 and len(s) > 1:
        return tuple([1] * (len(s) - 1) + [s[-1]])
    return tuple(s)


def compatible(sa, sb):
    try:
        return int(np.prod(np.broadcast_shapes(sa, sb))) <= 64
    except ValueError:
        return False


class Binary(Op):
    nin = 2
    names = ('a', 'b')
    consts = (0, 1)      # positions where a raw number/array may stand

    def second(self, rng, sa):
        return bcast_partner(rng, sa)

    def gen(self, rng, shapes):
        return {} if compatible(*shapes) else None

    def build(self, ch, x, p):
        k = p['form']
        if k == 0:
            return self.cls(ch)(*x)
        if k == 1:
            return self.cls(ch)(**dict(zip(self.names, x)))
        return self.oper(x[0], x[1])

    forms = 3

    def cls(self, ch):
        return getattr(ch, self.name)


def unb(shape, g):
    return np.broadcast_to(g, shape)


class Add(Binary):
    name = 'add'
    weight = 2.

    def f(self, v, p): return v[0] + v[1]
    def jvp(self, v, p, pos, t, out): return np.broadcast_to(t, out.shape)
    def oper(self, a, b): return a + b


class Subtract(Binary):
    name = 'subtract'
    weight = 2.

    def f(self, v, p): return v[0] - v[1]
    def jvp(self, v, p, pos, t, out): return np.broadcast_to(t if pos == 0 else -t, out.shape)
    def oper(self, a, b): return a - b


class Multiply(Binary):
    name = 'multiply'
    weight = 2.5

    def f(self, v, p): return v[0] * v[1]
    def jvp(self, v, p, pos, t, out): return np.broadcast_to(t * v[1 - pos], out.shape)
    def oper(self, a, b): return a * b


class Divide(Binary):
    name = 'divide'
    names = ('x1', 'x2')
    weight = 2.

    def f(self, v, p): return v[0] / v[1]

    def jvp(self, v, p, pos, t, out):
        return np.broadcast_to(t / v[1] if pos == 0 else -v[0] * t / (v[1] * v[1]), out.shape)

    def risk(self, v, p, out, active, same):
        return bool(np.any(np.abs(v[1]) < .05))

    def oper(self, a, b): return a / b


class NanDivide(Divide):
    name = 'NanDivide'
    forms = 2
    weight = .7

    def f(self, v, p):
        r = v[0] / v[1]
        return np.where(np.isfinite(r), r, 0.)


class Power(Binary):
    name = 'power'
    names = ('x', 'pow')
    weight = 1.5

    def f(self, v, p):
        r = np.power(v[0], v[1])
        return np.where(np.isinf(r), 0., r)

    def jvp(self, v, p, pos, t, out):
        if pos == 0:
            with np.errstate(all='ignore'):
                c = v[1] * np.where(v[1] == 0, 0., np.power(v[0], v[1] - 1.))
            return np.broadcast_to(np.where(v[1] == 0, 0., c) * t, out.shape)
        return np.broadcast_to(np.log(v[0]) * np.power(v[0], v[1]) * t, out.shape)

    def risk(self, v, p, out, active, same):
        a, b = np.broadcast_arrays(v[0], v[1])
        if 1 in active and np.any(a < .05):
            return True
        whole = (b == np.round(b)) & ((b >= 1) | (np.abs(a) > .05))
        return bool(np.any(~whole & (a < .05)))

    def oper(self, a, b): return a ** b


class Extremum2(Binary):
    def risk(self, v, p, out, active, same):
        return (not same) and near(v[0], v[1])

    def build(self, ch, x, p):
        if p['form'] == 0:
            return getattr(ch, self.name)(*x)
        return getattr(ch, self.name)(a=x[0], b=x[1])

    forms = 2


class Maximum(Extremum2):
    name = 'maximum'

    def f(self, v, p): return np.maximum(v[0], v[1])

    def jvp(self, v, p, pos, t, out):
        m = (v[0] >= v[1]) if pos == 0 else (v[0] < v[1])
        return np.broadcast_to(m * t, out.shape)


class Minimum(Extremum2):
    name = 'minimum'

    def f(self, v, p): return np.minimum(v[0], v[1])

    def jvp(self, v, p, pos, t, out):
        m = (v[0] <= v[1]) if pos == 0 else (v[0] > v[1])
        return np.broadcast_to(m * t, out.shape)


for _c in (Add, Subtract, Multiply, Divide, NanDivide, Power, Maximum, Minimum):
    reg(_c())


class Compare(Binary):
    nondiff = (0, 1)
    names = ('x1', 'x2')

    def __init__(self, name, oper=None):
        self.name, self.oper_ = name, oper
        self.forms = 3 if oper else 2
        self.weight = .3

    def f(self, v, p):
        return A(getattr(np, self.name)(v[0], v[1]))

    def build(self, ch, x, p):
        if p['form'] == 2:
            return self.oper_(x[0], x[1])
        if p['form'] == 1:
            return getattr(ch, self.name)(x1=x[0], x2=x[1])
        return getattr(ch, self.name)(x[0], x[1])


reg(Compare('greater', lambda a, b: a > b))
reg(Compare('greater_equal', lambda a, b: a >= b))
reg(Compare('less', lambda a, b: a < b))
reg(Compare('less_equal', lambda a, b: a <= b))
reg(Compare('not_equal', lambda a, b: a != b))
reg(Compare('equal'))


class Clip(Op):
    name = 'clip'
    names = ('a',)
    attrs = {'lo': 'a_min', 'hi': 'a_max'}
    forms = 2

    def gen(self, rng, shapes):
        lo = float(np.round(rng.uniform(-1, .5), 3)) + .0007
        hi = lo + float(np.round(rng.uniform(.2, 2), 3)) + .00013
        q = rng.rand()
        if q < .15:                      # one bound per element, or per column
            sh = shapes[0] if q < .08 else shapes[0][-1:]
            lo = lo + np.round(rng.uniform(-.5, .5, size=sh), 3)
            hi = lo + .1 + np.round(rng.uniform(0, 2, size=sh), 3) if q < .1 else 3.001
        elif q < .2:
            lo, hi = (None, hi) if q < .175 else (lo, None)
        return {'lo': lo, 'hi': hi}

    def valid(self, shapes, p):
        try:
            return np.broadcast_shapes(shapes[0], np.shape(p['lo']), np.shape(p['hi'])) == tuple(shapes[0])
        except ValueError:
            return False

    def f(self, v, p): return np.clip(v[0], p['lo'], p['hi'])

    def jvp(self, v, p, pos, t, out):
        return t * ((True if p['lo'] is None else v[0] > p['lo']) & (True if p['hi'] is None else v[0] < p['hi']))

    def risk(self, v, p, out, active, same):
        return any(b is not None and near(v[0], b) for b in (p['lo'], p['hi']))

    def build(self, ch, x, p):
        if p['form'] == 0:
            return ch.clip(x[0], p['lo'], p['hi'])
        return ch.clip(a=x[0], a_min=p['lo'], a_max=p['hi'])


reg(Clip())

# ---------------------------------------------------------------------------------- reductions


class AxisOp(Op):
    attrs = {'axis': 'axis'}
    allow_none = True

    def gen(self, rng, shapes):
        nd = len(shapes[0])
        if self.allow_none and rng.rand() < .35:
            return {'axis': None}
        return {'axis': int(rng.randint(-nd, nd))}

    def regen(self, rng, shapes, p):
        return dict(p, **self.gen(rng, shapes))


class Sum(AxisOp, Linear):
    name = 'sum'
    forms = 4
    weight = 1.5

    def f(self, v, p): return A(np.sum(v[0], axis=p['axis']))

    def build(self, ch, x, p):
        k, ax = p['form'], p['axis']
        if k == 0:
            return ch.sum(x[0], axis=ax)
        if k == 1:
            return x[0].sum(axis=ax)
        if k == 2:
            return ch.sum(x[0], ax)
        return ch.sum(x[0]) if ax is None else x[0].sum(ax)


class Mean(AxisOp, Linear):
    name = 'mean'
    forms = 4

    def f(self, v, p): return A(np.mean(v[0], axis=p['axis']))

    def build(self, ch, x, p):
        k, ax = p['form'], p['axis']
        if k == 0:
            return ch.mean(x[0], axis=ax)
        if k == 1:
            return x[0].mean(axis=ax)
        if k == 2:
            return ch.mean(x[0], ax)
        return ch.mean(x[0]) if ax is None else x[0].mean(ax)


class Cumsum(Linear):
    name = 'cumsum'
    names = ('a',)
    forms = 3

    def gen(self, rng, shapes): return {'axis': None}
    def f(self, v, p): return A(np.cumsum(v[0], axis=p['axis']))

    def build(self, ch, x, p):
        if p['form'] == 0:
            return ch.cumsum(x[0], axis=p['axis'])
        if p['form'] == 1:
            return x[0].cumsum(axis=p['axis'])
        return ch.cumsum(x[0]) if p['axis'] is None else ch.cumsum(a=x[0], axis=p['axis'])


class Extremum1(AxisOp):
    names = ('a',)

    def __init__(self, name, alias, method):
        self.name, self.alias, self.method = name, alias, method
        self.forms = 4 if method else 2

    def f(self, v, p): return A(getattr(np, self.name)(v[0], axis=p['axis']))

    def jvp(self, v, p, pos, t, out):
        arg = np.argmax if self.name.endswith('max') else np.argmin
        if p['axis'] is None:
            return A(t.ravel()[arg(v[0])])
        i = np.expand_dims(arg(v[0], axis=p['axis']), p['axis'])
        return A(np.take_along_axis(t, i, p['axis']).reshape(out.shape))

    def risk(self, v, p, out, active, same):
        s = np.sort(v[0].ravel() if p['axis'] is None else v[0], axis=0 if p['axis'] is None else p['axis'])
        return s.shape[0 if p['axis'] is None else p['axis']] > 1 and \
            bool(np.any(np.diff(s, axis=0 if p['axis'] is None else p['axis']) < NEAR[0]))

    def build(self, ch, x, p):
        k, ax = p['form'], p['axis']
        if k == 0:
            return getattr(ch, self.name)(x[0], axis=ax)
        if k == 1:
            return getattr(ch, self.alias)(x[0]) if ax is None else getattr(ch, self.alias)(x[0], ax)
        if k == 2:
            return getattr(x[0], self.method)(axis=ax)
        return getattr(x[0], self.method)() if ax is None else getattr(x[0], self.method)(ax)


class SumOfSquares(Op):
    name = 'SumOfSquares'
    forms = 2

    def f(self, v, p): return A(np.sum(v[0].ravel() ** 2))
    def jvp(self, v, p, pos, t, out): return A(2 * np.sum(v[0] * t))

    def build(self, ch, x, p):
        return ch.SumOfSquares(x[0]) if p['form'] == 0 else ch.SumOfSquares(x=x[0])


class Norm(Op):
    name = 'norm'
    names = None

    def f(self, v, p): return A(np.sqrt(np.sum(v[0] ** 2)))
    def jvp(self, v, p, pos, t, out): return A(np.sum(v[0] * t) / out)
    def risk(self, v, p, out, active, same): return bool(out[0] < .05)
    def build(self, ch, x, p): return ch.linalg.norm(x[0])


reg(Sum()); reg(Mean()); reg(Cumsum()); reg(SumOfSquares()); reg(Norm())
for _n, _a, _m in (('amax', 'max', 'max'), ('amin', 'min', 'min'), ('nanmax', 'nanmax', None), ('nanmin', 'nanmin', None)):
    reg(Extremum1(_n, _a, _m))

# ---------------------------------------------------------------------------------- reordering


class Reorder(Linear):
    names = ('a',)
    permute = True


class Transpose(Reorder):
    name = 'transpose'
    attrs = {'axes': 'axes'}
    forms = 4

    def gen(self, rng, shapes):
        nd = len(shapes[0])
        if rng.rand() < .4:
            return {'axes': None}
        ax = [int(i) for i in rng.permutation(nd)]
        if rng.rand() < .2:
            ax = [i - nd for i in ax]
        return {'axes': tuple(ax)}

    def f(self, v, p): return A(np.transpose(v[0], p['axes']))

    def build(self, ch, x, p):
        k, ax = p['form'], p['axes']
        if ax is None:
            return (lambda: ch.transpose(x[0]), lambda: x[0].T, lambda: x[0].transpose(),
                    lambda: ch.transpose(x[0], None))[k]()
        return (lambda: ch.transpose(x[0], ax), lambda: ch.transpose(x[0], list(ax)), lambda: x[0].transpose(ax),
                lambda: x[0].transpose(*ax))[k]()


class RollAxis(Reorder):
    name = 'rollaxis'
    attrs = {'axis': 'axis', 'start': 'start'}
    forms = 2

    def gen(self, rng, shapes):
        nd = len(shapes[0])
        return {'axis': int(rng.randint(-nd, nd)), 'start': int(rng.randint(0, nd + 1))}

    def f(self, v, p): return A(np.rollaxis(v[0], p['axis'], p['start']))

    def build(self, ch, x, p):
        if p['form'] == 1 and p['start'] == 0:
            return ch.rollaxis(x[0], p['axis'])
        return ch.rollaxis(x[0], p['axis'], p['start'])


class SwapAxes(Reorder):
    name = 'swapaxes'
    attrs = {'axis1': 'axis1', 'axis2': 'axis2'}

    def gen(self, rng, shapes):
        nd = len(shapes[0])
        return {'axis1': int(rng.randint(-nd, nd)), 'axis2': int(rng.randint(-nd, nd))}

    def f(self, v, p): return A(np.swapaxes(v[0], p['axis1'], p['axis2']))
    def build(self, ch, x, p): return ch.swapaxes(x[0], p['axis1'], p['axis2'])


def factor_shape(rng, size):
    out = []
    while size > 1 and len(out) < 3:
        ds = [d for d in range(2, size + 1) if size % d == 0]
        d = ds[rng.randint(len(ds))]
        out.append(d)
        size //= d
    if size > 1:
        out.append(size)
    for _ in range(rng.randint(3)):
        if len(out) < 4:
            out.insert(rng.randint(len(out) + 1), 1)
    return tuple(out) if out else (1,)


class Reshape(Reorder):
    name = 'reshape'
    attrs = {'newshape': 'newshape'}
    forms = 3
    weight = 1.5

    def gen(self, rng, shapes):
        s = list(factor_shape(rng, int(np.prod(shapes[0]))))
        if rng.rand() < .3:
            s[rng.randint(len(s))] = -1
        if rng.rand() < .2:
            s = [-1]
        return {'newshape': tuple(s)}

    def f(self, v, p): return A(v[0].reshape(p['newshape']))

    def build(self, ch, x, p):
        k, s = p['form'], p['newshape']
        if k == 0:
            return ch.reshape(x[0], s)
        if k == 1:
            return x[0].reshape(*s) if len(s) > 1 else x[0].reshape(s[0])
        if s == (-1,):
            return x[0].ravel()
        return x[0].reshape(s)


class Ravel(Reorder):
    name = 'ravel'
    forms = 2

    def f(self, v, p): return v[0].ravel()
    def build(self, ch, x, p): return ch.ravel(x[0]) if p['form'] == 0 else x[0].ravel()


def gen_key(rng, shape):
    """A random NumPy index with a non-empty, small result."""
    for _ in range(20):
        key, used = [], 0
        nd = len(shape)
        kind = rng.randint(12)
        if kind == 0:
            m = rng.rand(*shape) < .6
            key = m
        elif kind == 1:
            key = rng.randint(-shape[0], shape[0], size=rng.randint(1, 5) if rng.rand() < .7 else rng.randint(5, 10))
            if rng.rand() < .3:
                key = [int(k) for k in key]
        elif kind == 2:
            sh = (rng.randint(1, 3), rng.randint(1, 3))
            key = rng.randint(0, shape[0], size=sh)
        elif kind == 3 and nd > 1:
            k = rng.randint(1, 4)
            key = tuple(rng.randint(-d, d, size=k) for d in shape[:2])
        elif kind == 4:
            key = int(rng.randint(-shape[0], shape[0]))
        else:
            ell = False
            for d in shape:
                q = rng.randint(8)
                if q == 0:
                    key.append(int(rng.randint(-d, d)))
                elif q == 1 and not ell:
                    key.append(Ellipsis)
                    ell = True
                    break
                elif q == 2:
                    key.append(None)
                    key.append(slice(None))
                elif q == 3:
                    key.append(slice(None, None, -1))
                elif q == 4:
                    key.append(slice(int(rng.randint(-d, d)), None, int(rng.randint(1, 3))))
                elif q == 5:
                    key.append(slice(None, int(rng.randint(-d, d + 1))))
                else:
                    key.append(slice(None))
                if rng.rand() < .1:
                    break
            key = tuple(key) if (len(key) != 1 or rng.rand() < .5) else key[0]
        try:
            r = np.arange(int(np.prod(shape))).reshape(shape)[key]
        except Exception:
            continue
        if 0 < np.size(r) <= 24:
            return key
    return Ellipsis


class GetItem(Op):
    name = 'getitem'
    names = ('a',)
    permute = True
    fixed_layout = True
    weight = 2.

    def gen(self, rng, shapes):
        key = gen_key(rng, shapes[0])
        flat = np.arange(int(np.prod(shapes[0]))).reshape(shapes[0])[key]
        return {'key': key, 'idxs': np.ravel(flat), 'shape': np.shape(flat)}

    def f(self, v, p): return A(v[0].ravel()[p['idxs']].reshape(p['shape']))
    def jvp(self, v, p, pos, t, out): return self.f([t], p)
    def build(self, ch, x, p): return x[0][p['key']]


class Select(GetItem):
    name = 'Select'
    attrs = {'idxs': 'idxs'}
    weight = .7

    def gen(self, rng, shapes):
        n = int(np.prod(shapes[0]))
        idxs = rng.randint(0, n if rng.rand() < .5 else max(1, n // 2), size=rng.randint(1, 6))
        return {'idxs': idxs, 'shape': (-1,)}

    def build(self, ch, x, p): return ch.Select(a=x[0], idxs=p['idxs'])


class Tile(Reorder):
    name = 'tile'
    attrs = {'reps': 'reps'}
    permute = False

    def gen(self, rng, shapes):
        if rng.rand() < .4:
            return {'reps': int(rng.randint(1, 4))}
        return {'reps': tuple(int(k) for k in rng.randint(1, 3, size=rng.randint(1, len(shapes[0]) + 2)))}

    def f(self, v, p): return A(np.tile(v[0], p['reps']))
    def build(self, ch, x, p): return ch.tile(x[0], p['reps'])


class Repeat(Reorder):
    name = 'repeat'
    attrs = {'repeats': 'repeats', 'axis': 'axis'}
    permute = False

    def gen(self, rng, shapes):
        nd = len(shapes[0])
        ax = None if rng.rand() < .3 else int(rng.randint(-nd, nd))
        n = int(np.prod(shapes[0])) if ax is None else shapes[0][ax]
        if rng.rand() < .5:
            r = int(rng.randint(1, 4))
        else:
            r = [int(k) for k in rng.randint(0, 3, size=n)]
            if sum(r) == 0:
                r[0] = 1
        return {'repeats': r, 'axis': ax}

    def f(self, v, p): return A(np.repeat(v[0], p['repeats'], p['axis']))
    def build(self, ch, x, p): return ch.repeat(x[0], p['repeats'], p['axis'])


class Sort(Op):
    name = 'sort'
    names = ('a',)
    attrs = {'axis': 'axis'}
    forms = 2
    permute = True

    def gen(self, rng, shapes):
        nd = len(shapes[0])
        return {'axis': -1 if rng.rand() < .4 else (None if rng.rand() < .15 else int(rng.randint(-nd, nd)))}

    def f(self, v, p): return A(np.sort(v[0], p['axis']))

    def jvp(self, v, p, pos, t, out):
        if p['axis'] is None:
            return t.ravel()[np.argsort(v[0].ravel(), kind='stable')]
        return np.take_along_axis(t, np.argsort(v[0], axis=p['axis'], kind='stable'), p['axis'])

    def risk(self, v, p, out, active, same):
        ax = -1 if p['axis'] is None else p['axis']
        return out.shape[ax] > 1 and bool(np.any(np.diff(out, axis=ax) < NEAR[0]))

    def build(self, ch, x, p):
        return ch.sort(x[0]) if (p['form'] == 1 and p['axis'] == -1) else ch.sort(x[0], p['axis'])


class Diag(Reorder):
    name = 'diag'
    attrs = {'k': 'k'}
    permute = False

    def gen(self, rng, shapes):
        s = shapes[0]
        if len(s) == 1 and s[0] <= 5:
            return {'k': int(rng.randint(-2, 3))}
        if len(s) == 2:
            return {'k': int(rng.randint(-s[0] + 1, s[1]))}
        return None

    def f(self, v, p): return A(np.diag(v[0], p['k']))
    def build(self, ch, x, p): return ch.diag(x[0], p['k']) if p['k'] else ch.diag(x[0])


class DiagFlat(Reorder):
    name = 'diagflat'
    attrs = {'k': 'k'}
    permute = False

    def gen(self, rng, shapes):
        return {'k': int(rng.randint(-2, 3))} if np.prod(shapes[0]) <= 5 else None

    def f(self, v, p): return A(np.diagflat(v[0], p['k']))
    def build(self, ch, x, p): return ch.diagflat(x[0], p['k']) if p['k'] else ch.diagflat(x[0])


class Roll(Reorder):
    name = 'roll'
    attrs = {'shift': 'shift', 'axis': 'axis'}

    def gen(self, rng, shapes):
        nd = len(shapes[0])
        return {'shift': int(rng.randint(-4, 5)), 'axis': None if rng.rand() < .4 else int(rng.randint(-nd, nd))}

    def f(self, v, p): return A(np.roll(v[0], p['shift'], p['axis']))
    def build(self, ch, x, p): return ch.roll(x[0], p['shift'], p['axis'])


class Rot90(Reorder):
    name = 'rot90'
    attrs = {'k': 'k'}

    def gen(self, rng, shapes):
        return {'k': int(rng.randint(-1, 5))} if len(shapes[0]) >= 2 else None

    def f(self, v, p): return A(np.rot90(v[0], p['k']))
    def build(self, ch, x, p): return ch.rot90(x[0], p['k']) if p['k'] != 1 else ch.rot90(x[0])


class Flip(Reorder):
    fixed_layout = True

    def __init__(self, name, nd):
        self.name, self.nd = name, nd
        self.weight = .5

    def gen(self, rng, shapes):
        if len(shapes[0]) < self.nd:
            return None
        return {'shape0': shapes[0]}

    def f(self, v, p):
        if v[0].shape == tuple(p['shape0']):
            return A(getattr(np, self.name)(v[0]))
        i = getattr(np, self.name)(np.arange(int(np.prod(p['shape0']))).reshape(p['shape0']))
        return A(v[0].ravel()[i.ravel()].reshape(i.shape))

    def build(self, ch, x, p): return getattr(ch, self.name)(x[0])


class Squeeze(Reorder):
    name = 'squeeze'
    fixed_layout = True
    names = None
    forms = 2
    weight = .5

    def gen(self, rng, shapes):
        ones = [i for i, d in enumerate(shapes[0]) if d == 1]
        ax = None
        if ones and rng.rand() < .5:
            ax = ones[rng.randint(len(ones))]
        s = np.squeeze(np.empty(shapes[0]), ax).shape
        return {'axis': ax, 'shape': s}

    def f(self, v, p): return A(v[0].reshape(p['shape']))

    def build(self, ch, x, p):
        return ch.squeeze(x[0], p['axis']) if p['form'] == 0 else x[0].squeeze(p['axis'])


class ExpandDims(Reorder):
    name = 'expand_dims'
    fixed_layout = True
    names = None
    weight = .5

    def gen(self, rng, shapes):
        nd = len(shapes[0])
        if nd > 3:
            return None
        ax = int(rng.randint(-nd - 1, nd + 1))
        return {'axis': ax, 'shape': np.expand_dims(np.empty(shapes[0]), ax).shape}

    def f(self, v, p): return A(v[0].reshape(p['shape']))
    def build(self, ch, x, p): return ch.expand_dims(x[0], p['axis'])


class AtLeast(Linear):
    def __init__(self, n):
        self.n = n
        self.name = 'atleast_%dd' % n
        self.weight = .4

    def f(self, v, p): return A(getattr(np, self.name)(v[0]))

    def build(self, ch, x, p):
        if p['form'] == 1:
            return getattr(ch, self.name)(np.zeros(2), x[0])[1]
        return getattr(ch, self.name)(x[0])

    forms = 2


class Concat(Linear):
    name = 'concatenate'
    nin = None
    attrs = {'axis': 'axis'}
    weight = 1.5

    def names_for(self, k): return tuple('m%d' % i for i in range(k))

    def gen(self, rng, shapes):
        nd = len(shapes[0])
        cand = []
        for ax in range(-nd, nd):
            if all(len(s) == nd and all(s[i] == shapes[0][i] for i in range(nd) if i != ax % nd) for s in shapes):
                cand.append(ax)
        if not cand:
            return None
        return {'axis': int(cand[rng.randint(len(cand))])}

    def regen(self, rng, shapes, p):
        q = self.gen(rng, shapes)
        return None if q is None else dict(p, **q)

    def f(self, v, p): return A(np.concatenate(v, axis=p['axis']))

    def jvp(self, v, p, pos, t, out):
        z = [np.zeros_like(u) for u in v]
        z[pos] = t
        return A(np.concatenate(z, axis=p['axis']))

    def build(self, ch, x, p):
        if p['form'] == 1 and p['axis'] == 0:
            return ch.concatenate(tuple(x))
        return ch.concatenate(list(x), axis=p['axis'])

    forms = 2


class Stack(Concat):
    attrs = {}
    names = None
    forms = 1

    def __init__(self, name):
        self.name = name
        self.weight = .7

    def names_for(self, k): return None

    def gen(self, rng, shapes):
        try:
            getattr(np, self.name)([np.zeros(s) for s in shapes])
        except ValueError:
            return None
        return {}

    def f(self, v, p): return A(getattr(np, self.name)(v))

    def jvp(self, v, p, pos, t, out):
        z = [np.zeros_like(u) for u in v]
        z[pos] = t
        return A(getattr(np, self.name)(z))

    def build(self, ch, x, p): return getattr(ch, self.name)(list(x))


for _c in (Transpose, RollAxis, SwapAxes, Reshape, Ravel, GetItem, Select, Tile, Repeat, Sort, Diag, DiagFlat, Roll,
           Rot90, Squeeze, ExpandDims, Concat):
    reg(_c())
reg(Flip('fliplr', 2)); reg(Flip('flipud', 1))
for _k in (1, 2, 3):
    reg(AtLeast(_k))
for _n in ('vstack', 'hstack', 'dstack'):
    reg(Stack(_n))

# ---------------------------------------------------------------------------------- products


class Bilinear(Op):
    nin = 2
    names = ('a', 'b')

    def jvp(self, v, p, pos, t, out):
        w = list(v)
        w[pos] = t
        return A(self.f(w, p))


class Dot(Bilinear):
    name = 'dot'
    forms = 3
    weight = 2.

    def second(self, rng, sa):
        k = sa[-1]
        q = rng.randint(4)
        if q == 0:
            return (k,)
        if q == 3 and np.prod(sa) <= 8:
            return (int(rng.randint(1, 3)), k, int(rng.randint(1, 3)))
        return (k, int(rng.randint(1, 4)))

    def gen(self, rng, shapes):
        a, b = shapes
        kb = b[0] if len(b) == 1 else b[-2]
        if a[-1] != kb:
            return None
        if np.prod(a) // a[-1] * (np.prod(b) // kb) > 48:
            return None
        return {}

    def f(self, v, p): return A(np.dot(v[0], v[1]))

    def build(self, ch, x, p):
        if p['form'] == 0:
            return ch.dot(x[0], x[1])
        if p['form'] == 1:
            return x[0].dot(x[1])
        return ch.dot(a=x[0], b=x[1])


class TensorDot(Bilinear):
    name = 'tensordot'
    names = None
    fixed_layout = True

    def second(self, rng, sa):
        k = rng.randint(0, len(sa) + 1)
        s = tuple(sa[len(sa) - k:]) + ((int(rng.randint(1, 3)),) if rng.rand() < .6 else ())
        return s if s else (int(rng.randint(1, 3)),)

    def gen(self, rng, shapes):
        a, b = shapes
        opts = []
        for n in range(0, min(len(a), len(b)) + 1):
            if a[len(a) - n:] == b[:n]:
                opts.append(n)
        pairs = [(i, j) for i in range(len(a)) for j in range(len(b)) if a[i] == b[j]]
        if pairs:
            i, j = pairs[rng.randint(len(pairs))]
            opts.append((i - (len(a) if rng.rand() < .5 else 0), j))
            rest = [(k, l) for k, l in pairs if k != i and l != j]
            if rest:
                k, l = rest[rng.randint(len(rest))]
                opts.append(([i, k], [j, l]))
        if not opts:
            return None
        ax = opts[rng.randint(len(opts))]
        if np.size(np.tensordot(np.zeros(a), np.zeros(b), ax)) > 48:
            return None
        return {'axes': ax}

    def f(self, v, p): return A(np.tensordot(v[0], v[1], p['axes']))
    def build(self, ch, x, p): return ch.tensordot(x[0], x[1], p['axes'])


class Cross(Bilinear):
    name = 'cross'
    attrs = {'axisc': 'axisc'}
    forms = 2

    def second(self, rng, sa): return sa

    def gen(self, rng, shapes):
        a, b = shapes
        if len(a) != 2 or len(b) != 2 or a != b:
            return None
        opts = []
        if a[1] == 3:
            opts.append({'axisa': -1, 'axisb': 1, 'axisc': int(rng.randint(-2, 2)), 'axis': None})
            opts.append({'axisa': -1, 'axisb': -1, 'axisc': -1, 'axis': int([1, -1][rng.randint(2)])})
        if a[0] == 3:
            opts.append({'axisa': -1, 'axisb': -1, 'axisc': -1, 'axis': 0})
            opts.append({'axisa': 0, 'axisb': 0, 'axisc': int(rng.randint(0, 2)), 'axis': None})
        if not opts:
            return None
        return opts[rng.randint(len(opts))]

    def regen(self, rng, shapes, p): return None

    def valid(self, shapes, p):
        ax = [p['axis'], p['axis']] if p['axis'] is not None else [p['axisa'], p['axisb']]
        return shapes[0] == shapes[1] and len(shapes[0]) == 2 and all(shapes[0][k] == 3 for k in ax)

    def f(self, v, p):
        return A(np.cross(v[0], v[1], p['axisa'], p['axisb'], p['axisc'], p['axis']))

    def build(self, ch, x, p):
        if p['form'] == 1 and p['axis'] is None and p['axisa'] == -1 and p['axisc'] == -1:
            return ch.cross(x[0], x[1])
        return ch.cross(x[0], x[1], p['axisa'], p['axisb'], p['axisc'], p['axis'])


class MatVec(Linear):
    name = 'MatVecMult'
    names = ('vec',)
    attrs = {'mtx': 'mtx'}
    weight = .7

    def gen(self, rng, shapes):
        if len(shapes[0]) not in (1, 2):
            return None
        k = rng.randint(1, 5) * (shapes[0][1] if len(shapes[0]) > 1 else 1)
        return {'mtx': np.round(rng.randn(k, int(np.prod(shapes[0]))), 3), 'sparse': bool(rng.rand() < .5)}

    def valid(self, shapes, p):
        s, m = shapes[0], p['mtx']
        return len(s) in (1, 2) and m.shape[1] == int(np.prod(s)) and (len(s) == 1 or m.shape[0] % s[1] == 0)

    def f(self, v, p):                      # acts on all entries; the result has as many columns as the vectors
        r = A(p['mtx'].dot(v[0].ravel()))
        return r.reshape(-1, v[0].shape[1]) if v[0].ndim > 1 and v[0].shape[1] > 1 else r

    def build(self, ch, x, p):
        import scipy.sparse as sp
        m = p['mtx']
        return ch.MatVecMult(sp.csc_matrix(m) if p['sparse'] else m, x[0])


for _c in (Dot, TensorDot, Cross, MatVec):
    reg(_c())

# ---------------------------------------------------------------------------------- linear algebra


class Narrow(np.linalg.LinAlgError):
    """The reference declines an input that NumPy itself would accept."""


def well(m, lim=200.):
    try:
        return bool(np.all(np.linalg.cond(m) < lim))
    except Exception:
        return False


def regular(m):
    """Sessions keep away from singular matrices: asking for derivatives there is an error."""
    if not well(m, 1e6):
        np.linalg.inv(m)  # NumPy's own complaint, if it has one
        raise Narrow('singular')
    return m


class Inv(Op):
    name = 'inv'
    names = ('a',)
    weight = .8

    def gen(self, rng, shapes):
        s = shapes[0]
        if len(s) < 2 or s[-1] != s[-2] or s[-1] > 4:
            return None
        return {}

    def f(self, v, p): return A(np.linalg.inv(regular(v[0])))
    def jvp(self, v, p, pos, t, out): return -np.matmul(np.matmul(out, t), out)
    def risk(self, v, p, out, active, same): return not well(v[0])
    def build(self, ch, x, p): return ch.linalg.inv(x[0])


def sq(s):
    return len(s) == 2 and s[0] == s[1] and s[0] <= 4


class Det(Op):
    name = 'det'
    weight = .6

    def gen(self, rng, shapes): return {} if sq(shapes[0]) else None
    def valid(self, shapes, p): return sq(shapes[0])
    def f(self, v, p): return A(np.linalg.det(regular(v[0])))

    def jvp(self, v, p, pos, t, out):
        return A(np.linalg.det(v[0]) * np.trace(np.linalg.inv(v[0]).dot(t)))

    def risk(self, v, p, out, active, same): return not well(v[0])
    def build(self, ch, x, p): return ch.linalg.det(x[0])


class LogDet(Det):
    name = 'logabsdet'
    names = None
    weight = .4

    def f(self, v, p): return A(np.linalg.slogdet(regular(v[0]))[1])
    def jvp(self, v, p, pos, t, out): return A(np.trace(np.linalg.inv(v[0]).dot(t)))
    def build(self, ch, x, p): return ch.linalg.slogdet(x[0])[1]


class SignDet(LogDet):
    name = 'signdet'
    nondiff = (0,)
    weight = .2

    def f(self, v, p): return A(np.linalg.slogdet(regular(v[0]))[0])
    def jvp(self, v, p, pos, t, out): raise AssertionError
    def risk(self, v, p, out, active, same): return False
    def build(self, ch, x, p): return ch.linalg.slogdet(x[0])[0]


class Pinv(Op):
    name = 'pinv'
    names = ('mtx',)
    weight = .6

    def gen(self, rng, shapes):
        s = shapes[0]
        return {} if len(s) == 2 and np.prod(s) <= 12 else None

    def valid(self, shapes, p): return len(shapes[0]) == 2

    def f(self, v, p):
        m = v[0]
        if not well(m):
            np.linalg.pinv(m)
            raise Narrow('rank')
        return A(np.linalg.pinv(m))

    def jvp(self, v, p, pos, t, out):
        m, q = v[0], out
        i1, i2 = np.eye(m.shape[0]), np.eye(m.shape[1])
        return -q.dot(t).dot(q) + q.dot(q.T).dot(t.T).dot(i1 - m.dot(q)) + (i2 - q.dot(m)).dot(t.T).dot(q.T).dot(q)

    def risk(self, v, p, out, active, same): return not well(v[0], 50.)
    def build(self, ch, x, p): return ch.linalg.pinv(x[0])


class SvdD(Op):
    name = 'svd_d'
    names = None
    fixed_layout = True
    weight = .4

    def gen(self, rng, shapes):
        s = shapes[0]
        return {} if len(s) == 2 and np.prod(s) <= 12 else None

    def f(self, v, p): return A(np.linalg.svd(v[0], full_matrices=False)[1])

    def jvp(self, v, p, pos, t, out):
        u, s, w = np.linalg.svd(v[0], full_matrices=False)
        return A(np.einsum('ik,ij,kj->k', u, t, w))

    def risk(self, v, p, out, active, same):
        s = np.sort(out)
        return bool(s[0] < .05 or (len(s) > 1 and np.any(np.diff(s) < .02)))

    def build(self, ch, x, p): return ch.linalg.svd(x[0])[1]


for _c in (Inv, Det, LogDet, SignDet, Pinv, SvdD):
    reg(_c())

# ---------------------------------------------------------------------------------- user-defined operations

_user = {}


def user_classes(ch):
    """Operations a user would write by subclassing Ch."""
    if _user:
        return _user
    import scipy.sparse as sp

    class UDense(ch.Ch):
        dterms = ('x',)

        def compute_r(self):
            return self.x.r ** 2 + 3. * self.x.r

        def compute_dr_wrt(self, wrt):
            if wrt is self.x:
                return np.diag((2 * self.x.r + 3.).ravel())

    class USparse(ch.Ch):
        dterms = 'u', 'v'
        terms = 'k'

        def compute_r(self):
            return self.k * self.u.r * np.sum(self.v.r)

        def compute_dr_wrt(self, wrt):
            res = None
            if wrt is self.u:
                res = sp.eye(self.u.size, self.u.size).tocsr() * (self.k * np.sum(self.v.r))
            if wrt is self.v:
                d = sp.csc_matrix(self.k * self.u.r.reshape((-1, 1)).dot(np.ones((1, self.v.size))))
                res = d if res is None else res + d
            return res

    class UScalar(ch.Ch):
        dterms = ('inp',)
        terms = ('k',)

        def compute_r(self):
            return self.inp.r * self.k

        def compute_dr_wrt(self, wrt):
            if wrt is self.inp:
                return self.k

    class URow(ch.Ch):
        """A scalar-valued user operation: weighted sum, local derivative given as a dense row."""
        dterms = ('src',)
        terms = ('w',)

        def compute_r(self):
            return np.sum(self.src.r.ravel() * np.cos(np.arange(self.src.size) * self.w))

        def compute_dr_wrt(self, wrt):
            if wrt is self.src:
                return np.cos(np.arange(self.src.size) * self.w).reshape((1, -1))

    class UAlias(ch.Ch):
        """An input that is an alias (property) of another object's input."""
        dterms = ('core',)

        def compute_r(self):
            return np.sin(self.core.r) - 1.

        def compute_dr_wrt(self, wrt):
            if wrt is self.core:
                return sp.diags([np.cos(self.core.r).ravel()], [0])

    class UState(ch.Ch):
        """Keeps state derived from a parameter (told through on_changed) and from an input (depends_on)."""
        dterms = ('u', 'v')
        terms = ('k', 'm')

        def on_changed(self, which):
            if 'k' in which:
                self._kk = self.k * 2.
            if 'm' in which:
                self._mm = self.m + 1.
            if 'v' in which:
                self._vsum = np.sum(self.v.r)

        @ch.depends_on('u', 'm')
        def usq(self):
            return self.u.r ** 2 * (self.m + 1.)

        def compute_r(self):
            return self._kk * self.usq + self._vsum

        def compute_dr_wrt(self, wrt):
            out = []
            if wrt is self.u:
                out.append(sp.diags([(2. * self._kk * self._mm * self.u.r).ravel()], [0]).tocsc())
            if wrt is self.v:
                out.append(sp.csc_matrix(np.ones((self.u.size, self.v.size))))
            return out[0] if len(out) == 1 else out[0] + out[1] if out else None

    class UTri(ch.Ch):
        """Three inputs, two parameters, an explicit order, a property listing several dependencies."""
        dterms = ['a', 'b', 'c']
        terms = 'k', 'm'
        term_order = 'a', 'k', 'b', 'm', 'c'

        @ch.depends_on(['a', 'k', 'b'])
        def head(self):
            return self.k * self.a.r * self.b.r

        def compute_r(self):
            return self.head + self.m * self.c.r

        def compute_dr_wrt(self, wrt):
            res = 0.
            for name, d in (('a', self.k * self.b.r), ('b', self.k * self.a.r), ('c', self.m + 0. * self.c.r)):
                if wrt is getattr(self, name):
                    res = res + d
            return np.diag(np.ravel(res)) if np.ndim(res) else None

    _user.update(dict(UTri=UTri, UDense=UDense, USparse=USparse, UScalar=UScalar, URow=URow, UAlias=UAlias, UState=UState))
    import sys
    mod = sys.modules[__name__]
    for k, c in _user.items():   # picklable
        c.__module__ = __name__
        c.__qualname__ = k
        setattr(mod, k, c)
    return _user


class UOp(Op):
    weight = .8
    forms = 1


class UDenseOp(UOp):
    name = 'UDense'

    def f(self, v, p): return A(v[0] ** 2 + 3 * v[0])
    def jvp(self, v, p, pos, t, out): return (2 * v[0] + 3) * t
    def build(self, ch, x, p): return user_classes(ch)['UDense'](x=x[0])


class USparseOp(UOp):
    name = 'USparse'
    nin = 2
    names = ('u', 'v')
    attrs = {'k': 'k'}

    def second(self, rng, sa): return tuple(int(k) for k in rng.randint(1, 4, size=rng.randint(1, 3)))
    def gen(self, rng, shapes): return {'k': float(np.round(rng.uniform(.3, 1.5), 3))}
    def f(self, v, p): return A(p['k'] * v[0] * np.sum(v[1]))

    def jvp(self, v, p, pos, t, out):
        return p['k'] * (t * np.sum(v[1]) if pos == 0 else v[0] * np.sum(t))

    def build(self, ch, x, p): return user_classes(ch)['USparse'](u=x[0], v=x[1], k=p['k'])


class UScalarOp(UOp, Linear):
    name = 'UScalar'
    names = ('inp',)
    attrs = {'k': 'k'}

    def gen(self, rng, shapes): return {'k': float(np.round(rng.uniform(.3, 2), 3))}
    def f(self, v, p): return A(v[0] * p['k'])
    def build(self, ch, x, p): return user_classes(ch)['UScalar'](inp=x[0], k=p['k'])


class URowOp(UOp, Linear):
    name = 'URow'
    names = ('src',)
    attrs = {'w': 'w'}

    def gen(self, rng, shapes): return {'w': float(np.round(rng.uniform(.3, 2), 3))}
    def f(self, v, p): return A(np.sum(v[0].ravel() * np.cos(np.arange(v[0].size) * p['w'])))
    def build(self, ch, x, p): return user_classes(ch)['URow'](src=x[0], w=p['w'])


class UAliasOp(UOp):
    name = 'UAlias'
    names = ('core',)

    def f(self, v, p): return A(np.sin(v[0]) - 1.)
    def jvp(self, v, p, pos, t, out): return np.cos(v[0]) * t
    def build(self, ch, x, p): return user_classes(ch)['UAlias'](core=x[0])


class UStateOp(UOp):
    name = 'UState'
    nin = 2
    names = ('u', 'v')
    attrs = {'k': 'k', 'm': 'm'}

    def second(self, rng, sa): return tuple(int(k) for k in rng.randint(1, 4, size=rng.randint(1, 3)))

    def gen(self, rng, shapes):
        return {'k': float(np.round(rng.uniform(.3, .8), 3)), 'm': float(np.round(rng.uniform(-.5, .5), 3))}

    def f(self, v, p): return A(2 * p['k'] * (p['m'] + 1) * v[0] ** 2 + np.sum(v[1]))

    def jvp(self, v, p, pos, t, out):
        if pos == 0:
            return 4 * p['k'] * (p['m'] + 1) * v[0] * t
        return np.sum(t) + np.zeros_like(out)

    def build(self, ch, x, p): return user_classes(ch)['UState'](u=x[0], v=x[1], k=p['k'], m=p['m'])


class UTriOp(UOp):
    name = 'UTri'
    nin = None
    arity = 3
    names = ('a', 'b', 'c')
    attrs = {'k': 'k', 'm': 'm'}
    weight = 1.5

    def names_for(self, k): return self.names

    def gen(self, rng, shapes):
        if len(shapes) != 3 or len(set(shapes)) != 1 or shapes[0] == ():
            return None
        return {'k': float(np.round(rng.uniform(.3, 1.2), 3)), 'm': float(np.round(rng.uniform(-1, 1.5), 3))}

    def f(self, v, p):
        if len(set(u.shape for u in v)) != 1 or v[0].shape == ():
            raise Narrow('shapes')
        return A(p['k'] * v[0] * v[1] + p['m'] * v[2])

    def jvp(self, v, p, pos, t, out):
        return p['m'] * t if pos == 2 else p['k'] * v[1 - pos] * t

    def build(self, ch, x, p):
        c = user_classes(ch)['UTri']
        if p['form'] == 0:
            return c(x[0], p['k'], x[1], p['m'], x[2])
        if p['form'] == 1:
            return c(c=x[2], k=p['k'], b=x[1], m=p['m'], a=x[0])
        if p['form'] == 2:
            return c(x[0], p['k'], c=x[2], m=p['m'], b=x[1])
        o = c()
        o.m = p['m']
        o.c = x[2]
        o.set(a=x[0], k=p['k'], b=x[1])
        return o

    forms = 4


for _c in (UTriOp, UDenseOp, USparseOp, UScalarOp, URowOp, UAliasOp, UStateOp):
    reg(_c())

LINALG = ('inv', 'det', 'logabsdet', 'signdet', 'pinv', 'svd_d')
USER = ('UTri', 'UDense', 'USparse', 'UScalar', 'URow', 'UAlias', 'UState')
NONDIFF = tuple(k for k, o in OPS.items() if o.nondiff)
