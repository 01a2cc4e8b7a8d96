"""C20: predicates, rounding and sign: values for any contents, no gradient."""
import numpy as np

import refops
from engine import Session, dense

CASES = {'quick': 1600, 'thorough': 30000}
RULE = ('a distinct observation is (predicate, form, input shapes, classes of contents, last change) of a predicate\'s '
        'value, or (operation, shapes, parameters, target, last change) of a derivative of an expression mixing them')
BIN = {'greater': np.greater, 'greater_equal': np.greater_equal, 'less': np.less, 'less_equal': np.less_equal,
       'equal': np.equal, 'not_equal': np.not_equal}
UN = {'isfinite': np.isfinite, 'isinf': np.isinf, 'isnan': np.isnan, 'isneginf': np.isneginf, 'isposinf': np.isposinf,
      'logical_not': np.logical_not, 'floor': np.floor, 'ceil': np.ceil, 'sign': np.sign}
RED = {'all': np.all, 'any': np.any}
REQUIRED = tuple('predicate:' + k for k in list(BIN) + list(UN) + list(RED)) + (
    'mask as constant', 'no derivative', 'mixed derivative', 'mixed value', 'contents:nan', 'contents:inf', 'contents:tie')


def contents(rng, shape, other=None):
    v = np.array(np.round(rng.randn(*shape) * 1.5) / (1 if rng.rand() < .5 else 2))
    kinds = set()
    for k in range(v.size):
        q = rng.rand()
        if q < .08:
            v.flat[k] = np.nan
            kinds.add('nan')
        elif q < .16:
            v.flat[k] = np.inf if rng.rand() < .5 else -np.inf
            kinds.add('inf')
        elif q < .2:
            v.flat[k] = -0.
        elif q < .24:
            v.flat[k] = (1e300, -1e300, 1e-300, -1e-300, 0.5 - 1e-16, 1. - 2 ** -53, 2. ** 53)[rng.randint(7)]
        elif other is not None and other.shape == v.shape and q < .5:
            v.flat[k] = other.flat[k]
            kinds.add('tie')
            if rng.rand() < .3:
                v.flat[k] = np.nextafter(v.flat[k], 1e9)
    return v, kinds


def lift(x):
    return np.atleast_1d(np.asarray(x, np.float64))


class P(object):
    """A predicate expression: chumpy object and a function computing the expected value from scratch."""
    def __init__(self, name, form, c, f, ins, nd=True):
        self.name, self.form, self.c, self.f, self.ins, self.nd = name, form, c, f, ins, nd


def direct(ch, rng, mon):
    shape = tuple(int(v) for v in rng.randint(1, 4, rng.randint(0, 4)))
    a0, ka = contents(rng, shape)
    q = rng.rand()
    bs = shape if q < .6 else (shape[1:] if q < .75 else ((1,) * len(shape) if q < .85 else ()))
    b0, kb = contents(rng, bs, a0)
    held = {'a': lift(a0), 'b': lift(b0)}
    va, vb = ch.Ch(a0), ch.Ch(b0)
    vs = {'a': va, 'b': vb}
    A_ = lambda: held['a']
    B_ = lambda: held['b']
    es = [P('a', '', va, A_, ('a',), False), P('b', '', vb, B_, ('b',), False)]
    for _ in range(rng.randint(2, 6)):
        x = es[rng.randint(len(es))] if rng.rand() < .5 else es[0]
        r = rng.rand()
        if r < .5:
            name = sorted(BIN)[rng.randint(len(BIN))]
            y = es[1] if rng.rand() < .7 else x
            if x is es[1] and rng.rand() < .5:
                y = es[0]
            if not refops.compatible(x.f().shape, y.f().shape):
                y = x
            fn = BIN[name]
            form = rng.randint(4)
            if form == 3:
                k = float((0., 1., -1., np.nan, np.inf, .5)[rng.randint(6)])
                c = getattr(ch, name)(x.c, k)
                f = lambda x=x, k=k, fn=fn: fn(x.f(), k)
                ins = x.ins
            elif form == 2 and name != 'equal':
                op = {'greater': '>', 'greater_equal': '>=', 'less': '<', 'less_equal': '<=', 'not_equal': '!='}[name]
                c = eval('u %s v' % op, {'u': x.c, 'v': y.c})
                f = lambda x=x, y=y, fn=fn: fn(x.f(), y.f())
                ins = x.ins + y.ins
            elif form == 1 and name not in ('equal',):
                # the array is on the left: NumPy must hand over to chumpy
                op = {'greater': '>', 'greater_equal': '>=', 'less': '<', 'less_equal': '<=', 'not_equal': '!='}[name]
                k = np.array(y.f())
                c = eval('u %s v' % op, {'u': k, 'v': x.c})
                f = lambda x=x, k=k, fn=fn: fn(k, x.f())
                ins = x.ins
            else:
                c = getattr(ch, name)(x.c, y.c)
                f = lambda x=x, y=y, fn=fn: fn(x.f(), y.f())
                ins = x.ins + y.ins
        elif r < .8:
            name = sorted(UN)[rng.randint(len(UN))]
            fn, form = UN[name], 0
            c = getattr(ch, name)(x.c)
            f = lambda x=x, fn=fn: fn(x.f())
            ins = x.ins
        else:
            name = sorted(RED)[rng.randint(2)]
            fn = RED[name]
            nd = x.f().ndim
            ax = ([None] + list(range(-nd, nd)))[rng.randint(2 * nd + 1)]
            form = ax
            if ax is None and rng.rand() < .5:
                c = getattr(ch, name)(x.c)
            elif rng.rand() < .5:
                c = getattr(ch, name)(x.c, ax)
            else:
                c = getattr(ch, name)(x.c, axis=ax)
            f = lambda x=x, fn=fn, ax=ax: fn(x.f(), axis=ax)
            ins = x.ins
        mon.check(hasattr(c, 'dterms'), 'predicate:' + name, lambda: 'form %s gives a %s' % (form, type(c)))
        es.append(P(name, form, c, lambda f=f: lift(f()), ins))
        mon.note('%s form %s' % (name, form))
    last, kinds = 'build', ka | kb
    for step in range(rng.randint(2, 9)):
        for p in es[2:]:
            if rng.rand() < .6:
                with np.errstate(all='ignore'):
                    want = p.f()
                got = p.c.r
                for k in kinds:
                    mon.saw('contents:' + k)
                mon.check(got.shape == want.shape and np.array_equal(got, want, equal_nan=True), 'predicate:' + p.name,
                          lambda: 'form %s after %s: got %s expected %s (a=%s, b=%s)' % (
                              p.form, last, got, want, held['a'], held['b']),
                          (p.form, want.shape, tuple(sorted(kinds)), last))
            if rng.rand() < .3:
                v = 'ab'[rng.randint(2)]
                J = p.c.dr_wrt(vs[v]) if rng.rand() < .5 else p.c.lop(vs[v], np.ones((1, p.c.size)))
                D = dense(J)
                mon.check(D is None or not np.any(D), 'no derivative', lambda: '%s: %s' % (p.name, D), (p.name, last))
        v = 'ab'[rng.randint(2)]
        q = rng.rand()
        if q < .5:
            new, kinds = contents(rng, held[v].shape, held['b' if v == 'a' else 'a'])
            vs[v].x = new
            held[v] = lift(new)
            last = 'set ' + v
        else:
            k = tuple(int(rng.randint(d)) for d in held[v].shape)
            new, kinds = contents(rng, (1,))
            vs[v][k] = float(new[0])
            held[v] = held[v].copy()
            held[v][k] = new[0]
            last = 'item of ' + v
        mon.note('%s: %s' % (last, held[v].tolist()))


def mixed(ch, rng, mon):
    smooth = ('add', 'subtract', 'multiply', 'sin', 'exp', 'square', 'getitem', 'reshape', 'transpose', 'sum', 'mean',
              'concatenate', 'tile', 'divide', 'dot', 'maximum', 'power', 'amax', 'cumsum', 'repeat', 'vstack')
    s = Session(ch, rng, mon, ops=[k for k in smooth if k in refops.OPS] + list(refops.NONDIFF))
    nd = [k for k in refops.NONDIFF if k in s_names(s)]
    for _ in range(rng.randint(1, 4)):
        l = s.leaf()
        if rng.rand() < .4:
            l.x = np.round(l.x)
            l.ch.x = l.x.copy()
            s.dirty()
    masks = []
    for _ in range(rng.randint(3, 9)):
        q = rng.rand()
        if q < .4 and nd:
            m = s.grow(nd[rng.randint(len(nd))])
            if m is not None and s.good(m):
                masks.append(m)
        elif q < .7 and masks:
            s.grow(('multiply', 'add', 'subtract', 'multiply')[rng.randint(4)], first=masks[rng.randint(len(masks))])
        else:
            s.grow()
    last = 'build'
    for step in range(rng.randint(2, 7)):
        for n in s.ops():
            if rng.rand() < .5:
                s.check_value(n, 'mixed value', last)
            if rng.rand() < .5:
                t = s.pick_target(n)
                s.check_jac(n, t, 'mixed derivative', last)
        k = (s.set_leaf, s.set_items, s.rewire, s.change_param)[rng.randint(4)]
        if k() is not None:
            last = k.__name__
    for n in s.ops():
        for t in s.targets(n):
            if t.kind == 'leaf':
                s.check_jac(n, t, 'mixed derivative', last)


def s_names(s):
    return list(refops.OPS)


def masked(ch, rng, mon):
    """y = g(x) * mask(x) + h(mask(x)) against the same with the mask frozen as a plain array."""
    n = rng.randint(1, 6)
    x = ch.Ch(np.round(rng.randn(n), 2))
    y = ch.Ch(np.round(rng.randn(n), 2))
    fs = [lambda a, b: a > b, lambda a, b: a <= 0.3, lambda a, b: ch.isfinite(a), lambda a, b: ch.floor(a * 2.),
          lambda a, b: ch.sign(a - b), lambda a, b: ch.ceil(b), lambda a, b: ch.logical_not(a > 0.), lambda a, b: a != b,
          lambda a, b: ch.equal(ch.floor(a), ch.floor(b)), lambda a, b: ch.any(a > b) + 0. * a, lambda a, b: ch.all(a > b) * b]
    i = rng.randint(len(fs))
    gs = [lambda m: ch.sin(x * y) * m, lambda m: m * x + y ** 2., lambda m: ch.exp(x) / (m + 3.5),
          lambda m: (x - y) * (m - x) + m * m, lambda m: ch.sum(m * x) * y, lambda m: ch.concatenate((m * x, y, m))]
    j = rng.randint(len(gs))
    if i in (9, 10):        # these masks contain the variables themselves, do not freeze them as a whole
        mk = [None] * 9 + [lambda a, b: ch.any(a > b), lambda a, b: ch.all(a > b)]
        m = mk[i](x, y)
        live = gs[j](m * np.ones(n))
        frozen = lambda: gs[j](m.r.copy() * np.ones(n))
    else:
        m = fs[i](x, y)
        live = gs[j](m)
        frozen = lambda: gs[j](ch.Ch(m.r.copy()))
    mon.note('mask %d in form %d' % (i, j))
    for step in range(rng.randint(2, 6)):
        ref = frozen()
        mon.check(np.allclose(live.r, ref.r, 1e-12, 1e-12), 'mask as constant', lambda: '%s vs %s' % (live.r, ref.r), (i, j))
        for v in (x, y):
            A1, B1 = dense(live.dr_wrt(v)), dense(ref.dr_wrt(v))
            z = np.zeros((live.size, v.size))
            mon.check(np.allclose(z if A1 is None else A1, z if B1 is None else B1, 1e-12, 1e-12), 'mask as constant',
                      lambda: 'derivative %s vs %s' % (A1, B1), (i, j, 'd', n))
        if rng.rand() < .6:
            x.x = np.round(rng.randn(n), 2)
        else:
            y[rng.randint(n)] = float(np.round(rng.randn(), 2))


def case(ch, rng, mon, tier, i):
    q = rng.rand()
    if q < .45:
        direct(ch, rng, mon)
    elif q < .85:
        mixed(ch, rng, mon)
    else:
        masked(ch, rng, mon)
