"""C17: creation and random routines in lockstep with NumPy's, and index helpers on current values."""
import warnings

import numpy as np

import refops
from engine import Session

CASES = {'quick': 1500, 'thorough': 30000}
RULE = ('a distinct observation is (routine, form of the arguments, result shape, interleaving so far) of a routine called '
        'in lockstep with its NumPy counterpart, or an index helper on an expression after some kind of change')
RANDOM = ('rand', 'randn', 'randint', 'random_integers', 'random_sample', 'random', 'ranf', 'sample', 'beta', 'binomial',
          'chisquare', 'dirichlet', 'exponential', 'f', 'gamma', 'geometric', 'gumbel', 'hypergeometric', 'laplace',
          'logistic', 'lognormal', 'logseries', 'multinomial', 'multivariate_normal', 'negative_binomial',
          'noncentral_chisquare', 'noncentral_f', 'normal', 'pareto', 'poisson', 'power', 'rayleigh', 'standard_cauchy',
          'standard_exponential', 'standard_gamma', 'standard_normal', 'standard_t', 'triangular', 'uniform', 'vonmises',
          'wald', 'weibull', 'zipf')
CREATE = ('empty', 'empty_like', 'eye', 'identity', 'ones', 'ones_like', 'zeros', 'zeros_like', 'array', 'arange',
          'linspace', 'logspace', 'fromfunction', 'fromiter', 'tri', 'meshgrid')
HELP = ('argmax', 'argmin', 'nanargmax', 'nanargmin', 'argwhere', 'nonzero', 'flatnonzero', 'shape')
REQUIRED = tuple('random:' + k for k in RANDOM + ('seed', 'get_state', 'set_state')) + \
    tuple('create:' + k for k in CREATE) + tuple('helper:' + k for k in HELP) + \
    ('generator state', 'independent', 'refused alike')


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def state_eq(a, b):
    return a[0] == b[0] and same(a[1], b[1]) and a[2:] == b[2:]


def alias(name):
    return {'ranf': 'random_sample', 'sample': 'random_sample', 'random': 'random_sample'}.get(name, name)


def size(rng):
    return (None, 1, 4, (2,), (2, 3), (3, 1), (1, 2, 2), ())[rng.randint(8)]


def pos(rng):
    q = rng.rand()
    if q < .6:
        return float(np.round(.3 + 2 * rng.rand(), 2))
    return np.round(.3 + 2 * rng.rand(3), 2)


def prob(rng):
    return float(np.round(.1 + .8 * rng.rand(), 2))


def random_args(name, rng):
    """(positional, keywords) of a valid call."""
    s = size(rng)
    if name in ('rand', 'randn'):
        return tuple(int(v) for v in rng.randint(1, 4, rng.randint(0, 4))), {}
    if name in ('random_sample', 'random', 'ranf', 'sample', 'standard_cauchy', 'standard_exponential', 'standard_normal'):
        return ((), {'size': s}) if rng.rand() < .5 else ((s,) if s is not None else (), {})
    if name == 'randint':
        a = int(rng.randint(-5, 5))
        if rng.rand() < .3:
            return (a + 6,), {'size': s}
        kw = {'size': s}
        if rng.rand() < .3:
            kw['dtype'] = (np.int32, np.int64)[rng.randint(2)]
        return (a, a + int(rng.randint(1, 9))), kw
    if name == 'random_integers':
        a = int(rng.randint(-5, 5))
        return (a, a + int(rng.randint(1, 9))), {'size': s}
    one = {'chisquare': 'df', 'exponential': 'scale', 'pareto': 'a', 'poisson': 'lam', 'power': 'a', 'rayleigh': 'scale',
           'standard_gamma': 'shape', 'standard_t': 'df', 'weibull': 'a'}
    two = {'beta': ('a', 'b'), 'f': ('dfnum', 'dfden'), 'gamma': ('shape', 'scale'), 'gumbel': ('loc', 'scale'),
           'laplace': ('loc', 'scale'), 'logistic': ('loc', 'scale'), 'lognormal': ('mean', 'sigma'),
           'normal': ('loc', 'scale'), 'noncentral_chisquare': ('df', 'nonc'), 'vonmises': ('mu', 'kappa'),
           'wald': ('mean', 'scale')}
    if name in one:
        args, names = [pos(rng)], [one[name]]
    elif name in two:
        args, names = [pos(rng), pos(rng)], list(two[name])
    elif name == 'noncentral_f':
        args, names = [pos(rng), pos(rng), pos(rng)], ['dfnum', 'dfden', 'nonc']
    elif name == 'uniform':
        a = float(np.round(rng.randn(), 2))
        args, names = [a, a + pos(rng)], ['low', 'high']
    elif name == 'triangular':
        a = float(np.round(rng.randn(), 2))
        args, names = [a, a + .5, a + .7], ['left', 'mode', 'right']
    elif name == 'binomial':
        args, names = [int(rng.randint(1, 9)), prob(rng)], ['n', 'p']
    elif name == 'negative_binomial':
        args, names = [int(rng.randint(1, 9)), prob(rng)], ['n', 'p']
    elif name in ('geometric', 'logseries'):
        args, names = [prob(rng)], ['p']
    elif name == 'hypergeometric':
        args, names = [int(rng.randint(1, 9)), int(rng.randint(1, 9)), 2], ['ngood', 'nbad', 'nsample']
    elif name == 'zipf':
        args, names = [1.5 + prob(rng)], ['a']
    elif name == 'dirichlet':
        args, names = [.5 + rng.rand(rng.randint(2, 4))], ['alpha']
    elif name == 'multinomial':
        p = rng.rand(3)
        args, names = [int(rng.randint(1, 9)), p / p.sum()], ['n', 'pvals']
    else:
        assert name == 'multivariate_normal', name
        k = rng.randint(1, 4)
        B = np.round(rng.randn(k, k), 2)
        args, names = [np.round(rng.randn(k), 2), B.dot(B.T) + np.eye(k)], ['mean', 'cov']
    if any(np.ndim(a) for a in args) and name not in ('dirichlet', 'multinomial', 'multivariate_normal'):
        s = (None, 3, (2, 3))[rng.randint(3)]
    elif name in ('dirichlet', 'multinomial', 'multivariate_normal') and s == ():
        s = None
    q = rng.rand()
    if q < .5:
        return tuple(args), ({} if s is None else {'size': s})
    if q < .7:
        return tuple(args) + (s,), {}
    return (), dict(list(zip(names, args)) + [('size', s)])


def invalid(name, rng):
    bad = {'normal': (0., -1.), 'uniform': None, 'gamma': (-1., 1.), 'beta': (-1., 1.), 'binomial': (5, 1.5),
           'poisson': (-1.,), 'exponential': (-2.,), 'randint': (5, 5), 'rand': (-1,), 'triangular': (1., 0., 2.),
           'geometric': (1.5,), 'zipf': (.5,), 'laplace': (0., -1.), 'dirichlet': ([-1., 1.],)}
    return bad.get(name)


def expect_refusal(fn, args):
    try:
        fn(*args)
    except Exception as e:
        return type(e)
    return None


def draws(ch, rng, mon):
    """A sequence of draws through chumpy and NumPy against a private replica of the generator."""
    twin = np.random.RandomState(0)
    twin.set_state(np.random.get_state())
    held = []
    marks = []
    inter = ''
    for step in range(rng.randint(3, 14)):
        q = rng.rand()
        if q < .08:
            k = int(rng.randint(1 << 20)) if rng.rand() < .7 else [int(v) for v in rng.randint(0, 99, 3)]
            ch.random.seed(k)
            twin.seed(k)
            mon.note('seed %s' % k)
            mon.check(state_eq(np.random.get_state(), twin.get_state()), 'random:seed', 'generator differs after seed')
            inter = 'seed'
        elif q < .16:
            got = ch.random.get_state()
            mon.check(state_eq(got, twin.get_state()), 'random:get_state', 'state reported is not the generator\'s')
            marks.append(got)
            inter = 'get'
        elif q < .24 and marks:
            st = marks[rng.randint(len(marks))]
            ch.random.set_state(st)
            twin.set_state(st)
            mon.note('set_state')
            mon.check(state_eq(np.random.get_state(), twin.get_state()), 'random:set_state', 'state was not installed')
            inter = 'set'
        elif q < .36:
            name = ('rand', 'randn', 'normal', 'randint')[rng.randint(4)]
            args = (3,) if name != 'randint' else (9,)
            mon.note('numpy %s' % name)
            a, b = getattr(np.random, name)(*args), getattr(twin, name)(*args)
            mon.check(same(a, b), 'generator state', 'NumPy draws from another state after chumpy')
            inter = 'numpy'
        elif q < .42:
            name = [k for k in RANDOM if invalid(k, rng)][rng.randint(13)]
            bad = invalid(name, rng)
            mon.note('invalid %s%s' % (name, bad))
            a = expect_refusal(getattr(ch.random, name), bad)
            b = expect_refusal(getattr(twin, alias(name)), bad)
            mon.check(a is b and a is not None, 'refused alike', lambda: '%s%s: chumpy %s, NumPy %s' % (name, bad, a, b),
                      (name,))
            inter = 'bad'
        else:
            name = RANDOM[rng.randint(len(RANDOM))]
            args, kw = random_args(name, rng)
            mon.note('%s%s%s' % (name, args, kw))
            keep = [np.array(a) for a in args if isinstance(a, np.ndarray)]
            got = getattr(ch.random, name)(*args, **kw)
            want = np.asarray(getattr(twin, alias(name))(*args, **kw))
            mon.check(type(got) is ch.Ch, 'random:' + name, lambda: 'a %s came back' % type(got))
            want1 = want if want.ndim else want.reshape(1)
            mon.check(same(got.r, want1.astype(np.float64)), 'random:' + name,
                      lambda: 'drew %s, NumPy %s' % (got.r, want), (len(args), tuple(sorted(kw)), want.shape, inter))
            mon.check(all(same(a, b) for a, b in zip([a for a in args if isinstance(a, np.ndarray)], keep)),
                      'independent', 'an argument was changed')
            held.append((name, got, want1.astype(np.float64)))
            inter += name[:2]
            inter = inter[-6:]
        mon.check(state_eq(np.random.get_state(), twin.get_state()), 'generator state',
                  'generator consumed differently after the last call', (inter,))
        if held and rng.rand() < .25:
            k = rng.randint(len(held))
            name, g, w = held[k]
            w = w + 1.
            g.x = w.copy()
            held[k] = (name, g, w)
    for name, g, w in held:
        mon.check(same(g.r, w), 'independent', lambda: 'the variable drawn from %s no longer holds what was drawn' % name,
                  (name, len(held)))


def shape(rng):
    return tuple(int(v) for v in rng.randint(1, 4, rng.randint(0, 4)))


def dt(rng):
    return (None, float, int, np.float32, np.float64, bool)[rng.randint(6)]


def create_args(name, rng, like):
    f = lambda: float(np.round(3 * rng.randn(), 2))
    n = lambda: int(rng.randint(1, 6))
    kw = {}
    d = dt(rng)
    if d is not None and rng.rand() < .6:
        kw['dtype'] = d
    if name in ('empty', 'zeros', 'ones'):
        s = shape(rng) if rng.rand() < .7 else n()
        if rng.rand() < .2:
            kw['order'] = 'CF'[rng.randint(2)]
        return (s,), kw
    if name in ('empty_like', 'zeros_like', 'ones_like'):
        return (like,), kw
    if name == 'eye':
        a = (n(),) if rng.rand() < .4 else (n(), n())
        if rng.rand() < .5:
            kw['k'] = int(rng.randint(-2, 3))
        return a, kw
    if name == 'identity':
        return (n(),), kw
    if name == 'array':
        if rng.rand() < .3:
            kw['ndmin'] = int(rng.randint(0, 4))
        return (like,), kw
    if name == 'arange':
        q = rng.randint(4)
        kw.pop('dtype', None) if kw.get('dtype') is bool else None
        if q == 0:
            return (n(),), kw
        a = f()
        if q == 1:
            return (a, a + 1 + n()), {}
        if q == 2:
            return (a, a + n(), .3 + rng.rand()), {}
        return (a, a - n(), -(.3 + rng.rand())), {}
    if name == 'linspace':
        q = rng.randint(3)
        if q == 0:
            return (f(), f()), {'num': n() + 1}
        if q == 1:
            return (f(), f(), n() + 1), {'endpoint': bool(rng.randint(2))}
        return (np.round(rng.randn(2), 2), np.round(rng.randn(2), 2), n() + 1), {'axis': int(rng.randint(-1, 2))}
    if name == 'logspace':
        return ((f() / 3, f() / 3, n() + 1), {}) if rng.rand() < .5 else ((f() / 3, f() / 3), {'num': n() + 1, 'base': 2.5})
    if name == 'fromfunction':
        k = rng.randint(1, 4)
        s = tuple(int(v) for v in rng.randint(1, 4, k))
        w = np.round(rng.randn(k), 2)
        return (lambda *ix: sum(a * b for a, b in zip(w, ix)), s), ({'dtype': int} if rng.rand() < .5 else {})
    if name == 'fromiter':
        v = [f() for _ in range(n())]
        if rng.rand() < .3:
            return (v, float), {'count': len(v)}
        return (tuple(v), (float, int)[rng.randint(2)]), {}
    if name == 'tri':
        return ((n(),) if rng.rand() < .4 else (n(), n())), ({'k': int(rng.randint(-2, 3))} if rng.rand() < .5 else {})
    a, b = np.round(rng.randn(n()), 2), np.round(rng.randn(n()), 2)
    if rng.rand() < .3:
        return (a, b, np.arange(2.)), {'indexing': 'ij'}
    return (a, b), {'indexing': ('xy', 'ij')[rng.randint(2)]}


def create(ch, rng, mon, s):
    """Creation routines, their arguments changed afterwards."""
    made = []
    for step in range(rng.randint(2, 8)):
        name = CREATE[rng.randint(len(CREATE))]
        like = [np.round(rng.randn(*shape(rng)), 2), [[1., 2.], [3., 4.5]], [1, 2, 3], 2.5, np.arange(4)][rng.randint(5)]
        like = np.array(like) if isinstance(like, float) and rng.rand() < .5 else like
        node = None
        ref = like
        if name.endswith('_like') or name == 'array':
            if rng.rand() < .4:
                node = s.pick([m for m in s.nodes if m.kind != 'const' and s.good(m)])
                if node is not None:
                    like, ref = node.ch, s.val(node)
        state = rng.get_state()
        args, kw = create_args(name, rng, like)
        rng.set_state(state)
        rargs, rkw = create_args(name, rng, ref)
        if node is not None and kw.get('ndmin') is None and kw.get('dtype') not in (None, float, np.float64):
            kw, rkw = {}, {}
        if name == 'fromiter':
            args = (iter(args[0]),) + args[1:]
            rargs = (iter(rargs[0]),) + rargs[1:]
        mon.note('%s %s %s' % (name, [getattr(a, 'shape', None) or type(a).__name__ for a in args], sorted(kw.items(),
                                                                                                      key=str)))
        try:
            want = np.asarray(getattr(np, name)(*rargs, **rkw))
        except Exception as e:
            k = expect_refusal(lambda: getattr(ch, name)(*args, **kw), ())
            mon.check(k is not None, 'refused alike', '%s: NumPy raises %s, chumpy does not' % (name, type(e)), (name,))
            continue
        got = getattr(ch, name)(*args, **kw)
        mon.check(type(got) is ch.Ch, 'create:' + name, lambda: 'a %s came back' % type(got))
        w1 = want if want.ndim else want.reshape(1)
        if name in ('empty', 'empty_like'):
            ok = got.shape == w1.shape
        elif node is not None:
            ok = got.shape == w1.shape and np.allclose(got.r, w1, 1e-8, 1e-12, equal_nan=True)
        else:
            ok = same(got.r, w1.astype(np.float64))
        mon.check(ok, 'create:' + name, lambda: 'holds %s %s, NumPy %s' % (np.asarray(got.x).dtype, got.r, want),
                  (len(args), tuple(sorted(kw)), want.shape, type(like).__name__))
        w = np.array(got.r)
        # fresh: nothing else can change it
        if name in ('array', 'linspace', 'meshgrid') and isinstance(args[0], np.ndarray) and args[0].ndim:
            for a in args:
                if isinstance(a, np.ndarray):
                    a += 7
        elif name == 'array' and isinstance(like, list):
            like[0] = [9., 9.] if isinstance(like[0], list) else 9
        made.append((name, got, w))
        if rng.rand() < .5:
            again = getattr(ch, name)(*create_args(name, rng, np.ones((2, 2)))[0])
            mon.check(again is not got, 'independent', 'the same variable was handed out twice')
            if np.asarray(again.x).ndim and np.asarray(again.x).dtype == np.float64 and again.size:
                again[tuple(0 for _ in again.shape)] = 99.
    for k, (name, g, w) in enumerate(made):
        if rng.rand() < .3 and g.size and np.asarray(g.x).ndim and np.asarray(g.x).dtype == np.float64:
            g[tuple(0 for _ in g.shape)] = -5.
            w = w.copy()
            w[tuple(0 for _ in w.shape)] = -5.
            made[k] = (name, g, w)
    if s.set_leaf() is not None:
        pass
    for name, g, w in made:
        if name not in ('empty', 'empty_like'):
            mon.check(same(g.r, w), 'independent', lambda: 'the variable from %s changed by itself' % name, (name,))
            J = g.dr_wrt(g)
            mon.check(J is not None and J.shape == (g.size, g.size), 'independent', 'a variable without a derivative')
            for m in s.leaves()[:2]:
                mon.check(g.dr_wrt(m.ch) is None, 'independent', 'depends on another variable')


def helpers(ch, rng, mon, s):
    last = 'build'
    for step in range(rng.randint(4, 12)):
        q = rng.rand()
        if q < .25:
            k = (s.set_leaf, s.set_items, s.rewire, s.reshape_leaf)[rng.randint(4)]
            if k() is not None:
                last = k.__name__
            continue
        name = HELP[rng.randint(len(HELP))]
        if rng.rand() < .25:
            v = np.round(2 * rng.randn(*shape(rng)))
            if rng.rand() < .4 and v.ndim:
                v.flat[rng.randint(v.size)] = np.nan
            if not v.ndim and name in ('argwhere', 'nonzero', 'flatnonzero'):
                v = v.reshape(1)
            q = rng.randint(3)
            if q == 0:
                a = v
            elif q == 1:
                a = ch.Ch(v)
                v = np.atleast_1d(v)
            else:
                a = ch.Ch(v) * 1.
                v = np.atleast_1d(v)
            kind = ('array', 'variable', 'expression')[q]
        else:
            n = s.pick([m for m in s.nodes if m.kind != 'const' and s.good(m)])
            if n is None:
                continue
            v = s.val(n)
            a = n.ch
            # the answer must not hang on the last bits of the computed value
            u = np.unique(v)
            if u.size > 1 and np.min(np.diff(u)) < 1e-6 * (1 + np.max(np.abs(u))):
                mon.skip('ties within rounding')
                continue
            if u.size < v.size and n.kind != 'leaf':
                mon.skip('ties within rounding')
                continue
            if np.any(np.abs(v) < 1e-9) and n.kind != 'leaf':
                mon.skip('ties within rounding')
                continue
            kind = n.name
        sig = (kind, v.shape, last)
        if name.startswith(('arg', 'nanarg')) and name != 'argwhere':
            axes = [None] + list(range(-v.ndim, v.ndim))
            ax = axes[rng.randint(len(axes))]
            form = rng.randint(3)
            call = [lambda f, z: f(z, ax), lambda f, z: f(z, axis=ax), lambda f, z: f(z)][form]
            try:
                want = call(getattr(np, name), v)
            except ValueError:
                k = expect_refusal(lambda: call(getattr(ch, name), a), ())
                mon.check(k is ValueError, 'refused alike', '%s of all-NaN slice' % name)
                continue
            got = call(getattr(ch, name), a)
            mon.check(same(got, want) and np.asarray(got).dtype == np.asarray(want).dtype, 'helper:' + name,
                      lambda: '%s axis %s after %s: got %s expected %s for %s' % (name, ax, last, got, want, v), sig + (ax,))
        elif name == 'shape':
            mon.check(tuple(ch.shape(a)) == np.shape(v), 'helper:shape', lambda: '%s vs %s' % (ch.shape(a), v.shape), sig)
        elif name == 'nonzero':
            got, want = ch.nonzero(a), np.nonzero(v)
            mon.check(type(got) is tuple and len(got) == len(want) and all(same(x, y) for x, y in zip(got, want)),
                      'helper:nonzero', lambda: 'after %s: got %s expected %s' % (last, got, want), sig)
            if hasattr(a, 'nonzero') and hasattr(a, 'dterms'):
                got = a.nonzero()
                mon.check(len(got) == len(want) and all(same(x, y) for x, y in zip(got, want)), 'helper:nonzero',
                          lambda: 'method: got %s expected %s' % (got, want), sig + ('m',))
        else:
            got, want = getattr(ch, name)(a), getattr(np, name)(v)
            mon.check(same(got, want), 'helper:' + name, lambda: 'after %s: got %s expected %s' % (last, got, want), sig)


def case(ch, rng, mon, tier, i):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        q = rng.rand()
        if q < .5:
            draws(ch, rng, mon)
            return
        s = Session(ch, rng, mon, ops=[k for k in refops.OPS if k not in refops.LINALG])
        s.build(rng.randint(2, 6), rng.randint(1, 4))
        if q < .75:
            create(ch, rng, mon, s)
        else:
            helpers(ch, rng, mon, s)
