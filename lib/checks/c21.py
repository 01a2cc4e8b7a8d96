"""C21: gamma, central moments and image interpolation, alone and inside larger expressions, through histories."""
import math

import numpy as np

import refops
from engine import Node, Session
from refops import A, Op

CASES = {'quick': 1500, 'thorough': 30000}
RULE = ('a distinct observation is (function, shapes, parameters, last change, target) of a value or derivative of an '
        'expression containing gamma, moment or Interp3D')
REQUIRED = ('gamma value', 'gamma derivative', 'moment value', 'moment derivative', 'interp value', 'interp derivative',
            'interp at grid', 'interp outside', 'interp image changed', 'within expressions', 'change:set', 'change:items',
            'change:shape', 'change:rewire', 'first moment')


def digamma(x):
    if x <= 0:
        return digamma(1 - x) - math.pi / math.tan(math.pi * x)
    r = 0.
    while x < 12:
        r -= 1. / x
        x += 1.
    y = 1. / (x * x)
    return r + math.log(x) - .5 / x - y * (1. / 12 - y * (1. / 120 - y * (1. / 252 - y * (1. / 240 - y / 132.))))


vgamma = np.vectorize(math.gamma, otypes=[float])
vdigamma = np.vectorize(digamma, otypes=[float])


class Gamma(Op):
    name = 'gamma'
    names = ('x',)

    def valid(self, shapes, p): return True

    def f(self, v, p):
        x = v[0]
        if np.any((x < .05) & (np.abs(x - np.round(x)) < .05)) or np.any(np.abs(x) > 12):
            raise ValueError('near a pole')
        return vgamma(x)

    def jvp(self, v, p, pos, t, out): return vgamma(v[0]) * vdigamma(v[0]) * t

    def build(self, ch, x, p):
        from chumpy import extras
        return extras.gamma(x[0]) if p.get('form', 0) == 0 else extras.gamma(x=x[0])


class Moment(Op):
    name = 'moment'
    names = None
    fixed_layout = True

    def valid(self, shapes, p): return shapes[0] == p['shape0']

    def f(self, v, p):
        a, k, ax = v[0], p['k'], p['axis']
        return np.mean((a - np.mean(a, axis=ax, keepdims=True)) ** k, axis=ax)

    def jvp(self, v, p, pos, t, out):
        a, k, ax = v[0], p['k'], p['axis']
        d = a - np.mean(a, axis=ax, keepdims=True)
        return np.mean(k * d ** (k - 1) * (t - np.mean(t, axis=ax, keepdims=True)), axis=ax)

    def build(self, ch, x, p):
        from chumpy import extras
        q = p.get('form', 0)
        if q == 0:
            return extras.moment(x[0], p['k'], p['axis'])
        if q == 1 or p['axis'] != 0:
            return extras.moment(x[0], moment=p['k'], axis=p['axis'])
        return extras.moment(x[0], p['k'])


class Interp(Op):
    name = 'Interp3D'
    names = ('locations',)

    def valid(self, shapes, p): return len(shapes[0]) == 2 and shapes[0][1] == 3

    def cell(self, v, p):
        im = p['image']
        loc = np.stack([np.clip(v[0][:, k], 0, im.shape[k] - 1) for k in range(3)], 1)
        return loc, np.floor(loc).astype(int)

    def f(self, v, p):
        im = p['image']
        loc, c = self.cell(v, p)
        out = np.zeros(len(loc))
        for i in range(len(loc)):
            g = self.grad(im, c[i])
            out[i] = im[tuple(c[i])] + np.dot(g, loc[i] - c[i])
        return out

    @staticmethod
    def grad(im, c):
        """Central differences, one-sided at the border."""
        g = np.zeros(3)
        for k in range(3):
            lo, hi = c.copy(), c.copy()
            lo[k], hi[k] = max(c[k] - 1, 0), min(c[k] + 1, im.shape[k] - 1)
            g[k] = (im[tuple(hi)] - im[tuple(lo)]) / float(hi[k] - lo[k])
        return g

    def jvp(self, v, p, pos, t, out):
        loc, c = self.cell(v, p)
        return np.array([np.dot(self.grad(p['image'], c[i]), t[i]) for i in range(len(loc))])

    def risk(self, v, p, out, active, same):
        """Derivatives are only promised inside the cells of the grid."""
        im = p['image']
        x = v[0]
        for k in range(3):
            if np.any(x[:, k] < 1e-6) or np.any(x[:, k] > im.shape[k] - 1 - 1e-6):
                return True
            if np.any(np.abs(x[:, k] - np.round(x[:, k])) < 1e-6):
                return True
        return False

    def build(self, ch, x, p):
        from chumpy import extras
        if p.get('form', 0) == 0:
            return extras.Interp3D(locations=x[0], image=p['image'].copy())
        return extras.Interp3D(p['image'].copy(), x[0])


def image(rng):
    s = tuple(int(k) for k in rng.randint(2, 6, 3))
    q = rng.rand()
    im = np.round(rng.randn(*s), 2)
    if q < .1:
        im = np.round(im * 3)
    return im


def locations(rng, im, n):
    loc = np.zeros((n, 3))
    kinds = set()
    for i in range(n):
        for k in range(3):
            d = im.shape[k]
            q = rng.rand()
            if q < .25:
                loc[i, k] = rng.randint(d)
            elif q < .35:
                loc[i, k] = (-.5, -3., d - .5, d + 4.3, -1e-3, d - 1 + 1e-3)[rng.randint(6)]
                kinds.add('outside')
            else:
                loc[i, k] = np.round(rng.rand() * (d - 1), 3)
    if rng.rand() < .4:
        loc = np.stack([np.clip(np.floor(loc[:, k]) + .1 + .8 * rng.rand(n), .1, im.shape[k] - 1.1) for k in range(3)], 1)
        kinds = set()
    if rng.rand() < .25:
        loc = np.stack([rng.randint(0, im.shape[k], n) for k in range(3)], 1).astype(float)
        kinds = {'grid'}
    return loc, kinds


def interp(ch, rng, mon):
    s = Session(ch, rng, mon, ops=('add', 'multiply', 'sin', 'sum', 'getitem', 'reshape', 'square'))
    im = image(rng)
    n = rng.randint(1, 6)
    loc, kinds = locations(rng, im, n)
    l = s.leaf(x=loc)
    mode = rng.randint(3)
    src = l
    if mode == 1:      # locations computed from something else
        w = Node('op', op=refops.OPS['multiply'], ins=[l, Node('const', x=A(np.ones((1, 3))), ch=np.ones((1, 3)))],
                 p={'form': 0})
        if s.good(w):
            src = s.realise(w)
    node = Node('op', op=Interp(), ins=[src], p={'image': im, 'form': int(rng.randint(2))})
    mon.note('image %s, %d locations' % (im.shape, n))
    if not s.good(node):
        return
    s.realise(node)
    for _ in range(rng.randint(0, 3)):
        s.grow(first=node)
    last = 'build'
    for step in range(rng.randint(3, 10)):
        q = rng.rand()
        if q < .3:
            loc, kinds = locations(rng, node.p['image'], loc.shape[0])
            l.x = A(loc)
            s.dirty()
            l.ch.x = loc.copy()
            last = 'set'
            mon.saw('change:set')
        elif q < .45:
            im = image(rng) if rng.rand() < .5 else np.round(node.p['image'] + rng.randn(*node.p['image'].shape), 2)
            node.p = dict(node.p, image=im)
            s.dirty()
            node.ch.image = im.copy()
            mon.note('new image %s' % (im.shape,))
            mon.saw('interp image changed', im.shape)
            last = 'image'
        elif q < .5 and len(s.nodes) <= 3:
            loc, kinds = locations(rng, node.p['image'], rng.randint(1, 6))
            l.x = A(loc)
            s.dirty()
            l.ch.x = loc.copy()
            mon.note('now %d locations' % len(loc))
            last = 'shape'
            mon.saw('change:shape')
        elif q < .75:
            s.check_value(node, 'interp value', last)
            if 'outside' in kinds:
                mon.saw('interp outside', (loc.shape, last))
            im = node.p['image']
            on = [i for i in range(len(loc)) if all(loc[i, k] == int(loc[i, k]) and 0 <= loc[i, k] < im.shape[k]
                                                    for k in range(3))]
            if on:
                got = node.ch.r
                want = np.array([im[tuple(loc[i].astype(int))] for i in on])
                mon.check(np.array_equal(got[on], want), 'interp at grid', lambda: 'got %s, image has %s' % (got[on], want),
                          (im.shape, len(on)))
        else:
            s.check_jac(node, l if rng.rand() < .7 else src, 'interp derivative', last)
    for m in s.ops():
        s.check_value(m, 'interp value', last)
        s.check_jac(m, l, 'interp derivative', last)


def first_moment(ch, rng, mon):
    from chumpy import extras
    shape = tuple(int(v) for v in rng.randint(1, 4, rng.randint(1, 5)))
    x = ch.Ch(np.round(rng.randn(*shape), 2))
    ax = int(rng.randint(-len(shape), len(shape)))
    m = extras.moment(x, 1, ax) if rng.rand() < .5 else extras.moment(x * 2., axis=ax)
    want = np.zeros(shape[:ax % len(shape)] + shape[ax % len(shape) + 1:])
    got = np.asarray(m.r if hasattr(m, 'r') else m)
    mon.check(np.array_equal(np.atleast_1d(got), np.atleast_1d(want)), 'first moment',
              lambda: '%s of %s axis %d, expected zeros of %s' % (got, shape, ax, want.shape), (shape, ax))


def within(ch, rng, mon):
    s = Session(ch, rng, mon, ops=[k for k in refops.OPS if k not in refops.LINALG])
    s.build(rng.randint(1, 5), rng.randint(1, 4))
    if rng.rand() < .6:
        s.leaf(x=np.round(.3 + 4 * rng.rand(*s.rand_shape()), 2))
    mine = []
    for _ in range(rng.randint(1, 4)):
        a = s.pick(s.usable())
        if a is None:
            return
        v = s.val(a)
        if rng.rand() < .5:
            n = Node('op', op=Gamma(), ins=[a], p={'form': int(rng.randint(2))})
        else:
            if v.ndim == 0:
                continue
            n = Node('op', op=Moment(), ins=[a], p={'k': int(rng.randint(2, 6)), 'axis': int(rng.randint(-v.ndim, v.ndim)),
                                                    'form': int(rng.randint(3)), 'shape0': v.shape})
        if not s.good(n):
            s.memo.pop(n, None)
            continue
        s.realise(n)
        mine.append(n)
        if rng.rand() < .6:
            s.grow(first=n)
            mon.saw('within expressions')
    last = 'build'
    for step in range(rng.randint(2, 8)):
        q = rng.rand()
        if q < .5:
            fn = (s.set_leaf, s.set_items, s.rewire, s.reshape_leaf)[rng.randint(4)]
            if fn() is not None:
                last = {'set_leaf': 'set', 'set_items': 'items', 'rewire': 'rewire', 'reshape_leaf': 'shape'}[fn.__name__]
                mon.saw('change:' + last)
        elif mine:
            n = mine[rng.randint(len(mine))]
            if rng.rand() < .5:
                s.check_value(n, n.name + ' value', last)
            else:
                s.check_jac(n, s.pick_target(n), n.name + ' derivative', last)
    for n in mine:
        s.check_value(n, n.name + ' value', last)
        for t in s.targets(n):
            s.check_jac(n, t, n.name + ' derivative', last)
    for n in s.ops():
        if any(m in s.reach(n) for m in mine):
            s.check_value(n, 'within expressions', last)
            t = s.pick_target(n)
            s.check_jac(n, t, 'within expressions', last)


def case(ch, rng, mon, tier, i):
    q = rng.rand()
    if q < .4:
        interp(ch, rng, mon)
    elif q < .45:
        first_moment(ch, rng, mon)
    else:
        within(ch, rng, mon)
