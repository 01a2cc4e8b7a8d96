"""C18: failures are reported, change no variable and leave the graph usable. Faults are injected into user-defined
operations at every point where chumpy calls them; invalid requests are mixed into histories."""
import contextlib
import io

import numpy as np

import refops
from engine import Node, Reject, Session, compare, dense
from refops import A, Op

CASES = {'quick': 1600, 'thorough': 30000}
RULE = ('a distinct observation is (point of failure or kind of invalid request, what was being read, position of the '
        'failing operation, what happened before) of a failure and of the reads that follow it')
POINTS = ('compute_r', 'compute_dr_wrt', 'on_changed', 'property')
REQUIRED = tuple('fault:' + k for k in POINTS) + (
    'variables unchanged', 'value during fault', 'derivative during fault', 'value after recovery',
    'derivative after recovery', 'invalid request', 'misfit raises', 'minimise refused', 'first evaluation fails',
    'guarded operation')


class Boom(Exception):
    pass


class Stop(KeyboardInterrupt):
    """The user interrupts a long evaluation."""


class Switch(object):
    def __init__(self):
        self.disarm()

    def disarm(self):
        self.point = self.kind = None
        self.count = 0
        self.fired = False

    def arm(self, point, who, count, lasting, kind):
        self.point, self.who, self.count, self.lasting, self.kind = point, who, count, lasting, kind
        self.fired = False

    def hit(self, point, who):
        if self.point != point or self.who != who:
            return
        self.count -= 1
        if self.count <= 0:
            self.fired = True
            if not self.lasting:
                self.point = None
            raise self.kind('injected in %s' % point)


SW = Switch()
_cls = {}


def probe_class(ch):
    """(k + a^2) a + cos(b): the factor is a derived property, the second term is refreshed on notification."""
    if 'probe' in _cls:
        return _cls['probe']

    class Probe(ch.Ch):
        dterms = 'a', 'b'
        terms = 'k', 'tagged'
        term_order = 'a', 'b', 'k', 'tagged'

        def on_changed(self, which):
            if 'b' in which:
                self._w = None
                SW.hit('on_changed', self.tagged)
                self._w = np.cos(self.b.r)

        @ch.depends_on('a', 'k')
        def factor(self):
            f = self.k + self.a.r ** 2
            SW.hit('property', self.tagged)
            return f

        def compute_r(self):
            SW.hit('compute_r', self.tagged)
            return self.factor * self.a.r + self._w

        def compute_dr_wrt(self, wrt):
            if wrt is self.a or wrt is self.b:
                SW.hit('compute_dr_wrt', self.tagged)
            d = None
            if wrt is self.a:
                d = np.diag((self.factor + 2 * self.a.r ** 2).ravel())
            if wrt is self.b:
                e = np.diag(-np.sin(self.b.r).ravel())
                d = e if d is None else d + e
            return d

    _cls['probe'] = Probe
    return Probe


class ProbeOp(Op):
    name = 'Probe'
    nin = 2
    names = ('a', 'b')
    attrs = {'k': 'k'}

    def gen(self, rng, shapes): return {'k': float(np.round(rng.randn(), 2))}
    def valid(self, shapes, p): return len(shapes) < 2 or shapes[0] == shapes[1]
    def f(self, v, p): return (p['k'] + v[0] ** 2) * v[0] + np.cos(v[1])

    def jvp(self, v, p, pos, t, out):
        return (p['k'] + 3 * v[0] ** 2) * t if pos == 0 else -np.sin(v[1]) * t

    def build(self, ch, x, p):
        return probe_class(ch)(a=x[0], b=x[1], k=p['k'], tagged=p['who'])


def probe(ch, rng, mon, s, at=None):
    a = at or s.choose(s.usable())
    b = s.pick([m for m in s.usable() if s.val(m).shape == s.val(a).shape])
    if b is None or rng.rand() < .4:
        b = s.leaf(x=s.rand_val(s.val(a).shape))
    p = ProbeOp().gen(rng, ())
    p['who'] = len(s.nodes)
    p['form'] = 0
    n = Node('op', op=ProbeOp(), ins=[a, b], p=p)
    if not s.good(n):
        return None
    return s.realise(n)


def contents(s):
    return [(n, A(np.asarray(n.ch.x, np.float64)).copy()) for n in s.leaves()]


def unchanged(mon, s, before, what):
    for n, x in before:
        now = A(np.asarray(n.ch.x, np.float64))
        mon.check(now.shape == x.shape and np.array_equal(now, x), 'variables unchanged',
                  lambda: '%s: variable %s was %s, now %s' % (what, n.tag, x, now), (what,))


def read(s, mon, rng, n, tag):
    """A judged read that may be hit by the armed fault. Returns the exception."""
    q = rng.randint(4)
    before = contents(s)
    point = SW.point
    e = None
    what = 'value' if q < 2 else 'derivative'
    try:
        if q < 2:
            s.check_value(n, 'value ' + tag, str(point))
        else:
            t = s.pick_target(n)
            get = None if q == 2 else (lambda: n.ch.dr_wrt(t.ch, reverse_mode=True))
            s.check_jac(n, t, 'derivative ' + tag, str(point), get)
    except (Boom, Stop) as ex:
        e = ex
        mon.saw('fault:' + str(point), (what, n.name, type(e).__name__))
    unchanged(mon, s, before, 'read')
    return e


def faults(ch, rng, mon, s):
    probes = []
    for _ in range(rng.randint(1, 4)):
        p = probe(ch, rng, mon, s)
        if p is not None:
            probes.append(p)
            for _ in range(rng.randint(0, 3)):
                s.grow(first=p if rng.rand() < .7 else None)
    if not probes:
        return
    for rnd in range(rng.randint(1, 5)):
        for _ in range(rng.randint(0, 3)):
            (s.set_leaf, s.set_items, s.rewire, s.change_param, s.reshape_leaf)[rng.randint(5)]()
            if rng.rand() < .3:
                n = s.pick(s.ops())
                if n is not None:
                    s.check_value(n, 'value after recovery', 'change')
        p = probes[rng.randint(len(probes))]
        if p not in s.nodes:
            continue
        SW.arm(POINTS[rng.randint(4)], p.p['who'], rng.randint(1, 4), rng.rand() < .5,
               (Boom, Stop)[rng.rand() < .3])
        mon.note('arm %s of %s, occurrence %d, %s' % (SW.point, p.tag, SW.count, 'lasting' if SW.lasting else 'once'))
        above = [m for m in s.ops() if p in s.reach(m) and s.good(m)]
        for _ in range(rng.randint(1, 6)):
            if rng.rand() < .25:
                (s.set_leaf, s.set_items)[rng.randint(2)]()
            n = s.pick(above) if above and rng.rand() < .8 else s.pick(s.ops())
            if n is None or not s.good(n):
                continue
            e = read(s, mon, rng, n, 'during fault')
            if e is not None:
                mon.note('read of %s failed' % n.tag)
                if rng.rand() < .3:          # straight away again
                    e = read(s, mon, rng, n, 'during fault')
        SW.disarm()
        mon.note('disarm')
        for m in sorted(above, key=lambda m: rng.rand()):
            if rng.rand() < .7:
                s.check_value(m, 'value after recovery', 'fault')
            if rng.rand() < .5:
                s.check_jac(m, s.pick_target(m), 'derivative after recovery', 'fault')
    for n in s.ops():
        s.check_value(n, 'value after recovery', 'end')
        for t in s.targets(n):
            if t.kind == 'leaf' and rng.rand() < .5:
                s.check_jac(n, t, 'derivative after recovery', 'end')


def misfit(ch, rng, mon, s):
    """A variable takes contents that some operations cannot digest, and gives them up again."""
    for rnd in range(rng.randint(1, 4)):
        n = s.pick(s.leaves())
        old = n.x
        used = [m for m in s.ops() if n in s.reach(m) and s.good(m)]
        if rng.rand() < .5 and old.ndim == 2 and old.shape[0] == old.shape[1] and any(m.name in refops.LINALG for m in used):
            new = np.zeros_like(old)
        else:
            new = A(s.rand_val(tuple(int(v) for v in rng.randint(1, 5, rng.randint(1, 4)))))
        n.x = new
        s.dirty()
        n.ch.x = np.array(new)
        mon.note('misfit in %s: shape %s' % (n.tag, new.shape))
        for m in used:
            if not all(s.good(i) for i in m.ins) or m.name in ('signdet', 'logabsdet', 'det'):
                continue
            iv = [s.val(i) for i in m.ins]
            try:
                with np.errstate(all='ignore'):
                    m.op.f(iv, m.p)
                bad = None
            except refops.Narrow:
                continue
            except (ValueError, IndexError, np.linalg.LinAlgError) as e:
                bad = e
            if bad is None:
                continue
            before = contents(s)
            try:
                got = m.ch.r
            except Exception as e:
                got = None
            mon.check(got is None, 'misfit raises', lambda: 'node %s (%s) of inputs %s gives %s although NumPy says %s' % (
                m.tag, m.name, [v.shape for v in iv], got, bad), (m.name, tuple(v.shape for v in iv)))
            if rng.rand() < .5:
                try:
                    m.ch.dr_wrt(n.ch)
                except Exception:
                    pass
            unchanged(mon, s, before, 'misfit')
            for k in used:
                if rng.rand() < .4:
                    try:
                        k.ch.r
                        k.ch.dr_wrt(n.ch)
                    except Exception:
                        pass
        back = rng.rand() < .5
        n.x = old if back else A(s.rand_val(old.shape))
        s.dirty()
        if not back and not all(s.good(m) for m in used):
            n.x = old
            s.dirty()
        n.ch.x = np.array(n.x)
        mon.note('variable %s fits again' % n.tag)
        for m in sorted(used, key=lambda m: rng.rand()):
            s.check_value(m, 'value after recovery', 'misfit')
            if rng.rand() < .6:
                s.check_jac(m, s.pick_target(m), 'derivative after recovery', 'misfit')


def requests(ch, rng):
    """Requests that cannot be honoured: name -> function of (a variable, an expression)."""
    x2 = np.arange(6.).reshape(2, 3)

    def fresh(*shape):
        return ch.Ch(np.round(rng.randn(*shape), 2))

    def put(c, key, v):
        c[key] = v

    def reserved():
        class Bad(ch.Ch):
            dterms = ('r',)
        return Bad(r=1.)

    def duplicate(a):
        ch.minimize(a.ravel() - 1., [a, a], method='dogleg', options={'maxiter': 2, 'disp': 0})

    def product(way):
        import scipy.sparse as sp
        v = fresh(int(rng.randint(2, 6)))
        top = (lambda: ch.sin(v), lambda: ch.exp(ch.sin(v)) * 2., lambda: ch.sin(v) * v, lambda: v[::-1] + v)[rng.randint(4)]()
        m = rng.randn(2, v.size + 1 + rng.randint(2))
        m = sp.csr_matrix(m) if rng.rand() < .4 else m
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink):
            return top.lop(v, m) if way == 'lop' else top.lmult_wrt(m, v)

    bad_shape = lambda c: tuple(d + 2 for d in c.shape)
    return {
        'add shapes': lambda a, e: (ch.tile(e.ravel(), 2) + np.ones(2 * e.size + 1)).r,
        'multiply shapes': lambda a, e: (fresh(2 * e.size + 1) * ch.tile(e.ravel(), 2)).r,
        'subtract shapes': lambda a, e: (fresh(2, 3) - fresh(3, 2)).r,
        'divide shapes': lambda a, e: (fresh(4) / fresh(3)).r,
        'power shapes': lambda a, e: (ch.abs(fresh(4)) ** fresh(3)).r,
        'maximum shapes': lambda a, e: ch.maximum(fresh(4), fresh(2)).r,
        'greater shapes': lambda a, e: (fresh(4) > fresh(2)).r,
        'dot shapes': lambda a, e: ch.dot(fresh(2, 3), fresh(2, 3)).r,
        'tensordot shapes': lambda a, e: ch.tensordot(fresh(2, 3), fresh(4, 5), axes=1).r,
        'cross shapes': lambda a, e: ch.cross(fresh(4, 3), fresh(2, 3)).r,
        'left product width': lambda a, e: product('lop'),
        'left multiply width': lambda a, e: product('lmult'),
        'reshape size': lambda a, e: e.reshape((e.size + 1,)).r,
        'transpose axes': lambda a, e: ch.transpose(fresh(2, 3), (0, 5)).r,
        'swapaxes': lambda a, e: fresh(2, 3).swapaxes(0, 4).r,
        'squeeze axis': lambda a, e: ch.squeeze(fresh(2, 3), 0).r,
        'expand axis': lambda a, e: ch.expand_dims(fresh(2), 9).r,
        'index': lambda a, e: e[e.shape[0] + 3].r,
        'too many indices': lambda a, e: e[(0,) * (e.ndim + 1)].r,
        'sum axis': lambda a, e: ch.sum(fresh(2, 3), axis=5).r,
        'mean axis': lambda a, e: ch.mean(fresh(2, 3), axis=5).r,
        'max axis': lambda a, e: ch.amax(fresh(2, 3), axis=5).r,
        'concatenate': lambda a, e: ch.concatenate((fresh(2, 3), fresh(3, 2)), axis=0).r,
        'vstack': lambda a, e: ch.vstack((fresh(2, 3), fresh(2, 4))).r,
        'hstack': lambda a, e: ch.hstack((fresh(2, 3), fresh(3, 3))).r,
        'norm ord': lambda a, e: ch.linalg.norm(e, 1).r,
        'norm axis': lambda a, e: ch.linalg.norm(e, axis=0).r,
        'lstsq rcond': lambda a, e: ch.linalg.lstsq(fresh(3, 2), fresh(3), rcond=1e-3)[0].r,
        'svd full': lambda a, e: ch.linalg.svd(fresh(3, 2), full_matrices=1),
        'svd values only': lambda a, e: ch.linalg.svd(fresh(3, 2), compute_uv=0),
        'inverse singular': lambda a, e: ch.linalg.inv(ch.Ch(np.zeros((2, 2)))).r,
        'inverse not square': lambda a, e: ch.linalg.inv(fresh(2, 3)).r,
        'det not square': lambda a, e: ch.linalg.det(fresh(2, 3)).r,
        'solve singular': lambda a, e: ch.linalg.solve(ch.Ch(np.zeros((2, 2))), fresh(2)).r,
        'solve shapes': lambda a, e: ch.linalg.solve(fresh(2, 2), fresh(3)).r,
        'asarray type': lambda a, e: ch.asarray(np.arange(3), dtype=np.int32),
        'asarray order': lambda a, e: ch.asarray(np.arange(3.), order='F'),
        'ravel order': lambda a, e: ch.ravel(e, order='F'),
        'var ddof': lambda a, e: ch.var(e, ddof=1).r,
        'std keepdims': lambda a, e: ch.std(e, keepdims=True).r,
        'asmatrix': lambda a, e: ch.asmatrix(e),
        'asfortranarray': lambda a, e: ch.asfortranarray(e),
        'asanyarray': lambda a, e: ch.asanyarray(e),
        'copyto': lambda a, e: ch.copyto(a, x2),
        'tril': lambda a, e: ch.tril(e),
        'triu': lambda a, e: ch.triu(e),
        'vander': lambda a, e: ch.vander(e),
        'require': lambda a, e: ch.require(e),
        'cumsum axis derivative': lambda a, e: (lambda u: ch.cumsum(u, axis=0).dr_wrt(u))(fresh(2, 3)),
        'assign into result': lambda a, e: put(e * 2., 0, 1.),
        'assign into view of result': lambda a, e: put((e * 2.)[:1], 0, 1.),
        'assign into transposed result': lambda a, e: put((e + 1.).T, 0, 1.),
        'assign an expression': lambda a, e: put(a, 0, e.ravel()[0]),
        'assign into view an expression': lambda a, e: put(a.ravel(), slice(0, 1), e.ravel()[:1]),
        'assign misfit': lambda a, e: put(a, slice(None), np.ones(bad_shape(a))),
        'assign misfit to view': lambda a, e: put(a.ravel(), slice(None), np.ones(a.size + 2)),
        'assign out of range': lambda a, e: put(a, a.shape[0] + 2, 1.),
        'write into a value': lambda a, e: put(e.r, (0,) * e.ndim, 5.),
        'write into a variable value': lambda a, e: put(a.r, (0,) * a.ndim, 5.),
        'replace by a number': lambda a, e: (e * a).replace(a, 3.),
        'replace of a number': lambda a, e: (e * a).replace(3., a),
        'reserved name': lambda a, e: reserved(),
        'duplicate free variables': lambda a, e: duplicate(a),
        'sparse solver': lambda a, e: ch.minimize(a.ravel() - 1., [a], method='dogleg',
                                                  options={'maxiter': 2, 'sparse_solver': 'nonesuch'}),
        'scipy method': lambda a, e: ch.minimize(ch.sum((a - 1.) ** 2), [a], method='nonesuch', options={'maxiter': 2}),
    }


MINIMISE = ('independent dogleg', 'independent scipy', 'partly independent', 'only a predicate')


def refused(ch, rng, mon, s):
    """Minimising something that does not depend on a free variable."""
    a = s.pick(s.leaves())
    lone = ch.Ch(np.round(rng.randn(3), 2))
    q = rng.randint(4)
    if q == 0:
        call = lambda: ch.minimize(a.ch.ravel() - 1., [lone], method='dogleg', options={'maxiter': 2, 'disp': 0})
    elif q == 1:
        m = ('BFGS', 'CG', 'Newton-CG', 'L-BFGS-B', 'SLSQP')[rng.randint(5)]
        call = lambda: ch.minimize(ch.sum((a.ch - 1.) ** 2), [lone], method=m, options={'maxiter': 2})
    elif q == 2:
        call = lambda: ch.minimize(a.ch.ravel() - 1., [a.ch, lone] if rng.rand() < .5 else [lone, a.ch], method='dogleg',
                                   options={'maxiter': 2, 'disp': 0})
    else:
        call = lambda: ch.minimize((ch.Ch(a.ch.r.copy()) > 0.).ravel() * 1., [a.ch], method='dogleg',
                                   options={'maxiter': 2, 'disp': 0})
    before = contents(s)
    keep = lone.r.copy()
    try:
        call()
        e = None
    except Exception as ex:
        e = ex
    mon.check(e is not None, 'minimise refused', lambda: '%s went through' % MINIMISE[q], (MINIMISE[q], type(e).__name__))
    unchanged(mon, s, before, MINIMISE[q])
    mon.check(np.array_equal(keep, lone.r), 'variables unchanged', lambda: '%s changed the free variable' % MINIMISE[q])


def first_eval(ch, rng, mon, s):
    """The very first evaluation inside a minimisation fails."""
    p = probe(ch, rng, mon, s)
    if p is None:
        return
    leafs = [l for l in s.leaves() if l in s.reach(p)]
    point = POINTS[rng.randint(4)]
    method = ('dogleg', 'BFGS', 'CG', 'Newton-CG', 'SLSQP')[rng.randint(5)]
    before = contents(s)
    for l in leafs:
        l.ch.x = np.array(l.ch.x)          # nothing is cached
    SW.arm(point, p.p['who'], 1, True, Boom)
    obj = p.ch.ravel() if method == 'dogleg' else ch.sum(p.ch ** 2)
    mon.note('minimise by %s, %s fails' % (method, point))
    try:
        ch.minimize(obj, [l.ch for l in leafs], method=method, options={'maxiter': 3, 'disp': 0} if method == 'dogleg'
                    else {'maxiter': 3})
        e = None
    except Exception as ex:             # another reason to refuse may come first
        e = ex
    fired = SW.fired
    SW.disarm()
    if point != 'compute_dr_wrt' or fired:
        mon.check(e is not None, 'first evaluation fails', lambda: '%s failing in %s was swallowed' % (point, method),
                  (point, method))
    unchanged(mon, s, before, 'failed minimisation')
    for n in s.ops():
        s.check_value(n, 'value after recovery', 'failed minimisation')
        for t in s.targets(n):
            if t.kind == 'leaf':
                s.check_jac(n, t, 'derivative after recovery', 'failed minimisation')


def invalid(ch, rng, mon, s):
    reqs = requests(ch, rng)
    names = sorted(reqs)
    for _ in range(rng.randint(2, 9)):
        name = names[rng.randint(len(names))]
        a = s.pick(s.leaves())
        e = s.pick([m for m in s.ops() if s.good(m)]) or a
        before = contents(s)
        mon.note('request: %s (variable %s, expression %s)' % (name, a.tag, e.tag))
        try:
            got = reqs[name](a.ch, e.ch)
            ex = None
        except Exception as err:
            ex = err
        mon.check(ex is not None, 'invalid request', lambda: '%s was honoured: %s' % (name, got),
                  (name, type(ex).__name__, a.x.shape))
        unchanged(mon, s, before, name)
        if rng.rand() < .3:
            (s.set_leaf, s.set_items, s.rewire, s.change_param)[rng.randint(4)]()
        n = s.pick(s.ops())
        if n is not None:
            s.check_value(n, 'value after recovery', name)
            if s.good(n) and rng.rand() < .6:
                s.check_jac(n, s.pick_target(n), 'derivative after recovery', name)
    for n in s.ops():
        s.check_value(n, 'value after recovery', 'requests')


_guarded = {}


def guarded(ch, rng, mon):
    """An operation that declares when its inputs are invalid."""
    if not _guarded:
        class Guarded(ch.Ch):
            dterms = 'a', 'b'
            terms = 'limit'

            def is_valid(self):
                return bool(np.all(np.abs(self.a.r) < self.limit)), 'input beyond the limit'

            def compute_r(self):
                return self.a.r * self.b.r

            def compute_dr_wrt(self, wrt):
                n = self.a.size
                res = np.zeros((n, n))
                if wrt is self.a:
                    res = res + np.diag(self.b.r)
                if wrt is self.b:
                    res = res + np.diag(self.a.r)
                return res if wrt is self.a or wrt is self.b else None
        _guarded['c'] = Guarded
    n = int(rng.randint(1, 4))
    a, b = rng.uniform(-1, 1, n), rng.uniform(-1, 1, n)
    x, y = ch.Ch(a.copy()), ch.Ch(b.copy())
    g = _guarded['c'](a=x, b=y, limit=1.)
    e = ch.sin(g) + y
    limit = 1.
    for step in range(rng.randint(4, 12)):
        q = rng.randint(4)
        if q == 0:
            a = rng.uniform(-1, 1, n) * (3. if rng.rand() < .5 else 1.)
            x.x = a.copy()
        elif q == 1:
            b = rng.uniform(-1, 1, n)
            y[:] = b
        elif q == 2 and rng.rand() < .3:
            limit = float(rng.uniform(.8, 2.))
            g.limit = limit
        ok = bool(np.all(np.abs(a) < limit))
        top = (g, e)[rng.randint(2)]
        what = ('value', 'forward', 'reverse', 'product')[rng.randint(4)]
        try:
            got = {'value': lambda: np.array(top.r), 'forward': lambda: dense(top.dr_wrt(x)),
                   'reverse': lambda: dense(top.dr_wrt(x, reverse_mode=True)),
                   'product': lambda: dense(top.lop(x, np.eye(n)))}[what]()
            ex = None
        except AssertionError as err:
            ex = err
        mon.check((ex is None) or not ok, 'guarded operation', 'a valid input was refused', (what, ok, n))
        if ok:
            v = a * b
            want = {'value': v if top is g else np.sin(v) + b}.get(
                what, np.diag(b if top is g else np.cos(v) * b))
            bad = compare(np.atleast_2d(got) if what != 'value' else got, want, 1e-9)
            mon.check(not bad, 'guarded operation', lambda: '%s: %s' % (what, bad), (what, ok, n))
        elif top is g or what == 'value':
            mon.check(ex is not None, 'guarded operation', lambda: '%s of an operation whose input is invalid is %s' % (
                what, got), (what, ok, n))
        if not (np.array_equal(x.r, a) and np.array_equal(y.r, b)):
            mon.fail('guarded operation', 'a variable changed')


def case(ch, rng, mon, tier, i):
    SW.disarm()
    if i % 4 == 0:
        guarded(ch, rng, mon)
    q = rng.rand()
    try:
        if q < .5:
            s = Session(ch, rng, mon, ops=[k for k in refops.OPS if k not in refops.LINALG])
            s.build(rng.randint(1, 5), rng.randint(1, 4))
            faults(ch, rng, mon, s)
        elif q < .7:
            s = Session(ch, rng, mon)
            s.build(rng.randint(2, 8), rng.randint(1, 4))
            misfit(ch, rng, mon, s)
        else:
            s = Session(ch, rng, mon)
            s.build(rng.randint(2, 7), rng.randint(1, 4))
            if q < .9:
                invalid(ch, rng, mon, s)
            elif q < .95:
                refused(ch, rng, mon, s)
                for n in s.ops():
                    s.check_value(n, 'value after recovery', 'refused')
            else:
                first_eval(ch, rng, mon, s)
    finally:
        SW.disarm()
