"""C08: probe operations record notifications, evaluations and cached-property computations; a sequential model of
"what changed since" judges every event online."""
import gc

import numpy as np

from engine import compare

CASES = {'quick': 2500, 'thorough': 50000}
RULE = ('a distinct observation is (event, set of changed names, wiring class, kind of the changes since the last '
        'notification) of a notification, evaluation or property access judged by the model')
REQUIRED = ('told', 'evaluated', 'not re-evaluated', 'property recomputed', 'property reused', 'unrelated change ignored')

_cls = {}
LIVE = {}          # id(probe) -> Model


class Model(object):
    """What the specification says about one probe."""
    def __init__(self, mon, names, deps):
        self.mon = mon
        self.pending = set(names)       # changed since last told
        self.why = {'new'}
        self.valid = False              # its value was computed since the last change
        self.deps = deps                # property -> names
        self.stale = set(deps)          # properties to be recomputed on next access
        self.log = []
        self.results = {}

    def change(self, names, why):
        self.pending |= set(names)
        self.why.add(why)
        self.valid = False
        for p, d in self.deps.items():
            if d & set(names):
                self.stale.add(p)

    def given(self, prop, out):
        """A property that takes `out` gets its own previous result, for its storage to be used again."""
        self.mon.saw('previous result', (prop, out is None))
        if out is not self.results.get(prop):
            self.mon.fail('previous result', '%s was given %r for its previous result, which was %r' % (prop, out, self.results.get(prop)))

    # events
    def told(self, which):
        which = set(which)
        self.mon.saw('told', (tuple(sorted(which)), tuple(sorted(self.why))))
        if which != self.pending:
            self.mon.fail('told', 'told %s, but what changed since the last notification is %s (%s)' % (
                sorted(which), sorted(self.pending), sorted(self.why)))
        self.pending = set()
        self.why = set()

    def evaluated(self):
        self.mon.saw('evaluated', (self.valid, len(self.log)))
        if self.pending:
            self.mon.fail('evaluated', 'evaluated without having been told that %s changed' % sorted(self.pending))
        if self.valid:
            self.mon.fail('evaluated', 'evaluated again although none of its inputs changed')
        self.valid = True

    def differentiated(self):
        if self.pending:
            self.mon.fail('differentiated', 'derivative asked for before telling that %s changed' % sorted(self.pending))

    def computed(self, prop):
        self.mon.saw('property recomputed', (prop, tuple(sorted(self.deps[prop]))))
        if prop not in self.stale:
            self.mon.fail('property', 'cached property %s (depends on %s) recomputed although nothing it depends on '
                          'changed' % (prop, sorted(self.deps[prop])))
        self.stale.discard(prop)


def classes(ch):
    if _cls:
        return _cls
    from chumpy import depends_on
    nothing = lambda *a: None

    def m(o):
        return LIVE.get(id(o))

    class Probe(ch.Ch):
        dterms = 'a', 'b'
        terms = 'k'

        def on_changed(self, which):
            if m(self):
                m(self).told(which)

        @depends_on('a')
        def pa(self):
            if m(self):
                m(self).computed('pa')
            return np.sum(self.a.r) * 2.

        @depends_on('b', 'k')
        def pbk(self):
            if m(self):
                m(self).computed('pbk')
            return np.sum(self.b.r) + self.k

        @depends_on(['a', 'b'])
        def pab(self, out=None):
            if m(self):
                m(self).computed('pab')
                m(self).given('pab', out)
            res = np.float64(np.sum(self.a.r) - np.sum(self.b.r))
            if m(self):
                m(self).results['pab'] = res
            return res

        @depends_on('k')
        def pk(self):
            if m(self):
                m(self).computed('pk')
            return self.k * 3.

        def compute_r(self):
            if m(self):
                m(self).evaluated()
            return self.a.r * self.k + self.pbk

        def compute_dr_wrt(self, wrt):
            if m(self):
                m(self).differentiated()
            res = None
            if wrt is self.a:
                res = np.eye(self.a.size) * self.k
            if wrt is self.b:
                d = np.ones((self.a.size, self.b.size))
                res = d if res is None else res + d
            return res

    class Wide(ch.Ch):
        """Many inputs, in an explicit order."""
        dterms = 'u', 'v', 'w'
        terms = 'gain', 'bias'
        term_order = 'u', 'gain', 'v', 'w', 'bias'

        def on_changed(self, which):
            if m(self):
                m(self).told(which)

        @depends_on('u', 'w', 'bias')
        def puw(self):
            if m(self):
                m(self).computed('puw')
            return np.sum(self.u.r) * np.sum(self.w.r) + self.bias

        @depends_on(['v', 'gain', 'u', 'bias'])
        def pl(self):
            if m(self):
                m(self).computed('pl')
            return np.sum(self.v.r) * self.gain - np.sum(self.u.r) + self.bias

        @depends_on(['w'], 'v', ('gain', 'u'))
        def pm(self):
            if m(self):
                m(self).computed('pm')
            return np.sum(self.w.r) - np.sum(self.v.r) + self.gain + np.sum(self.u.r)

        @depends_on('v')
        def pv(self):
            if m(self):
                m(self).computed('pv')
            return np.sum(self.v.r)

        @depends_on('gain')
        def pg(self):
            if m(self):
                m(self).computed('pg')
            return self.gain ** 2

        def compute_r(self):
            if m(self):
                m(self).evaluated()
            return self.u.r * self.gain + self.pv + np.sum(self.w.r) * self.bias

        def compute_dr_wrt(self, wrt):
            if m(self):
                m(self).differentiated()
            n = self.u.size
            res = np.zeros((n, wrt.size))
            if wrt is self.u:
                res = res + np.eye(n) * self.gain
            if wrt is self.v:
                res = res + 1.
            if wrt is self.w:
                res = res + self.bias
            return res if (wrt is self.u or wrt is self.v or wrt is self.w) else None

    _cls.update(Probe=Probe, Wide=Wide)
    return _cls


DEPS = {'Probe': {'pa': {'a'}, 'pbk': {'b', 'k'}, 'pab': {'a', 'b'}, 'pk': {'k'}},
        'Wide': {'puw': {'u', 'w', 'bias'}, 'pv': {'v'}, 'pg': {'gain'},
                 'pl': {'v', 'gain', 'u', 'bias'}, 'pm': {'w', 'v', 'gain', 'u'}}}
DT = {'Probe': ('a', 'b'), 'Wide': ('u', 'v', 'w')}
TT = {'Probe': ('k',), 'Wide': ('gain', 'bias')}


class G(object):
    """The mirrored graph: node -> ('leaf', array) | ('op', fn, ins) | ('probe', cls, {name: node}, {term: value})."""
    def __init__(self, ch, rng, mon):
        self.ch, self.rng, self.mon = ch, rng, mon
        self.n = []

    def new(self, **k):
        k['i'] = len(self.n) + 1
        self.n.append(k)
        return k

    def val(self, k):
        if k['t'] == 'leaf':
            return k['x']
        if k['t'] == 'op':
            return k['f'](*[self.val(i) for i in k['ins']])
        d, t = k['d'], k['k']
        if k['cls'] == 'Probe':
            return self.val(d['a']) * t['k'] + np.sum(self.val(d['b'])) + t['k']
        return self.val(d['u']) * t['gain'] + np.sum(self.val(d['v'])) + np.sum(self.val(d['w'])) * t['bias']

    def prop(self, k, p):
        d, t = k['d'], k['k']
        s = lambda q: np.sum(self.val(d[q]))
        return {'pa': lambda: s('a') * 2., 'pbk': lambda: s('b') + t['k'], 'pab': lambda: s('a') - s('b'),
                'pk': lambda: t['k'] * 3., 'puw': lambda: s('u') * s('w') + t['bias'], 'pv': lambda: s('v'),
                'pg': lambda: t['gain'] ** 2, 'pl': lambda: s('v') * t['gain'] - s('u') + t['bias'],
                'pm': lambda: s('w') - s('v') + t['gain'] + s('u')}[p]()

    def kids(self, k):
        return list(k['d'].values()) if k['t'] == 'probe' else (k['ins'] if k['t'] == 'op' else [])

    def reaches(self, k, target):
        return k is target or any(self.reaches(i, target) for i in self.kids(k))

    def changed(self, node, why):
        """node's own contents changed: tell every model above it."""
        hit = False
        for p in self.n:
            if p['t'] != 'probe':
                continue
            names = [q for q, i in p['d'].items() if self.reaches(i, node)]
            if names:
                p['m'].change(names, why)
                hit = True
        return hit


def case(ch, rng, mon, tier, i):
    LIVE.clear()
    cl = classes(ch)
    g = G(ch, rng, mon)
    N = int((3, 3, 1, 2, 6)[rng.randint(5)])
    rv = lambda: np.round(rng.uniform(-1, 1, N), 3) * (0. if rng.rand() < .12 else 1.)
    tv = lambda: 0. if rng.rand() < .1 else float(np.round(rng.uniform(.5, 1.5), 3))
    leaves = []
    for _ in range(rng.randint(2, 5)):
        x = rv()
        leaves.append(g.new(t='leaf', x=x, ch=ch.Ch(x.copy())))
    OPS = [(lambda a: np.sin(a), lambda a: ch.sin(a), 1), (lambda a, b: a + b, lambda a, b: a + b, 2),
           (lambda a, b: a * b, lambda a, b: a * b, 2), (lambda a: a[::-1], lambda a: a[::-1], 1),
           (lambda a: a * 1.5, lambda a: a * 1.5, 1), (lambda a, b: np.concatenate((a, b))[1:N + 1],
                                                     lambda a, b: ch.concatenate((a, b))[1:N + 1], 2)]

    def grow():
        if rng.rand() < .5:
            f, c, k = OPS[rng.randint(len(OPS))]
            ins = [g.n[rng.randint(len(g.n))] for _ in range(k)]
            g.new(t='op', f=f, ins=ins, ch=c(*[q['ch'] for q in ins]))
            mon.note('op %d' % len(g.n))
        else:
            name = 'Probe' if rng.rand() < .6 else 'Wide'
            d = dict((q, g.n[rng.randint(len(g.n))]) for q in DT[name])
            t = dict((q, tv()) for q in TT[name])
            o = cl[name](**dict(dict((q, v['ch']) for q, v in d.items()), **t))
            model = Model(mon, DT[name] + TT[name], DEPS[name])
            LIVE[id(o)] = model
            g.new(t='probe', cls=name, d=d, k=t, ch=o, m=model)
            mon.note('probe %d %s on %s' % (len(g.n), name, dict((q, v['i']) for q, v in d.items())))

    for _ in range(rng.randint(3, 8)):
        grow()
    probes = lambda: [p for p in g.n if p['t'] == 'probe']
    if not probes():
        mon.skip('no probe')
        return
    hold = []
    for step in range(rng.randint(8, 26)):
        q = rng.rand()
        if q < .22:
            n = leaves[rng.randint(len(leaves))]
            how = rng.randint(4)
            x = rv()
            if how == 0:
                n['ch'].x = x.copy()
            elif how == 1:
                n['ch'][:] = x
            elif how == 2:
                j = rng.randint(N)
                x = n['x'].copy()
                x[j] = .25
                n['ch'][j] = .25
            elif N == 1:
                n['ch'][::-1][:1] = x
            else:
                x = n['x'].copy()
                x[1:] = rv()[1:]
                n['ch'][::-1][:N - 1] = x[1:][::-1]
            n['x'] = x
            hit = g.changed(n, 'variable')
            mon.note('set %d how %d' % (n['i'], how))
            if not hit:
                mon.saw('unrelated change ignored')
        elif q < .32:
            p = probes()[rng.randint(len(probes()))]
            ks = [t for t in TT[p['cls']] if rng.rand() < .7] or [TT[p['cls']][0]]
            vals = dict((k, tv()) for k in ks)
            if rng.rand() < .5:
                p['ch'].set(**vals)
            else:
                for k in ks:
                    setattr(p['ch'], k, vals[k])
            p['k'].update(vals)
            p['m'].change(ks, 'term')
            g.changed(p, 'below')
            mon.note('terms of %d %s' % (p['i'], ks))
        elif q < .45:
            p = probes()[rng.randint(len(probes()))]
            pool = [n for n in g.n if not g.reaches(n, p)]
            ks = [t for t in DT[p['cls']] if rng.rand() < .5] or [DT[p['cls']][-1]]
            new = dict((k, pool[rng.randint(len(pool))]) for k in ks)
            extra = {}
            if rng.rand() < .3:
                extra = {TT[p['cls']][0]: 1.25}
            if rng.rand() < .6:
                p['ch'].set(**dict(dict((k, v['ch']) for k, v in new.items()), **extra))
            else:
                for k, v in new.items():
                    setattr(p['ch'], k, v['ch'])
                for k, v in extra.items():
                    setattr(p['ch'], k, v)
            p['d'].update(new)
            p['k'].update(extra)
            p['m'].change(ks + list(extra), 'rewired')
            g.changed(p, 'below')
            mon.note('rewire %d %s' % (p['i'], dict((k, v['i']) for k, v in new.items())))
        elif q < .62:
            n = g.n[rng.randint(len(g.n))]
            was = dict((id(p), p['m'].valid) for p in probes() if g.reaches(n, p))
            bad = compare(n['ch'].r, g.val(n), 1e-8)
            if bad:
                mon.fail('value', 'node %d: %s' % (n['i'], bad))
            for p in probes():
                if id(p) in was:
                    if was[id(p)]:
                        mon.saw('not re-evaluated', (len(p['m'].deps), step))
                    if n['t'] == 'probe' and n is p and not p['m'].valid:
                        mon.fail('evaluated', 'value read without evaluating the changed operation')
            mon.note('read %d' % (n['i']))
        elif q < .85:
            p = probes()[rng.randint(len(probes()))]
            names = sorted(DEPS[p['cls']])
            name = names[rng.randint(len(names))]
            mon.note('property %s of %d' % (name, p['i']))
            reuse = name not in p['m'].stale
            got = getattr(p['ch'], name)
            if reuse:
                mon.saw('property reused', (name, step))
            elif name in p['m'].stale:
                mon.fail('property', '%s not recomputed after %s changed' % (name, sorted(DEPS[p['cls']][name])))
            if abs(got - g.prop(p, name)) > 1e-8 * max(1., abs(got)):
                mon.fail('property', '%s is %r, expected %r' % (name, got, g.prop(p, name)))
        elif q < .93:
            n = g.n[rng.randint(len(g.n))]
            n['ch'].dr_wrt(leaves[rng.randint(len(leaves))]['ch'])
            mon.note('derivative of %d' % (n['i']))
        elif q < .97:
            grow()
        else:
            # expressions nobody holds any more
            t = g.n[rng.randint(len(g.n))]['ch'] * 2.
            t.r
            del t
            if rng.rand() < .2:
                gc.collect()
    for n in g.n:
        bad = compare(n['ch'].r, g.val(n), 1e-8)
        if bad:
            mon.fail('value', 'node %d: %s' % (n['i'], bad))
    LIVE.clear()
