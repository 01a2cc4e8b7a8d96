"""Operations with generated declarations: any number of inputs and parameters, declared in any of the accepted ways."""
import numpy as np
import scipy.sparse as sp

DNAMES = ('a', 'b', 'left', 'right', 'u2', 'vert', 'img', 'tail', 'w')
PNAMES = ('half', 'pre', 'inner', 'scale', 'mixed')
TNAMES = ('gain', 'bias', 'n_iter', 'mode', 'k')


class Kind(object):
    """A generated class together with what it is supposed to compute."""

    def __init__(self, ch, rng, nd=None, nt=None, plain=False):
        self.rng = rng
        nd = int(rng.randint(1, 6)) if nd is None else nd
        nt = int(rng.randint(0, 4)) if nt is None else nt
        self.d = [DNAMES[k] for k in rng.permutation(len(DNAMES))[:nd]]
        self.t = [TNAMES[k] for k in rng.permutation(len(TNAMES))[:nt]]
        self.c = dict((k, float(np.round(rng.uniform(.2, 1.) + i, 3))) for i, k in enumerate(self.d + self.t))
        self.defaults = {}
        self.style = []
        self.make(ch, rng, plain)

    def listing(self, names, rng):
        if len(names) == 1 and rng.rand() < .6:
            self.style.append('str')
            return names[0]
        q = rng.randint(2)
        self.style.append(('tuple', 'list')[q])
        return tuple(names) if q == 0 else list(names)

    def prop(self, ch, rng, name, fn, names):
        names = [names[k] for k in rng.permutation(len(names))]
        def what(self): return fn(self)
        what.__name__ = name
        q = rng.randint(3)
        return (ch.depends_on(*names) if q == 0 else ch.depends_on(names) if q == 1 else ch.depends_on(tuple(names)))(what)

    def make(self, ch, rng, plain):
        d, t, c = self.d, self.t, self.c
        sparse = int(rng.randint(3))
        gain = lambda self: 1. + sum(c[k] * getattr(self, k) for k in t)
        part = lambda self: sum(c[k] * np.sin(getattr(self, k).r) for k in held)
        held, rest, props = [], d, {}
        if rng.rand() < .5:                 # parts of the value are kept in properties
            j = rng.permutation(len(PNAMES))
            if t and rng.rand() < .6:
                props[PNAMES[j[0]]] = self.prop(ch, rng, PNAMES[j[0]], gain, t)
                gain = lambda self, name=PNAMES[j[0]]: getattr(self, name)
            if rng.rand() < .6:
                held = [k for k in d if rng.rand() < .6] or d[:1]
                rest = [k for k in d if k not in held]
                props[PNAMES[j[1]]] = self.prop(ch, rng, PNAMES[j[1]], part, held)
                part = lambda self, name=PNAMES[j[1]]: getattr(self, name)
            if props:
                self.style.append('%d properties' % len(props))

        def compute_r(self):
            return gain(self) * sum((c[k] * np.sin(getattr(self, k).r) for k in rest), part(self) if held else 0.)

        def compute_dr_wrt(self, wrt):
            f = gain(self)
            res = None
            for k in d:
                x = getattr(self, k)
                if wrt is x:
                    g = f * c[k] * np.cos(x.r).ravel()
                    g = np.diag(g) if sparse == 0 else sp.diags([g], [0]) if sparse == 1 else sp.diags([g], [0]).tocsr()
                    res = g if res is None else res + g
            return res
        body = dict(props, compute_r=compute_r, compute_dr_wrt=compute_dr_wrt)
        ns = {}
        base = ch.Ch
        q = 0. if plain else rng.rand()
        if q < .5:
            self.style.append('alone')
            ns['dterms'] = self.listing(d, rng)
            if t or rng.rand() < .5:
                ns['terms'] = self.listing(t, rng)
            ns.update(body)
            self.order = t + d
        else:
            bd, bt = (list(d), list(t)) if q < .7 else (d[:int(rng.randint(0, len(d) + 1))], t[:int(rng.randint(0, len(t) + 1))])
            bn = {'dterms': self.listing(bd, rng), 'terms': self.listing(bt, rng)}
            self.order = t + d
            if rng.rand() < .4:
                bo = [(bt + bd)[k] for k in rng.permutation(len(bt + bd))]
                bn['term_order'] = tuple(bo)
                if (bd, bt) == (d, t):
                    self.order = bo
            same = (bd, bt) == (d, t)
            if same:
                if rng.rand() < .5:
                    bn.update(body)
                else:
                    bn['compute_r'] = lambda self: 0.
                    ns.update(body)
            else:
                ns.update(body)
                ns['dterms'] = self.listing(d, rng)
                ns['terms'] = self.listing(t, rng)
                if 'term_order' in bn:
                    ns['term_order'] = self.order = [(t + d)[k] for k in rng.permutation(len(t + d))]
            base = type('Base', (ch.Ch,), bn)
            used = rng.rand() < .6
            if used:
                base()
            self.style.append('extends %s%s' % ('same' if same else 'more', ' used' if used else ''))
        if 'term_order' not in ns and base is ch.Ch and rng.rand() < .5:
            o = [(t + d)[k] for k in rng.permutation(len(t + d))]
            ns['term_order'] = tuple(o) if rng.rand() < .5 else list(o)
            self.order = o
            self.style.append('ordered')
        for k in t:
            if rng.rand() < .2:
                self.defaults[k] = ns[k] = float(np.round(rng.uniform(.2, 1.), 3))
        self.cls = type('Generated', (base,), ns)
        self.order = list(self.order)

    def value(self, v):
        """v: name -> array or number."""
        f = 1. + sum(self.c[k] * v[k] for k in self.t)
        return f * sum((self.c[k] * np.sin(v[k]) for k in self.d), 0. * v[self.d[0]])

    def slope(self, v, k):
        return (1. + sum(self.c[q] * v[q] for q in self.t)) * self.c[k] * np.cos(v[k])


def build(kind, given, rng, incomplete=None):
    """Make an operation of that kind from name -> thing, in one of the accepted ways. Returns (object, way)."""
    names = list(given)
    rng.shuffle(names)
    order = [k for k in kind.order]
    full = all(k in given for k in order)
    q = int(rng.randint(7))
    if q == 0 and full:
        return kind.cls(*[given[k] for k in order]), 'positions'
    if q == 1 and full:
        k = int(rng.randint(0, len(order) + 1))
        rest = [n for n in names if n not in order[:k]]
        return kind.cls(*[given[n] for n in order[:k]], **dict((n, given[n]) for n in rest)), 'positions then keywords'
    if q == 2:
        o = kind.cls()
        for k in names:
            setattr(o, k, given[k])
            if incomplete:
                incomplete(o, [n for n in names if n not in o.__dict__])
        return o, 'attributes'
    if q == 3:
        o = kind.cls()
        if incomplete:
            incomplete(o, names)
        o.set(**dict((k, given[k]) for k in names))
        return o, 'set'
    if q == 4:
        k = int(rng.randint(0, len(names) + 1))
        o = kind.cls(**dict((n, given[n]) for n in names[:k]))
        if incomplete:
            incomplete(o, names[k:])
        if rng.rand() < .5:
            o.set(**dict((n, given[n]) for n in names[k:]))
        else:
            for n in names[k:]:
                setattr(o, n, given[n])
        return o, 'keywords then attributes'
    if q == 5:
        o = kind.cls(**dict((n, given[n]) for n in names))
        for n in names[:int(rng.randint(1, len(names) + 1))]:        # given once more
            setattr(o, n, given[n])
        return o, 'twice'
    return kind.cls(**dict((n, given[n]) for n in names)), 'keywords'


def several(ch, rng, mon, look, event):
    """One operation of many inputs and parameters, changed several at a time and looked at from above in between.
    look: any of 'value', 'derivative', 'old'."""
    from engine import compare, dense
    from refops import A
    kind = Kind(ch, rng, nd=int(rng.randint(1, 6)), nt=int(rng.randint(0, 4)), plain=True)
    n = int(rng.randint(1, 4))
    rv = lambda: np.round(rng.uniform(-1.5, 1.5, n), 3)
    new = lambda: ch.Ch(rv())
    pool = [new() for _ in range(rng.randint(1, 5))]
    have = dict((k, pool[rng.randint(len(pool))]) for k in kind.d)
    have.update((k, float(np.round(rng.uniform(-.5, 1.), 3))) for k in kind.t)
    o = kind.cls(**have)
    up = ch.sin(o) * 2.
    far = up + o
    last = 'built'

    def vals():
        return dict((k, have[k].r if k in kind.d else have[k]) for k in have)

    def check(who, names=None):
        v = vals()
        base = A(kind.value(v))
        if 'value' in look:
            mon.saw(event, ('value', last, len(have), who))
            for e, want, name in ((far, 2 * np.sin(base) + base, 'user'), (o, base, 'operation')):
                bad = compare(e.r, want, 1e-9)
                if bad:
                    mon.fail(event, '%s of %d inputs, %s (%s): %s' % (name, len(have), last, who, bad))
        if 'derivative' in look:
            for x in pool:
                d = sum((kind.slope(v, k) for k in kind.d if have[k] is x), np.zeros(n))
                d = np.diag((2 * np.cos(base) + 1.) * d)
                J = dense(far.dr_wrt(x))
                mon.saw(event, ('derivative', last, len(have), who))
                bad = compare(np.zeros((n, n)) if J is None else J, d, 1e-9)
                if bad:
                    mon.fail(event, 'derivative, %d inputs, %s (%s): %s' % (len(have), last, who, bad))
    for step in range(int(rng.randint(3, 9))):
        if rng.rand() < .8:
            check('read')
        q = rng.rand()
        if q < .2:
            x = pool[rng.randint(len(pool))]
            x.x = rv()
            last = 'variable'
            continue
        names = [k for k in kind.d + kind.t if rng.rand() < .7] or [kind.d[0]]
        kw, old = {}, []
        for k in names:
            if k in kind.t:
                kw[k] = float(np.round(rng.uniform(-.5, 1.), 3))
            else:
                if rng.rand() < .4:
                    pool.append(new())
                kw[k] = pool[rng.randint(len(pool))]
                old.append(have[k])
            have[k] = kw[k]
        if rng.rand() < .3:
            kw['label'] = 'step %d' % step
        ks = list(kw)
        rng.shuffle(ks)
        if q < .6:
            o.set(**dict((k, kw[k]) for k in ks))
            last = 'set %d%s' % (min(len(ks), 4), ' and label' if 'label' in kw else '')
        elif q < .75:
            o(**dict((k, kw[k]) for k in ks))
            last = 'called'
        else:
            for k in ks:
                setattr(o, k, kw[k])
            last = 'attributes'
        mon.note('%s %s' % (last, ks))
        if 'old' in look:
            check('then')
            for x in [x for x in old if not any(have[k] is x for k in kind.d)]:
                x.x = rv()
                check('old input moved')
    check('end')
