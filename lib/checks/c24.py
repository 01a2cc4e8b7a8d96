"""C24: generated operation classes and the library's own operations are built in every accepted way from the same
parts; a model of the parts judges values, derivatives and what the attributes hold, before and after changes."""
import numpy as np
import scipy.sparse as sp

from engine import Session, compare, dense, same_param, short
from many import Kind, build
from refops import A, OPS

CASES = {'quick': 1500, 'thorough': 30000}
RULE = ('a distinct observation is (how the class was declared, how the object was built, kinds of parts, what was '
        'looked at, last change) of an object compared with its parts')
REQUIRED = ('value', 'derivative', 'attribute', 'incomplete', 'after change', 'other objects unchanged', 'alias', 'rebuilt',
            'refused', 'format', 'several at once', 'added input', 'held contents')
SKIP = ('vstack', 'hstack', 'dstack')


class Part(object):
    """An input, as given and as understood."""
    def __init__(self, ch, rng, shape, pool):
        n = int(np.prod(shape))
        q = int(rng.randint(7))
        self.leaf = None
        x = np.round(rng.uniform(-1.5, 1.5, shape), 3)
        if q == 6 and pool:
            p = pool[rng.randint(len(pool))]
            self.__dict__.update(p.__dict__)
            return
        self.fn, self.dfn = (lambda v: v), (lambda v: np.ones_like(v))
        if q <= 1 or q == 6:
            self.given, self.leaf, self.kind = ch.Ch(x), None, 'variable'
            self.leaf = self.given
        elif q == 2:
            self.leaf = ch.Ch(x)
            self.given, self.kind = ch.cos(self.leaf) * 2., 'expression'
            self.fn, self.dfn = (lambda v: 2. * np.cos(v)), (lambda v: -2. * np.sin(v))
        elif q == 3:
            self.given, self.kind = x.copy(), 'array'
        elif q == 4:
            self.given, self.kind = x.tolist(), 'list'
        elif n == 1 and len(shape) == 1:
            self.given, self.kind = float(x.ravel()[0]), 'number'
            if rng.rand() < .4:
                self.given = int(rng.randint(-3, 4))
                x = np.array([float(self.given)])
        else:
            self.given, self.kind = np.asfortranarray(x), 'array'
        self.x = x

    @property
    def v(self):
        return self.fn(self.x)


def values(kind, parts, terms):
    v = dict((k, parts[k].v) for k in kind.d)
    v.update(kind.defaults)
    v.update(terms)
    return v


def judge(ch, mon, kind, o, parts, terms, way, last, deep=True):
    v = values(kind, parts, terms)
    sig = (tuple(kind.style), way, last, tuple(sorted(parts[k].kind for k in kind.d)))
    who = '%s %s built by %s, %s' % (kind.style, kind.order, way, last)
    bad = compare(o.r, A(kind.value(v)), 1e-9)
    mon.check(not bad, 'value' if last == 'built' else 'after change', lambda: '%s: value %s' % (who, bad), sig)
    for k in kind.d:
        got = getattr(o, k)
        if hasattr(parts[k].given, 'dterms'):
            mon.check(got is parts[k].given, 'attribute', lambda: '%s: %s is not what was given' % (who, k), sig + (k,))
        else:
            bad = compare(got.r, parts[k].v, 1e-12)
            mon.check(not bad, 'attribute', lambda: '%s: %s holds %s' % (who, k, bad), sig + (k,))
    for k in kind.t:
        mon.check(getattr(o, k) == v[k], 'attribute', lambda: '%s: %s is %r, expected %r' % (who, k, getattr(o, k), v[k]),
                  sig + (k,))
    if not deep:
        return
    seen = []
    for k in kind.d:
        p = parts[k]
        if p.leaf is None or any(p.leaf is q for q in seen):
            continue
        seen.append(p.leaf)
        want = sum(kind.slope(v, q) * parts[q].dfn(parts[q].x) for q in kind.d if parts[q].leaf is p.leaf)
        J = dense(o.dr_wrt(p.leaf))
        bad = 'None' if J is None else compare(J, np.diag(np.ravel(want)), 1e-9)
        mon.check(not bad, 'derivative', lambda: '%s: derivative by %s: %s' % (who, k, bad), sig + (k,))


def generated(ch, rng, mon):
    kind = Kind(ch, rng)
    shape = ((1,), (1,), (3,), (2, 2), (4,))[rng.randint(5)]
    parts, terms, pool = {}, {}, []
    for k in kind.d:
        parts[k] = Part(ch, rng, shape, pool)
        pool.append(parts[k])
    for k in kind.t:
        if k not in kind.defaults or rng.rand() < .5:
            terms[k] = float(np.round(rng.uniform(-.5, 1.), 3))
    mon.note('declared %s, order %s, parts %s, terms %s, defaults %s' % (
        kind.style, kind.order, dict((k, p.kind) for k, p in parts.items()), terms, kind.defaults))

    def incomplete(o, missing):
        need = [k for k in missing if k in kind.d or k not in kind.defaults]
        if not need or rng.rand() < .4:
            return
        try:
            r = o.r
        except AttributeError:
            mon.saw('incomplete', (tuple(kind.style), len(need)))
            return
        mon.fail('incomplete', 'an operation without %s has the value %r' % (need, r))
    made = []
    for _ in range(int(rng.randint(2, 5))):
        given = dict((k, p.given) for k, p in parts.items())
        given.update(terms)
        o, way = build(kind, given, rng, incomplete)
        t = dict(terms)
        made.append([o, way, dict(parts), t, o + 1. if rng.rand() < .5 else None])
        mon.note('built by ' + way)
        if rng.rand() < .5:
            judge(ch, mon, kind, o, parts, t, way, 'built', rng.rand() < .6)
    if rng.rand() < .3 and len(kind.order) and not kind.defaults:
        extra = [parts[k].given if k in parts else terms[k] for k in kind.order] + [1.]
        try:
            kind.cls(*extra)
        except Exception:
            mon.saw('refused', ('too many', len(extra)))
        else:
            mon.fail('refused', '%d arguments accepted for %s' % (len(extra), kind.order))
    last = 'built'
    for step in range(int(rng.randint(2, 6))):
        q = int(rng.randint(5))
        m = made[rng.randint(len(made))]
        if q == 0:
            lv = [p for p in pool if p.leaf is not None]
            if lv:
                p = lv[rng.randint(len(lv))]
                x = np.round(rng.uniform(-1.5, 1.5, shape), 3)
                p.leaf.x = x.copy()
                for w in pool:
                    if w.leaf is p.leaf:
                        w.x = x
                for w in made:
                    for z in w[2].values():
                        if z.leaf is p.leaf:
                            z.x = x
                last = 'variable'
        elif q == 1 and kind.t:
            k = kind.t[rng.randint(len(kind.t))]
            m[3][k] = float(np.round(rng.uniform(-.5, 1.), 3))
            setattr(m[0], k, m[3][k])
            last = 'parameter'
        elif q == 4:                               # contents of what was given as a number, list or array
            ks = [k for k in kind.d if m[2][k].leaf is None and m[2][k].kind != 'expression']
            if not ks:
                continue
            k = ks[rng.randint(len(ks))]
            p = object.__new__(Part)
            p.__dict__.update(m[2][k].__dict__, kind='held', given=getattr(m[0], k), leaf=getattr(m[0], k))
            p.x = np.round(rng.uniform(-1.5, 1.5, shape), 3)
            p.leaf.x = p.x.copy()
            m[2][k] = p
            pool.append(p)
            last = 'held contents'
            mon.saw('held contents', (k, len(made)))
        else:
            names = [k for k in kind.d + kind.t if rng.rand() < .6] or [kind.d[0]]
            new = {}
            for k in names:
                if k in kind.t:
                    new[k] = m[3][k] = float(np.round(rng.uniform(-.5, 1.), 3))
                else:
                    m[2][k] = Part(ch, rng, shape, pool if rng.rand() < .5 else [m[2][z] for z in kind.d])
                    pool.append(m[2][k])
                    new[k] = m[2][k].given
            if rng.rand() < .4:                    # and something that is no input at all
                new['label'] = 'part %d' % step
            ks = list(new)
            rng.shuffle(ks)
            if q == 2:
                m[0].set(**dict((k, new[k]) for k in ks))
                last = 'set %d' % min(3, len(ks))
            else:
                bad = compare(m[0](**dict((k, new[k]) for k in ks)), A(kind.value(values(kind, m[2], m[3]))), 1e-9)
                mon.check(not bad, 'value', lambda: 'calling with %s: %s' % (ks, bad))
                last = 'called'
            mon.saw('several at once', (len(ks), 'label' in new, last))
            mon.note('%s %s' % (last, ks))
        for w in made:
            if w is m or rng.rand() < .5:
                if w is not m:
                    mon.saw('other objects unchanged', (last, w[1]))
                if w[4] is not None:
                    bad = compare(w[4].r, A(kind.value(values(kind, w[2], w[3]))) + 1., 1e-9)
                    mon.check(not bad, 'after change', lambda: 'user of the operation after %s: %s' % (last, bad))
                judge(ch, mon, kind, w[0], w[2], w[3], w[1], last, rng.rand() < .5)


def alias(ch, rng, mon):
    """An input that is a property standing for an input of another input."""
    class Cam(ch.Ch):
        dterms = 'v', 't'

        def compute_r(self):
            return np.sin(self.v.r) + self.t.r

        def compute_dr_wrt(self, wrt):
            out = None
            if wrt is self.v:
                out = sp.diags([np.cos(self.v.r).ravel()], [0])
            if wrt is self.t:
                e = sp.eye(self.t.size)
                out = e if out is None else out + e
            return out

    class View(ch.Ch):
        dterms = 'v', 'cam', 'bg'
        terms = 'k'
        term_order = [('v', 'k', 'bg', 'cam'), ('cam', 'bg', 'v', 'k'), ('bg', 'v', 'cam', 'k')][rng.randint(3)]

        @property
        def v(self):
            return self.cam.v

        @v.setter
        def v(self, value):
            self.cam.v = value

        def compute_r(self):
            return self.cam.r * self.k + self.bg.r

        def compute_dr_wrt(self, wrt):
            out = None
            if wrt is self.cam:
                out = sp.eye(self.cam.size) * self.k
            if wrt is self.bg:
                e = sp.eye(self.bg.size)
                out = e if out is None else out + e
            return out
    n = int(rng.randint(1, 4))
    rv = lambda: ch.Ch(np.round(rng.uniform(-1, 1, n), 3))
    v, t, bg = rv(), rv(), rv()
    cam = Cam(v=rv() if rng.rand() < .5 else v, t=t)
    k = float(np.round(rng.uniform(.5, 2.), 2))
    given = dict(v=v, cam=cam, bg=bg, k=k)
    names = list(given)
    rng.shuffle(names)
    q = int(rng.randint(4))
    if q == 0:
        o = View(**dict((w, given[w]) for w in names))
    elif q == 1:
        o = View(cam=cam)
        o.set(**dict((w, given[w]) for w in names))
    elif q == 2:
        o = View(cam=cam, k=9., bg=rv())
        o.r
        for w in names:
            setattr(o, w, given[w])
    else:
        o = View(**dict((w, given[w]) for w in names if w != 'v'))
        o.r
        o.v = v
    up = o * 2.
    for step in range(4):
        mon.saw('alias', (q, step, n))
        want = (np.sin(v.r) + t.r) * k + bg.r
        bad = compare(o.r, want, 1e-9) or compare(up.r, 2. * want, 1e-9)
        mon.check(not bad, 'value', lambda: 'aliased input, way %d, step %d: %s' % (q, step, bad))
        mon.check(o.v is v and o.cam.v is v, 'attribute', 'aliased input is not what was given')
        for wrt, d in ((v, 2 * k * np.cos(v.r)), (t, 2 * k + 0 * t.r), (bg, 2. + 0 * t.r)):
            J = dense(up.dr_wrt(wrt))
            bad = 'None' if J is None else compare(J, np.diag(np.ravel(d)), 1e-9)
            mon.check(not bad, 'derivative', lambda: 'aliased input, way %d, step %d: %s' % (q, step, bad))
        z = int(rng.randint(3))
        if z == 0:
            v.x = np.round(rng.uniform(-1, 1, n), 3)
        elif z == 1:
            v = rv()
            if rng.rand() < .5:
                o.v = v
            else:
                o.set(v=v, k=k)
        else:
            v, t = rv(), rv()
            o.set(cam=Cam(v=rv(), t=t), v=v)


def added(ch, rng, mon):
    """Inputs that are declared on the object after it was made."""
    class Total(ch.Ch):
        dterms = 'first',

        def parts(self):
            return [getattr(self, k) for k in sorted(self.dterms)]

        def compute_r(self):
            return sum((i + 1.) * p.r for i, p in enumerate(self.parts()))

        def compute_dr_wrt(self, wrt):
            out = 0.
            for i, p in enumerate(self.parts()):
                if p is wrt:
                    out = out + (i + 1.)
            return sp.eye(wrt.size) * out if out else None
    n = int(rng.randint(1, 4))
    rv = lambda: ch.Ch(np.round(rng.uniform(-1, 1, n), 3))
    have = {'first': rv()}
    o = Total(have['first'])
    other = Total(have['first'])
    up = o + 0.
    for step in range(int(rng.randint(1, 5))):
        name = ('m%d' % step, 'zz%d' % step, 'aa%d' % step)[rng.randint(3)]
        have[name] = rv() if rng.rand() < .7 else have[sorted(have)[0]]
        o.add_dterm(name, have[name] if rng.rand() < .9 else have[name])
        for again in range(2):
            want = sum((i + 1.) * have[k].r for i, k in enumerate(sorted(have)))
            mon.saw('added input', (step, name, again))
            bad = compare(up.r, want, 1e-9)
            mon.check(not bad, 'value', lambda: 'with inputs %s: %s' % (sorted(have), bad))
            for k in have:
                w = sum(i + 1. for i, q in enumerate(sorted(have)) if have[q] is have[k])
                J = dense(up.dr_wrt(have[k]))
                bad = 'None' if J is None else compare(J, w * np.eye(n), 1e-9)
                mon.check(not bad, 'derivative', lambda: 'with inputs %s, by %s: %s' % (sorted(have), k, bad))
            bad = compare(other.r, have['first'].r, 1e-12)
            mon.check(not bad and list(other.dterms) == ['first'], 'other objects unchanged',
                      lambda: 'another operation of that class changed: %s' % bad)
            have[sorted(have)[rng.randint(len(have))]].x = np.round(rng.uniform(-1, 1, n), 3)


def rebuilt(ch, rng, mon):
    """The library's own operations, put together again from what they are made of."""
    s = Session(ch, rng, mon, ops=[k for k in OPS if k not in SKIP])
    s.build(int(rng.randint(1, 5)), int(rng.randint(1, 3)))
    for n in s.ops():
        if not s.good(n):
            continue
        cls = type(n.ch)
        if list(cls.dterms) != list(n.ch.dterms):      # inputs of its own, beyond those of its class
            continue
        have = dict((k, n.ch.__dict__[k]) for k in list(n.ch.terms) + list(n.ch.dterms) if k in n.ch.__dict__)
        order = getattr(cls, 'term_order', None)
        names = list(have)
        rng.shuffle(names)
        q = int(rng.randint(4))
        if rng.rand() < .5:
            n.ch.r
        dense_, sparse_ = (False, False) if rng.rand() < .6 else ((True, False) if rng.rand() < .5 else (False, True))
        fmt = {'make_dense': True} if dense_ else {'make_sparse': True} if sparse_ else {}
        if q == 0 and order is not None:
            k = 0
            while k < len(order) and order[k] in have:
                k += 1
            k = int(rng.randint(0, k + 1))
            o = cls(*[have[w] for w in order[:k]], **dict(fmt, **dict((w, have[w]) for w in names if w not in order[:k])))
        elif q == 1:
            o = cls(**fmt)
            for w in names:
                setattr(o, w, have[w])
        elif q == 2:
            o = cls(**fmt)
            o.set(**dict((w, have[w]) for w in names))
        else:
            o = cls(**dict(fmt, **dict((w, have[w]) for w in names)))
        sig = (n.name, q, short(n.p), dense_, sparse_)
        mon.note('rebuilt %s by %d %s from %s' % (n.name, q, fmt, sorted(have)))
        bad = compare(o.r, s.val(n), 1e-8)
        mon.check(not bad, 'rebuilt', lambda: '%s built by %d from %s: %s' % (n.name, q, sorted(have), bad), sig)
        for t in [t for t in s.targets(n) if t is not n][:3]:
            got = []

            def get():
                got.append(o.dr_wrt(t.ch))
                return got[0]
            s.check_jac(n, t, 'rebuilt', 'built by %d' % q, get)
            if got and got[0] is not None and fmt:
                mon.check(sp.issparse(got[0]) == sparse_, 'format', lambda: '%s asked for %s gives %s' % (
                    n.name, fmt, type(got[0])), sig)


RESERVED = ('r', 'shape', 'size', 'ndim', 'dr_wrt', 'lop', 'set', 'replace', 'copy', 'sid', 'minimize', 'is_dr_wrt')


def reserved(ch, rng, mon):
    name = RESERVED[rng.randint(len(RESERVED))]
    q = int(rng.randint(3))
    ns = [dict(dterms=('a', name)), dict(dterms=('a',), terms=(name,)), dict(dterms='a', terms=['k', name])][q]
    cls = type('Bad', (ch.Ch,), dict(ns, compute_r=lambda self: self.a.r))
    for k in range(2):
        try:
            cls(a=ch.Ch([1.]))
        except Exception:
            mon.saw('refused', (name, q, k))
        else:
            mon.fail('refused', 'an input may not be called %s, but attempt %d was accepted' % (name, k + 1))


def case(ch, rng, mon, tier, i):
    generated(ch, rng, mon)
    if i % 4 == 0:
        alias(ch, rng, mon)
    if i % 4 == 1:
        added(ch, rng, mon)
    rebuilt(ch, rng, mon)
    if i % 50 == 0:
        reserved(ch, rng, mon)
