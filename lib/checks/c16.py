"""C16: a wrapped function behaves as its body written inline. Bodies are random programs; the reference of a wrapped
expression evaluates the body on the bound inputs."""
import numpy as np

import refops
from engine import Node, Reject, Session
from refops import A, Op

CASES = {'quick': 1500, 'thorough': 30000}
RULE = ('a distinct observation is (form of wrapping, body operations, input shapes, kind of the last change, target) of '
        'a value or derivative of an expression containing wrapped functions')
REQUIRED = ('value', 'derivative', 'default value', 'change:rebind', 'change:set', 'wrapped:late', 'wrapped:initial',
            'wrapped:group', 'wrapped:nested', 'wrapped:capture', 'wrapped:handle')

ARGS = ('x', 'y', 'z', 'w')
ELEM = ('add', 'subtract', 'multiply', 'divide', 'sin', 'cos', 'exp', 'negative', 'square', 'arctan', 'SumOfSquares',
        'maximum', 'power', 'tanh', 'UDense', 'USparse', 'UScalar')


def jump():
    return tuple(k for k in ELEM if k in refops.OPS)


class Body(Op):
    """A program over named parameters (and captured outer expressions), as one operation."""
    weight = 1.

    def __init__(self, ch, rng, mon, params, captured, shapes, ops, nops, mode):
        self.name = 'lambda:' + mode
        self.mode = mode
        self.params, self.captured = params, captured
        self.nin = len(shapes)
        self.names = tuple(params) + tuple('_none%d' % k for k in range(len(captured)))
        quiet = type(mon)('body')
        b = self.b = Session(ch, rng, quiet, ops=ops)
        self.leafs = []
        self.mon = mon
        for s in shapes:
            self.leafs.append(b.leaf(x=A(b.rand_val(s))))
        self.ok = True
        for _ in range(nops):
            b.grow()
        # extra variables the body happened to create are constants of the body
        cand = [n for n in b.nodes if n.kind == 'op' and b.good(n)] or self.leafs
        self.root = cand[-1]
        order = b.order(self.root)
        self.steps = [n for n in order if n.kind == 'op']
        self.extra = [n for n in order if n.kind == 'leaf' and n not in self.leafs]
        self.nondiff = tuple(k for k, l in enumerate(self.leafs) if not self.differentiable(l))
        self.text = '+'.join(n.name for n in self.steps)

    def differentiable(self, leaf):
        seen = {leaf}
        for n in self.b.order(self.root):
            if n.kind == 'op' and any(i in seen and k not in n.op.nondiff for k, i in enumerate(n.ins)):
                seen.add(n)
        return self.root in seen

    def program(self, ch, args):
        m = dict((l, a) for l, a in zip(self.leafs, args))
        for e in self.extra:
            m[e] = ch.Ch(np.array(e.x))
        for n in self.steps:
            m[n] = n.op.build(ch, [i.ch if i.kind == 'const' else m[i] for i in n.ins], n.p)
        return m[self.root]

    def place(self, v):
        for l, x in zip(self.leafs, v):
            l.x = A(x)
        self.b.dirty()

    def valid(self, shapes, p): return True

    def f(self, v, p):
        self.place(v)
        try:
            return self.b.val(self.root).copy()
        except Reject as e:
            raise ValueError(str(e))

    def jvp(self, v, p, pos, t, out):
        self.place(v)
        st, T, sc = self.b.tangents(self.root, {self.leafs[pos]: t[None]})
        return np.full(np.shape(out), np.nan) if T is None else T[0]

    def risk(self, v, p, out, active, same):
        self.place(v)
        for k in active:
            l = self.leafs[k]
            st, T, sc = self.b.tangents(self.root, {l: np.ones((1,) + l.x.shape)})
            if st and T is None:
                return True
        return False

    def function(self, ch, outer):
        body = lambda *a: self.program(ch, list(a) + outer)
        ns = {'body': body}
        arg = ', '.join(self.params)
        if self.b.rng.rand() < .5:
            return eval('lambda %s: body(%s)' % (arg, arg), ns)
        exec('def fn(%s):\n    return body(%s)' % (arg, arg), ns)
        return ns['fn']

    def build(self, ch, x, p):
        k = len(self.params)
        fn = self.function(ch, x[k:])
        bind = dict(zip(self.params, x[:k]))
        r = self.b.rng
        self.mon.saw('wrapped:' + self.mode)
        if self.captured:
            self.mon.saw('wrapped:capture')
        if any(isinstance(n.op, Body) for n in self.steps):
            self.mon.saw('wrapped:nested')
        if self.mode == 'initial':
            if r.rand() < .5:
                return ch.Ch(fn, initial_args=bind)
            return ch.ChLambda(fn, bind) if hasattr(ch, 'ChLambda') else ch.Ch(fn, bind)
        if self.mode == 'group':
            from chumpy.ch import ChGroup
            bind = dict((q, v if hasattr(v, 'dterms') else ch.Ch(v)) for q, v in bind.items())
            if r.rand() < .5:                # already bound to what it is grouped under, or to something of the kind
                inner = ch.Ch(fn, initial_args=bind)
                if r.rand() < .5:
                    inner.set(**bind)
                self.mon.saw('wrapped:group of bound')
            else:
                inner = ch.Ch(fn, initial_args=dict((q, v.r.copy()) for q, v in bind.items()))
            return ChGroup(result=inner, args=bind)
        f = ch.Ch(fn) if self.mode == 'late' else None
        if self.mode == 'partial':
            first = dict((q, bind[q]) for q in self.params[:1])
            f = ch.Ch(fn, initial_args=first)
        q = r.randint(4)
        if q == 0:
            f.set(**bind)
        elif q == 1:
            f(**bind)
        else:
            if r.rand() < .5:
                f.r                          # evaluated with the defaults first
            for j in r.permutation(k):
                setattr(f, self.params[j], bind[self.params[j]])
                if r.rand() < .3:
                    try:
                        f.r
                    except ValueError:
                        pass                 # shapes may not fit before everything is bound
        return f


class Handle(Op):
    """A handle stands for the expression it holds."""
    name = 'ChHandle'
    names = ('x',)

    def f(self, v, p): return v[0].copy()
    def jvp(self, v, p, pos, t, out): return t

    def build(self, ch, x, p):
        from chumpy.ch import ChHandle
        return ChHandle(x=x[0])


def wrap(ch, rng, mon, s, ops, depth=0):
    """Add one wrapped function over existing expressions of the session."""
    cands = s.usable()
    if not cands:
        cands = [s.leaf()]
    npar = rng.randint(1, 4)
    mode = ('late', 'initial', 'initial', 'group', 'partial')[rng.randint(5)]
    names = [ARGS[k] for k in rng.permutation(4)[:npar]]
    ins = []
    a = s.choose(cands)
    for k in range(npar):
        q = rng.rand()
        if k == 0:
            ins.append(a)
        elif q < .15:
            ins.append(a)
        elif q < .6:
            ins.append(s.choose(cands))
        elif q < .75:
            c = s.rand_val(s.val(a).shape)
            ins.append(Node('const', x=A(c), ch=c.copy()))
        else:
            ins.append(s.leaf(x=s.rand_val(s.val(a).shape)))
    if mode in ('late', 'partial'):
        base = s.val(a).shape
        ins = [i if refops.compatible(s.val(i).shape, base) else a for i in ins]
    cap = []
    if rng.rand() < .25 and depth == 0 and mode != 'group':
        cap = [s.choose(cands)]
    shapes = [s.val(i).shape for i in ins + cap]
    body = Body(ch, rng, mon, names, cap, shapes, jump() if mode in ('late', 'partial') else ops,
                rng.randint(0, 5), mode)
    n = Node('op', op=body, ins=ins + cap, p={'form': 0})
    if body.root.kind != 'op' and (mode != 'initial' or cap):
        return None
    if cap and body.leafs[-1] not in body.b.reach(body.root):
        return None
    if not s.good(n):
        s.memo.pop(n, None)
        return None
    mon.note('%s%s body %s, extra %d' % (mode, names, body.text, len(body.extra)))
    s.realise(n)
    return n


def nested(ch, rng, mon, s, ops):
    """A wrapped function whose body wraps another one."""
    from copy import copy
    inner_host = Session(ch, rng, type(mon)('nested'), ops=ops)
    a = s.pick(s.usable())
    if a is None:
        return None
    shape = s.val(a).shape
    body = Body(ch, rng, mon, ['x', 'y'], [], [shape, shape], jump(), 1, 'initial')
    b = body.b
    w = wrap(ch, rng, mon, b, ops, depth=1)
    if w is None or not b.good(w):
        return None
    top = b.grow(('add', 'multiply', 'sin')[rng.randint(3)], first=w) or w
    body.root = top
    order = b.order(top)
    body.steps = [n for n in order if n.kind == 'op']
    body.extra = [n for n in order if n.kind == 'leaf' and n not in body.leafs]
    body.nondiff = tuple(k for k, l in enumerate(body.leafs) if not body.differentiable(l))
    body.text = '+'.join(n.name for n in body.steps)
    second = s.pick([m for m in s.usable() if s.val(m).shape == shape])
    n = Node('op', op=body, ins=[a, second], p={'form': 0})
    if not s.good(n):
        return None
    mon.note('nested body %s' % body.text)
    return s.realise(n)


def defaults(ch, rng, mon):
    """Unbound arguments are the numbers 0, 1, 2, ... in order."""
    k = rng.randint(1, 5)
    names = [ARGS[j] for j in rng.permutation(4)[:k]]
    w = [float(v) for v in np.round(rng.randn(k), 2)]
    ns = {'coef': w}
    fn = eval('lambda %s: %s' % (', '.join(names), ' + '.join('coef[%d] * %s' % (j, q) for j, q in enumerate(names))), ns)
    f = ch.Ch(fn)
    want = [float(j) for j in range(k)]
    seen = {}
    for step in range(6):
        mon.check(abs(float(np.ravel(f.r)[0]) - sum(a * b for a, b in zip(w, want))) < 1e-9, 'default value',
                  lambda: 'got %s with arguments %s' % (f.r, want), (k, step))
        j = rng.randint(k)
        if j in seen and rng.rand() < .4:
            want[j] = float(np.round(rng.randn(), 2))
            seen[j].x = np.array([want[j]])
        else:
            want[j] = float(np.round(rng.randn(), 2))
            v = ch.Ch(want[j])
            seen[j] = v
            setattr(f, names[j], v if rng.rand() < .8 else want[j])
            if getattr(f, names[j]) is not v:
                del seen[j]
        if j in seen:
            J = seen[j] and f.dr_wrt(seen[j])
            J = np.asarray(J.toarray() if hasattr(J, 'toarray') else J).ravel() if J is not None else np.zeros(1)
            mon.check(abs(J[0] - w[j]) < 1e-12, 'default value', lambda: 'derivative %s expected %s' % (J, w[j]))


def declared(ch):
    import inspect
    names = lambda v: (v,) if isinstance(v, str) else tuple(v)
    return dict((c.__name__, (names(c.dterms), names(c.terms)))
                for c in vars(ch.ch).values() if inspect.isclass(c) and issubclass(c, ch.Ch))


def case(ch, rng, mon, tier, i):
    before = declared(ch)
    one(ch, rng, mon, tier, i)
    after = declared(ch)
    bad = [k for k in before if before[k] != after[k]]
    mon.check(not bad, 'declarations', lambda: '%s: the class declared %s, and now %s' % (
        bad[0], before[bad[0]], after[bad[0]]), len(before))


def one(ch, rng, mon, tier, i):
    if rng.rand() < .1:
        defaults(ch, rng, mon)
        return
    skip = set(refops.LINALG) | {'cross'}
    ops = [k for k in refops.OPS if k not in skip]
    s = Session(ch, rng, mon, ops=ops)
    s.build(rng.randint(1, 5), rng.randint(1, 4))
    for _ in range(rng.randint(1, 4)):
        q = rng.rand()
        if q < .65:
            n = wrap(ch, rng, mon, s, ops)
        elif q < .85:
            n = nested(ch, rng, mon, s, ops)
        else:
            a = s.pick(s.usable())
            n = Node('op', op=Handle(), ins=[a], p={'form': 0})
            if s.good(n):
                mon.saw('wrapped:handle')
                s.realise(n)
        if rng.rand() < .6:
            s.grow(first=n if n is not None and n.kind == 'op' and s.good(n) else None)
    last = 'build'
    for step in range(rng.randint(3, 10)):
        wr = [n for n in s.ops() if isinstance(n.op, (Body, Handle)) and s.good(n)]
        q = rng.rand()
        if q < .2:
            if s.rewire():
                mon.saw('change:rebind')
                last = 'rebind'
        elif q < .4:
            k = (s.set_leaf, s.set_items)[rng.randint(2)]()
            if k is not None:
                mon.saw('change:set')
                last = 'set'
        elif q < .45:
            last = 'replace' if s.substitute() else last
        elif q < .5 and len(wr) == 0:
            last = 'shape' if s.reshape_leaf() else last
        else:
            n = s.pick(wr) if wr and rng.rand() < .6 else s.pick(s.ops())
            if n is None:
                continue
            if rng.rand() < .5:
                s.check_value(n, 'value', last)
            else:
                s.check_jac(n, s.pick_target(n), 'derivative', last)
    for n in s.ops():
        s.check_value(n, 'value', last)
    for n in [m for m in s.ops() if any(isinstance(k.op, Body) for k in s.reach(m))][-3:]:
        for t in s.targets(n):
            if t.kind == 'leaf' or rng.rand() < .3:
                s.check_jac(n, t, 'derivative', last)
