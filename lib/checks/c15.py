"""C15: reads are pure. Snapshots of variables, values and derivatives are compared again after any other reads."""
import copy
import gc
import pickle

import numpy as np
import scipy.sparse as sp

from engine import Node, Session, compare, dense, brief

CASES = {'quick': 2000, 'thorough': 40000}
RULE = ('a distinct observation is (operation, input shapes, parameters, kind of read repeated, kind of reads and writes '
        'since the first read) of a repeated read, or of a variable or handed-out matrix found unchanged')
REQUIRED = ('repeated value', 'repeated derivative', 'variable unchanged by reads', 'value is read-only',
            'handed-out derivative unchanged', 'unrelated graph unaffected', 'first read value', 'first read derivative',
            'given array unchanged')


def twin(s, t):
    """The same expressions over other variables, in session t."""
    m = {}
    for n in s.nodes:
        if n.kind == 'leaf':
            m[n] = t.leaf(x=t.rand_val(n.x.shape))
            continue
        ins = [m.get(i) if i.kind != 'const' else i for i in n.ins]
        if any(i is None for i in ins):
            continue
        q = Node('op', op=n.op, ins=ins, p=dict(n.p))
        if t.good(q) and t.val(q).shape == s.val(n).shape:
            m[n] = t.realise(q)
    return m


def leafbytes(s):
    out = []
    for n in s.leaves():
        x = n.ch.x
        a = np.asarray(x)
        out.append((type(x), a.dtype.str, a.shape, a.tobytes()))
    return out


class Snap(object):
    def __init__(self, s, n, t, what, got, since):
        self.s, self.n, self.t, self.what, self.got, self.since = s, n, t, what, got, since
        self.deps = s.reach(n)


def take(n, t, what, L):
    if what == 'value':
        return np.array(n.ch.r)
    if what == 'shape':
        return np.array(n.ch.shape + (n.ch.size, n.ch.ndim, len(n.ch)))
    if what == 'text':
        return np.frombuffer(str(n.ch).encode(), dtype=np.uint8)
    if what == 'forward':
        d = dense(n.ch.dr_wrt(t.ch))
    elif what == 'reverse':
        d = dense(n.ch.dr_wrt(t.ch, reverse_mode=True))
    else:
        d = dense(n.ch.lop(t.ch, L))
    return None if d is None else np.array(d)


def bystander(ch, rng, s, mon):
    """A read whose result is thrown away."""
    n = s.pick([m for m in s.nodes if m.kind != 'const' and s.good(m)])
    if n is None:
        return
    c = n.ch
    q = rng.randint(15)
    if q == 0:
        str(c), repr(c)
    elif q == 1:
        c.shape, c.size, c.ndim, len(c), c.dtype, c.itemsize
    elif q == 2:
        np.array(c), np.asarray(c) + 1., list(c.flat)
    elif q == 3:
        pickle.dumps(c)
    elif q == 4:
        copy.deepcopy(c)
    elif q == 5:
        (c + 1.).r, (c * c).r
    elif q == 6:
        e = ch.sum(c ** 2.)
        t = s.pick_target(n)
        e.r, e.dr_wrt(t.ch), e.lop(t.ch, np.ones((1, 1)))
    elif q == 7:
        c.copy().r
    elif q == 8:
        list(c.tree_iterator())
    elif q == 9:
        c.is_dr_wrt(s.pick_target(n).ch)
    elif q == 10:
        c.ravel().r, c.T.r, c[:1].r
    elif q == 11:
        gc.collect()
    elif q == 12:
        v = c.ravel()
        v.dr_wrt(s.pick_target(n).ch)
    elif q == 13:
        ch.argmax(c) if hasattr(ch, 'argmax') else None
        np.max(c.r), np.sum(c.r)
    else:
        c.sid, c.short_name, c.is_ch_baseclass()
    mon.note('bystander %d on %s' % (q, n.tag))


def case(ch, rng, mon, tier, i):
    skip = ('det', 'logabsdet', 'signdet')
    s = Session(ch, rng, mon)
    given = np.round(rng.randn(3, 2), 3)
    keep = given.copy()
    g = s.leaf(x=given.copy())
    g.ch = ch.Ch(given)              # this very array
    s.build(rng.randint(2, 7), rng.randint(1, 3))
    t = Session(ch, rng, mon)
    twin(s, t)
    if rng.rand() < .3:
        t.grow()
    ss = [s, t]
    snaps, handed = [], []
    writes = 0
    for step in range(rng.randint(8, 22)):
        w = ss[rng.randint(2)]
        q = rng.rand()
        before = [leafbytes(x) for x in ss]
        wrote = None
        if q < .35:                 # first read
            n = w.pick([m for m in w.nodes if m.kind != 'const' and w.good(m)])
            tg = w.pick_target(n)
            what = ('value', 'value', 'shape', 'text', 'forward', 'forward', 'reverse', 'lop')[rng.randint(8)]
            if what in ('forward', 'reverse', 'lop'):
                if not w.good(tg) or (n.kind == 'leaf' and tg is not n):
                    continue
                V, st, T, sc = w.ref_jac(n, tg)
                if st and T is None:
                    continue
            L = rng.randn(1, w.val(n).size)
            mon.note('read %s of %s%s' % (what, n.tag, '' if s is w else ' (twin)'))
            got = take(n, tg, what, L)
            snaps.append((Snap(w, n, tg, what, got, step), L))
            if what == 'value':
                w.check_value(n, 'first read value', 'first')
                r = n.ch.r
                mon.saw('value is read-only', w.sig(n))
                try:
                    r[...] = 12345.
                    mon.fail('value is read-only', 'could write into the value of %s' % n.name)
                except ValueError:
                    pass
                try:
                    r += 1.
                    mon.fail('value is read-only', 'could add to the value of %s' % n.name)
                except ValueError:
                    pass
            if what == 'forward':
                w.check_jac(n, tg, 'first read derivative', 'first')
                J = n.ch.dr_wrt(tg.ch)
                if J is not None:
                    handed.append((w, n, tg, J, dense(J).copy()))
        elif q < .6:
            for _ in range(rng.randint(1, 4)):
                bystander(ch, rng, ss[rng.randint(2)], mon)
        elif q < .72:               # write
            k = rng.randint(4)
            n = (w.set_leaf, w.set_items, w.reshape_leaf, w.change_param)[k]()
            if n is None:
                continue
            wrote = n
            writes += 1
            if n.kind == 'leaf':
                snaps = [z for z in snaps if not (z[0].s is w and n in z[0].deps)]
            else:
                snaps = [z for z in snaps if not (z[0].s is w and n in z[0].deps)]
        elif q < .8:
            w.grow()
        else:                       # repeat earlier reads
            for z, L in [snaps[k] for k in rng.permutation(len(snaps))[:4]]:
                again(mon, z, L, step, writes)
        after = [leafbytes(x) for x in ss]
        for x, b, a in zip(ss, before, after):
            for n, p, r in zip(x.leaves(), b, a):
                if wrote is not None and x is w and n is wrote:
                    continue
                mon.saw('variable unchanged by reads', (n.x.shape, q < .72))
                if p != r:
                    mon.fail('variable unchanged by reads', 'variable %s: %s -> %s' % (n.tag, p[:3], r[:3]))
    for k in rng.permutation(len(snaps)):
        again(mon, snaps[k][0], snaps[k][1], 99, writes)
    for w, n, tg, J, D in handed:
        mon.saw('handed-out derivative unchanged', (w.name if hasattr(w, 'name') else n.name, writes > 0, type(J).__name__))
        if not np.array_equal(dense(J), D):
            mon.fail('handed-out derivative unchanged', 'derivative of %s wrt %s changed from %s to %s' % (
                n.name, tg.name, brief(D), brief(dense(J))))
    if g.x.shape == keep.shape and np.array_equal(g.x, keep):
        mon.saw('given array unchanged', len(s.nodes))
        if not np.array_equal(given, keep):
            mon.fail('given array unchanged', 'the array a variable was made of changed: %s -> %s' % (keep, given))


def again(mon, z, L, step, writes):
    s, n = z.s, z.n
    got = take(n, z.t, z.what, L)
    value = z.what in ('value', 'shape', 'text')
    kind = 'repeated value' if value else 'repeated derivative'
    mon.saw(kind, s.sig(n, (z.what, min(step - z.since, 6), writes > 0)))
    if writes:
        mon.saw('unrelated graph unaffected', s.sig(n, (z.what,)))
    if (got is None) != (z.got is None):
        mon.fail(kind, '%s of %s %s: %s, then %s' % (z.what, n.tag, n.name, z.got, got))
    if got is None:
        return
    if value:
        ok = got.shape == z.got.shape and got.tobytes() == z.got.tobytes()
        bad = None if ok else '%s, then %s' % (brief(z.got), brief(got))
    else:
        bad = compare(got, z.got, 1e-11)
    if bad:
        mon.fail(kind, '%s of %s %s: %s' % (z.what, n.tag, n.name, bad))
