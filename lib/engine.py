"""Sessions: random expression graphs built in chumpy and mirrored by reference nodes.

Every chumpy object of a session has a reference node holding the operation, its inputs and its
parameters.  The oracle evaluates the reference nodes with NumPy (values) and by propagating exact
tangents (derivatives), always from the *current* contents, and compares them with what chumpy returns.
"""
import gc

import numpy as np

import refops
from refops import A, OPS

VMAX = 500.       # sessions stay inside this box, so that double rounding is far below the tolerances
TMAX = 1e4
SIZEMAX = 48

COLLAPSE = ('reshape', 'ravel', 'squeeze', 'expand_dims', 'tensordot', 'concatenate', 'vstack', 'hstack', 'dstack')
FLATTENED = ('concatenate', 'vstack', 'hstack', 'dstack')
# operations whose value is ill-conditioned where their derivative is
FRAGILE = ('tan', 'arcsin', 'arccos', 'log', 'sqrt', 'reciprocal', 'divide', 'NanDivide', 'power', 'inv', 'logabsdet',
           'signdet', 'pinv', 'norm')
# something about the layout was decided when the expression was written down
NO_SHAPE_CHANGE = ('tensordot', 'svd_d', 'hstack', 'vstack', 'dstack')
JUMPS = {'floor': 1, 'ceil': 1, 'sign': 0, 'logical_not': 0, 'all': 0, 'any': 0}


# differentiating with respect to a view whose base is also reachable otherwise is ambiguous in chumpy
NOT_TARGET = COLLAPSE + ('tile', 'repeat', 'diag', 'diagflat')


class Reject(Exception):
    pass


def dense(m, what='derivative'):
    """The numbers of whatever chumpy hands out as a derivative; None stays None."""
    import scipy.sparse as sp
    from scipy.sparse.linalg import LinearOperator
    if m is None:
        return None
    if sp.issparse(m):
        return np.asarray(m.toarray(), dtype=np.float64)
    if isinstance(m, LinearOperator):
        return np.asarray(m.dot(np.eye(m.shape[1])), dtype=np.float64)
    return np.asarray(m, dtype=np.float64)


class Node(object):
    __slots__ = ('kind', 'op', 'ins', 'p', 'ch', 'x', 'pinned', 'tag', 'shapes0', '__weakref__')

    def __init__(self, kind, op=None, ins=(), p=None, ch=None, x=None):
        self.kind, self.op, self.ins, self.p, self.ch, self.x = kind, op, list(ins), p, ch, x
        self.pinned = False
        self.tag = self.shapes0 = None

    @property
    def name(self):
        return self.op.name if self.op is not None else self.kind


class Session(object):
    def __init__(self, ch, rng, mon, ops=None, alias=True, consts=True, sizemax=SIZEMAX):
        self.ch, self.rng, self.mon = ch, rng, mon
        names = sorted(ops) if ops is not None else sorted(OPS)
        self.opnames = names
        w = np.array([OPS[k].weight * (ops[k] if isinstance(ops, dict) else 1.) for k in names])
        self.opw = np.cumsum(w / w.sum())
        self.nodes = []
        self.memo = {}
        self.alias, self.consts, self.sizemax = alias, consts, sizemax
        self.count = 0
        self.vmax, self.tmax, self.mag, self.rel = VMAX, TMAX, None, False
        refops.user_classes(ch)

    # ------------------------------------------------------------------ reference evaluation
    def dirty(self):
        self.memo = {}

    def val(self, n):
        """Reference value; raises Reject when it leaves the box in which the oracle is exact enough."""
        m = self.memo.get(n)
        if m is not None:
            if m is False:
                raise Reject('bad')
            return m
        try:
            if n.kind != 'op':
                v = A(n.x)
            else:
                iv = [self.val(i) for i in n.ins]
                shapes = [u.shape for u in iv]
                if not n.op.valid(shapes, n.p) or (n.name in NO_SHAPE_CHANGE and shapes != (n.shapes0 or shapes)):
                    raise Reject('unsupported')
                v = A(n.op.f(iv, n.p))
                if v.size == 0 or v.size > self.sizemax or not np.all(np.isfinite(v)) or np.abs(v).max() > self.vmax:
                    raise Reject('range')
                if any(i.kind == 'op' for i in n.ins):
                    if n.name in FRAGILE and n.op.risk(iv, n.p, v, (0, 1), False):
                        raise Reject('ill-conditioned')
                    if n.op.nondiff and self.jumpy(n, iv):
                        raise Reject('discontinuity')
        except Reject:
            self.memo[n] = False
            raise
        except (ValueError, IndexError, np.linalg.LinAlgError, TypeError, ZeroDivisionError) as e:
            self.memo[n] = False
            raise Reject(repr(e))
        self.memo[n] = v
        return v

    @staticmethod
    def jumpy(n, iv):
        k = n.name
        if k in JUMPS:
            d = iv[0] - np.round(iv[0]) if JUMPS[k] else iv[0]
            return bool(np.any(np.abs(d) < 1e-7))
        if n.op.nin == 2:
            return n.ins[0] is not n.ins[1] and bool(np.any(np.abs(iv[0] - iv[1]) < 1e-7))
        return False

    def good(self, n):
        try:
            self.val(n)
            return True
        except Reject:
            return False

    def reach(self, n, memo=None):
        memo = set() if memo is None else memo
        todo = [n]
        while todo:
            k = todo.pop()
            if k not in memo:
                memo.add(k)
                todo.extend(k.ins)
        return memo

    def order(self, n):
        done, out = set(), []
        todo = [(n, 0)]
        while todo:
            k, st = todo.pop()
            if st:
                out.append(k)
            elif k not in done:
                done.add(k)
                todo.append((k, 1))
                todo.extend((i, 0) for i in k.ins)
        return out

    def tangents(self, n, seeds):
        """Tangents of n for the seeds {node: array (k,)+shape}.

        Returns (structural, T, scale): structural is False when no differentiable path exists, T is None
        when the derivative does not exist (or is ill-conditioned) at this point."""
        T = {}
        scale = 1.
        risky = set()
        for m in self.order(n):
            if m in seeds:
                T[m] = seeds[m]
                continue
            if m.kind != 'op':
                continue
            act = [k for k, i in enumerate(m.ins) if i in T and k not in m.op.nondiff]
            rk = any(m.ins[k] in risky for k in act)
            if not act:
                continue
            iv = [self.val(i) for i in m.ins]
            out = self.val(m)
            same = len(m.ins) == 2 and m.ins[0] is m.ins[1]
            if rk or m.op.risk(iv, m.p, out, tuple(act), same):
                risky.add(m)
                T[m] = None
                continue
            K = next(iter(seeds.values())).shape[0]
            res = np.zeros((K,) + out.shape)
            for k in act:
                tk = T[m.ins[k]]
                for j in range(K):
                    t = np.asarray(m.op.jvp(iv, m.p, k, tk[j], out))
                    res[j] += t.reshape(out.shape)
            if not np.all(np.isfinite(res)) or np.abs(res).max() > self.tmax:
                risky.add(m)
                T[m] = None
                continue
            scale = max(scale, np.abs(res).max(), np.abs(out).max())
            T[m] = res
        if n not in T:
            return False, None, scale
        if self.rel and T[n] is not None:          # one operation on exact inputs: nothing can cancel
            scale = max(np.abs(T[n]).max(), 1e-300)
        return True, T[n], scale

    # ------------------------------------------------------------------ building
    def rand_shape(self):
        r = self.rng
        k = r.randint(12)
        if k < 3:
            return (int(r.randint(1, 6)),)
        if k == 3:
            return ()
        if k == 4:
            return (1, int(r.randint(1, 5)))
        if k == 5:
            return (int(r.randint(1, 5)), 1)
        if k < 9:
            if r.rand() < .4:
                d = int(r.randint(1, 4))
                return (d, d)
            return (int(r.randint(1, 5)), int(r.randint(1, 5)))
        if k < 11:
            return tuple(int(d) for d in r.randint(1, 4, size=3))
        return tuple(int(d) for d in r.randint(1, 3, size=4))

    def rand_val(self, shape, style=None):
        r = self.rng
        style = r.randint(5) if style is None else style
        n = int(np.prod(shape))
        if style == 0:
            v = np.round(r.uniform(-2, 2, n), 3)
        elif style == 1:
            v = np.round(r.uniform(.2, 2.2, n), 3)
        elif style == 2:
            v = r.randint(-3, 4, n) * 1.
        elif style == 3:
            v = r.randn(n)
        else:
            v = r.permutation(n) * .37 - .4 * (n // 2) + r.uniform(-.05, .05, n)
        if self.mag is not None:
            v = v * self.mag
        return v.reshape(shape)

    def add(self, n):
        self.nodes.append(n)
        n.tag = self.count
        self.count += 1
        return n

    def leaf(self, shape=None, x=None):
        r = self.rng
        if x is None:
            x = self.rand_val(self.rand_shape() if shape is None else shape)
        raw = x
        q = r.randint(10)
        if q == 0 and x.ndim == 2:
            raw = np.asfortranarray(x)
        elif q == 1 and x.ndim >= 1:
            raw = np.repeat(x, 2, axis=0)[::2]
        elif q == 2 and x.ndim > 1 and x.shape[0] == 1:
            raw = x[0][None]
        elif q == 3 and x.ndim > 1 and x.shape[-1] == 1:
            raw = x[..., 0][..., None]
        elif q == 4:
            raw = x.tolist()
        if r.rand() < .9:
            obj = self.ch.Ch(np.array(raw, copy=True) if isinstance(raw, np.ndarray) and q > 4 else raw)
        else:
            obj = self.ch.array(raw)
        return self.add(Node('leaf', ch=obj, x=A(x).copy()))

    def choose(self, cands):
        """Prefer recent nodes so that graphs grow deep."""
        k = len(cands)
        if self.rng.rand() < .5:
            return cands[max(0, k - 1 - int(self.rng.exponential(2.)))]
        return cands[self.rng.randint(k)]

    def usable(self):
        return [n for n in self.nodes if n.kind != 'const' and self.good(n)]

    def grow(self, name=None, tries=12, first=None):
        """Add one operation on existing nodes (or fresh leaves)."""
        for _ in range(tries):
            op = OPS[name if name is not None else self.opnames[int(np.searchsorted(self.opw, self.rng.rand()))]]
            n = self.try_op(op, first)
            if n is not None:
                return n
        return None

    def try_op(self, op, first=None):
        r = self.rng
        cands = self.usable()
        if not cands:
            cands = [self.leaf()]
        a = first if first is not None else self.choose(cands)
        ins = [a]
        fresh = []
        sa = self.val(a).shape
        if op.nin == 2:
            q = r.rand()
            if q < .12 and self.alias:
                ins.append(a)
            elif q < .3 and self.consts and hasattr(op, 'consts'):
                sb = op.second(r, sa)
                c = self.rand_val(sb)
                if r.rand() < .4:
                    c = np.array(float(r.randint(1, 4)) if r.rand() < .5 else float(np.round(r.uniform(.3, 2), 2)))
                ins.append(Node('const', x=A(c), ch=(float(c) if c.ndim == 0 else c)))
                if r.rand() < .4:
                    ins.reverse()
            elif q < .75:
                b = self.choose(cands)
                ins.append(b)
            else:
                b = Node('leaf', x=A(self.rand_val(op.second(r, sa))))
                fresh.append(b)
                ins.append(b)
                if r.rand() < .3 and op.name not in ('dot', 'tensordot'):
                    ins.reverse()
        elif op.nin is None:
            arity = getattr(op, 'arity', None)
            k = arity or r.randint(1, 5)
            same = [c for c in cands if self.val(c).shape == sa]
            near = [c for c in cands if self.val(c).ndim == len(sa)]
            for _ in range(k - 1):
                q = r.rand() if arity is None else .4 if r.rand() < .7 else .9
                if q < .5:
                    ins.append(same[r.randint(len(same))] if self.alias else a)
                elif q < .75:
                    ins.append(near[r.randint(len(near))])
                else:
                    s = list(sa)
                    if s and arity is None:
                        s[r.randint(len(s))] = int(r.randint(1, 4))
                    b = Node('leaf', x=A(self.rand_val(tuple(s))))
                    fresh.append(b)
                    ins.append(b)
            if not self.alias and len(set(ins)) < len(ins):
                return None
        if not self.alias and len(ins) == 2 and ins[0] is ins[1]:
            return None
        shapes = [self.val(i).shape for i in ins]
        p = op.gen(r, shapes)
        if p is None:
            return None
        p = dict(p, form=int(r.randint(op.forms)))
        n = Node('op', op=op, ins=ins, p=p)
        if not self.good(n):
            self.memo.pop(n, None)
            return None
        for b in fresh:
            b.ch = self.ch.Ch(np.array(b.x))
            self.add(b)
        return self.realise(n)

    def names_of(self, n):
        if n.kind != 'op' or n.op.names is None:
            return None
        if n.op.nondiff and n.op.nin == 2 and n.p['form'] == 2 and n.ins[0].kind == 'const':
            return None          # 1. >= x is x <= 1.
        return n.op.names_for(len(n.ins)) if n.op.nin is None else n.op.names

    def realise(self, n):
        n.ch = n.op.build(self.ch, [i.ch for i in n.ins], n.p)
        if any(n.ch is i.ch for i in n.ins):
            return None
        names = self.names_of(n)
        n.shapes0 = [self.val(i).shape for i in n.ins]
        for k, i in enumerate(n.ins):
            if i.kind == 'op' and i.name in COLLAPSE:
                if names is None or getattr(n.ch, names[k], None) is not i.ch:
                    i.pinned = True
        self.mon.note('%d=%s(%s)%s' % (self.count, n.name, ','.join(
            'const' if i.kind == 'const' else str(i.tag) for i in n.ins), short(n.p)))
        return self.add(n)

    # ------------------------------------------------------------------ observing
    def sig(self, n, extra=()):
        return (n.name, tuple(self.val(i).shape for i in n.ins), short(n.p)) + tuple(extra)

    def check_value(self, n, kind='value', where=''):
        """Read n.r and judge it. Returns False when the oracle abstains."""
        if not self.good(n):
            self.mon.skip('value outside the box')
            return False
        ref = self.val(n)
        got = n.ch.r
        self.mon.saw(kind, self.sig(n, (where,)))
        bad = compare(got, ref, 1e-9)
        if bad:
            self.mon.fail(kind, '%s node %s (%s) inputs %s: %s' % (
                where, n.tag, n.name, [i.tag for i in n.ins], bad))
        return True

    def seeds_for(self, target, idxs=None):
        """Random (or basis) directions in the space of target, or of its entries idxs."""
        v = self.val(target)
        n = v.size if idxs is None else len(idxs)
        if n <= 3:
            V = np.eye(n)
        else:
            V = self.rng.randn(2, n)
        if idxs is None:
            return V, {target: V.reshape((V.shape[0],) + v.shape)}
        W = np.zeros((V.shape[0], v.size))
        for j in range(V.shape[0]):
            np.add.at(W[j], idxs, V[j])
        return V, {target: W.reshape((V.shape[0],) + v.shape)}

    def ref_jac(self, n, target, idxs=None):
        V, seeds = self.seeds_for(target, idxs)
        st, T, scale = self.tangents(n, seeds)
        return V, st, T, scale

    def check_jac(self, n, target, kind='jacobian', where='', get=None, idxs=None, strict_none=False):
        """Ask chumpy for the derivative of n wrt target and judge it."""
        if not self.good(n) or not self.good(target):
            self.mon.skip('value outside the box')
            return False
        V, st, T, scale = self.ref_jac(n, target, idxs)
        if st and T is None:
            self.mon.skip('not differentiable here')
            return False
        J = (get or (lambda: n.ch.dr_wrt(target.ch)))()
        D = dense(J)
        self.mon.saw(kind, self.sig(n, (where, target.name, self.val(target).shape)))
        who = '%s d(node %s %s)/d(node %s %s)' % (where, n.tag, n.name, target.tag, target.name)
        if not st:
            if D is not None and (strict_none or np.any(D != 0)):
                self.mon.fail(kind, '%s: no dependence, got %s' % (who, D))
            return True
        if D is None:
            if np.abs(T).max() > 1e-9 * scale:
                self.mon.fail(kind, '%s: got None, expected directional derivatives %s' % (who, T))
            return True
        rows = self.val(n).size
        cols = V.shape[1]
        if D.ndim != 2 or D.shape != (rows, cols):
            self.mon.fail(kind, '%s: shape %s, expected %s' % (who, D.shape, (rows, cols)))
        got = D.dot(V.T).T
        bad = compare(got, T.reshape(V.shape[0], -1), 1e-9, scale)
        if bad:
            self.mon.fail(kind, '%s: %s\n  shape %s params %s' % (who, bad, [self.val(i).shape for i in n.ins],
                                                                   short(n.p)))
        return True

    # ------------------------------------------------------------------ choosing what to look at
    def leaves(self):
        return [n for n in self.nodes if n.kind == 'leaf']

    def ops(self):
        return [n for n in self.nodes if n.kind == 'op']

    def targets(self, n):
        """Reasonable differentiation targets for n: leaves, and intermediates that are not views."""
        out = []
        for m in self.reach(n):
            if m.kind == 'leaf' or (m.kind == 'op' and not m.op.permute and m.name not in NOT_TARGET):
                out.append(m)
        return sorted(out, key=lambda m: m.tag)

    def pick(self, seq):
        return seq[self.rng.randint(len(seq))] if seq else None

    def pick_target(self, n, p_unrelated=.06):
        if self.rng.rand() < p_unrelated:
            return self.pick(self.leaves())
        ts = self.targets(n)
        lv = [t for t in ts if t.kind == 'leaf']
        if lv and self.rng.rand() < .7:
            return self.pick(lv)
        return self.pick(ts) or self.pick(self.leaves())

    # ------------------------------------------------------------------ histories
    def live_ok(self):
        """How many live nodes are inside the oracle's box."""
        return sum(1 for n in self.nodes if n.kind == 'op' and self.good(n))

    def tentative(self, apply, undo, keep=.6):
        """Apply a change to the reference only; undo it if it would spoil too many nodes."""
        before = self.live_ok()
        apply()
        self.dirty()
        if self.live_ok() < keep * before:
            undo()
            self.dirty()
            return False
        return True

    def strict_tentative(self, apply, undo):
        """As tentative, but every node must stay evaluable (used when shapes or wiring change)."""
        before = [n for n in self.nodes if n.kind == 'op' and self.good(n)]
        apply()
        self.dirty()
        if any(not self.good(n) for n in before) or any(n.kind == 'op' and not self.good(n) for n in self.nodes):
            undo()
            self.dirty()
            return False
        return True

    def set_leaf(self, how=None):
        """New contents, same shape."""
        n = self.pick(self.leaves())
        if n is None:
            return None
        r = self.rng
        old = n.x
        for _ in range(4):
            new = A(self.rand_val(old.shape))
            q = r.rand()
            if q < .2:
                new = old + np.round(r.randn(*old.shape) * 1e-3, 6)
            elif q < .5 and old.size > 1:
                new = self.rearranged(old)
            if self.tentative(lambda: setattr(n, 'x', new), lambda: setattr(n, 'x', old)):
                break
        else:
            return None
        how = r.randint(7) if how is None else how
        arr = np.array(new)
        c = n.ch
        if how == 0:
            c.x = arr
        elif how == 1:
            c[:] = arr
        elif how == 2:
            c.set(x=arr)
        elif how == 3:
            c.x = arr.tolist()
        elif how == 4 and np.all(new == np.round(new)):
            c.x = arr.astype(int)
        elif how == 5:
            c.x = np.asfortranarray(arr)
        elif how == 6:
            c[...] = arr
        else:
            c.x = arr
        self.mon.note('set %d how %d' % (n.tag, how))
        return n

    def rearranged(self, old):
        """Other contents that have much in common with the old ones (sum, norm, extremes, first or last entry)."""
        r = self.rng
        v = old.ravel().copy()
        how = r.randint(5)
        if how == 0:
            v[1:] = r.permutation(v[1:])
        elif how == 1:
            v[:-1] = r.permutation(v[:-1])
        elif how == 2:
            v = v[::-1].copy()
        elif how == 3:
            i, j = r.permutation(v.size)[:2]
            v[i], v[j] = v[j], v[i]
        else:
            v = -v
        return A(v.reshape(old.shape))

    def set_items(self):
        """Assign some elements of a variable, directly or through a chain of views."""
        n = self.pick(self.leaves())
        if n is None:
            return None
        r = self.rng
        old = n.x
        flat = np.arange(old.size).reshape(old.shape)
        view, idx = n.ch, flat
        depth = r.randint(3)
        new = None
        for _ in range(depth):
            q = r.randint(4)
            if q == 0 and idx.ndim == 2:
                view, idx = view.T, idx.T
            elif q == 1:
                view, idx = view.reshape(-1), idx.reshape(-1)
            else:
                key = refops.gen_key(r, idx.shape)
                view, idx = view[key], np.atleast_1d(idx[key])
        key = refops.gen_key(r, idx.shape)
        where = np.atleast_1d(idx[key])
        if len(np.unique(where)) != where.size:
            return None
        val = self.rand_val(where.shape)
        if r.rand() < .3:
            val = np.array(float(np.round(r.uniform(-1.5, 1.5), 3)))

        def apply():
            x = old.copy()
            x.ravel()[where.ravel()] = np.broadcast_to(val, where.shape).ravel()
            n.x = x

        if not self.tentative(apply, lambda: setattr(n, 'x', old)):
            return None
        if val.ndim and idx[key].ndim == 0:
            val = val.reshape(())
        view[key] = float(val) if val.ndim == 0 else val
        self.mon.note('setitem %d depth %d key %s' % (n.tag, depth, short(key)))
        return n

    def reshape_leaf(self):
        """New contents with a new shape, when the whole graph still makes sense."""
        r = self.rng
        for _ in range(10):
            n = self.pick(self.leaves())
            if n is None:
                return None
            old = n.x
            s = list(old.shape)
            q = r.randint(7)
            if q == 5:                                 # the same lengths on other axes
                s = [s[k] for k in r.permutation(len(s))]
            elif q == 6:                               # a factor moves from one axis to another
                k, j = r.randint(len(s)), r.randint(len(s))
                f = [d for d in range(2, s[k] + 1) if s[k] % d == 0]
                if f and j != k:
                    f = f[r.randint(len(f))]
                    s[k] //= f
                    s[j] *= f
            elif q == 0:
                s[r.randint(len(s))] = int(r.randint(1, 6))
            elif q == 4:
                k = r.randint(len(s))
                s[k] = max(1, s[k] - 1)
            elif q == 1:
                s = list(self.rand_shape()) or [1]
            elif q == 2:
                s = list(refops.factor_shape(r, old.size))
            else:
                k = r.randint(len(s))
                s[k] = s[k] + 1
            if tuple(s) == old.shape:
                continue
            new = A(self.rand_val(tuple(s)))
            if not self.strict_tentative(lambda: setattr(n, 'x', new), lambda: setattr(n, 'x', old)):
                continue
            if r.rand() < .3:
                n.ch.set(x=np.array(new))
            else:
                n.ch.x = np.array(new)
            self.mon.note('reshape %d %s->%s' % (n.tag, old.shape, tuple(s)))
            return n
        return None

    def attr_value(self, n, k, v):
        if n.name == 'MatVecMult' and n.p.get('sparse'):
            import scipy.sparse as sp
            return sp.csc_matrix(v)
        return v

    def change_param(self):
        r = self.rng
        # concatenations of concatenations are flattened when written down, so their axis is not theirs alone
        cands = [n for n in self.ops() if n.op.attrs and not n.pinned and self.good(n) and not (
            n.name == 'concatenate' and any(i.kind == 'op' and i.name in FLATTENED for i in n.ins))]
        for _ in range(6):
            n = self.pick(cands)
            if n is None:
                return None
            old = n.p
            new = n.op.regen(r, [self.val(i).shape for i in n.ins], old)
            if new is None:
                continue
            ks = [k for k in n.op.attrs if k in new and not same_param(new[k], old.get(k))]
            if not ks:
                continue
            if len(ks) > 1 and r.rand() < .6:     # one parameter alone
                ks = [ks[r.randint(len(ks))]]
                new = dict(old, **{ks[0]: new[ks[0]]})
            if not self.strict_tentative(lambda: setattr(n, 'p', new), lambda: setattr(n, 'p', old)):
                continue
            if len(ks) > 1 or r.rand() < .3:
                n.ch.set(**dict((n.op.attrs[k], self.attr_value(n, k, new[k])) for k in ks))
            else:
                setattr(n.ch, n.op.attrs[ks[0]], self.attr_value(n, ks[0], new[ks[0]]))
            self.mon.note('param %d %s %s' % (n.tag, n.name, short(dict((k, new[k]) for k in ks))))
            return n
        return None

    def rewire(self):
        """Replace an input of an existing operation. Returns (node, old inputs) or None."""
        r = self.rng
        for _ in range(12):
            cands = [n for n in self.ops() if not n.pinned and self.names_of(n) and self.good(n)]
            n = self.pick(cands)
            if n is None:
                return None
            names = self.names_of(n)
            k = r.randint(len(n.ins))
            old = list(n.ins)
            if n.ins[k].kind != 'const' and getattr(n.ch, names[k], None) is not n.ins[k].ch:
                continue
            pool = [m for m in self.nodes if m is not n.ins[k] and self.good(m) and n not in self.reach(m)]
            if n.name in COLLAPSE:
                pool = [m for m in pool if m.name not in COLLAPSE]
            mode = r.randint(5)
            ks = [k]
            if mode in (1, 2) and len(n.ins) > 1 and r.rand() < (.9 if mode == 1 else .5):     # several inputs at once
                ks += [q for q in range(len(n.ins)) if q != k and n.ins[q].kind != 'const' and
                       getattr(n.ch, names[q], None) is n.ins[q].ch][:1 if r.rand() < .7 else None]
            newins = list(n.ins)
            fresh = []
            for q in ks:
                if q != k and r.rand() < .4:       # swap, or pass the present input again
                    newins[q] = old[k] if old[k].kind != 'const' and r.rand() < .75 else old[q]
                elif (mode == 4 if q == k else r.rand() < .3) or not pool or r.rand() < .25:
                    sh = self.val(n.ins[q]).shape
                    if r.rand() < .35:             # another layout
                        sh = refops.bcast_partner(r, sh) if r.rand() < .6 else self.rand_shape()
                    newins[q] = Node('leaf', x=A(self.rand_val(sh)))
                    if r.rand() < .25:             # a plain array, which takes no part in derivatives
                        newins[q].kind = 'const'
                    fresh.append(newins[q])
                else:
                    same = [m for m in pool if self.val(m).shape == self.val(n.ins[q]).shape]
                    newins[q] = self.pick(same) if same and r.rand() < .7 else self.pick(pool)
            if not self.alias and len(set(newins)) < len(newins):
                continue
            oldp, newp = n.p, n.p
            if len(ks) > 1 and n.op.attrs and r.rand() < .3 and n.name not in FLATTENED:        # and parameters with them
                try:
                    newp = n.op.regen(r, [self.val(i).shape for i in newins], oldp) or oldp
                except Reject:
                    newp = oldp

            def undo():
                n.ins, n.p = old, oldp

            def apply():
                n.ins, n.p = newins, newp
            if not self.strict_tentative(apply, undo):
                continue
            for m in fresh:
                if m.kind == 'const':
                    m.ch = np.array(m.x) if m.x.size > 1 or r.rand() < .5 else float(m.x.ravel()[0])
                    if not isinstance(m.ch, np.ndarray):
                        m.x = A(m.ch)
            if any(m.kind == 'const' for m in fresh):
                self.dirty()
                if not self.strict_tentative(lambda: None, undo):
                    continue
            for m in fresh:
                if m.kind != 'const':
                    m.ch = self.ch.Ch(np.array(m.x))
                    self.add(m)
            kw = dict((names[q], newins[q].ch) for q in ks)
            if newp is not oldp:
                kw.update((n.op.attrs[q], self.attr_value(n, q, newp[q])) for q in n.op.attrs
                          if q in newp and not same_param(newp[q], oldp.get(q)))
            items = sorted(kw.items())
            r.shuffle(items)
            kw = dict(items)
            if mode == 2:
                self.mon.note('call %d %s' % (n.tag, sorted(kw)))
                self.mon.saw('called', (n.name, len(ks)))
                bad = compare(n.ch(**kw), self.val(n), 1e-9)
                if bad:
                    self.mon.fail('called', 'calling node %s (%s) with %s: %s' % (n.tag, n.name, sorted(kw), bad))
            elif mode == 1 or len(kw) > 1:
                n.ch.set(**kw)
            else:
                setattr(n.ch, names[k], newins[k].ch)
            self.mon.note('rewire %d %s inputs %s: %s' % (n.tag, n.name, ks, [newins[q].tag for q in ks]))
            return n, old, newins
        return None

    def substitute(self):
        """root.replace(old, new) throughout a graph."""
        r = self.rng
        for _ in range(12):
            roots = [n for n in self.ops() if self.good(n)]
            root = self.pick(roots)
            if root is None:
                return None
            inner = [m for m in self.reach(root) if m is not root and m.kind != 'const' and not m.pinned]
            inner.sort(key=lambda m: m.tag)
            old = self.pick(inner)
            if old is None:
                continue
            reach_root = self.reach(root)
            users = [m for m in reach_root if old in m.ins]
            if any(u.pinned for u in users):
                continue
            pool = [m for m in self.nodes if m is not old and m.kind != 'const' and self.good(m)
                    and self.val(m).shape == self.val(old).shape]
            pool = [m for m in pool if old not in self.reach(m) and not any(u in self.reach(m) for u in users)]
            if any(u.name in COLLAPSE for u in users):
                pool = [m for m in pool if m.name not in COLLAPSE]
            fresh = None
            if not pool or r.rand() < .3:
                fresh = Node('leaf', x=A(self.rand_val(self.val(old).shape)))
                new = fresh
            else:
                new = self.pick(pool)
            saved = dict((u, list(u.ins)) for u in users)

            def apply():
                for u in users:
                    u.ins = [new if i is old else i for i in u.ins]

            def undo():
                for u in users:
                    u.ins = saved[u]

            if not self.alias and any(len(set([new if i is old else i for i in u.ins])) < len(u.ins) for u in users):
                continue
            if not self.strict_tentative(apply, undo):
                continue
            if fresh is not None:
                fresh.ch = self.ch.Ch(np.array(fresh.x))
                self.add(fresh)
            root.ch.replace(old.ch, new.ch)
            self.mon.note('replace in %d: %d by %d' % (root.tag, old.tag, new.tag))
            return root, old, new
        return None

    def drop(self):
        """Forget some expression nothing else is made of, and let it be collected."""
        used = set(i for n in self.nodes for i in n.ins)
        cands = [n for n in self.ops() if n not in used]
        n = self.pick(cands)
        if n is None or len(self.ops()) < 4:
            return None
        self.nodes.remove(n)
        self.memo.pop(n, None)
        self.mon.note('drop %d' % n.tag)
        n.ch = None
        if self.rng.rand() < .5:
            gc.collect()
        return n

    def build(self, nops, nleaves=2):
        for _ in range(nleaves):
            self.leaf()
        for _ in range(nops):
            self.grow()


def same_param(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))
    return short(a) == short(b)


def short(p):
    if isinstance(p, dict):
        return '{%s}' % ','.join('%s:%s' % (k, short(p[k])) for k in sorted(p) if k not in ('idxs', 'shape', 'form'))
    if isinstance(p, np.ndarray):
        return 'array(%s)%s' % (','.join('%g' % z for z in p.ravel()[:6].astype(float)), p.shape)
    if isinstance(p, (tuple, list)):
        return '(%s)' % ','.join(short(q) for q in p)
    return repr(p)


def compare(got, ref, tol, scale=None):
    """None when equal to within tol * scale, otherwise a description."""
    got = np.asarray(got)
    ref = np.asarray(ref)
    if got.shape != ref.shape:
        return 'shape %s, expected %s' % (got.shape, ref.shape)
    if scale is None:
        scale = max(1., float(np.abs(ref).max()) if ref.size else 1.)
    with np.errstate(all='ignore'):
        d = np.abs(got - ref)
        if not np.all(d <= tol * scale):
            k = int(np.argmax(np.where(np.isfinite(d), d, np.inf).ravel()))
            return 'got %s expected %s (worst entry %d: %r vs %r)' % (
                brief(got), brief(ref), k, got.ravel()[k], ref.ravel()[k])
    return None


def brief(a):
    return np.array2string(np.asarray(a), threshold=12, precision=6).replace('\n', ' ')
