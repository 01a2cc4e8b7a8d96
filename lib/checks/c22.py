"""C22: walks, queries, printing, diagnostic modes and dropped caches, in the middle of histories."""
import io
import os
import re
import shutil
import sys
import tempfile

import numpy as np

import refops
from engine import Node, Session, dense

CASES = {'quick': 1400, 'thorough': 25000}
SCRATCH = True
RULE = ('a distinct observation is (what was inspected or which mode was on, operation, shapes, last change) of a walk, '
        'query, printed line, or of a value or derivative read with diagnostics in use')
REQUIRED = ('walk', 'visit', 'dependency query', 'printed residual', 'printed total', 'value:verbose', 'value:debug',
            'derivative:verbose', 'derivative:debug', 'value:plain', 'derivative:plain', 'same optimum', 'cache dropped',
            'derivative forgotten', 'profile written', 'profile recorded', 'every child')


def children(c):
    out = []
    for k in c.dterms:
        if hasattr(c, k):
            v = getattr(c, k)
            if hasattr(v, 'dterms'):
                out.append(v)
    return out


def walk(c):
    """All expressions reachable from c, by identity."""
    seen, todo = {}, [c]
    while todo:
        x = todo.pop()
        if id(x) not in seen:
            seen[id(x)] = x
            todo += children(x)
    return seen


def leafs_of(s, n):
    return [m for m in s.reach(n) if m.kind == 'leaf']


class Root(object):
    """What a profiler is given: something with an objective."""
    def __init__(self, obj):
        self.obj = obj


def profile(ch, rng, mon, s, n, last):
    """A profiler on an expression: what it writes is about this graph, and nothing else changes."""
    from chumpy.monitor import DrWrtProfiler
    import json
    d = tempfile.mkdtemp(prefix='profiles_', dir='.')
    try:
        p = DrWrtProfiler(Root(n.ch), base_path=os.path.abspath(d))
        W = walk(n.ch)
        for c in list(W.values())[:5]:
            p.record(c)
        p.harvest()
        t = s.pick_target(n)
        got = [json.load(open(os.path.join(d, q))) for q in sorted(os.listdir(d))]
        trees = [q for q in got if isinstance(q, dict)]
        recs = [q for q in got if isinstance(q, list)]
        mon.check(len(recs) == 1 and len(recs[0]) == min(5, len(W)) and
                  all(int(r['id']) in W for r in recs[0]), 'profile recorded',
                  lambda: 'recorded %s' % [r.get('id') for q in recs for r in q], s.sig(n, (last,)))
        mon.check(len(trees) == 1 and trees[0]['id'] == str(id(n.ch)), 'profile recorded', 'the tree has another root')
        for c in W.values():
            if 'visited' in c.__dict__:
                object.__delattr__(c, 'visited')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def inspect(ch, rng, mon, s, last):
    n = s.pick([m for m in s.nodes if m.kind != 'const' and s.good(m)])
    if n is None:
        return
    q = rng.randint(6)
    if q == 4:
        profile(ch, rng, mon, s, n, last)
    elif q == 5:
        got = []
        if paths(n.ch) > 3000:
            return
        n.ch.loop_children_do(lambda c: got.append(id(c)))
        mon.check(set(got) == set(walk(n.ch)), 'every child', lambda: 'called on %d expressions, %d are reachable' % (
            len(set(got)), len(walk(n.ch))), s.sig(n, (last,)))
    elif q == 0:
        got = list(n.ch.tree_iterator())
        want = walk(n.ch)
        ids = [id(x) for x in got]
        mon.check(len(ids) == len(set(ids)), 'walk', 'an expression was visited more than once', s.sig(n, (last,)))
        mon.check(set(ids) == set(want), 'walk', lambda: 'visited %d expressions of %d' % (len(ids), len(want)))
        mon.check(got[0] is n.ch, 'walk', 'the walk does not begin at the root')
        for l in leafs_of(s, n):
            mon.check(id(l.ch) in ids, 'walk', lambda: 'variable %s of node %s was not visited' % (l.tag, n.tag))
    elif q == 1:
        from chumpy.utils import dfs_do_func_on_graph
        got = []
        dfs_do_func_on_graph(n.ch, lambda node, a, b=0: got.append((id(node), a, b)), 5, b=7)
        want = walk(n.ch)
        mon.check(sorted(g[0] for g in got) == sorted(want) and all(g[1:] == (5, 7) for g in got), 'visit',
                  lambda: 'called on %d expressions, %d are reachable' % (len(got), len(want)), s.sig(n, (last,)))
    elif q == 2:
        r = s.reach(n)
        for m in s.leaves() + ([s.pick(s.ops())] if s.ops() else []):
            if m is n or (m.kind == 'op' and m in r and id(m.ch) not in walk(n.ch)):
                continue
            want = m in r
            if m.kind == 'op' and not want and id(m.ch) in walk(n.ch):
                continue
            got = n.ch.is_dr_wrt(m.ch)
            mon.check(bool(got) == want, 'dependency query',
                      lambda: 'after %s: node %s (%s) depends on %s: said %s' % (last, n.tag, n.name, m.tag, got),
                      s.sig(n, (m.name, last, want)))
            if not want and m.kind == 'leaf':
                mon.check(n.ch.dr_wrt(m.ch) is None, 'dependency query', 'derivative wrt an unrelated variable')
    else:
        labelled = {}
        W = walk(n.ch)
        if paths(n.ch) > 3000:
            return
        for k, c in W.items():
            if rng.rand() < .4:
                c.label = 'L%d' % len(labelled)
                labelled[c.label] = c
            elif hasattr(c, 'label'):
                labelled[c.label] = c
        if len(set(labelled)) < sum(1 for c in W.values() if hasattr(c, 'label')):
            for c in W.values():
                if hasattr(c, 'label'):
                    object.__delattr__(c, 'label')
            return
        dec = int(rng.randint(1, 7))
        out = io.StringIO()
        form = rng.randint(3)
        if form == 0:
            n.ch.print_labeled_residuals(where_to_print=out, num_decimals=dec)
        elif form == 1:
            n.ch.print_labeled_residuals(where_to_print=out)
            dec = 2
        else:
            keep, sys.stderr = sys.stderr, out
            try:
                n.ch.print_labeled_residuals()
            finally:
                sys.stderr = keep
            dec = 2
        text = out.getvalue()
        parts = text.rstrip('\n').split(' | ')
        total = float(np.sum(s.val(n) ** 2))
        tol = lambda v, d: abs(v) * (.51 * 10. ** -d + 1e-6) + 1e-300 + 1e-9
        mon.check(text.endswith('\n') and abs(float(parts[-1]) - total) <= tol(total, dec), 'printed total',
                  lambda: 'printed %r, sum of squares is %r' % (text, total), s.sig(n, (last, form)))
        seen = set()
        for p in parts[:-1]:
            m = re.match(r'^(\w+): (\S+)$', p.strip())
            mon.check(m is not None and m.group(1) in labelled, 'printed residual', lambda: 'strange line %r' % text)
            c = labelled[m.group(1)]
            v = float(np.sum(np.array(c.r) ** 2))
            mon.check(abs(float(m.group(2)) - v) <= tol(v, 2 if c is not n.ch else dec), 'printed residual',
                      lambda: '%s is %r' % (p, v), s.sig(n, (last, 'l')))
            seen.add(m.group(1))
        mon.check(seen == set(labelled), 'printed residual',
                  lambda: 'labels %s of %s were printed' % (sorted(seen), sorted(labelled)))
    mon.note('inspect %d of %s' % (q, n.tag))


def paths(c, memo=None):
    memo = {} if memo is None else memo
    if id(c) not in memo:
        memo[id(c)] = 1
        memo[id(c)] = 1 + sum(paths(k, memo) for k in children(c))
    return memo[id(c)]


class Mode(object):
    """Diagnostic switches, restored afterwards."""
    def __init__(self, name):
        import chumpy.ch as C
        self.C, self.name = C, name

    def __enter__(self):
        self.C.DEBUG = self.name == 'debug'
        self.C.VERBOSE = self.name == 'verbose'

    def __exit__(self, *a):
        self.C.DEBUG = False
        self.C.VERBOSE = False


MODES = ('plain', 'verbose', 'debug')


def history(ch, rng, mon):
    mode = MODES[rng.randint(3)]
    with Mode(mode if rng.rand() < .5 else 'plain'):
        s = Session(ch, rng, mon)
        s.build(rng.randint(2, 8), rng.randint(1, 4))
    last = 'build'
    for step in range(rng.randint(4, 14)):
        if rng.rand() < .3:
            mode = MODES[rng.randint(3)]
        with Mode(mode):
            q = rng.rand()
            if q < .25:
                k = (s.set_leaf, s.set_items, s.rewire, s.change_param, s.reshape_leaf, s.substitute)[rng.randint(6)]
                if k() is not None:
                    last = k.__name__
            elif q < .5:
                inspect(ch, rng, mon, s, last)
            elif q < .6:
                n = s.pick([m for m in s.nodes if m.kind != 'const'])
                n.ch.clear_cache() if rng.rand() < .7 else n.ch.clear_cache(itr=None)
                mon.saw('cache dropped', (n.name, last))
                mon.note('drop the cache of %s' % n.tag)
                last = 'clear_cache'
            elif q < .7:
                n = s.pick(s.ops())
                if n is not None and s.good(n):
                    t = s.pick_target(n)
                    m = s.pick([n, t] + [k for k in s.reach(n) if k.kind != 'const'])
                    if rng.rand() < .5:
                        n.ch.dr_wrt(t.ch)
                    m.ch.clear_cache_wrt(t.ch)
                    mon.saw('derivative forgotten', (n.name, m.name, t.name, last))
                    mon.note('forget derivative of %s wrt %s' % (m.tag, t.tag))
                    last = 'clear_cache_wrt'
            n = s.pick(s.ops())
            if n is not None and rng.rand() < .6:
                s.check_value(n, 'value:' + mode, last)
            if n is not None and rng.rand() < .6:
                s.check_jac(n, s.pick_target(n), 'derivative:' + mode, last)
                if rng.rand() < .4:          # once more, from the cache
                    s.check_jac(n, s.pick_target(n), 'derivative:' + mode, last)
    for n in s.ops():
        with Mode(mode):
            s.check_value(n, 'value:' + mode, last)
            for t in s.targets(n):
                if t.kind == 'leaf' and rng.rand() < .6:
                    s.check_jac(n, t, 'derivative:' + mode, last)


def optimum(ch, rng, mon):
    """The same minimisation with every combination of diagnostics ends in the same place."""
    n = rng.randint(1, 5)
    x0 = np.round(rng.randn(n), 2)
    y0 = np.round(rng.randn(2), 2)
    M = np.round(rng.randn(n + 2, n), 2)
    t = np.round(rng.randn(n + 2), 2)
    kind = rng.randint(4)
    method = ('dogleg', 'dogleg', 'BFGS', 'CG', 'SLSQP')[rng.randint(5)]
    k = int(rng.randint(1, 8))
    if rng.rand() < .4:                # columns of very different sizes
        M = M * 10. ** rng.uniform(-4, 1, n)
        y0 = y0 * 10. ** rng.uniform(-3, 1, 2)
    dense_ = [{}, {'treat_as_dense': True}, {'treat_as_dense': False}][rng.randint(3)] if method == 'dogleg' else {}
    form = rng.randint(3)

    def run(mode, disp, steps):
        d = tempfile.mkdtemp(prefix='profiles_', dir='.')
        try:
            with Mode(mode):
                from chumpy import monitor
                old = monitor.DrWrtProfiler.base_path
                monitor.DrWrtProfiler.base_path = os.path.abspath(d)
                try:
                    x, y = ch.Ch(x0.copy()), ch.Ch(y0.copy())
                    e = ch.dot(M, x) - t
                    f = ch.sin(y) * y[::-1] + .3
                    if kind == 1:
                        e = e ** 2. - 1.
                    elif kind == 2:
                        e = ch.concatenate((ch.tanh(e) if hasattr(ch, 'tanh') else ch.arctan(e), x * .1))
                    elif kind == 3:
                        e = ch.exp(e * .1) * e
                    obj = [e, f] if form == 0 else ({'first': e, 'second': f} if form == 1 else
                                                    ch.concatenate((e.ravel(), f.ravel())))
                    if method != 'dogleg' and form == 1:
                        obj = [e, f]
                    count = []
                    cb = (lambda *a: count.append(1)) if steps else None
                    if method == 'dogleg':
                        ch.minimize(obj, [x, y], method='dogleg', callback=cb,
                                    options=dict(dense_, maxiter=k, disp=disp))
                    else:
                        ch.minimize(obj, [x, y], method=method, callback=cb, options={'maxiter': k, 'disp': disp})
                    if mode == 'debug' and method == 'dogleg':
                        mon.check(len(os.listdir(d)) >= 1, 'profile written', 'no profile in debug mode', (kind, form))
                finally:
                    monitor.DrWrtProfiler.base_path = old
            return np.concatenate((x.r, y.r)), e.r.copy(), dense(e.dr_wrt(x))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    ref = run('plain', False, False)
    for mode in MODES:
        for disp in (False, True):
            got = run(mode, disp, rng.rand() < .3)
            mon.check(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(ref, got)), 'same optimum',
                      lambda: 'mode %s disp %s: %s, without: %s' % (mode, disp, got[0], ref[0]),
                      (mode, disp, method, kind, form, n))


def case(ch, rng, mon, tier, i):
    if rng.rand() < .12:
        optimum(ch, rng, mon)
    else:
        history(ch, rng, mon)
