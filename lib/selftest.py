"""The oracle checked against itself: every reference derivative against central differences of the reference value.
Does not touch chumpy."""
import numpy as np

import refops
from refops import A, OPS


def main(seed=1, rounds=60):
    rng = np.random.RandomState(seed)
    np.seterr(all='ignore')
    total, bad = 0, []
    for name in sorted(OPS):
        op = OPS[name]
        seen = 0
        for _ in range(rounds * 20):
            if seen >= rounds:
                break
            nd = rng.randint(1, 4)
            sa = tuple(int(k) for k in rng.randint(1, 4, nd))
            if rng.rand() < .3:
                sa = (3, 3)
            shapes = [sa]
            if op.nin == 2:
                shapes.append(op.second(rng, sa) if rng.rand() < .8 else sa)
            elif op.nin is None:
                shapes += [sa] * rng.randint(0, 3)
            shapes = [s if s else (1,) for s in shapes]
            ins = [np.round(rng.uniform(-2, 2, s), 3) if rng.rand() < .5 else rng.uniform(.2, 2.2, s) for s in shapes]
            try:
                p = op.gen(rng, shapes)
                if p is None or not op.valid(shapes, p):
                    continue
                p = dict(p, form=0)
                out = A(op.f(ins, p))
            except Exception:
                continue
            if not np.all(np.isfinite(out)):
                continue
            act = tuple(k for k in range(len(ins)) if k not in op.nondiff)
            if not act or op.risk(ins, p, out, act, False):
                continue
            for k in act:
                d = rng.randn(*ins[k].shape)
                t = np.asarray(op.jvp(ins, p, k, d, out)).reshape(out.shape)
                h = 1e-6
                up, dn = list(ins), list(ins)
                up[k] = ins[k] + h * d
                dn[k] = ins[k] - h * d
                try:
                    fd = (A(op.f(up, p)) - A(op.f(dn, p))) / (2 * h)
                except Exception:
                    continue
                total += 1
                seen += 1
                if not np.allclose(t, fd, rtol=2e-4, atol=2e-4 * max(1., np.abs(t).max())):
                    bad.append((name, shapes, p, k, t.ravel()[:4], fd.ravel()[:4]))
    print('reference derivatives: %d comparisons, %d bad' % (total, len(bad)))
    for b in bad[:20]:
        print(b)
    return 1 if len(bad) > total // 500 else 0
