"""P08: mixed-integer encodings of the real code."""
from common import *
from smt.applications import mixed_integer as mi
from smt.applications.mixed_integer import FLOAT, INT, ENUM, MixedIntegerContext

def spec(rng):
    N = rng.randint(1, 7); t, xl = [], []
    for i in range(N):
        k = rng.randint(3)
        if k == 0: lo = rng.randn() * 5; t.append(FLOAT); xl.append([lo, lo + rng.rand() * 9 + .1])
        elif k == 1: lo = rng.randint(-5, 5); t.append(INT); xl.append([lo, lo + rng.randint(1, 9)])
        else: n = rng.randint(1, 6); t.append((ENUM, n)); xl.append(["v%d_%d" % (i, q) for q in range(n)])
    return t, xl
def width(t): return [a[1] if isinstance(a, tuple) else 1 for a in t]
def points(rng, t, xl, n):
    """feasible points, enum as index"""
    x = np.zeros((n, len(t)))
    for i, a in enumerate(t):
        x[:, i] = xl[i][0] + rng.rand(n) * (xl[i][1] - xl[i][0]) if a == FLOAT else rng.randint(xl[i][0], xl[i][1] + 1, n) if a == INT else rng.randint(0, a[1], n)
    return x
def ref_expand(t, x):
    out = []
    for i, a in enumerate(t):
        if isinstance(a, tuple): out += [(x[:, i] == q).astype(float)[:, None] for q in range(a[1])]
        else: out.append(x[:, i:i + 1])
    return np.hstack(out)
def ref_cast(t, x):
    out = x.astype(float).copy(); o = 0
    for a, w in zip(t, width(t)):
        if a == INT: out[:, o] = np.round(out[:, o])
        elif isinstance(a, tuple):
            b = x[:, o:o + w]; k = np.argmax(b, axis=1); out[:, o:o + w] = np.arange(w)[None, :] == k[:, None]
        o += w
    return out

def run(H):
    for r in range(H.n(60, 600)):
        if H.left() < 30: break
        t, xl = spec(H.rng); n = H.rng.randint(1, 6); W = sum(width(t)); x = points(H.rng, t, xl, n); inp = dict(types=[list(a) if isinstance(a, tuple) else a for a in t], xlimits=xl, x=x)
        with H.case("encoding", str(r), inp):
            c = MixedIntegerContext(t, xl); keep = x.copy()
            for f, g, tag in ((lambda v: mi.unfold_with_enum_mask(t, v), lambda v: mi.fold_with_enum_index(t, v), "function"), (c.unfold_with_enum_mask, c.fold_with_enum_index, "context")):
                u = f(x); H.close(u, ref_expand(t, x), "expand", "expansion (%s)" % tag, inp); H.close(g(u), x, "roundtrip", "folding the expansion (%s)" % tag, inp)
                if n == 1: H.close(f(x[0]), u, "expand", "expansion of one point given as a vector (%s)" % tag, inp)
            H.ok(np.array_equal(x, keep), "frame", "points modified", inp)
            H.ok(mi.compute_unfolded_dimension(t) == W == c.get_unfolded_dimension(), "dimension", "relaxed dimension, expected %d" % W, inp)
            lims = np.array(mi.unfold_xlimits_with_continuous_limits(t, xl)); ref = np.vstack([[[0., 1.]] * a[1] if isinstance(a, tuple) else [xl[i]] for i, a in enumerate(t)]).astype(float)
            H.close(lims, ref, "limits", "relaxed limits", inp); H.close(c.get_unfolded_xlimits(), ref, "limits", "relaxed limits (context)", inp)
            H.ok(np.all(u >= lims[:, 0] - 1e-12) and np.all(u <= lims[:, 1] + 1e-12), "enclose", "an encoding lies outside the relaxed limits", inp)
        z = H.rng.rand(n, W) * 4 - 2
        if r % 3 == 0: z = np.round(z)                       # ties inside a block
        if r % 3 == 1: z = np.round(z * 2) / 2               # half integers
        inp = dict(inp, relaxed=z)
        with H.case("projection", str(r), inp):
            for f in (lambda v: mi.cast_to_discrete_values(t, v), MixedIntegerContext(t, xl).cast_to_discrete_values):
                keep = z.copy(); v = f(z); H.close(v, ref_cast(t, z), "cast", "projection", inp); H.ok(np.array_equal(z, keep), "frame", "relaxed points modified", inp)
                H.close(f(v), v, "twice", "projecting twice", inp)
                H.close(mi.unfold_with_enum_mask(t, mi.fold_with_enum_index(t, v)), v, "feasible", "expanding the folded projection", inp)
        with H.case("levels", str(r), inp):
            i = H.rng.randint(len(t)); c = MixedIntegerContext(t, xl)
            if isinstance(t[i], tuple):
                ind = list(H.rng.randint(0, t[i][1], 4)); H.ok(c.cast_to_enum_value(i, ind) == [xl[i][q] for q in ind], "levels", "levels of indices %s of variable %d" % (ind, i), inp)
            got = c.cast_to_mixed_integer(x[0]); want = [xl[i][int(x[0, i])] if isinstance(a, tuple) else int(x[0, i]) if a == INT else x[0, i] for i, a in enumerate(t)]
            H.ok(list(got) == want and all(isinstance(g, (int, np.integer)) for g, a in zip(got, t) if a == INT), "mixed", "point with levels %s, expected %s" % (got, want), inp)
        with H.case("consistency", str(r), inp):
            mi.check_xspec_consistency(t, xl); bad = []; i = H.rng.randint(len(t)); a = t[i]
            bad.append((t[:-1], xl, "missing type")); bad.append((t, xl[:-1], "missing limits")); bad.append((t[:i] + ["weird"] + t[i + 1:], xl[:i] + [[0, 1]] + xl[i + 1:], "unknown type %d" % i))
            bad.append((t[:i] + [("weird", 2)] + t[i + 1:], xl[:i] + [[0, 1]] + xl[i + 1:], "unknown tuple type %d" % i))
            if isinstance(a, tuple): bad.append((t[:i] + [(ENUM, a[1] + 1)] + t[i + 1:], xl, "too many levels %d" % i)); bad.append((t, xl[:i] + [xl[i] + ["more"]] + xl[i + 1:], "too many labels %d" % i))
            else: bad.append((t, xl[:i] + [[0, 1, 2]] + xl[i + 1:], "three limits %d" % i)); bad.append((t, xl[:i] + [[0]] + xl[i + 1:], "one limit %d" % i))
            for tt, xx, what in bad:
                H.raises(lambda: mi.check_xspec_consistency(tt, xx), "accepts", "inconsistent specification accepted: " + what, dict(types=str(tt), xlimits=str(xx)), (ValueError,))
                H.raises(lambda: MixedIntegerContext(tt, xx), "accepts", "inconsistent specification accepted by the context: " + what, dict(types=str(tt), xlimits=str(xx)), (ValueError,))

if __name__ == "__main__": main(run)
