"""P07: nested designs of the real code."""
from common import *
from smt.applications.mfk import NestedLHS

def run(H):
    for r in range(H.n(24, 200)):
        if H.left() < 40: break
        nl, n, nx = H.rng.randint(1, 5), H.rng.randint(2, 6), H.rng.randint(1, 4)
        if nl >= 3: n = min(n, 3)
        if r % 5 == 4: n = 1
        if r % 2: nl, nx, n = 2 + r % 4 // 3, 1, int(H.rng.randint(4, 13))      # crowded lines: nearest neighbours collide
        lo = H.rng.randn(nx) * 5; w = H.rng.rand(nx) * 9 + .1; xl = np.c_[lo, lo + w]; keep = xl.copy()
        inp = dict(levels=nl, xlimits=keep, n=n)
        with H.case("nested", str(r), inp, timeout=60):
            np.random.seed(r)
            o = NestedLHS(nl, xl); runs = [o(n), o(n + 1)]
            for m, doe in zip((n, n + 1), runs):
                H.ok(len(doe) == nl, "levels", "%d designs for %d levels" % (len(doe), nl), inp)
                H.ok([d.shape for d in doe] == [(m * 2 ** (nl - 1 - q), nx) for q in range(nl)], "sizes", "sizes %s for %d points at the top" % ([d.shape for d in doe], m), inp)
                for q in range(1, len(doe)):
                    a = {tuple(t) for t in doe[q - 1].tolist()}
                    H.ok(all(tuple(t) in a for t in doe[q].tolist()), "nested", "a point of level %d is missing in level %d" % (q, q - 1), inp)
                for q, d in enumerate(doe):
                    H.ok(np.all(d >= keep[:, 0] - 1e-9) and np.all(d <= keep[:, 1] + 1e-9), "box", "points outside the limits at level %d" % q, inp)
            H.ok(np.array_equal(xl, keep), "frame", "limits modified", inp)

if __name__ == "__main__": main(run)
