"""P06: full factorial grids."""
from common import *
from smt.sampling_methods import FullFactorial

def run(H):
    for r in range(H.n(300, 3000)):
        if H.left() < 20: break
        nx = H.rng.randint(1, 6); n = int(H.rng.randint(1, 200)) if r % 3 else int(H.rng.randint(1, 8)); clip = bool(H.rng.randint(2))
        lo = H.rng.randn(nx) * 5; w = H.rng.rand(nx) * 9 + .1; xl = np.c_[lo, lo + w]; keep = xl.copy()
        wt = None
        if H.rng.rand() < .7:
            wt = H.rng.rand(nx) + .01 if H.rng.rand() < .5 else H.rng.randint(1, 9, size=nx)
            if H.rng.rand() < .5: wt = wt.tolist()
        kw = dict(xlimits=xl, clip=clip); wk = None if wt is None else np.array(wt)
        if wt is not None: kw["weights"] = wt
        inp = dict(kw, n=n)
        with H.case("grid", str(r), inp, timeout=20):
            sm = FullFactorial(**kw)
            for q in range(2):
                x = sm(n)
                H.ok(x.shape[1] == nx and (x.shape[0] == n or clip), "shape", "shape %s for %d points" % (x.shape, n), inp)
                u = (x - lo) / w; N = len(x)
                H.ok(len(np.unique(np.round(u, 9), axis=0)) == N, "distinct", "points repeated", inp)
                # level counts: the row-major prefix of a grid with these counts
                ok = None
                lev = [len(np.unique(np.round(u[:, k], 9))) for k in range(nx)]
                if clip:
                    g = np.stack([a.ravel() for a in np.meshgrid(*[np.linspace(0, 1, l) for l in lev], indexing="ij")], 1)
                    H.ok(int(np.prod(lev)) == N and N >= n, "complete", "%d points for levels %s" % (N, lev), inp)
                    if len(g) == N:
                        a, b = (t[np.lexsort(np.round(t, 7).T)] for t in (g, u)); H.close(b, a, "levels", "coordinates are not the equally spaced levels", inp, atol=1e-9)
                else:
                    full = FullFactorial(**dict(kw, clip=True))(n)
                    H.ok(len(full) >= n, "enough", "level counts multiply to %d < %d" % (len(full), n), inp)
                    H.close(x, full[:n], "prefix", "sample is not a prefix of the complete grid", inp, rtol=0, atol=0)
                H.ok(np.array_equal(xl, keep) and (wk is None or np.array_equal(np.array(kw["weights"]), wk)), "frame", "caller's arguments modified", inp)

if __name__ == "__main__": main(run)
