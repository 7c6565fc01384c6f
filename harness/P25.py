"""P25: scaling, batching and layout conversion on the real code."""
from common import *
from smt.utils.neural_net.data import normalize_data, random_mini_batches
from smt.utils.neural_net.model import Model
from smt.surrogate_models.genn import smt_to_genn, load_smt_data, GENN

def run(H):
    for it in range(H.n(60, 400)):
        r = H.rng; nx, ny, m = r.randint(1, 5), r.randint(1, 4), r.randint(2, 30)
        X, Y, J = r.randn(nx, m) * 10 ** r.uniform(-3, 3) + r.randn() * 5, r.randn(ny, m) * 10 ** r.uniform(-3, 3), r.randn(ny, nx, m)
        inp = dict(nx=nx, ny=ny, m=m, it=it, seed=H.seed)
        with H.case("normalise", str(it), inp):
            k = [a.copy() for a in (X, Y, J)]
            Xn, Yn, Jn, mx, sx, my, sy = normalize_data(X, Y, J)
            H.close(Xn * sx + mx, X, "x", "inputs scaled back", inp); H.close(Yn * sy + my, Y, "y", "outputs scaled back", inp)
            H.close(Jn * sy[:, :, None] / sx[None], J, "J", "Jacobian scaled back", inp)
            H.ok(all(np.array_equal(a, b) for a, b in zip(k, (X, Y, J))), "frame", "data modified", inp)
            H.close(Xn.mean(1), np.zeros(nx), "mean", "normalised mean", inp, atol=1e-8); H.close(Xn.std(1), np.ones(nx), "std", "normalised spread", inp)
            M = Model.initialize(nx, ny); M._load_training_data(X, Y, J)
            a, b, c = M.training_data
            H.close(a, X, "td", "training_data inputs", inp); H.close(b, Y, "td", "training_data outputs", inp); H.close(c, J, "td", "training_data Jacobian", inp)
        X = np.arange(nx * m, dtype=float).reshape(nx, m); tag = np.arange(m)
        X = tag[None] + 100. * np.arange(nx)[:, None]; Y = tag[None] + 1000. * np.arange(1, ny + 1)[:, None]; J = tag[None, None] + 1e4 * np.arange(1, ny + 1)[:, None, None] + 7e5 * np.arange(nx)[None, :, None]
        b = [int(r.randint(1, m + 3)), 1, m, m - 1, m + 5, max(1, m // 2)][r.randint(6)]; b = max(1, b); useJ = r.rand() < .8
        with H.case("batches", str(it), dict(inp, batch=b, J=useJ)):
            inp2 = dict(inp, batch=b, J=bool(useJ))
            bs = random_mini_batches(X, Y, J if useJ else None, b, [None, 3][r.randint(2)])
            seen = []
            for x, y, j in bs:
                t = np.rint(x[0]).astype(int); seen += list(t)
                H.ok(1 <= x.shape[1] <= b, "size", "batch of %d examples for size %d" % (x.shape[1], b), inp2)
                H.close(x, X[:, t], "x", "inputs of a batch", inp2, rtol=0, atol=0); H.close(y, Y[:, t], "y", "outputs do not belong to the inputs", inp2, rtol=0, atol=0)
                if useJ: H.close(j, J[:, :, t], "J", "derivatives do not belong to the inputs", inp2, rtol=0, atol=0)
                else: H.ok(j is None, "J", "derivatives invented", inp2)
            H.ok(sorted(seen) == list(range(m)), "partition", "batches contain examples %s of %d" % (sorted(seen), m), inp2)
        with H.case("layout", str(it), inp):
            sm = GENN(print_global=False)
            x, y, d = r.randn(m, nx), r.randn(m, 1), r.randn(m, nx)
            if nx == 1 and r.rand() < .5: load_smt_data(sm, x[:, 0], y[:, 0], d[:, 0])
            else: load_smt_data(sm, x, y, d)
            a, b_, c = smt_to_genn(sm.training_points)
            H.close(a, x.T, "x", "inputs", inp); H.close(b_, y.T, "y", "outputs", inp); H.close(c, d.T[None], "J", "derivatives", inp)
            sm = GENN(print_global=False); Y2 = r.randn(m, ny); D = r.randn(m, nx, ny)
            sm.set_training_values(x, Y2)
            for k in range(nx): sm.set_training_derivatives(x, D[:, k, :], k)
            a, b_, c = smt_to_genn(sm.training_points)
            H.close(a, x.T, "x", "inputs", inp); H.close(b_, Y2.T, "y", "outputs", inp); H.close(c, np.transpose(D, (2, 1, 0)), "J", "derivatives", inp)
    for it in range(H.n(8, 30)):
        with H.case("train", str(it), None):
            r = H.rng; nx, m = r.randint(1, 4), r.randint(4, 20)
            x, y, d = r.rand(m, nx) * 9, r.rand(m, 1) * 50, r.randn(m, nx)
            sm = GENN(print_global=False, is_print=False, num_iterations=2, num_epochs=2, mini_batch_size=int(r.randint(1, m + 3)), seed=1)
            load_smt_data(sm, x, y, d)
            with quiet(): sm.train()
            a, b_, c = sm.model.training_data
            inp = dict(nx=nx, m=m)
            H.close(a, x.T, "held", "trained inputs", inp); H.close(b_, y.T, "held", "trained outputs", inp); H.close(c, d.T[None], "held", "trained derivatives", inp)
main(run)
