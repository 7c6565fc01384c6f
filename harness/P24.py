"""P24: network gradients against finite differences and an independent re-computation."""
from common import *
from smt.utils.neural_net.model import Model
from smt.utils.neural_net.activation import Tanh, Sigmoid, Linear
from smt.utils.neural_net.fwd_prop import L_model_forward, L_grads_forward
from smt.surrogate_models import GENN

class Tanh2(Tanh):
    pass
def f_act(a, z):
    return {"Tanh": np.tanh, "Tanh2": np.tanh, "Sigmoid": lambda z: 1 / (1 + np.exp(-z)), "Linear": lambda z: z}[type(a).__name__](z)
def net(P, acts, X):
    A = X
    for l, a in enumerate(acts): A = f_act(a, P["W%d" % (l + 1)] @ A + P["b%d" % (l + 1)])
    return A
def jac(P, acts, X, h=1e-5):
    f = lambda X: net(P, acts, X)
    out = []
    for k in range(X.shape[0]):
        e = np.zeros((X.shape[0], 1)); e[k] = h
        d = lambda h_: (f(X + e * h_ / h) - f(X - e * h_ / h)) / (2 * h_)
        out.append((4 * d(h / 2) - d(h)) / 3)
    return np.stack(out, 1)

def run(H):
    for cls, n in ((Sigmoid, 1), (Tanh, 1), (Linear, 1)):
        a = cls()
        with H.case("activation." + cls.__name__):
            z = H.rng.uniform(-4, 4, (5, 7)); h = 1e-5
            H.close(a.evaluate(z), f_act(a, z), "value", "%s.evaluate" % cls.__name__)
            for f, g, nm in ((a.evaluate, a.first_derivative, "first"), (a.first_derivative, a.second_derivative, "second")):
                d = lambda h: (f(z + h) - f(z - h)) / (2 * h)
                H.close(g(z), (4 * d(h / 2) - d(h)) / 3, nm, "%s.%s_derivative" % (cls.__name__, nm), rtol=1e-7, atol=1e-8)
    for it in range(H.n(40, 300)):
        if H.left() < 20: break
        r = H.rng
        nx, ny, m, deep = r.randint(1, 5), r.randint(1, 4), r.choice([1, 1, 2, 3, 7]), r.randint(0, 4)
        dims = [nx] + [int(r.randint(1, 5)) for _ in range(deep)] + [ny]
        P = {}
        for l in range(1, len(dims)): P["W%d" % l] = r.randn(dims[l], dims[l - 1]); P["b%d" % l] = r.randn(dims[l], 1)
        acts = [[Tanh, Sigmoid, Linear][r.randint(3)]() for _ in dims[2:]] + [[Linear, Tanh][r.randint(2)]()]
        X, Y, J = r.randn(nx, m), r.randn(ny, m), r.randn(ny, nx, m)
        gamma = [0., 1., .3, r.rand(), 1e-3][r.randint(5)]; lambd = [0., .1, r.rand() * 3][r.randint(3)]
        inp = dict(dims=dims, acts=[type(a).__name__ for a in acts], m=m, gamma=gamma, lambd=lambd, seed=H.seed, it=it)
        with H.case("forward", str(it), inp):
            keep = {k: v.copy() for k, v in P.items()}; Xk = X.copy()
            A, _ = L_model_forward(X, P, acts); H.close(A, net(P, acts, X), "value", "forward values", inp)
            G, _ = L_grads_forward(X, P, acts); H.close(np.asarray(G).reshape(ny, nx, m), jac(P, acts, X), "jacobian", "forward Jacobian", inp, rtol=1e-6, atol=1e-8)
        with H.case("cost", str(it), inp):
            M = Model()
            def cost(P):
                d = net(P, acts, X) - Y; e = jac(P, acts, X) - J
                return (.5 * np.sum(d ** 2) + gamma * .5 * np.sum(e ** 2) + .5 * lambd * sum(np.sum(v ** 2) for k, v in P.items() if k[0] == "W")) / m
            c = M.cost(P, acts, X, Y, J, lambd, gamma)
            H.close(np.squeeze(c), cost(P), "cost", "training cost", inp, rtol=1e-6, atol=1e-8)
            g = M.grad(P, acts, X, Y, J, lambd, gamma)
            mc = lambda P: float(np.squeeze(M.cost(P, acts, X, Y, J, lambd, gamma)))
            for k in P:
                H.ok(g[k].shape == P[k].shape, "grad", "gradient of %s has shape %s" % (k, g[k].shape), inp)
                fd = np.zeros(P[k].shape)
                for ix in np.ndindex(*P[k].shape):
                    def d(h):
                        Q = {q: v.copy() for q, v in P.items()}; Q[k][ix] += h; a = mc(Q); Q[k][ix] -= 2 * h; return (a - mc(Q)) / (2 * h)
                    fd[ix] = (4 * d(5e-5) - d(1e-4)) / 3
                H.close(g[k], fd, "grad", "gradient of the cost w.r.t. %s" % k, inp, rtol=1e-5, atol=1e-6)
            H.ok(all(np.array_equal(P[k], keep[k]) for k in P) and np.array_equal(X, Xk), "frame", "parameters or data modified", inp)
    for nx in (1, 2, 3):
        for n in (1, 4):
            inp = dict(nx=nx, n=n)
            with H.case("genn", "nx=%d" % nx, inp):
                x = H.rng.rand(12, nx) * 3; y = np.sum(np.sin(x), 1, keepdims=True)
                sm = GENN(print_global=False, is_print=False, num_iterations=5, num_epochs=3, wide=5, alpha=.1, mini_batch_size=5, seed=1, gamma=.5)
                sm.set_training_values(x, y)
                for k in range(nx): sm.set_training_derivatives(x, np.cos(x[:, k:k + 1]), k)
                with quiet(): sm.train()
                q = H.rng.rand(n, nx) * 3
                for k in range(nx): H.close(sm.predict_derivatives(q, k), grad_fd(sm.predict_values, q, k), "derivative", "GENN derivative", dict(inp, kx=k), rtol=1e-6, atol=1e-8)
    with H.case("two outputs"):
        x = H.rng.rand(15, 2); y = np.hstack([x[:, :1] ** 2, 5 * x[:, 1:] + x[:, :1]])
        sm = GENN(print_global=False, is_print=False, num_iterations=3, num_epochs=2, wide=4, seed=2)
        sm.set_training_values(x, y)
        sm.set_training_derivatives(x, np.hstack([2 * x[:, :1], np.ones((15, 1))]), 0); sm.set_training_derivatives(x, np.hstack([np.zeros((15, 1)), 5 * np.ones((15, 1))]), 1)
        with quiet(): sm.train()
        q = H.rng.rand(4, 2)
        for k in range(2): H.close(sm.predict_derivatives(q, k), grad_fd(sm.predict_values, q, k), "derivative", "GENN derivative (two outputs)", dict(kx=k), rtol=1e-6, atol=1e-8)
main(run)
