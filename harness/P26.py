"""P26: line searches on many scalar functions along random directions."""
from common import *
from smt.utils.line_search import get_line_search_class
class Skip(Exception): pass

def functions(rng):
    A = rng.randn(3, 3); A = A @ A.T + 0.1 * np.eye(3); b = rng.randn(3); c = rng.uniform(.5, 3, 3)
    yield "quadratic", lambda x: float(x @ A @ x / 2 - b @ x), lambda x: A @ x - b
    yield "quartic", lambda x: float(np.sum((x - b) ** 4) + x @ A @ x), lambda x: 4 * (x - b) ** 3 + 2 * A @ x
    yield "sine", lambda x: float(np.sum(np.sin(3 * c * x)) + .1 * x @ x), lambda x: 3 * c * np.cos(3 * c * x) + .2 * x
    yield "exp", lambda x: float(np.sum(np.exp(c * x) - 2 * x)), lambda x: c * np.exp(c * x) - 2
    yield "rosen", lambda x: float(100 * (x[1] - x[0] ** 2) ** 2 + (1 - x[0]) ** 2 + x[2] ** 2), lambda x: np.array([-400 * x[0] * (x[1] - x[0] ** 2) - 2 * (1 - x[0]), 200 * (x[1] - x[0] ** 2), 2 * x[2]])

def run(H):
    old = None
    for rep_ in range(H.n(200, 3000)):
        if H.left() < 15: break
        for fn, F, G in functions(H.rng):
            for nm in ("backtracking", "bracketed", "quadratic", "cubic", "null"):
                x = H.rng.uniform(-1.5, 1.5, 3); g = G(x); d = -g * 10 ** H.rng.uniform(-3, .5) if H.rng.rand() < .7 else -(g * H.rng.uniform(.1, 3, 3))
                a0 = float(H.rng.choice([1., .1, 4., .5])); u1, u2 = (1e-4, .9) if H.rng.rand() < .7 else (.1, .5)
                rho = float(H.rng.choice([.5, .8, .3]))
                inp = dict(search=nm, function=fn, x=x, dx=d, initial_a=a0, u1=u1, u2=u2, rho=rho)
                calls = []
                def f(z): calls.append(1); \
                    (_ for _ in ()).throw(Skip()) if len(calls) > 3000 else None; return F(z)
                with H.case(nm, fn, inp, timeout=20):
                    ls = get_line_search_class(nm)(x.copy(), d.copy(), f, G, u1=u1, u2=u2)
                    try: r = ls(a0, rho) if nm == "backtracking" else ls(a0)
                    except Skip: H.notes.append("%s: no step within 3000 evaluations" % nm) if len(H.notes) < 3 else None; continue
                    if r is None: continue
                    k = int(np.argmax(np.abs(d))); a = (r[k] - x[k]) / d[k]
                    H.close(r, x + a * d, nm + ".line", nm + ": returned point is not on the search line", inp, rtol=1e-7, atol=1e-9)
                    if nm == "null": H.close(r, x + a0 * d, "null", "full step", inp); continue
                    p0, s0 = F(x), float(g @ d)
                    tol = 1e-9 * (1 + abs(p0))
                    H.ok(F(r) <= p0 + u1 * a * s0 + tol, nm + ".decrease", "%s: step %g violates sufficient decrease: %.12g > %.12g" % (nm, a, F(r), p0 + u1 * a * s0), inp)
                    if nm == "backtracking":
                        q = np.log(a / a0) / np.log(rho)
                        H.ok(q > -1e-6 and abs(q - round(q)) < 1e-5, "backtracking.factor", "step %g is not initial step times a power of rho" % a, inp)
                        for j in range(int(round(q))):
                            aj = a0 * rho ** j
                            H.ok(not F(x + aj * d) <= p0 + u1 * aj * s0 - tol, "backtracking.first", "an earlier step %g already satisfied the condition" % aj, inp)
                    else:
                        H.ok(abs(float(G(r) @ d)) <= u2 * abs(s0) * (1 + 1e-6) + 1e-9, nm + ".curvature", "%s: step %g violates the curvature condition: %g > %g" % (nm, a, abs(float(G(r) @ d)), u2 * abs(s0)), inp)
main(run)
