"""P24  Gradient-enhanced network gradients are exact.

Activations          : first/second_derivative are the first/second derivative of evaluate (every class, every array).
linear_activation_forward / L_model_forward / L_grads_forward : forward values and Jacobian, d output / d input.
linear_activation_backward : for arbitrary incoming cotangents dA, dA' it returns the exact adjoint of one layer
      (dA_prev, dA'_prev, dW, db), for every width, batch and activation -- the induction step over depth.
Model.cost / Model.grad : grad = derivative of cost for whole networks with 1..3 layers of symbolic widths.
Model.evaluate/gradient : scaled Jacobian is the derivative of the scaled prediction, any number of inputs/outputs/points.
Activations are uninterpreted functions g with derivative symbols g', g'' in everything but the first group."""
from pyvc.contract import *
contract = Registry()
NN = "smt.utils.neural_net."
ASSUMPTIONS = ["networks of whole depth are composed for depth 1..3 (4 in the thorough tier); deeper networks follow from the per-layer adjoint contract by induction over the layer loop, which is not itself machine-checked"]

def act(vc, g):
    o = vc.obj(NN + "activation:Activation")
    def el(name):
        def f(it, a, kw):
            z = a[0]
            if not isinstance(z, Arr): return app(name, S(z))
            return mkarr(z.shape, lambda *i: app(name, z.get(i)))
        return Native(f, name)
    o.put("evaluate", el(g)); o.put("first_derivative", el(g + ".d0")); o.put("second_derivative", el(g + ".d0.d0"))
    return o
def mat(sym): return lambda i, j: app(sym, i, j)

def activation(cls):
    def f(vc):
        a = vc.new(NN + "activation:" + cls); n, m = vc.dim("n"), vc.dim("m"); z = vc.arr("z", n, m); keep = vc.snapshot(z)
        v = vc.method(a, "evaluate", z); d = vc.method(a, "first_derivative", z); dd = vc.method(a, "second_derivative", z)
        vc.check_shape(v, (n, m), "value")
        vc.check_arr(d, (n, m), lambda i, j: vc.D(v.get((i, j)), app("z", i, j)), "first derivative is the derivative of the activation")
        vc.check_arr(dd, (n, m), lambda i, j: vc.D(vc.D(v.get((i, j)), app("z", i, j)), app("z", i, j)), "second derivative is the derivative of the first")
        vc.check_arr(z, (n, m), lambda i, j: keep.get((i, j)), "frame: argument unchanged")
        e = lambda s: power(EULER, s)
        zz = app("z", var("p", "I"), var("q", "I"))
        spec = {"Sigmoid": lambda t: power(add(1, e(neg(t))), -1), "Tanh": lambda t: mul(add(e(t), neg(e(neg(t)))), power(add(e(t), e(neg(t))), -1)), "Linear": lambda t: t}[cls]
        vc.check_arr(v, (n, m), lambda i, j: spec(app("z", i, j)), "documented activation function")
    return f
for c in ("Sigmoid", "Tanh", "Linear"): contract("activation " + c)(activation(c))

def layer_forward(vc):
    n, p, m = vc.dim("n"), vc.dim("p"), vc.dim("m")
    A, cache = vc.it.iterate(vc.call(NN + "fwd_prop:linear_activation_forward", vc.arr("A", p, m), vc.arr("W", n, p), vc.arr("b", n, 1), act(vc, "g")))[1]
    k = fresh("k"); Z = lambda i, j: add(Sum(k, p, mul(app("W", i, k), app("A", k, j))), app("b", i, ZERO))
    vc.check_arr(A, (n, m), lambda i, j: app("g", Z(i, j)), "A = g(W A_prev + b)")
    c = vc.it.iterate(cache)[1]
    vc.check_arr(c[0], (p, m), mat("A"), "cache A_prev"); vc.check_arr(c[1], (n, m), Z, "cache Z"); vc.check_arr(c[2], (n, p), mat("W"), "cache W")
contract("linear_activation_forward")(layer_forward)

def layer_backward(gz):
    def f(vc):
        """Phi = sum dA*A + gamma sum dA'*A' as a function of (A_prev, A'_prev, W, b); returned = dPhi (data part scaled 1/m for W,b)"""
        n, p, m, nx = vc.dim("n"), vc.dim("p"), vc.dim("m"), vc.dim("nx")
        lambd = vc.real("lambd"); gamma = vc.real("gamma") if not gz else ZERO
        if not gz: vc.assume(lt(ZERO, gamma))
        W, b, A = vc.arr("W", n, p), vc.arr("b", n, 1), vc.arr("A", p, m)
        k = fresh("k"); Z = lambda i, j: add(Sum(k, p, mul(app("W", i, k), app("A", k, j))), app("b", i, ZERO))
        Zp = lambda x: (lambda i, j: Sum(k, p, mul(app("W", i, k), app("Ap", k, x, j))))
        cache = (A, mkarr((n, m), Z), W, b, act(vc, "g"))
        jc = SymSeq(nx, lambda x: (x, mkarr((n, m), Zp(x)), mkarr((p, m), lambda i, j: app("Ap", i, x, j))))
        dA, dAp = vc.arr("dA", n, m), vc.arr("dAp", n, nx, m)
        l = PyList([]); l.c["items"] = jc
        dA_prev, dW, db, dAp_prev = vc.it.iterate(vc.call(NN + "bwd_prop:linear_activation_backward", dA, dAp, cache, l, lambd, gamma))[1]
        i, j, x = fresh("i"), fresh("j"), fresh("x")
        Phi = add(Sum(i, n, Sum(j, m, mul(app("dA", i, j), app("g", Z(i, j))))),
                  mul(gamma, Sum(i, n, Sum(j, m, Sum(x, nx, mul(app("dAp", i, x, j), app("g.d0", Z(i, j)), Zp(x)(i, j)))))))
        vc.check_arr(dA_prev, (p, m), lambda r, c: vc.D(Phi, app("A", r, c)), "dA_prev is the adjoint w.r.t. the previous activations")
        vc.check_arr(dW, (n, p), lambda r, c: mul(power(m, -1), add(vc.D(Phi, app("W", r, c)), mul(lambd, app("W", r, c)))), "dW is the gradient w.r.t. the weights")
        vc.check_arr(db, (n, ONE), lambda r, c: mul(power(m, -1), vc.D(Phi, app("b", r, c))), "db is the gradient w.r.t. the biases")
        if not gz: vc.check_arr(dAp_prev, (p, nx, m), lambda r, x, c: mul(power(gamma, -1), vc.D(Phi, app("Ap", r, x, c))), "dA'_prev is the adjoint w.r.t. the previous Jacobian")
        vc.check_arr(W, (n, p), mat("W"), "frame: weights unchanged")
    return f
contract("linear_activation_backward (adjoint of one layer)")(layer_backward(False))
contract("linear_activation_backward (gamma = 0)")(layer_backward(True))

def network(vc, L):
    w = [vc.dim("w%d" % k) for k in range(L + 1)]; m = vc.dim("m")
    par = {}
    for l in range(1, L + 1): par["W%d" % l] = vc.arr("W%d" % l, w[l], w[l - 1]); par["b%d" % l] = vc.arr("b%d" % l, w[l], 1)
    acts = [act(vc, "g%d" % l) for l in range(1, L + 1)]
    return w, m, par, acts
def fwd_spec(L, w, x):
    """value of output o for input column function x(k)"""
    def A(l, o, x):
        if l == 0: return x(o)
        k = fresh("k"); return app("g%d" % l, add(Sum(k, w[l - 1], mul(app("W%d" % l, o, k), A(l - 1, k, x))), app("b%d" % l, o, ZERO)))
    return lambda o: A(L, o, x)
def forward(L):
    def f(vc):
        w, m, par, acts = network(vc, L); X = vc.arr("X", w[0], m); P = vc.py(par)
        Y, caches = vc.it.iterate(vc.call(NN + "fwd_prop:L_model_forward", X, P, acts))[1]
        val = lambda o, j: fwd_spec(L, w, lambda k: app("X", k, j))(o)
        vc.check_arr(Y, (w[L], m), val, "forward values")
        J, jc = vc.it.iterate(vc.call(NN + "fwd_prop:L_grads_forward", X, P, acts))[1]
        vc.check_arr(J, (w[L], w[0], m), lambda o, x, j: vc.D(val(o, j), app("X", x, j)), "forward Jacobian is d output / d input")
        vc.check_arr(X, (w[0], m), mat("X"), "frame: inputs unchanged")
    return f
for L in (1, 2, 3): contract("L_model_forward / L_grads_forward %d layers" % L)(forward(L))

def grad(L, gz=False):
    def f(vc):
        w, m, par, acts = network(vc, L); X, Y, J = vc.arr("X", w[0], m), vc.arr("Y", w[L], m), vc.arr("J", w[L], w[0], m)
        lambd = vc.real("lambd"); gamma = ZERO if gz else vc.real("gamma")
        vc.assume(le(ZERO, lambd))
        if not gz: vc.assume(lt(ZERO, gamma), le(gamma, ONE))
        M = vc.obj(NN + "model:Model")
        c = vc.method(M, "cost", vc.py(par), acts, X, Y, J, lambd, gamma)
        o, j, x, r, k = (fresh(n) for n in "ojxrk")
        val = lambda o, j: fwd_spec(L, w, lambda k: app("X", k, j))(o)
        cost = add(Sum(o, w[L], Sum(j, m, mul(Fraction(1, 2), power(sub(val(o, j), app("Y", o, j)), 2)))),
                   mul(gamma, Sum(o, w[L], Sum(x, w[0], Sum(j, m, mul(Fraction(1, 2), power(sub(vc.D(val(o, j), app("X", x, j)), app("J", o, x, j)), 2)))))),
                   *[mul(Fraction(1, 2), lambd, Sum(r, w[l], Sum(k, w[l - 1], power(app("W%d" % l, r, k), 2)))) for l in range(1, L + 1)])
        cost = mul(power(m, -1), cost)
        cv = c.get(()) if isinstance(c, Arr) else c
        vc.check_eq(cv, cost, "cost is the documented least-squares loss")
        G = vc.method(M, "grad", vc.py(par), acts, X, Y, J, lambd, gamma)
        for l in range(1, L + 1):
            vc.check_arr(vc.it.getitem(G, "W%d" % l), (w[l], w[l - 1]), lambda r, k: vc.D(cost, app("W%d" % l, r, k)), "grad W%d is the derivative of the cost" % l)
            vc.check_arr(vc.it.getitem(G, "b%d" % l), (w[l], ONE), lambda r, k: vc.D(cost, app("b%d" % l, r, k)), "grad b%d is the derivative of the cost" % l)
    return f
for L in (1, 2, 3):
    contract("Model.cost/grad %d layers" % L)(grad(L))
contract("Model.cost/grad 4 layers", thorough=True, timeout=600)(grad(4))
contract("Model.cost/grad 2 layers, gamma = 0")(grad(2, True))

def gradient(L, m1=False):
    def f(vc):
        w, m, par, acts = network(vc, L)
        if m1: m = ONE
        nx, ny = w[0], w[L]
        M = vc.new(NN + "model:Model")
        for k, v in (("_parameters", vc.py(par)), ("_activations", vc.py(acts)), ("_n_x", nx), ("_n_y", ny)): M.put(k, v)
        vc.it.setitem(vc.attr(M, "_scale_factors"), "x", (vc.arr("mx", nx, 1), vc.arr("sx", nx, 1)))
        vc.it.setitem(vc.attr(M, "_scale_factors"), "y", (vc.arr("my", ny, 1), vc.arr("sy", ny, 1)))
        vc.positive("sx", "sy")
        X = vc.arr("X", nx, m)
        val = lambda o, j: add(mul(fwd_spec(L, w, lambda k: mul(sub(app("X", k, j), app("mx", k, ZERO)), power(app("sx", k, ZERO), -1)))(o), app("sy", o, ZERO)), app("my", o, ZERO))
        vc.check_arr(vc.method(M, "evaluate", X), (ny, m), val, "scaled prediction")
        vc.check_arr(vc.method(M, "gradient", X), (ny, nx, m), lambda o, x, j: vc.D(val(o, j), app("X", x, j)), "scaled Jacobian is the derivative of the scaled prediction")
        vc.check_arr(X, (nx, m), mat("X"), "frame: inputs unchanged")
    return f
contract("Model.evaluate/gradient")(gradient(2)); contract("Model.evaluate/gradient one point")(gradient(2, True)); contract("Model.evaluate/gradient 3 layers")(gradient(3))

def genn(vc):
    """GENN.predict_values / predict_derivatives through the public interface"""
    L = 2; w, _, par, acts = network(vc, L); n = vc.dim("n"); nx, ny = w[0], w[L]
    sm = vc.new("smt.surrogate_models.genn:GENN", print_global=False)
    for k, v in (("nx", nx), ("ny", ny), ("nt", vc.dim("nt"))): sm.put(k, v)
    M = vc.attr(sm, "model")
    for k, v in (("_parameters", vc.py(par)), ("_activations", vc.py(acts)), ("_n_x", nx), ("_n_y", ny)): M.put(k, v)
    vc.it.setitem(vc.attr(M, "_scale_factors"), "x", (vc.arr("mx", nx, 1), vc.arr("sx", nx, 1)))
    vc.it.setitem(vc.attr(M, "_scale_factors"), "y", (vc.arr("my", ny, 1), vc.arr("sy", ny, 1)))
    vc.positive("sx", "sy")
    x = vc.arr("x", n, nx); kx = vc.int_("kx"); vc.assume(le(ZERO, kx), lt(kx, nx))
    val = lambda j, o: add(mul(fwd_spec(L, w, lambda k: mul(sub(app("x", j, k), app("mx", k, ZERO)), power(app("sx", k, ZERO), -1)))(o), app("sy", o, ZERO)), app("my", o, ZERO))
    vc.check_arr(vc.method(sm, "predict_values", x), (n, ny), val, "GENN values")
    vc.check_arr(vc.method(sm, "predict_derivatives", x, kx), (n, ny), lambda j, o: vc.D(val(j, o), app("x", j, kx)), "GENN derivatives are the derivatives of its values")
contract("GENN.predict_values/derivatives")(genn)
