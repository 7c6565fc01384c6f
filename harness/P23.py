from common import *
from smt.problems import *
from smt.problems.reduced_problem import ReducedProblem
from smt.problems import ndim_cantilever_beam, ndim_robot_arm
import itertools

def formulas():
    from math import pi
    def cant(x, P=50e3, E=200e9):
        m = x.shape[1] // 3; y = 0
        for e in range(m):
            b, h = x[:, 3*e], x[:, 3*e+1]
            y = y + 12.0 / b / h**3 * (x[:, 3*e+2::3].sum(1)**3 - x[:, 3*e+5::3].sum(1)**3)
        return P / (3 * E) * y
    def robot(x):
        L = x[:, 0::2]; th = np.cumsum(x[:, 1::2], axis=1)
        return np.sqrt((L * np.cos(th)).sum(1)**2 + (L * np.sin(th)).sum(1)**2)
    def branin(x): return (x[:, 1] - 5.1/(4*pi**2)*x[:, 0]**2 + 5/pi*x[:, 0] - 6)**2 + 10*(1-1/(8*pi))*np.cos(x[:, 0]) + 10
    def wf(x, hi):
        L = np.log(x[:, 1]/x[:, 0]); c = 2*x[:, 6]*x[:, 2]/(L*x[:, 0]**2*x[:, 7]) + x[:, 2]/x[:, 4]
        return (2*pi if hi else 5.0)*x[:, 2]*(x[:, 3]-x[:, 5])/(L*((1 if hi else 1.5) + c))
    def wing(x):
        c = np.cos(x[:, 3]*pi/180)
        return .036*x[:, 0]**.758*x[:, 1]**.0035*(x[:, 2]/c**2)*x[:, 4]**.006*x[:, 5]**.04*(100*x[:, 6]/c)**-.3*(x[:, 7]*x[:, 8])**.49 + x[:, 0]*x[:, 9]
    def weld(x):
        a, b, l = x.T; t1 = 6000/(np.sqrt(2)*b*l); R = np.sqrt(.25*(l**2+(b+a)**2))
        t2 = 6000*(14+.5*l)*R/(2*(.707*b*l*(l/12+.25*(b+a)**2)))
        return np.sqrt(t1**2+t2**2+l*t1*t2/R)
    def tors(x):
        x = x.T; K = lambda a, b, c: np.pi*a*b/(32*c)
        K1, K2, K3 = K(x[2], x[0], x[1]), K(x[8], x[6], x[7]), K(x[4], x[9], x[3])
        M1 = x[11]*np.pi*x[10]*x[5]/(4*9.80665); M2 = x[14]*np.pi*x[13]*x[12]/(4*9.80665); J1 = .5*M1*(x[5]/2)**2; J2 = .5*M2*(x[12]/2)**2
        b = -((K1+K2)/J1+(K2+K3)/J2); c = (K1*K2+K2*K3+K3*K1)/(J1*J2)
        return np.sqrt((-b-np.sqrt(b**2-4*c))/2)/(2*np.pi)
    F = {}
    for d in (1, 2, 3, 5): F["Sphere", d] = (Sphere(ndim=d), lambda x: (x**2).sum(1))
    for d in (2, 3, 6): F["Rosenbrock", d] = (Rosenbrock(ndim=d), lambda x: (100*(x[:, 1:]-x[:, :-1]**2)**2+(1-x[:, :-1])**2).sum(1))
    for d in (1, 2, 4):
        for w in (1.0, 0.7, 3):
            for f, g in (("cos", lambda v, w=w: np.cos(np.pi*w*v)), ("exp", lambda v, w=w: np.exp(w*v)), ("tanh", lambda v, w=w: np.tanh(w*v)), ("gaussian", lambda v, w=w: np.exp(-2.*w*v**2))):
                F["TensorProduct", d, f, w] = (TensorProduct(ndim=d, func=f, width=w), lambda x, g=g: g(x).prod(1))
    for d in (1, 2, 5):
        for p in (1, 2, 3, 4): F["LpNorm", d, p] = (LpNorm(ndim=d, order=p), lambda x, p=p: (np.abs(x)**p).sum(1)**(1./p))
    for d in (3, 6, 12): F["CantileverBeam", d] = (CantileverBeam(ndim=d), cant)
    F["CantileverBeam", 6, "PE"] = (CantileverBeam(ndim=6, P=1e4, E=1e9), lambda x: cant(x, 1e4, 1e9))
    for d in (2, 4, 8): F["RobotArm", d] = (RobotArm(ndim=d), robot)
    F["Branin"] = (Branin(), branin)
    for fd in (False, True):
        F["WaterFlow", fd] = (WaterFlow(use_FD=fd), lambda x: wf(x, True))
        from smt.problems.water_flow_lfidelity import WaterFlowLFidelity
        F["WaterFlowLFidelity", fd] = (WaterFlowLFidelity(use_FD=fd), lambda x: wf(x, False))
        F["WingWeight", fd] = (WingWeight(use_FD=fd), wing)
        F["WeldedBeam", fd] = (WeldedBeam(use_FD=fd), weld)
        F["TorsionVibration", fd] = (TorsionVibration(use_FD=fd), tors)
    # reduced problems
    def red(prob, g, dims, w):
        ds = list(range(dims)) if isinstance(dims, int) else list(dims)
        def f(x):
            full = np.tile((1-w)*prob.xlimits[:, 0] + w*prob.xlimits[:, 1], (len(x), 1)); full[:, ds] = x
            return g(full)
        return f
    for nm, (pr, g) in [("cant", F["CantileverBeam", 6]), ("wing", F["WingWeight", False]), ("rosen", F["Rosenbrock", 6]), ("lp", F["LpNorm", 5, 3])]:
        nd = pr.options["ndim"]
        for dims in (1, nd, [nd-1], [2, 0], (1, 3, 2), np.array([0, nd-2])):
            for w in (0.2, 0.7): F["Reduced", nm, str(dims), w] = (ReducedProblem(pr, dims, w=w), red(pr, g, dims, w))
    for d in (1, 2, 4):
        pr = CantileverBeam(ndim=3*d); F["NdimCantileverBeam", d] = (NdimCantileverBeam(ndim=d), red(pr, cant, range(1, 3*d, 3), .2))
        pr = RobotArm(ndim=2*d+2); F["NdimRobotArm", d] = (NdimRobotArm(ndim=d, w=.4), red(pr, robot, range(3, 2*d+2, 2), .4))
        pr = Rosenbrock(ndim=d+1); F["NdimRosenbrock", d] = (NdimRosenbrock(ndim=d), red(pr, F["Rosenbrock", 3][1], range(1, d+1), .2))
        F["NdimStepFunction", d] = (NdimStepFunction(ndim=d, width=4.), lambda x: np.tanh(4*x).prod(1))
    return F

def run(H):
    F = {}
    with H.case("construct"): F = formulas()
    for name, (p, g) in F.items():
        name = name if isinstance(name, tuple) else (name,)
        key = "P23." + name[0]
        for rep_ in range(H.n(2, 12)):
            n = [3, 1, 7][rep_ % 3]
            xl = p.xlimits; nd = p.options["ndim"]
            x = xl[:, 0] + (xl[:, 1] - xl[:, 0]) * H.rng.uniform(0.02, 0.98, (n, nd))
            if rep_ == 1 and name[0] in ("Sphere", "Rosenbrock", "TensorProduct", "Branin"): x = np.round(x)   # zeros and integers
            with H.case(name[0], str(name), dict(problem=name, x=x)):
                inp = dict(problem=name, x=x.copy()); keep = x.copy()
                H.ok(xl.shape == (nd, 2) and np.all(xl[:, 0] < xl[:, 1]), key + ".xlimits", "limits are (ndim,2) and ordered", inp)
                y = p(x)
                H.ok(np.isrealobj(y), key + ".value", "value is real", inp)
                H.close(y, g(x)[:, None], key + ".value", "value formula", inp, 1e-10, 1e-14)
                fd = len(name) > 1 and name[1] is True
                for k in range(nd):
                    d = p(x, kx=k)
                    H.ok(d.shape == (n, 1), key + ".dshape", "derivative shape %s" % (d.shape,), inp)
                    h = 1e-4 * (xl[k, 1] - xl[k, 0])
                    ref = grad_fd(lambda z: g(z)[:, None], x, k, h)
                    sc = np.max(np.abs(g(x))) / (xl[k, 1] - xl[k, 0])
                    H.close(d, ref, key + ".deriv", "derivative direction %d" % k, inp, 1e-4 if fd else 1e-5, (1e-3 if fd else 1e-6) * sc + (1e-3 if fd else 1e-12))
                    if fd: continue
                H.ok(np.array_equal(x, keep), key + ".frame", "caller's points changed", inp)
                H.close(p(x[:1]), y[:1], key + ".rows", "row result independent of the other rows", inp, 1e-12, 0)
                for bad in (x[:, :-1], np.hstack([x, x])):
                    if bad.shape[1] and bad.shape[1] != nd: H.raises(lambda: p(bad), key + ".reject", "%d columns instead of %d" % (bad.shape[1], nd), inp)
                for bk in (-1, nd, nd + 3): H.raises(lambda: p(x, kx=bk), key + ".reject", "direction %d" % bk, inp)
                if nd == 1: H.close(p(x[:, 0]), y, key + ".1d", "one-dimensional input", inp)
    with H.case("complex"):
        for nm in (Sphere, Rosenbrock, CantileverBeam, RobotArm):
            p = nm(ndim=6, return_complex=True); q = nm(ndim=6)
            x = q.xlimits[:, 0] + (q.xlimits[:, 1] - q.xlimits[:, 0]) * H.rng.rand(3, 6)
            for k in range(6):
                z = x.astype(complex); z[:, k] += 1e-30j
                H.close(np.imag(p(z)) / 1e-30, q(x, kx=k), "P23.complex." + nm.__name__, "complex-step derivative direction %d" % k, dict(x=x), 1e-9, 1e-12)
main(run)
