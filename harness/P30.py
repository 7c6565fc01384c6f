"""P30: output on standard output, nesting depth and results under all printing settings, for the real models."""
from common import *
import itertools, tempfile, os as _os
from smt.utils.printer import Printer
import smt.surrogate_models as S
from smt.applications import MFK, MOE

@contextlib.contextmanager
def capture():
    sys.stdout.flush(); f = tempfile.TemporaryFile(); old = _os.dup(1); _os.dup2(f.fileno(), 1)
    res = {}
    try: yield res
    finally:
        sys.stdout.flush(); _os.dup2(old, 1); _os.close(old); f.seek(0); res["out"] = f.read().decode()

FL = ("print_problem", "print_training", "print_prediction", "print_solver")
def run(H):
    rng = np.random.RandomState(5)
    xt = np.array([[i / 6., ((i * 5) % 7) / 6.] for i in range(7)]) + 0.01 * rng.rand(7, 2); xt = np.vstack([xt, rng.rand(5, 2)])
    yt = np.sin(3 * xt[:, :1]) + xt[:, 1:] ** 2; q = rng.rand(4, 2)
    lim = np.array([[-.1, 1.1], [-.1, 1.1]])
    mk = {"LS": lambda **k: S.LS(**k), "QP": lambda **k: S.QP(**k), "RBF": lambda **k: S.RBF(d0=.5, poly_degree=1, **k), "IDW": lambda **k: S.IDW(**k),
          "KRG": lambda **k: S.KRG(theta0=[1e-1] * 2, **k), "KPLS": lambda **k: S.KPLS(theta0=[1e-1], n_comp=1, **k)}
    try: mk["RMTB"] = lambda **k: S.RMTB(xlimits=lim, order=3, num_ctrl_pts=6, nonlinear_maxiter=2, approx_order=2, **k); mk["RMTC"] = lambda **k: S.RMTC(xlimits=lim, num_elements=3, nonlinear_maxiter=1, **k)
    except Exception: pass
    def drive(name, **kw):
        np.random.seed(3)
        sm = mk[name](**kw); sm.set_training_values(xt, yt)
        d0 = sm.printer.depth
        sm.train(); d1 = sm.printer.depth
        r = [sm.predict_values(q)]
        if sm.supports["derivatives"]: r += [sm.predict_derivatives(q, k) for k in (0, 1)]
        if sm.supports["variances"]: r.append(sm.predict_variances(q))
        H.ok(d0 == d1 == sm.printer.depth, name + ".depth", "%s: nesting depth %s -> %s -> %s" % (name, d0, d1, sm.printer.depth))
        return r
    combos = [dict(zip(FL, c)) for c in itertools.product((True, False), repeat=4)]
    for name in mk:
        with H.case(name, "silent", timeout=120):
            ref = None
            H.rng.shuffle(combos)
            for c in combos[:H.n(4, 16)]:
                with capture() as o: r = drive(name, print_global=False, **c)
                H.ok(o["out"] == "", name + ".silent", "%s printed with printing disabled: %r" % (name, o["out"][:300]), c)
                with capture() as o: r2 = drive(name, print_global=True, **c)
                ref = r if ref is None else ref
                for a, b, d in zip(ref, r, r2):
                    H.close(b, a, name + ".result", "%s: printing options change a result" % name, c, rtol=0, atol=0)
                    H.close(d, a, name + ".result", "%s: enabling printing changes a result" % name, c, rtol=0, atol=0)
                if not any(c.values()): continue
                if c["print_training"] or c["print_prediction"] or c["print_problem"]: H.ok(o["out"] != "", name + ".loud", "%s prints nothing although enabled" % name, c)
    with H.case("failing"):
        sm = S.QP(print_global=False); sm.set_training_values(xt[:3], yt[:3]); d0 = sm.printer.depth
        try: sm.train()
        except Exception: pass
        H.ok(sm.printer.depth == d0, "failing.depth", "nesting depth after a failed training: %s, before: %s" % (sm.printer.depth, d0))
    # the printer alone: random nesting histories
    for rep_ in range(H.n(100, 2000)):
        with H.case("Printer", "%d" % rep_):
            p = Printer(); p.active = bool(H.rng.rand() < .5); p.depth = H.rng.randint(1, 5); p.max_print_depth = H.rng.randint(0, 7)
            hist = []
            def go(level):
                for _ in range(H.rng.randint(0, 3)):
                    d = p.depth; t = H.rng.choice(["call", "timed", "title", "fail"])
                    hist.append((t, d))
                    with capture() as o:
                        if t == "call": p("x", noindent=bool(H.rng.rand() < .5))
                        elif t == "title": p._title("t")
                    if t in ("call", "title"): H.ok((o["out"] != "") == (p.active and d <= p.max_print_depth), "Printer.print", "active %s depth %d max %d printed %r" % (p.active, d, p.max_print_depth, o["out"]), hist)
                    if t in ("timed", "fail"):
                        with capture():
                            try:
                                with p._timed_context("s" if H.rng.rand() < .5 else None, "k" if H.rng.rand() < .5 else None):
                                    H.ok(p.depth == d + 1, "Printer.inside", "depth inside", hist)
                                    if level < 3: go(level + 1)
                                    if t == "fail": raise KeyError()
                            except KeyError: pass
                    H.ok(p.depth == d, "Printer.depth", "depth %d after, %d before" % (p.depth, d), hist)
            go(0)
main(run)
