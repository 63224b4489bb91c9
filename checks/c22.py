"""C22: the log of a fit"""
import contextlib
import io
from symex.driver import harness, assumptions
from .common import *

assumptions("C22", "two or three bands, up to four entries; losses and errors are symbolic and not negative", "the text of the numbers is not part of the claim, the bars are")


def printed(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f()
    return out.getvalue()


@harness("C22", cfgs=[dict(n=n, line=u, zero=z) for n in (1, 2, 3) for u in (True, False) for z in range(n + 1)], max_paths=1500, weight=2)
def bars(M, X, n, line, zero):
    """the bar of every band shows its largest error relative to the largest of all, in eighths; a perfect fit is blank"""
    log = M.logger.OptimisationLogger(print_loss=True, update_line=line)
    loss = X.real("loss", 0, 2)
    e = [X.real(f"e{i}", 0.01, 2) if i >= zero else 0.0 for i in range(n)]
    top = X.real("top", 1, 2) if zero < n else 0.0
    if zero < n:
        e[n - 1] = top
        for i in range(zero, n - 1):
            X.assume(e[i] <= top)
            for j in range(16):
                # away from the borders of the bars
                if j % 2 == 1:
                    X.assume(abs(16 * e[i] - j * top) >= 1e-3 * top)
    out = printed(lambda: log.add_data(3, loss, X.stack(e)))
    bar = out[out.index("[") + 1:out.index("]")]
    X.eq("one bar per band", len(bar), n)
    for i in range(n):
        h = 0 if bar[i] == " " else ord(bar[i]) - 0x2580
        X.true("is a bar", 0 <= h <= 8)
        if zero == n:
            X.eq("blank", h, 0)
        else:
            X.le("height not too large", h * top, 8 * e[i] + 0.5 * top)
            X.le("height not too small", 8 * e[i], (h + 0.5) * top)
    X.true("iteration", out.strip("\r").strip().startswith("3:"))
    X.eq("line", [out.startswith("\r"), out.endswith("\n")], [line, not line])
    X.eq("stream", [log.stream[0][0], log.stream[0][1]], [3, loss])


@harness("C22", cfgs=[dict(n=n, start=s) for n in (1, 3, 4) for s in range(n + 1)], thorough=[dict(n=8, start=s) for s in range(9)])
def entries(M, X, n, start):
    """entries are kept in order, the last one is reported; from the moment it counts, the iterations go on after the last one; a run is aborted once"""
    log = M.logger.OptimisationLogger(print_loss=False, verbose=False)
    X.eq("nothing logged", log.iteration_count(), -1)
    loss = [X.real(f"l{i}", 0, 5) for i in range(n)]
    its = [X.int(f"i{i}", 0, 1000) for i in range(n)]
    want = []
    for k, (i, l) in enumerate(zip(its, loss)):
        log.count = k >= start
        want.append(i if k < start else (want[-1] if want else -1) + 1)
        e = X.array(f"e{k}", 2, 0, 5)
        out = printed(lambda: (log.add_data(i, l, e), log.add_message(f"message {k}")))
        X.eq("silent", len(out), 0)
        X.eq("last loss", log.last_loss(), l)
        X.eq("iteration", log.iteration_count(), want[-1])
        X.eq("error", log.stream[2 * k][2], e)
        X.true("message", log.stream[2 * k + 1] == f"message {k}")
    X.eq("losses", X.stack(log.loss), X.stack(loss))
    X.eq("iterations", X.stack(log.iterations), X.stack(want))
    log.abort()
    X.true("aborted", log.aborted)
    try:
        log.abort()
        X.true("second abort fails", False)
    except ValueError:
        X.true("second abort fails", True)


@harness("C22", cfgs=[dict(n=n) for n in (1, 3, 5)])
def curve(M, X, n):
    """the plotted convergence curve shows every loss at its iteration, over the range of the log"""
    log = M.logger.OptimisationLogger(print_loss=False, verbose=False)
    its = [X.int(f"i{i}", 100 * i, 100 * i + 99) for i in range(n)]
    loss = [X.real(f"l{i}", 0.1, 5) for i in range(n)]
    for i, l in zip(its, loss):
        log.add_data(i, l, [l])
    with Recorder(M.logger) as plt:
        log.plot_loss("o-", label="run")
    (x, y, *rest), kw = plt.named("semilogy")[0][1:]
    X.eq("curves", len(plt.named("semilogy")), 1)
    X.eq("iterations", X.stack(list(x)), X.stack(its))
    X.eq("losses", X.stack(list(y)), X.stack(loss))
    X.true("style", rest == ["o-"] and kw == {"label": "run"})
    (lo, hi), _ = plt.named("xlim")[-1][1:]
    X.eq("range", X.stack([lo, hi]), X.stack([its[0], its[-1]]))


@harness("C22", cfgs=[dict(kind=k, cg=c) for k, c in (("asym", False), ("asym", True), ("exp", False), ("exp", True))])
def shared(M, X, kind, cg):
    """one logger can be used for several fits, printing on"""
    from .c21 import coef, values, model, fit, KS
    log = M.logger.OptimisationLogger(print_loss=True, update_line=False, verbose=True)
    log.count = True
    H = coef(X, "h", 1, complex_=True)
    K = KS[4]
    ref = values(X, H, K)
    m = model(M, X, kind, 1, H)

    def run():
        for _ in range(2):
            fit(m, kind, cg, K, ref, 1.0, 0, 2, log=log)
    out = printed(run)
    X.eq("iterations", log.iterations, list(range(len(log.loss))))
    X.true("entries", len(log.loss) >= 2)
    X.le("loss", log.last_loss(), 1e-6)
    X.true("lines", out.count("loss") == len(log.loss))
