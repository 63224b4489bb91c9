"""C20: loss functions"""
from symex.driver import harness, assumptions
from .common import *

assumptions("C20", "band and reference counts, offsets and sample counts are enumerated, energies and weights are symbolic",
            "energies exactly on the border of the window are included, ties between assignments are included")


def _least(X, vals):
    best = vals[0]
    for v in vals[1:]:
        if v < best:
            best = v
    return best


@harness("C20", cfgs=[dict(nb=nb, nr=nr, offset=o) for nb, nr, o in ((2, 2, 0), (3, 2, 0), (3, 2, 1), (3, 1, 2))])
def error(M, X, nb, nr, offset):
    """model_error and model_loss are the weighted standard deviation of the compared bands, the maximal error per band is without weights"""
    L = M.loss
    n = 2
    b = X.array("b", (n, nb), -3, 3)
    r = X.array("r", (n, nr), -3, 3)
    w = X.array("w", nr, 0.0, 2.0)
    X.merge(True)
    sq = 0.0
    for i in range(n):
        for j in range(nr):
            sq = sq + (w[j] * (b[i][j + offset] - r[i][j]))**2
    loss, most = L.model_error(b, r, w, offset)
    X.eq("loss", loss * loss, sq / n)
    X.le("sign", 0.0, loss)
    X.eq("bands", len(most), nr)
    for j in range(nr):
        d = [abs(b[i][j + offset] - r[i][j]) for i in range(n)]
        for x in d:
            X.le("maximal error: bound", x, most[j])
        X.true("maximal error: reached", any(bool(most[j] == x) for x in d))
    l2 = L.model_loss(b, r, w, offset)
    X.eq("model_loss", l2 * l2, sq / n)
    X.le("model_loss sign", 0.0, l2)


@harness("C20", cfgs=[dict(nb=nb, nr=nr) for nb, nr in ((2, 2), (1, 1), (3, 2), (2, 3), (3, 1), (1, 3))], thorough=[dict(nb=nb, nr=nr) for nb, nr in ((4, 2), (2, 4), (3, 3))], weight=2)
def window(M, X, nb, nr):
    """the loss in a window of energies is the smallest one over all band offsets, only reference energies in the window count"""
    n = 2
    b = X.real("b", -3, 3)
    b = X.stack([X.stack([b if i == 1 or nb == 1 else 0.75 * i - 0.5 for i in range(nb)]), X.stack([0.5 * i - 0.25 for i in range(nb)])])
    # one reference energy is symbolic and can be anywhere relative to the window, one band is left out of the window
    r0 = np.array([[-1.0 + 0.75 * j + 0.1 * i for j in range(nr)] for i in range(n)])
    r = [[x for x in row] for row in r0]
    r[0][0] = X.real("r", -3, 3)
    r = X.stack([X.stack(row) for row in r])
    lo, hi = -1.5, 0.4
    m = min(nb, nr)
    sums = []
    for o in range(max(nb, nr) - m + 1):
        s = 0.0
        for i in range(n):
            for j in range(m):
                y = r[i][j + o] if nb < nr else r[i][j]
                x = b[i][j] if nb < nr else b[i][j + o]
                if lo <= y and y <= hi:
                    s = s + (x - y)**2
        sums.append(s)
    ref = _least(X, sums)
    got = M.loss.model_windowed_loss(b, r, lo, hi)
    X.le("sign", 0.0, got)
    X.eq("loss", got * got, ref / n)
    if nb == nr:
        X.eq("equal bands", M.loss.model_windowed_loss(r, r, lo, hi), 0.0)


@harness("C20", cfgs=[dict(nb=nb, nr=nr) for nb, nr in ((2, 2), (3, 2), (2, 3), (1, 2))], weight=2)
def skipped(M, X, nb, nr):
    """with skipped bands the loss in the window is the one of the best assignment of bands"""
    b = X.array("b", (2, nb), -3, 3)
    r = np.array([[0.0, 1.0, 1.5][:nr], [-0.5, 0.25, 2.5][:nr]])
    b = X.stack([X.stack([b[0][i] for i in range(nb)]), X.stack([0.25 * i - 0.25 for i in range(nb)])])
    lo, hi = -0.75, 1.25
    cost = 0.0
    for i in range(2):
        y = [x for x in r[i] if lo <= x <= hi]
        m = min(len(y), nb)
        opts = []
        for rows in itertools.combinations(range(len(y)), m):
            for cols in itertools.permutations(range(nb), m):
                s = 0.0
                for p, q in zip(rows, cols):
                    s = s + (y[p] - b[i][q])**2
                opts.append(s)
        cost = cost + _least(X, opts)
    got = M.loss.model_windowed_loss(b, r, lo, hi, allow_skipped_bands=True)
    X.le("sign", 0.0, got)
    X.eq("loss", got * got, cost / 2)


@harness("C20", cfgs=[dict(nb=nb, nr=nr, skip=s) for nb, nr in ((2, 2), (3, 2), (1, 2)) for s in (False, True)], weight=2)
def histogram(M, X, nb, nr, skip):
    """the histogram contains the largest error of the compared reference energies around each bin center"""
    r = np.array([[0.0, 1.0], [0.3, 1.6]])[:, :nr]
    B = np.array([[0.05, 0.9, 2.0], [0.5, 1.3, 2.25]])[:, :nb]
    x = X.real("x", -1.0, 1.0)
    b = X.stack([X.stack([B[0][0] + x] + list(B[0][1:])), X.stack(list(B[1]))])
    if skip:
        # the assignment with the smallest sum of errors
        err, ref = [], []
        for i in range(2):
            best = None
            m = min(nb, nr)
            for rows in itertools.combinations(range(nr), m):
                for cols in itertools.permutations(range(nb), m):
                    e = [abs(r[i][p] - b[i][q]) for p, q in zip(rows, cols)]
                    s = sum(e[1:], e[0])
                    # the assignment has to be unique, otherwise every optimal one is right
                    if best is None:
                        best = (s, e, rows)
                    else:
                        X.assume(abs(s - best[0]) > 1e-6)
                        if s < best[0]:
                            best = (s, e, rows)
            err.append(best[1])
            ref.append([r[i][p] for p in best[2]])
    else:
        best = None
        m = min(nb, nr)
        for o in range(max(nb, nr) - m + 1):
            e = [[(r[i][j + o] if nb < nr else r[i][j]) - (b[i][j] if nb < nr else b[i][j + o]) for j in range(m)] for i in range(2)]
            s = 0.0
            for row in e:
                for v in row:
                    s = s + v * v
            if best is None or s < best[0]:
                best = (s, e, [[r[i][j + o] if nb < nr else r[i][j] for j in range(m)] for i in range(2)])
        err, ref = [[abs(v) for v in row] for row in best[1]], best[2]
    n = 4
    c, h = M.loss.model_error_hist(b, r, n, allow_skipped_bands=skip)
    small = _least(X, [b[0][i] for i in range(nb)] + [b[1][0]])
    big = -_least(X, [-b[0][i] for i in range(nb)] + [-b[1][-1]])
    start = small if small > np.min(r) else np.min(r)
    end = big if big < np.max(r) else np.max(r)
    X.eq("number of bins", len(h), n)
    w = (end - start) / (n - 1)
    for i in range(n):
        X.eq("center", c[i], start + w * i)
    for i in range(n):
        most = 0.0
        e = start + w * i
        for p in range(2):
            for q in range(len(ref[p])):
                d = abs(ref[p][q] - e)
                X.assume(abs(d - w / 2) > 1e-6)
                if d < w / 2 and err[p][q] > most:
                    most = err[p][q]
        X.eq("largest error", h[i], most)


@harness("C20", cfgs=[dict(kind=k, offset=o) for k in ("bandstructure", "asym", "tight_binding") for o in (0, 1)])
def models(M, X, kind, offset):
    """error, loss and loss in a window of a model are the ones of its bands, the printed error is the loss with weights of mean 1"""
    n = 2
    h = [X.real("h0", -2, 0), X.real("h1", 0.25, 2)]
    t = [X.real("t0", -0.05, 0.05), X.real("t1", -0.05, 0.05)]
    H = X.stack([X.stack([X.stack([a[0], 0.0]), X.stack([0.0, a[1]])]) for a in (h, t)]) * (1 + 0j)
    nb = [(0,), (1,)]
    if kind == "asym":
        A = M.tight_binding_asym
        m = A.AsymTightBindingModel(A.HermitianFourierSeries(np.array(nb), H))
    elif kind == "bandstructure":
        m = M.bandstructure.BandStructureModel.init_tight_binding(M.symmetry.Symmetry.none(1), nb, 2)
        m.set_params_complex(H)
    else:
        m = M.tight_binding.TightBindingModel(M.unitary_representations.UnitaryRepresentation(M.symmetry.Symmetry.none(1), 2), nb, None)
        m.set_from_complex(H)
    k = np.array([[0.0], [0.25]])
    bands = X.stack([X.stack([h[i] + 2 * t[i] for i in range(2)]), X.stack(h)])
    X.spectral(X.stack([X.stack([bands[0][0], 0.0]), X.stack([0.0, bands[0][1]])]), bands[0], np.eye(2))
    X.spectral(X.stack([X.stack([h[0], 0.0]), X.stack([0.0, h[1]])]), bands[1], np.eye(2))
    nr = 2 - offset
    r = X.array("r", (n, nr), -3, 3)
    w = X.array("w", nr, 0.25, 2.0)
    X.merge(True)
    L = M.loss
    loss, most = m.error(k, r, w, offset)
    loss2, most2 = L.model_error(bands, r, w, offset)
    X.eq("error", loss, loss2)
    X.eq("error of the bands", most, most2)
    if hasattr(m, "loss"):
        X.eq("loss", m.loss(k, r, w, offset), loss2)
    if nr == 2:
        rw = X.stack([X.stack([0.5, r[0][0]]), X.stack([-0.25, 1.25])])
        X.eq("window", m.windowed_loss(k, rw, -1.0, 1.0), L.model_windowed_loss(bands, rw, -1.0, 1.0))
    if hasattr(m, "print_error"):
        got = []
        class Log:
            def add_message(self, text):
                got.append(text)
        given = []
        err = m.error
        m.error = lambda *a: given.append(a) or (0.5, np.array([0.25]))
        m.print_error(k, r, w, offset, prefix="p ", log=Log())
        X.true("message", got == ["p loss: 5.00e-01 (max band-error [0.25])"])
        X.eq("weights with mean one", given[0][2], w / (sum(w) / nr))
        X.true("arguments", given[0][0] is k and given[0][1] is r and given[0][3] == offset)
        m.error = err
