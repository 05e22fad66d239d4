"""C40 Evaluation times and validation error follow their definitions."""
from symx.run import Suite

suite = Suite("C40", bounds="all positive durations and steps with at most 5 times (12 and 1100 for whole multiples of the step); validation sets of 1 to 6 samples (1100 of which two are different), all data",
              assumes=["exact real arithmetic (the float quotient duration/step is taken as exact)"])


@suite.inst(max_int=5)
def times(c):
    d, s = c.pos("d"), c.pos("s")
    n, ts = c.rg.compute_evaluation_times(d, s)
    c.shape("times", ts, (n,))
    c.check("at least one", c.le(1, n))
    c.eq("start", ts[0], 0)
    for i in range(n):
        c.eq("t[%d]" % i, ts[i], s * i)
        c.check("t[%d] below duration" % i, c.lt(ts[i], d))
    c.check("as many as fit", c.le(d, s * n))


@suite.inst(max_int=5)
def default_step(c):
    d = c.pos("d")
    n, ts = c.rg.compute_evaluation_times(d)
    step = c.const(0.1)
    for i in range(n):
        c.eq("t[%d]" % i, ts[i], step * i)
        c.check("below", c.lt(ts[i], d))
    c.check("as many as fit", c.le(d, step * n))


@suite.inst()
def rejects(c):
    d, s = c.pos("d"), c.pos("s")
    f = c.rg.compute_evaluation_times
    c.raises("negative duration", lambda: f(-d, s), AssertionError, ValueError)
    c.raises("negative step", lambda: f(d, -s), AssertionError, ValueError)
    c.raises("zero step", lambda: f(d, 0), AssertionError, ValueError)
    c.raises("zero duration", lambda: f(0, s), AssertionError, ValueError)


@suite.inst(params=[1, 2, 3, 6])
def rmse(c, p):
    n = p
    th = c.vec("th", 10)
    Ys, ws, sq = [], [], 0
    for i in range(n):
        # Y has one free column per row pair: prediction is an arbitrary vector
        Y = c.np.zeros((6, 10))
        for k in range(6):
            Y[k, (k + i) % 10] = c.real("y%d%d" % (i, k))
        w = c.vec("w%d_" % i, 6)
        e = [sum(Y[k, j] * th[j] for j in range(10)) - w[k] for k in range(6)]
        sq = sq + sum(x * x for x in e)
        Ys.append(Y)
        ws.append(w)
    r = c.rg.validation_rmse(c.np.array(Ys), c.np.array(ws), th)
    c.eq("square of rmse", r * r * n, sq)
    c.check("non-negative", c.le(0, r))


@suite.inst()
def rmse_zero(c):
    th = c.vec("th", 10)
    Y = c.np.zeros((6, 10))
    for k in range(6):
        Y[k, k] = c.real("y%d" % k)
    w = c.arr([Y[k, k] * th[k] for k in range(6)])
    c.eq("exact predictions", c.rg.validation_rmse(c.np.array([Y, Y]), c.np.array([w, w]), th), 0, atol=1e-9)


@suite.inst()
def rmse_pos(c):
    Y = c.np.zeros((6, 10))
    th = c.np.zeros(10)
    w = c.vec("w", 6)
    r = c.rg.validation_rmse(c.np.array([Y]), c.np.array([w]), th)
    c.implies("zero only if exact", c.same(r, 0), c.land(*[c.same(x, 0) for x in w]))


@suite.inst(max_int=5)
def offset_free(c):
    """whole multiples of the step: the end of the interval is not a time"""
    s = c.pos("s")
    for k in (1, 2, 7, 12):
        if not c.sym and (s * k) / s != k:
            continue  # rounding of the product
        n, ts = c.rg.compute_evaluation_times(s * k, s)
        c.check("count %d" % k, n == k)
        c.shape("times %d" % k, ts, (k,))
        for i in range(k):
            c.eq("t", ts[i], s * i)


@suite.inst()
def rmse_thousand(c):
    """1100 samples, the last unlike the others"""
    n = 1100
    th = c.vec("th", 10)
    Ys, ws, es = [], [], []
    for i in range(2):
        Y = c.np.zeros((6, 10))
        for k in range(6):
            Y[k, k + i] = c.real("y%d%d" % (i, k))
        w = c.vec("w%d_" % i, 6)
        e = [Y[k, k + i] * th[k + i] - w[k] for k in range(6)]
        Ys.append(Y)
        ws.append(w)
        es.append(sum(x * x for x in e))
    r = c.rg.validation_rmse(c.np.array([Ys[0]] * (n - 1) + [Ys[1]]), c.np.array([ws[0]] * (n - 1) + [ws[1]]), th)
    c.eq("square of rmse", r * r * n, es[0] * (n - 1) + es[1])


@suite.inst()
def thousand_times(c):
    s = c.pos("s")
    k = 1100
    if not c.sym and (s * k) / s != k:
        return  # rounding of the product
    n, ts = c.rg.compute_evaluation_times(s * k, s)
    c.check("count", n == k)
    c.shape("times", ts, (k,))
    for i in (0, 1, 2, 500, 1023, 1024, 1098, 1099):
        c.eq("t%d" % i, ts[i], s * i)
