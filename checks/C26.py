"""Superpixels: statistics per label, maps, stitching."""
import numpy as np
from symex.harness import case

STUBS = ['skimage.filters.threshold_otsu: an unknown number (its argument is compared with the means of the superpixels)', 'skimage.segmentation.slic: given labels']
OUTSIDE = 'which superpixels SLIC finds (compiled code); grids larger than listed'

LABELS = {
    'scan': np.array([[0, 0, 1], [1, 2, 2]]),
    'gaps': np.array([[7, 2, 2], [9, 7, 2]]),
    'negative': np.array([[-3, 4, -3], [4, 4, 0]]),
    'one': np.array([[5, 5], [5, 5]]),
    'single': np.array([[3, 1], [0, 7]]),
    'cube': np.array([[[4, 1], [1, 4]], [[2, 2], [2, 1]]]),
    'float': np.array([[1.5, 0.5, 0.5], [1.5, 0.5, 2.5]]),
}


def members(lab):
    return [[tuple(int(j) for j in i) for i in np.argwhere(lab == v)] for v in np.unique(lab)]


def mean(N, a, c):
    t = 0.0
    for i in c:
        t = t + a[i]
    return t / len(c)


def var(N, a, c):
    m = mean(N, a, c)
    t = 0.0
    for i in c:
        t = t + (a[i] - m) ** 2
    return t / len(c)


def check_all(ctx, a, lab, tag, verbose):
    S, N = ctx.mod('superpixels'), ctx.np
    ref = members(lab)
    m, s = [mean(N, a, c) for c in ref], [var(N, a, c) for c in ref]
    gm = S.get_superpixel_means(a, labels=lab, verbose=verbose)
    gs = S.get_superpixel_sigmas(a, labels=lab, verbose=False)
    gn = S.get_superpixel_n_pixels(a, labels=lab, verbose=False)
    px = S.get_superpixel_pixels(data=a, labels=lab, verbose=False)
    ctx.check(len(gm) == len(gs) == len(gn) == len(px) == len(ref), tag + ' one value per label')
    for i, c in enumerate(ref):
        ctx.close(gm[i], m[i], tag + ' mean', tol=1e-9)
        ctx.close(gs[i] ** 2, s[i], tag + ' variance', tol=1e-7)
        ctx.ge(gs[i], 0, tag + ' deviation')
        ctx.check(int(gn[i]) == len(c), tag + ' number of cells')
        ctx.check(len(px[i]) == len(c), tag + ' cells')
        got, want = [px[i][j] for j in range(len(c))], [a[j] for j in c]
        for f in (lambda v: v, lambda v: v * v, lambda v: v ** 3) if len(c) > 1 else (lambda v: v,):
            ctx.close(sum(f(v) for v in got), sum(f(v) for v in want), tag + ' the cells of the label', tol=1e-6)
    sm = S.superpixel_map(a, lab, verbose=verbose)
    sg = S.superpixel_map(a, lab, mns=N.array([10.0 * i + 1 for i in range(len(ref))]), verbose=False)
    ctx.check(tuple(sm.shape) == lab.shape, tag + ' shape')
    for k, c in enumerate(ref):
        for i in c:
            ctx.close(sm[i], m[k], tag + ' map', tol=1e-9)
            ctx.close(sg[i], 10.0 * k + 1, tag + ' map of given values', tol=1e-9)


@case(quick=[dict(lab=k) for k in LABELS], thorough=[dict(lab=k, verbose=True) for k in ('gaps', 'cube')])
def statistics(ctx, lab, verbose=False):
    lab = LABELS[lab]
    a = ctx.array('a', lab.shape, -5, 5)
    a0 = ctx.np.array(a)
    check_all(ctx, a, lab, '', verbose)
    for i in np.ndindex(*lab.shape):
        ctx.close(a[i], a0[i], 'data unchanged', tol=1e-12)


@case(quick=[dict(n=3)], thorough=[dict(n=4)])
def any_labels(ctx, n):
    """Every labelling of n cells with labels among -1, 2, 5."""
    lab = np.array([ctx.pick('l%d' % i, [-1, 2, 5]) for i in range(n)]).reshape(1, n)
    a = ctx.array('a', (1, n), -5, 5)
    check_all(ctx, a, lab, '', False)


@case(quick=[dict(lab=k) for k in ('gaps', 'negative', 'single')], thorough=[dict(lab=k) for k in ('scan', 'cube', 'float')])
def stitch(ctx, lab):
    """Cells of the superpixels whose mean is below the threshold: the given one (zero included), the mean of the data, or that of the means."""
    S, N = ctx.mod('superpixels'), ctx.np
    lab = LABELS[lab]
    ref = members(lab)
    a = ctx.array('a', lab.shape, -5, 5)
    m = [mean(N, a, c) for c in ref]
    t = ctx.real('t', -6, 6)
    seen = []

    def otsu(x):
        seen.append(x)
        return t
    total = mean(N, a, list(np.ndindex(*lab.shape)))
    S.threshold_otsu = otsu
    for args, th in ((dict(thres=t), t), (dict(thres=0), 0.0), (dict(), total), (dict(stitch='otsu'), t), (dict(stitch='otsu', thres=0.0), 0.0)):
        for v in m:
            ctx.assume((v > th + 1e-6) | (v < th - 1e-6))
        got = S.binary_stitch(a, lab, **args)
        ctx.check(tuple(got.shape) == lab.shape, 'shape')
        for k, c in enumerate(ref):
            for i in c:
                ctx.check((got[i] == True) == (m[k] < th), 'stitched %s' % sorted(args))
    ctx.check(len(seen) == 1 and len(seen[0]) == len(ref), 'otsu is asked for the means')
    for i in range(len(ref)):
        ctx.close(seen[0][i], m[i], 'otsu is asked for the means', tol=1e-9)


@case(quick=[dict(lab=k) for k in ('gaps', 'scan')], thorough=[dict(lab=k) for k in ('negative', 'cube')])
def ratios(ctx, lab):
    """Signal-to-noise ratios in ascending order of the means, every column and the cells reordered alike."""
    S, N = ctx.mod('superpixels'), ctx.np
    lab = LABELS[lab]
    ref = members(lab)
    a = ctx.array('a', lab.shape, -5, 5)
    m = [ctx.real('m%d' % i, -5, 5) for i in range(len(ref))]
    s = [ctx.real('s%d' % i, 0.1, 5) for i in range(len(ref))]
    for i in range(len(ref)):
        for j in range(i):
            ctx.assume((m[i] > m[j] + 1e-3) | (m[i] < m[j] - 1e-3))
    n = N.array([len(c) for c in ref])
    for pixels in (False, True):
        k = dict(data=a, labels=lab, pixels=True) if pixels else dict(n_pix=n)
        out = S.get_superpixel_SNRs(means=N.array(m), sigmas=N.array(s), **k)
        ctx.check(len(out) == (5 if pixels else 4), 'columns')
        snr, gm, gs, gn = out[:4]
        order = [sum(bool(m[j] < m[i]) for j in range(len(m))) for i in range(len(m))]
        for i, o in enumerate(order):
            ctx.close(gm[o], m[i], 'means', tol=1e-9)
            ctx.close(gs[o], s[i], 'deviations', tol=1e-9)
            ctx.close(snr[o] * s[i], m[i], 'ratio', tol=1e-6)
            ctx.check(int(gn[o]) == len(ref[i]), 'numbers')
            if pixels:
                ctx.check(len(out[4][o]) == len(ref[i]), 'cells')
                for f in (lambda v: v, lambda v: v * v):
                    ctx.close(sum(f(out[4][o][j]) for j in range(len(ref[i]))), sum(f(a[j]) for j in ref[i]), 'cells', tol=1e-6)


@case(quick=[dict(n=(2, 3)), dict(n=(1, 4, 2))], thorough=[dict(n=(3, 2, 5, 1))])
def combined(ctx, n):
    """Mean and deviation of groups are those of their union (deviations of the groups with Bessel's correction)."""
    S, N = ctx.mod('superpixels'), ctx.np
    g = [ctx.array('g%d' % i, (k,), -5, 5) for i, k in enumerate(n)]
    ms = [sum(x[j] for j in range(len(x))) / len(x) for x in g]
    v = [sum((x[j] - m) ** 2 for j in range(len(x))) / max(len(x) - 1, 1) for x, m in zip(g, ms)]
    sg = [ctx.real('s%d' % i, 0, 11) for i in range(len(n))]
    mn, st = S.get_combined_mean_std(N.array(ms), N.array(sg), N.array(list(n)))
    every = [x[j] for x in g for j in range(len(x))]
    M = sum(every) / len(every)
    ctx.close(mn, M, 'mean', tol=1e-7)
    ctx.ge(st, 0, 'deviation')
    # total = within (given deviations) + between
    T = sum((k - 1) * q * q for k, q in zip(n, sg)) + sum((x - M) ** 2 for x in every) - sum((k - 1) * q for k, q in zip(n, v))
    ctx.close(st ** 2 * (sum(n) - 1), T, 'sum of squares', tol=1e-6)


@case(quick=[dict(k=3)], thorough=[dict(k=4)])
def estimate(ctx, k):
    """The mean estimate combines the superpixels whose ratio is below the (negative) threshold, and is zero if there are none."""
    S, N = ctx.mod('superpixels'), ctx.np
    m = [ctx.real('m%d' % i, -20, 5) for i in range(k)]
    s = [ctx.real('s%d' % i, 0.5, 3) for i in range(k)]
    n = [i + 2 for i in range(k)]
    thr = ctx.pick('thr', [5, 2.5, -1.5, 0])
    lim = thr if thr <= 0 else -thr
    for i in range(k):
        ctx.assume((m[i] > lim * s[i] + 1e-6) | (m[i] < lim * s[i] - 1e-6))
        for j in range(i):
            ctx.assume((m[i] > m[j] + 1e-3) | (m[i] < m[j] - 1e-3))
    got = S.mean_estimate(None, means=N.array(m), sigmas=N.array(s), n_pix=N.array(n), SNR_thres=thr)
    sel = [i for i in range(k) if bool(m[i] < lim * s[i])]
    if not sel:
        ctx.close(got[0], 0.0, 'none')
        ctx.close(got[1], 0.0, 'none')
        return
    ab = {i: ctx.np.abs(m[i]) for i in sel}
    t = sum(n[i] for i in sel)
    M = sum(ab[i] * n[i] for i in sel) / t
    ctx.close(got[0], M, 'mean', tol=1e-6)
    ctx.close(got[1] ** 2 * (t - 1), sum((n[i] - 1) * s[i] ** 2 + n[i] * (ab[i] - M) ** 2 for i in sel), 'deviation', tol=1e-5)


@case(quick=[dict(free=4), dict(free=4, b=0.5)], thorough=[dict(free=6)])
def undersegmentation(ctx, free, b=0.25):
    """Sum of the sizes of the superpixels that leak into each true segment (by more than the fraction b), relative to the size."""
    S = ctx.mod('superpixels')
    shape = (2, 2, 2)
    lab = LABELS['cube']
    tr = np.array([0, 0, 1, 1, 1, 0, 1, 1]).reshape(-1)
    for i in range(free):
        tr[i] = 1 if ctx.bool('t%d' % i) else 0
    tr = tr.reshape(shape)
    got = S.under_segmentation_error(lab, tr, b=b, verbose=False)
    want = 0
    for i in set(tr.reshape(-1).tolist()):
        for c in members(lab):
            if sum(tr[j] == i for j in c) > b * len(c):
                want += len(c)
    ctx.close(got, (want - 8) / 8, 'error', tol=1e-9)


@case(quick=[dict()])
def by_label(ctx):
    """Cells of one label; boundaries and simple estimates."""
    S, N = ctx.mod('superpixels'), ctx.np
    for lab in LABELS.values():
        for v in np.unique(lab):
            got = S.see_label(lab, v)
            ctx.check(all(bool(got[i] == (1 if lab[i] == v else 0)) for i in np.ndindex(*lab.shape)), 'cells of the label')
        got = S.see_label(lab, 77)
        ctx.check(not np.any(np.asarray(got)), 'absent label')
    d, z = ctx.real('d', -100, 50), ctx.real('z', 6, 20)
    got = S.xfrac_mass_estimate(d, z)
    ctx.close((1 - got) ** 2 * 27.0 ** 2 * (1 + z) / 10, d ** 2, 'neutral fraction of the signal', tol=1e-3)
    ctx.check((1 - got) * d >= -1e-9, 'sign')
