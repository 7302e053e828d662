"""C23: spots in images (spec/Spots.tla, SpotModel.tla, SpotTrace.tla)."""
import os, sys
import numpy as np
from multiprocessing import Pool
from common import q

TYPES = ['f8', 'f8', 'f4', 'u2', 'i4', 'i8', '>f4', '>i2', '>f8', 'u4']


def quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    import warnings
    warnings.simplefilter('ignore')


def detect(im, opt):
    """one call, outcome as a word"""
    from desimeter.detectspots import detectspots
    try:
        return 'ok', detectspots(im, **opt)
    except RuntimeError as e:
        if 'no spot' in str(e):
            return 'none', None
        return ('many' if 'too many' in str(e) else 'error'), None
    except Exception:
        return 'error', None


def unit(n0, n1, x, y, sigma, tilt):
    """light of one spot in a window of the image: (slices, values)"""
    from scipy.special import erf
    h = int(np.ceil(7 * sigma))
    a0, b0, a1, b1 = max(0, int(y) - h), min(n0, int(y) + h + 1), max(0, int(x) - h), min(n1, int(x) + h + 1)
    i, j = np.arange(a0, b0), np.arange(a1, b1)
    if not tilt:
        a = 1 / (np.sqrt(2) * sigma)
        v = np.outer(.5 * (erf(a * (i + .5 - y)) - erf(a * (i - .5 - y))), .5 * (erf(a * (j + .5 - x)) - erf(a * (j - .5 - x))))
    else:
        # elongated along a diagonal: average over a fine grid in each pixel
        k = (np.arange(7) - 3) / 7
        yy, xx = (i[:, None] + k - y).ravel(), (j[:, None] + k - x).ravel()
        u, w = (xx[None, :] + tilt * yy[:, None]) / np.sqrt(2), (xx[None, :] - tilt * yy[:, None]) / np.sqrt(2)
        su, sw = 1.09 * sigma, sigma / 1.09
        v = np.exp(-.5 * ((u / su) ** 2 + (w / sw) ** 2)) / (2 * np.pi * su * sw)
        v = v.reshape(len(i), 7, len(j), 7).mean((1, 3))
    return (slice(a0, b0), slice(a1, b1)), v


def render(rs, n0, n1, spots, ped, noise, sigma, tilt):
    im = np.full((n0, n1), float(ped))
    if noise:
        im += rs.normal(0, noise, (n0, n1))
    for x, y, c in spots:
        s, v = unit(n0, n1, x, y, sigma, tilt)
        im[s] += c * v
    return im


def events(im, spots, noise, sigma, tilt, opt, named=True):
    """run the detection and record"""
    from scipy.spatial import cKDTree
    before = im.copy()
    n0, n1 = im.shape
    rc, T = detect(im, opt)
    common = {'noise': int(round(10 * noise)), 'minpix': int(opt.get('min_counts_per_pixel', 500) or 0), 'nsig': int(opt.get('nsig', 7)),
              'cut': int(opt.get('min_counts_per_spot', 5000)), 'sig': int(round(100 * sigma)), 'round': not tilt, 'rc': rc, 'lit': int(5000 * len(spots) / n0 / n1)}
    rows = np.array([[float(r[k]) for k in ('XPIX', 'YPIX', 'COUNTS', 'XERR', 'YERR')] for r in T]) if T is not None and len(T) else np.zeros((0, 5))
    finite = bool(np.isfinite(rows).all())
    rows[~np.isfinite(rows)] = -1000
    ev = [dict(common, op='image', n=len(spots), rows=len(rows), same=bool(im.dtype == before.dtype and (im == before).all()), finite=finite,
               named=T is None or list(T.colnames) == ['XPIX', 'YPIX', 'XERR', 'YERR', 'COUNTS'])]
    S = np.array(spots, float).reshape(-1, 3)
    if len(S) == 0 or len(S) > 10000:
        return ev
    tree = cKDTree(S[:, :2])
    hits = [[] for _ in S]
    if len(rows):
        R = cKDTree(rows[:, :2])
        hits = R.query_ball_point(S[:, :2], .9)
        d = tree.query(rows[:, :2])[0]
        for v, r in zip(d, rows):
            ev.append(dict(common, op='row', away=int(min(1e6, 1000 * v)), edge=int(1000 * min(r[0], r[1], n1 - 1 - r[0], n0 - 1 - r[1])), c=q(r[2], 1)))
    if len(S) > 1:
        near = tree.query(S[:, :2], k=2)[0][:, 1]
        around = tree.query_ball_point(S[:, :2], 8.)
    else:
        near, around = [1e3], [[]]
    for k, (x, y, c) in enumerate(S):
        ratio = max([S[j, 2] / c for j in around[k] if j != k] or [0])
        ev.append(dict(common, op='spot', edge=int(1000 * min(x, y, n1 - 1 - x, n0 - 1 - y)), near=int(1000 * min(near[k], 1e3)), ratio=int(min(1000, 10 * ratio)) + 1, c=int(c),
                       hits=[[q(rows[h, 0] - x, 1000), q(rows[h, 1] - y, 1000), q(rows[h, 2], 1), q(rows[h, 3], 1e4), q(rows[h, 4], 1e4)] for h in hits[k]]))
    return ev


def typed(rs, im, spots, ped, dt):
    """the image in another type, if its values fit"""
    t = np.dtype(dt)
    if t.kind in 'iu':
        info = np.iinfo(t)
        im = np.round(im)
        if im.min() < info.min or im.max() > info.max:
            t = np.dtype('i4')
    return im.astype(t)


def scatter(rs, n0, n1, m, gap, taken=()):
    """positions at least gap apart, some on pixels, between pixels, at corners"""
    out = list(taken)
    cells = {}
    def key(x, y):
        return int(x // gap), int(y // gap)
    for x, y in out:
        cells.setdefault(key(x, y), []).append((x, y))
    tries = 0
    new = []
    while len(new) < m and tries < 60 * m + 200:
        tries += 1
        x, y = rs.uniform(0, n1 - 1), rs.uniform(0, n0 - 1)
        if rs.random() < .4:
            x, y = np.round(2 * x) / 2, np.round(2 * y) / 2
        kx, ky = key(x, y)
        if all((x - a) ** 2 + (y - b) ** 2 >= gap ** 2 for i in (-1, 0, 1) for j in (-1, 0, 1) for a, b in cells.get((kx + i, ky + j), [])):
            new.append((x, y))
            cells.setdefault((kx, ky), []).append((x, y))
    return new


def job(a):
    n, seed, kind, case = a
    rs = np.random.default_rng([seed, 23, n])
    np.random.seed(n)
    import desimeter.log
    desimeter.log.get_logger().setLevel('CRITICAL')
    noise = float(rs.choice([0, 0, .5, 5, 12, 35]))
    ped = float(rs.choice([0, 100, 1000, 1000, 20000, -200]))
    sigma, tilt, opt = 1., 0, {}
    unit_c = float(rs.choice([12000, 20000, 60000]))
    if kind == 'case':
        # the image of the model in a corner of a larger one
        N, M = 12, 15
        n0, n1 = [int(v) for v in rs.integers(55, 110, 2)]
        ox, oy = [(0, 0), (n1 - M, 0), (0, n0 - N), (n1 - M, n0 - N)][n % 4]
        cut = 10 ** int(rs.integers(4, 6))
        u = cut / 1.6
        opt['min_counts_per_spot'] = cut
        opt['min_counts_per_pixel'] = min(500, u * .03)
        noise = min(noise, u / 800)
        spots = [(s['x'] / 2 + ox, s['y'] / 2 + oy, s['b'] * u) for s in case['S']]
        extra = [p for p in scatter(rs, n0, n1, int(rs.integers(0, 12)), 9., [(s[0], s[1]) for s in spots])]
        spots += [(x, y, float(rs.choice([1, 2, 4])) * u) for x, y in extra]
        tilt = {'none': 0, 'plus': 1, 'minus': -1, 'steps': 0}[case['tilt']]
        if case['tilt'] != 'none':
            noise = max(noise, .5)
    elif kind == 'field':
        n0, n1 = [int(v) for v in rs.integers(40, 260, 2)]
        gap = float(rs.choice([4.6, 5.6, 7.1, 9, 15]))
        m = int(rs.integers(0, max(1, int(n0 * n1 / 9 / gap ** 2))))
        spread = 2. if gap < 7 else 30.
        spots = [(x, y, unit_c * float(np.exp(rs.uniform(0, np.log(spread))))) for x, y in scatter(rs, n0, n1, m, gap)]
        if gap >= 7 and rs.random() < .5:
            # some below the cuts
            spots = [(x, y, c * float(rs.choice([1, 1, .05, .2]))) for x, y, c in spots]
        if rs.random() < .3:
            opt['min_counts_per_spot'] = float(rs.choice([0, 2000, 10000, 40000]))
        if rs.random() < .3 and noise:
            opt['min_counts_per_pixel'] = None
            opt['nsig'] = int(rs.choice([7, 10, 20]))
        elif rs.random() < .3:
            opt['min_counts_per_pixel'] = float(rs.choice([200, 1000, 3000]))
            if opt['min_counts_per_pixel'] == 200:
                noise = min(noise, 12)
    elif kind == 'wide':
        sigma = float(rs.choice([.8, 1.2, 1.5]))
        opt['psf_sigma'] = sigma
        n0, n1 = [int(v) for v in rs.integers(60, 160, 2)]
        spots = [(x, y, 4 * unit_c * float(rs.uniform(1, 5))) for x, y in scatter(rs, n0, n1, 20, 14.)]
    elif kind == 'crowd':
        # more than a hundred spots seen twice by the search of maxima
        tilt = [1, -1][n % 2]
        n0, n1 = 230, 330
        noise = .5
        spots = [(x + .5, y + .5, 40000. + 10 * x) for x in range(10, n1 - 10, 14) for y in range(10, n0 - 10, 12)]
    elif kind == 'large':
        n0, n1 = 900 + 37 * (n % 7), 1300 - 41 * (n % 5)
        spots = [(x, y, unit_c * float(rs.uniform(1, 10))) for x, y in scatter(rs, n0, n1, 2500, 9.)]
        # two ends of the image only, or a gradient of brightness
        if n % 2:
            spots = [(x, y, unit_c * (1 + 9 * x / n1)) for x, y, c in spots]
    elif kind == 'line':
        # all spots on a diagonal, in a row or a column, or in one corner
        n0 = n1 = int(rs.integers(70, 240))
        k = np.arange(6, n0 - 6, float(rs.choice([6, 7, 9])))
        how = n // 3 % 5
        if how == 4:
            k = k[:max(2, int(.35 * len(k)))]
            spots = [(x, y, unit_c) for x in k for y in k]
        else:
            spots = [[(x, x, unit_c), (x, n0 - 1 - x, unit_c), (x, n0 // 2, unit_c), (n0 // 3, x, unit_c)][how] for x in k]
        o = rs.uniform(-.5, .5, 2)
        spots = [(x + o[0], y + o[1], c) for x, y, c in spots]
        if how == 4 and rs.random() < .5:
            spots = [(n1 - 1 - x, n0 - 1 - y, c) for x, y, c in spots]
    elif kind == 'most':
        n0, n1 = 12 * 94 + 9, 12 * 100 + 13
        spots = [(12 * i + 7 + (i + j) % 3 / 2, 12 * j + 6. + i % 2 / 2, 40000. + 100 * i) for i in range(100) for j in range(94)]
        noise = min(noise, 12)
    elif kind == 'many':
        n0, n1 = 101 * 8, 104 * 8
        spots = [(8 * i + 4., 8 * j + 4., 40000.) for i in range(102) for j in range(100)]
    noise = min(noise, max(.3, unit_c / 700)) if kind != 'case' else noise
    dt = str(rs.choice(TYPES))
    im = render(rs, n0, n1, spots, ped, noise, sigma, tilt)
    # rounding to integers is noise too
    im = typed(rs, im, spots, ped, dt)
    if rs.random() < .15:
        im = np.asfortranarray(im)
    elif rs.random() < .15:
        im = np.repeat(im, 2, axis=1)[:, ::2]
    if im.dtype.kind in 'iu':
        noise = float(np.hypot(noise, .29))
    return events(im, spots, noise, sigma, tilt, opt)


def small(a):
    n, seed = a
    rs = np.random.default_rng([seed, 24, n])
    from desimeter.detectspots import gaussian_convolve, fitcentroid, fitcentroid_gaussian, fitcentroid_barycenter
    ev = []
    s = float(rs.uniform(.7, 2.5))
    n0, n1 = [int(v) for v in rs.integers(25, 40, 2)]
    i, j = int(rs.integers(8, n0 - 8)), int(rs.integers(8, n1 - 8))
    im = np.zeros((n0, n1))
    im[i, j] = 1
    g = gaussian_convolve(im, s) if n % 3 else gaussian_convolve(im)
    k = np.unravel_index(np.argmax(g), g.shape)
    w = g[i - 8:i + 9, j - 8:j + 9]
    odd = max(np.abs(w - v).max() for v in (w.T, w[::-1], w[:, ::-1])) if w.shape == (17, 17) else 1.
    ev.append({'op': 'conv', 'sum': q(g.sum(), 1e6), 'off': [int(k[0] - i), int(k[1] - j)], 'odd': q(odd, 1e9), 'shape': g.shape == im.shape})
    h0, h1 = [int(v) for v in rs.integers(3, 7, 2)]
    if n % 2:
        h1 = h0
    x, y = rs.uniform(-.7, .7, 2)
    c = float(rs.uniform(500, 1e5))
    sg = 1. if n % 4 < 3 else float(rs.uniform(.8, 1.4))
    _, v = unit(2 * h0 + 1, 2 * h1 + 1, h1 + x, h0 + y, sg, 0)
    st = np.zeros((2 * h0 + 1, 2 * h1 + 1))
    sl, v = unit(2 * h0 + 1, 2 * h1 + 1, h1 + x, h0 + y, sg, 0)
    st[sl] = c * v
    r = fitcentroid_gaussian(st, sg) if sg != 1 else fitcentroid(st)
    ev.append({'op': 'stamp', 'dx': q(r[0] - x, 1000), 'dy': q(r[1] - y, 1000), 'dc': q(r[4] - c, 1), 'c': int(c), 'tol': 3, 'bary': False})
    h = 6
    st = np.zeros((2 * h + 1, 2 * h + 1))
    sl, v = unit(2 * h + 1, 2 * h + 1, h + x, h + y, 1., 0)
    st[sl] = c * v
    r = fitcentroid_barycenter(st)
    ev.append({'op': 'stamp', 'dx': q(r[0] - x, 1000), 'dy': q(r[1] - y, 1000), 'dc': q(r[4] - c, 1), 'c': int(c), 'tol': 3, 'bary': False})
    return ev


def run(ck):
    rng, th = ck.rng, ck.thorough
    cases = ck.model('SpotModel', workers=8, constants={'N': 13, 'M': 17} if th else None).cases()
    for f in ('strict', 'edge', 'twice'):
        ck.refuted('SpotModel', workers=4, constants={'Flaw': '"%s"' % f})
    N = (3000, 1500, 400, 12, 20, 2, 400, 6) if th else (500, 180, 40, 2, 2, 1, 60, 2)
    jobs = [('case', c) for c in rng.sample(cases, N[0])]
    for k, m in zip(('field', 'wide', 'crowd', 'large', 'many', 'line', 'most'), N[1:]):
        jobs += [(k, None)] * m
    jobs = sorted([(i, ck.seed, k, c) for i, (k, c) in enumerate(jobs)], key=lambda j: j[2] not in ('large', 'many', 'crowd', 'most'))
    with Pool(8, initializer=quiet) as pool:
        ev = [e for es in pool.imap(job, jobs, chunksize=4) for e in es]
        ev += [e for es in pool.map(small, [(i, ck.seed) for i in range(1500 if th else 150)], chunksize=20) for e in es]
    ck.cov['images'] = len(jobs)
    ck.cov['events'] = {k: sum(1 for e in ev if e['op'] == k) for k in sorted({e['op'] for e in ev})}
    ck.sample({'case': cases[0]})
    ck.judge('SpotTrace', ev, lambda e, c: (e['op'] + ' ' + c, e), chunk=8000)
    ck.assumptions = ['pixel values are finite', 'spots are 4.6 PSF widths or more apart', 'position accuracy is judged against the noise of the image (5 standard deviations)']
