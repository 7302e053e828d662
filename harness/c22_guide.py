"""C22: field models fitted on guide stars (spec/Guide.tla, GuideModel.tla, GuideTrace.tla)."""
import json, os, runpy, shutil, sys
import numpy as np
from multiprocessing import Pool
from common import BIN, q

BIG = 10 ** 8
PX = dict(ra=1e7, dec=1e7, sxx=1e7, syy=1e7, sxy=1e7, fieldrot_zp_deg=1e6, fieldrot_deg=1e6)


def quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    import warnings
    warnings.simplefilter('ignore')


def i9(x, scale):
    x = float(x) * scale
    return BIG if not np.isfinite(x) else int(np.clip(round(x), -BIG, BIG))


def wrap(d):
    return (np.asarray(d, float) + 180) % 360 - 180


class Sky:
    """a simulated exposure; the map from the instrument to the sky is the one of the
    documentation: optics, then rotation by zp and the symmetric scale matrix, then the pointing"""

    def __init__(s, rs, lst=None, program=False, big=False):
        from desimeter.time import mjd2lst
        s.ra = float(rs.choice([rs.uniform(0, 360), rs.uniform(-.6, .6) % 360]))
        s.dec = float(rs.uniform(-25, 82))
        s.mjd = 58800 + float(rs.uniform(0, 2500))
        s.lst = mjd2lst(s.mjd) if program else s.ra + float(rs.uniform(-60, 60))
        if program:
            s.ra = (s.lst + float(rs.uniform(-60, 60))) % 360
        s.hexrot = float(rs.uniform(-.3, .3))
        s.adc1, s.adc2 = [(0., 0.), (float(rs.uniform(0, 180)), float(rs.uniform(180, 360)))][int(rs.random() < .7)]
        s.zp = float(rs.uniform(-.6, .6)) if not big else float(rs.uniform(-2.5, 2.5))
        s.sc = [1 + float(rs.uniform(-1, 1)) * 1e-3, 1 + float(rs.uniform(-1, 1)) * 1e-3, float(rs.uniform(-1, 1)) * 5e-4]
        s.off = [float(rs.uniform(-40, 40)) / 3600 for _ in range(2)]
        s.opt = dict(precession=True, aberration=True, polar_misalignment=True)
        if not program and rs.random() < .3:
            s.opt = {k: bool(rs.random() < .5) for k in s.opt}

    def fp2sky(s, x, y):
        from desimeter.transform.tan2fp import fp2tan
        from desimeter.transform.radec2tan import tan2radec
        xt, yt = fp2tan(x, y, s.adc1, s.adc2)
        c, n = np.cos(np.radians(s.zp)), np.sin(np.radians(s.zp))
        u, v = c * xt - n * yt, n * xt + c * yt
        return tan2radec(s.sc[0] * u + s.sc[2] * v, s.sc[2] * u + s.sc[1] * v, s.ra, s.dec, mjd=s.mjd, lst_deg=s.lst, hexrot_deg=s.hexrot, **s.opt)

    def turn(s):
        """position angle of the sky, without precession and the like, in four directions of the focal plane"""
        from desimeter.transform.tan2fp import tan2fp
        phi = np.arange(4) * np.pi / 2
        x, y = tan2fp(np.append(0, np.radians(np.cos(phi))), np.append(0, np.radians(np.sin(phi))), s.adc1, s.adc2)
        ra, dec = [np.radians(a) for a in s.fp2sky(x, y)]
        d = ra[1:] - ra[0]
        # north up, hour angle (minus RA) to the right
        e = np.cos(dec[1:]) * np.sin(-d)
        n = np.cos(dec[0]) * np.sin(dec[1:]) - np.sin(dec[0]) * np.cos(dec[1:]) * np.cos(d)
        return [float(a) for a in wrap(np.degrees(phi - np.arctan2(n, e)))]

    def model(s, fm=None, exact=False):
        from desimeter.fieldmodel import FieldModel
        fm = fm or FieldModel()
        k = 0 if exact else 1
        fm.ra, fm.dec = s.ra + k * s.off[0] / np.cos(np.radians(s.dec)), s.dec + k * s.off[1]
        fm.mjd, fm.lst, fm.hexrot_deg, fm.adc1, fm.adc2 = s.mjd, s.lst, s.hexrot, s.adc1, s.adc2
        for a, b in s.opt.items():
            setattr(fm, a, b)
        return fm


def catalogue(s, rs, rows, pm, maxsep=2.):
    """a table with the rows asked for; the true positions of the stars; events' rows"""
    from astropy.table import Table
    from astropy.time import Time
    from desimeter.transform.gfa2fp import gfa2fp
    n = len(rows)
    cams = [0, 2, 3, 5, 7, 8, 1, 4, 6, 9]
    use = rs.permutation(cams)[:int(rs.integers(3, 11))]
    pet = np.array([use[i % len(use)] for i in range(n)])
    rs.shuffle(pet)
    x, y = rs.uniform(30, 2010, n), rs.uniform(30, 1000, n)
    xf, yf = np.zeros(n), np.zeros(n)
    for i in range(n):
        a, b = gfa2fp(int(pet[i]), np.array([x[i]]), np.array([y[i]]))
        xf[i], yf[i] = a[0], b[0]
    ra, dec = [np.array(a, float) for a in s.fp2sky(xf, yf)]
    ra %= 360
    R = []
    dx, dy = np.zeros(n), np.zeros(n)
    for i, r in enumerate(rows):
        sep = float(rs.uniform(0, .9 * maxsep)) if r['sep'] < 2000 else float(rs.choice([rs.uniform(1.02, 2) * maxsep, 30., 100.]))
        t = rs.uniform(0, 7)
        dx[i], dy[i] = sep * np.cos(t), sep * np.sin(t)
        R.append({'dx': i9(dx[i], 1e3), 'dy': i9(dy[i], 1e3), 'known': r['known'], 'cam': r['cam'], 'spot': r['spot']})
    # a star that is not the detected one stays where it is; the detection's own position is elsewhere
    tab = dict(id=np.arange(1, n + 1), xcentroid=x, ycentroid=y, petal_loc=pet, ra=(ra + dx / 3600 / np.cos(np.radians(dec))) % 360, dec=dec + dy / 3600, ra_gaia=ra.copy(), dec_gaia=dec.copy(), mjd_obs=np.full(n, s.mjd))
    for i, r in enumerate(rows):
        if r['sep'] >= 2000:
            # catalogue star of another place
            tab['ra'][i], tab['dec'][i] = ra[i], dec[i]
            tab['ra_gaia'][i] = (ra[i] - dx[i] / 3600 / np.cos(np.radians(dec[i]))) % 360
            tab['dec_gaia'][i] = dec[i] - dy[i] / 3600
    truth = [tab['ra_gaia'].copy(), tab['dec_gaia'].copy()]
    if pm:
        tab['pmra'], tab['pmdec'] = rs.normal(0, 60, n), rs.normal(0, 60, n)
        tab['ref_epoch'] = np.full(n, float(rs.choice([2015.5, 2016.])))
        dt = Time(s.mjd, format='mjd').jyear - tab['ref_epoch']
        for i, r in enumerate(rows):
            if r['pm'] == 'unknown':
                for k in [['pmra'], ['pmdec'], ['pmra', 'pmdec']][int(rs.integers(3))]:
                    tab[k][i] = np.nan
        a, b = np.nan_to_num(tab['pmra']), np.nan_to_num(tab['pmdec'])
        tab['dec_gaia'] = tab['dec_gaia'] - dt * b / 3600e3
        tab['ra_gaia'] = (tab['ra_gaia'] - dt * a / 3600e3 / np.cos(np.radians(tab['dec_gaia']))) % 360
    for i, r in enumerate(rows):
        if not r['known']:
            tab[str(rs.choice(['ra_gaia', 'dec_gaia', 'ra', 'dec']))][i] = np.nan
        if not r['cam']:
            tab['petal_loc'][i] = rs.choice([-1, 10, 99])
        if not r['spot']:
            tab[str(rs.choice(['xcentroid', 'ycentroid']))][i] = np.nan
    return Table(tab), truth, R, xf, yf


def outcome(fm, s, truth, xf, yf, kept):
    k = np.array([i - 1 for i in kept], int)
    ra, dec = fm.fp2radec(xf[k], yf[k])
    rx = wrap(ra - truth[0][k]) * np.cos(np.radians(truth[1][k])) * 3600e3
    ry = (dec - truth[1][k]) * 3600e3
    x, y = fm.radec2fp(truth[0][k], truth[1][k])
    res = [{'row': int(i) + 1, 'dx': i9(a, 1), 'dy': i9(b, 1)} for i, a, b in zip(k, rx, ry)]
    back = [{'row': int(i) + 1, 'dx': i9(a, 1e4), 'dy': i9(b, 1e4)} for i, a, b in zip(k, x - xf[k], y - yf[k])]
    return {'zp': i9(s.zp, 1e3), 'nstars': int(fm.nstars), 'res': res, 'back': back, 'rot': i9(fm.fieldrot_deg, 1e6), 'turn': [i9(a, 1e6) for a in s.turn()], 'rms': i9(fm.rms_arcsec, 1e3),
            'scales': [i9(fm.sxx - s.sc[0], 1e7), i9(fm.syy - s.sc[1], 1e7), i9(fm.sxy - s.sc[2], 1e7), i9(wrap(fm.fieldrot_zp_deg - s.zp), 1e6) // 3]}


def vector(fm, s):
    return [i9(wrap(fm.ra - s.ra) if k == 'ra' else fm.dec - s.dec if k == 'dec' else wrap(getattr(fm, k)) if 'rot' in k else getattr(fm, k) - (0 if k == 'sxy' else 1), v) for k, v in PX.items()] + [int(fm.nstars)]


def write(t, path, rs):
    t.write(path, overwrite=True)
    if path.endswith('.csv') and rs.random() < .5:
        text = open(path).read().replace('nan', '')
        open(path, 'w').write(text)


def expand(rows, n, rs):
    """the kinds of a case, with good rows added up to n, in any order"""
    good = dict(sep=10, known=True, pm='known', cam=True, spot=True)
    rows = list(rows) + [good] * max(0, n - len(rows))
    return [rows[i] for i in rs.permutation(len(rows))]


def sim(job):
    n, rows, size, seed, work, prog = job
    rs = np.random.default_rng([seed, n])
    import desimeter.log
    desimeter.log.get_logger().setLevel('CRITICAL')
    from desimeter.fieldmodel import FieldModel
    from astropy.table import Table
    s = Sky(rs, program=prog, big=(not prog and rs.random() < .15))
    rows = expand(rows, size, rs)
    pm = bool(rs.random() < .5)
    maxsep = 2. if prog or rs.random() < .7 else float(rs.choice([.5, 5.]))
    t, truth, R, xf, yf = catalogue(s, rs, rows, pm, maxsep)
    path = os.path.join(work, 'g%d.%s' % (n, rs.choice(['fits', 'csv'])))
    write(t, path, rs)
    ev = []
    if prog:
        return program(n, s, rs, path, R, truth, xf, yf, t, work)
    fm = s.model()
    e = {'op': 'read', 'R': R, 'maxsep': int(round(1e3 * maxsep)), 'kept': [], 'at': [], 'rc': 'zero'}
    ev.append(e)
    try:
        c = fm.read_guide_stars_catalog(path, max_sep_arcsec=maxsep) if maxsep != 2 else fm.read_guide_stars_catalog(path)
    except RuntimeError:
        e['rc'] = 'error'
        return ev
    finally:
        os.remove(path)
    e['kept'] = [int(i) for i in c['id']]
    p = 'ra_gaia_with_pm' if 'ra_gaia_with_pm' in c.colnames else 'ra_gaia'
    for r in c:
        i = int(r['id']) - 1
        e['at'].append({'row': i + 1, 'dx': i9(float(wrap(r[p] - truth[0][i])) * np.cos(np.radians(truth[1][i])), 3600e3), 'dy': i9(r[p.replace('ra', 'dec', 1)] - truth[1][i], 3600e3)})
    good = [i for i in e['kept'] if R[i - 1]['cam'] and R[i - 1]['spot'] and R[i - 1]['known']]
    if len(good) < 5 or len(set(int(t['petal_loc'][i - 1]) for i in good)) < 3:
        return ev
    f = {'op': 'fit', 'R': R, 'kept': e['kept'], 'rc': 'zero', 'zp': 0, 'nstars': 0, 'res': [], 'back': [], 'rot': 0, 'turn': [0] * 4, 'scales': [], 'rms': 0}
    ev.append(f)
    # the reader may have kept rows that should not be there: that is reported above
    try:
        fm.fit_tancorr(c)
        f.update(outcome(fm, s, truth, xf, yf, e['kept']))
    except Exception as x:
        f['rc'], f['note'] = 'error', repr(x)[:200]
        return ev
    first = vector(fm, s)

    def same(how, other, tol=20):
        ev.append({'op': 'same', 'how': how, 'a': first, 'b': vector(other, s), 'tol': tol})
    # other order, on a fresh object, after another fit in the same process
    o = Sky(rs)
    oc, _, oR, _, _ = catalogue(o, rs, expand([], 8, rs), False)
    om = o.model()
    om.fit_tancorr(oc)
    g = s.model()
    g.mjd = fm.mjd
    g.fit_tancorr(c[rs.permutation(len(c))])
    same('order', g)
    # only the good rows
    g = s.model()
    g.fit_tancorr(c[[i for i, r in enumerate(c) if int(r['id']) in good]])
    same('bad-rows', g)
    # arguments in place of attributes, object used before for other stars
    om.ra, om.dec, om.adc1, om.adc2 = s.model().ra, s.model().dec, s.adc1, s.adc2
    for a, b in s.opt.items():
        setattr(om, a, b)
    om.fit_tancorr(c, mjd=s.mjd, hexrot_deg=s.hexrot, lst=s.lst)
    same('earlier-fits', om)
    # once more from the fitted pointing (the iterations of a fit leave a little)
    fm.fit_tancorr(c)
    f2 = dict(f)
    f2.update(outcome(fm, s, truth, xf, yf, e['kept']))
    ev.append(f2)
    # saved and read again
    h = FieldModel.fromjson(fm.tojson())
    first = vector(fm, s)
    same('file', h, 0)
    return ev


def program(n, s, rs, path, R, truth, xf, yf, t, work):
    import fitsio
    from desimeter.fieldmodel import FieldModel
    d = os.path.join(work, 'p%d' % n)
    os.makedirs(d)
    kept = [i + 1 for i, r in enumerate(R) if r['known'] and r['dx'] ** 2 + r['dy'] ** 2 < 1960 ** 2]
    good = [i for i in kept if R[i - 1]['cam'] and R[i - 1]['spot']]
    m = s.model()
    hdr = {'TARGTRA': m.ra % 360, 'TARGTDEC': m.dec, 'EXPID': int(rs.integers(1, 99999)), 'FOCUS': ','.join('%.6f' % v for v in [0, 0, -150., 1., 2., s.hexrot * 3600]), 'ADC1PHI': s.adc1, 'ADC2PHI': s.adc2}
    keys = ['MJD-OBS', 'TCSMJD']
    hdr[keys[int(rs.integers(2))]] = s.mjd
    refuse = rs.random() < .15
    if refuse:
        del hdr['TARGTRA']
    f = os.path.join(d, 'h.fits')
    ext = rs.random() < .5
    fits = fitsio.FITS(f, 'rw', clobber=True)
    fits.write(np.zeros((2, 2)), header={'A': 1} if ext else hdr)
    fits.write(np.zeros((2, 2)), header=hdr if ext else {'A': 1})
    fits.close()
    out = os.path.join(d, 'sub' if rs.random() < .4 else '', 'o.json')
    args = ['-i', path, '-o', out, '--fits-header', f] + (['--make-directory'] if os.path.basename(os.path.dirname(out)) == 'sub' else [])
    e = {'op': 'refuse' if refuse else 'prog', 'R': R, 'kept': kept, 'rc': 'zero', 'zp': 0, 'nstars': 0, 'res': [], 'back': [], 'rot': 0, 'turn': [0] * 4, 'scales': [], 'rms': 0, 'meta': [], 'want': [hdr['EXPID'], i9(s.hexrot, 1e6), i9(s.adc1, 1e4), i9(s.adc2, 1e4)]}
    argv = sys.argv
    sys.argv = ['x'] + args
    try:
        runpy.run_path(os.path.join(BIN, 'desi_fit_guide_star_coordinates'), run_name='__main__')
    except SystemExit as x:
        e['rc'] = 'zero' if x.code in (0, None) else 'error'
    except Exception as x:
        e['rc'], e['note'] = 'error', repr(x)[:200]
    finally:
        sys.argv = argv
    e['file'] = os.path.exists(out)
    enough = len(good) >= 5 and len(set(int(t['petal_loc'][i - 1]) for i in good)) >= 3
    if e['rc'] == 'zero' and not refuse and e['file']:
        fm = FieldModel.fromjson(open(out).read())
        e.update(outcome(fm, s, truth, xf, yf, kept))
        e['meta'] = [int(fm.expid), i9(fm.hexrot_deg, 1e6), i9(fm.adc1, 1e4), i9(fm.adc2, 1e4)]
    shutil.rmtree(d)
    os.remove(path)
    return [e] if enough or refuse else []


def plane(job):
    """the plane correction by itself: offsets, rotations, scales"""
    n, seed = job
    rs = np.random.default_rng([seed, 77, n])
    import desimeter.log
    desimeter.log.get_logger().setLevel('CRITICAL')
    from desimeter.fieldmodel import TanCorr
    m = int(rs.integers(3, 30))
    x, y = rs.uniform(-.028, .028, (2, m))
    if rs.random() < .5:
        x += .02
    truth = TanCorr()
    c = TanCorr()
    tol = 30
    truth.dha, truth.ddec = rs.uniform(-60, 60, 2) / 3600
    a = float(rs.choice([rs.uniform(-1, 1), rs.uniform(-4, 4)]))
    sc = [1 + rs.uniform(-1, 1) * .002, 1 + rs.uniform(-1, 1) * .002, rs.uniform(-1, 1) * .001]
    # offset as seen at the centre: the plane moves against the telescope
    dx, dy = -np.radians(truth.dha), -np.radians(truth.ddec)
    u, v = np.cos(np.radians(a)) * (x + dx) - np.sin(np.radians(a)) * (y + dy), np.sin(np.radians(a)) * (x + dx) + np.cos(np.radians(a)) * (y + dy)
    x2, y2 = sc[0] * u + sc[2] * v, sc[2] * u + sc[1] * v
    if n % 3 == 0:
        c.fit(y, x, x2, y2)     # used before
    c.fit(x, y, x2, y2)
    x3, y3 = c.apply(x, y)
    k = 3600e3 * 180 / np.pi
    ev = [{'op': 'corr', 'res': [i9(v, k) for v in np.append(x3 - x2, y3 - y2)], 'tol': 800}]
    # there and back
    c.dha = c.ddec = 0.
    xb, yb = c.apply_inverse(*c.apply(x, y))
    ev.append({'op': 'corr', 'res': [i9(v, 100 * k) for v in np.append(xb - x, yb - y)], 'tol': 10})
    return ev


def run(ck):
    rng, th = ck.rng, ck.thorough
    cases = ck.model('GuideModel', workers=8, constants={'NRows': 5 if th else 4}).cases()
    ck.refuted('GuideModel', workers=4, constants={'WrongOrder': 'TRUE'})
    ck.refuted('GuideModel', workers=4, constants={'KeepBad': 'TRUE'})
    jobs = []
    for c in rng.sample(cases, min(len(cases), 1296 if th else 170)):
        jobs.append((len(jobs), c, rng.choice([4, 8, 8, 14, 30]), ck.seed, ck.work, False))
    for c in rng.sample(cases, min(len(cases), 400 if th else 60)):
        jobs.append((len(jobs), c, rng.choice([9, 14, 30]), ck.seed, ck.work, True))
    with Pool(7, initializer=quiet) as pool:
        a = pool.map_async(sim, jobs, chunksize=1)
        b = pool.map(plane, [(i, ck.seed) for i in range(3000 if th else 300)], chunksize=10)
        ev = [e for es in a.get() for e in es] + [e for es in b for e in es]
    # sidereal time against the standard models
    from astropy.time import Time
    from desimeter.time import mjd2lst
    mjd = np.array([58000 + rng.uniform(0, 4000) for _ in range(60)])
    t = Time(mjd, format='mjd', scale='ut1')
    ref = t.sidereal_time('mean', longitude=-111.59989, model='IAU1982').deg
    ev.append({'op': 'lst', 'd': [i9(v, 1e4) for v in wrap(mjd2lst(mjd) - ref)], 'tol': 2500})
    d = np.array([rng.uniform(0, 2000) for _ in range(60)])
    ev.append({'op': 'lst', 'd': [i9(v, 1e4) for v in wrap((mjd2lst(mjd + d) - mjd2lst(mjd)) - 360.98564736629 * d)], 'tol': 20})
    ck.cov['runs'] = {k: sum(1 for e in ev if e['op'] == k) for k in sorted({e['op'] for e in ev})}
    ck.sample({'rows': ev[0]['R'], 'kept': ev[0]['kept']})
    ck.judge('GuideTrace', ev, lambda e, c: (e['op'] + ' ' + c, e), chunk=80)
    ck.assumptions = ['at least five usable stars on three cameras', 'pointing within 60 arcsec, rotation of the field within 2.5 degrees', 'the modified Julian date is given for every row']
