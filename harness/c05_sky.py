"""C05: sky and focal plane (spec/SkyGraph.tla, SkyTrace.tla)."""
import logging
import numpy as np
from common import q as proj
from frames import call

D = np.pi / 180
LAT, OBL = 31.96403, 23.439279444444445
LONLAT = {'sky', 's1', 's2', 'h1', 'h2', 'h3', 'ecl'}
ALTAZ = {'a1', 'a2'}
TAN = {'t1', 'tan', 'tanc'}
# accuracy of one transform, 1e-9 rad
COST = {'unaberrate': 90, 'tan2radec': 110, 'fp2radec': 110, 'polmis': 9, 'unpolmis': 9, 'unrefract': 5, 'radec2tan': 9,
        'radec2fp': 12, 'flat2ptl': 60, 'ptl2flat': 60, 'fa_cs5': 150, 'fa_cs5_inv': 150, 'fa_flat': 200, 'fa_flat_inv': 200,
        'cs5_ptl2flat': 60, 'cs5_flat2ptl': 60, 'precess': 3, 'unprecess': 3}


def vec(lon, lat):
    lon, lat = np.asarray(lon) * D, np.asarray(lat) * D
    return np.array([np.cos(lon) * np.cos(lat), np.sin(lon) * np.cos(lat), np.sin(lat)])


def rotx(v, a):
    c, s = np.cos(a * D), np.sin(a * D)
    return np.array([v[0], c * v[1] - s * v[2], s * v[1] + c * v[2]])


def roty(v, a):
    c, s = np.cos(a * D), np.sin(a * D)
    return np.array([c * v[0] + s * v[2], v[1], -s * v[0] + c * v[2]])


def show(s, comps):
    """value of a batch in system s: integers' floats, one row per component"""
    if s in LONLAT:
        return vec(comps[0], comps[1]) * 1e9
    if s in ALTAZ:
        return vec(comps[1], comps[0]) * 1e9
    if s in TAN:
        return np.array([comps[0], comps[1]]) * 1e9
    return np.array([comps[0], comps[1]]) * 1e6


class Ctx:
    def __init__(self, rng, T, FieldModel, k):
        self.T = T
        while True:
            self.ra, self.dec, self.lst = rng.choice([rng.uniform(0, 360), rng.choice([0.3, 359.8, 180.])]), rng.uniform(-25, 78), rng.uniform(0, 360)
            if rng.random() < .3:
                self.lst = (self.ra + rng.uniform(-40, 40)) % 360
            v = roty(vec(self.lst - self.ra, self.dec), LAT - 90)
            alt = np.arcsin(v[2]) / D
            if 28 < alt < 88.2:
                break
        self.mjd = rng.uniform(58484, 62502)
        self.hexrot = rng.choice([0., rng.uniform(-1, 1), rng.uniform(-180, 180)])
        self.pr, self.ab, self.po = [rng.random() < .75 for _ in range(3)]
        self.astropy = k % 6 == 5
        self.hard = rng.random() < .4
        self.kw = dict(precession=self.pr, aberration=self.ab, polar_misalignment=self.po, use_astropy=self.astropy,
                       use_hardcoded_polmis_rotmat=self.hard)
        self.targs = dict(tel_ra=self.ra, tel_dec=self.dec, mjd=self.mjd, lst_deg=self.lst, hexrot_deg=self.hexrot)
        fm = FieldModel()
        fm.ra, fm.dec, fm.mjd, fm.lst, fm.hexrot_deg = self.ra, self.dec, self.mjd, self.lst, self.hexrot
        fm.adc1, fm.adc2 = rng.choice([(0., 0.), (rng.uniform(0, 360), rng.uniform(0, 360)), (rng.uniform(-180, 180),) * 2])
        fm.sxx, fm.syy, fm.sxy = 1 + rng.uniform(-.01, .01), 1 + rng.uniform(-.01, .01), rng.uniform(-.01, .01)
        fm.fieldrot_zp_deg = rng.choice([0., rng.uniform(-1, 1), rng.uniform(-180, 180)])
        fm.precession, fm.aberration, fm.polar_misalignment = self.pr, self.ab, self.po
        self.fm = fm
        self.frot = rng.uniform(-.3, .3)
        adc = rng.choice([(None, None), (rng.uniform(0, 360), rng.uniform(0, 360))])
        self.fa = dict(adc1=adc[0], adc2=adc[1], use_hardcoded_polmis_rotmat=self.hard)
        self.pm = rng.random() < .5

    def mat(self, inv):
        T = self.T
        if self.hard:
            return T.get_hardcoded_polmis_rotmat(inverse=inv)
        sg = -1 if inv else 1
        return T.compute_polar_misalignment_rotation_matrix(me_arcsec=sg * T.ME_ARCSEC, ma_arcsec=sg * T.MA_ARCSEC)

    def down(self, name, a, b):
        """elementary transforms sky -> h3 (used for stars and the pointing)"""
        T = self.T
        if name == 'precess':
            return T.apply_precession_from_icrs(a, b, self.mjd, self.astropy) if self.pr else (a, b)
        if name == 'aberrate':
            return T.apply_aberration(a, b, self.mjd, self.astropy) if self.ab else (a, b)
        if name == 'ra2ha':
            return self.lst - a, b
        if name == 'polmis':
            return T.getLONLAT(self.mat(False).dot(T.getXYZ(a, b))) if self.po else (a, b)
        if name == 'hadec2altaz':
            return T.hadec2altaz(a, b)
        if name == 'refract':
            return T.apply_refraction(a), b
        if name == 'altaz2hadec':
            return T.altaz2hadec(a, b)

    def run(self, name, a, b):
        T = self.T
        r = self.down(name, a, b)
        if r is not None:
            return r
        if name == 'unprecess':
            return T.undo_precession_from_icrs(a, b, self.mjd, self.astropy) if self.pr else (a, b)
        if name == 'unaberrate':
            return T.undo_aberration(a, b, self.mjd, self.astropy) if self.ab else (a, b)
        if name == 'ha2ra':
            return self.lst - a, b
        if name == 'unpolmis':
            return T.getLONLAT(self.mat(True).dot(T.getXYZ(a, b))) if self.po else (a, b)
        if name == 'altaz2hadec1':
            return T.altaz2hadec(a, b)
        if name == 'unrefract':
            return T.undo_refraction(a), b
        if name == 'hadec2altaz2':
            return T.hadec2altaz(a, b)
        if name == 'hadec2xy':
            return T.hadec2xy(a, b, *self.tel_h3)
        if name == 'xy2hadec':
            return T.xy2hadec(a, b, *self.tel_h3)
        if name in ('hexrot', 'unhexrot'):
            h = self.hexrot if name == 'hexrot' else -self.hexrot
            s, c = np.sin(h * D), np.cos(h * D)
            return c * a - s * b, s * a + c * b
        if name == 'sky2inst':
            return self.fm.tancorr_sky2inst(a, b)
        if name == 'inst2sky':
            return self.fm.tancorr_inst2sky(a, b)
        if name == 'radec2eclip':
            return T.radec2eclip(a, b)
        if name == 'eclip2radec':
            return T.eclip2radec(a, b)
        if name == 'radec2tan':
            return T.radec2tan(a, b, **self.targs, **self.kw)
        if name == 'tan2radec':
            return T.tan2radec(a, b, **self.targs, **self.kw)
        if name == 'radec2fp':
            return self.fm.radec2fp(a, b)
        if name == 'fp2radec':
            return self.fm.fp2radec(a, b)
        raise KeyError(name)


def sidereal(ck):
    """the sidereal time of dates (spec/Sidereal.tla)"""
    from desimeter.time import mjd2lst
    E = []

    def event(d, f, get):
        try:
            lst = float(get())
            E.append(dict(d=d, f=f, rc='ok', lst=int(round(lst * 1000)) if np.isfinite(lst) and abs(lst) < 1e5 else 900000000))
        except Exception as exc:
            E.append(dict(d=d, f=f, rc=type(exc).__name__, lst=0))
    for k in range(4000 if ck.thorough else 500):
        D0, F0 = [ck.rng.randint(-700, 5500) for _ in range(3)], [ck.rng.randrange(100000) for _ in range(3)]
        mjd = [58789.135177 + d + f / 1e5 for d, f in zip(D0, F0)]
        if k % 3:
            event(D0[0], F0[0], lambda: mjd2lst(mjd[0]))
        else:
            try:
                a = mjd2lst(np.array(mjd))
            except Exception:
                a = [None] * 3
            for d, f, v in zip(D0, F0, a):
                event(d, f, lambda: v)
    ck.judge('Sidereal', E, lambda e, c: (c + ':mjd2lst', {'event': e}))


def run(ck):
    from desimeter.transform import radec2tan as T
    from desimeter.transform.tan2fp import tan2fp, fp2tan
    from desimeter.transform.pos2ptl import ptl2flat, flat2ptl
    from desimeter.fieldmodel import FieldModel
    from desimeter import fiberassign as FA
    import desimeter.log
    desimeter.log.get_logger().setLevel(logging.ERROR)
    rng = ck.rng
    sidereal(ck)
    walks = [(w['start'], w['w']) for w in ck.model('SkyGraph', workers=4).cases()]
    runs = []
    nctx = 60 if ck.thorough else 10
    ARRAY_ONLY = {'tan2fp', 'fp2tan', 'radec2fp', 'fp2radec', 'ptl2flat', 'flat2ptl', 'fa_cs5', 'fa_cs5_inv', 'fa_flat', 'fa_flat_inv',
                  'cs5_ptl2flat', 'cs5_flat2ptl'}
    for k in range(nctx):
        cx = Ctx(rng, T, FieldModel, k)
        mine = walks[:]
        if cx.astropy:
            mine = [w for w in mine if not {n for n, _ in w[1]} & {'radec2fp', 'fp2radec'}]
            mine = rng.sample(mine, 60)
        tel = (cx.ra, cx.dec)
        for nm in ('precess', 'aberrate', 'ra2ha', 'polmis', 'hadec2altaz', 'refract', 'altaz2hadec'):
            tel = cx.down(nm, *tel)
        cx.tel_h3 = tel
        for start, w in mine:
            names = {n for n, _ in w}
            fa = {n for n in names if n.startswith(('fa_', 'cs5_'))}
            if fa and rng.random() < .5 and not ck.thorough:
                continue
            n = 3 if not fa else 6
            # directions around the pointing, the pointing itself last
            # (0.12 deg ~ 29 mm: the curved surface polynomials start at 25 mm)
            th, ph = np.array([rng.uniform(.14, 1.5) for _ in range(n)]), np.array([rng.uniform(0, 360) for _ in range(n)])
            v = vec(ph, 90 - th)
            v = roty(v, 90 - cx.dec)
            ra = cx.ra + np.arctan2(v[1], v[0]) / D
            dec = np.arcsin(v[2]) / D
            ctr = not {'ptl2flat', 'flat2ptl', 'cs5_ptl2flat', 'cs5_flat2ptl', 'fa_flat', 'fa_flat_inv'} & names
            if ctr:
                ra, dec = np.append(ra, cx.ra), np.append(dec, cx.dec)
            ra = ra + 360. * np.array([rng.choice([0, 0, 1, -1]) for _ in ra])
            cur = [ra, dec]
            try:
                for nm in {'sky': [], 'h1': ['precess', 'aberrate', 'ra2ha'],
                           'a1': ['precess', 'aberrate', 'ra2ha', 'polmis', 'hadec2altaz'],
                           'tan': ['radec2tan']}[start]:
                    cur = list(cx.run(nm, *cur))
            except Exception as exc:
                runs.append([{'op': 'start', 'sys': start, 'v': [0]}, {'op': 'step', 'e': nm, 'exc': type(exc).__name__, 'msg': str(exc)[:80], 'kind': 'array'}])
                continue
            m = len(ra)
            sh = show(start, cur)
            ev = [[{'op': 'start', 'sys': start, 'v': [proj(x, 1) for x in sh[:, i]]}] for i in range(m)]
            tol = 6 + (12 if cx.hard else 0) + (30 if cx.astropy else 0)
            sysname = start
            for name, dest in w:
                tol += COST.get(name, 1)
                kind = 'array' if name in ARRAY_ONLY or rng.random() < .5 else 'scalar'
                if name == 'unrefract' or name == 'refract':
                    kind = rng.choice(['array', 'scalar'])
                want = None
                wtol = 4
                rot = None
                if sysname in LONLAT and rng.random() < .5:
                    cur[0] = cur[0] + 360. * np.array([rng.choice([0, 1, -1]) for _ in cur[0]])
                a0, b0 = cur
                try:
                    if name in ('tan2fp', 'fp2tan'):
                        fn = tan2fp if name == 'tan2fp' else fp2tan
                        out, pure = call(lambda x, y: fn(x, y, cx.fm.adc1, cx.fm.adc2), cur, {}, kind)
                    elif name in ('ptl2flat', 'cs5_ptl2flat'):
                        out, pure = call(ptl2flat, cur, {}, kind)
                    elif name in ('flat2ptl', 'cs5_flat2ptl'):
                        out, pure = call(flat2ptl, cur, {}, kind)
                    elif name.startswith('fa_'):
                        fn = {'fa_cs5': FA.fiberassign_radec2xy_cs5, 'fa_cs5_inv': FA.fiberassign_cs5_xy2radec,
                              'fa_flat': FA.fiberassign_radec2xy_flat, 'fa_flat_inv': FA.fiberassign_flat_xy2radec}[name]
                        kw = dict(cx.fa)
                        kw['from_platemaker' if name.endswith('_inv') else 'to_platemaker'] = cx.pm
                        out, pure = call(lambda x, y: fn(x, y, cx.ra, cx.dec, cx.mjd, cx.lst - cx.ra, cx.frot, **kw), cur, {}, kind)
                        if name == 'fa_cs5':
                            # the rotation of the field realised by this plan
                            h = -(a0 - cx.ra)
                            x2, y2 = np.cos(b0 * D) * np.sin(h * D), np.sin(b0 * D) * np.cos(cx.dec * D) - np.cos(b0 * D) * np.sin(cx.dec * D) * np.cos(h * D)
                            # tangent coordinates increase with hour angle, to the north
                            ok = np.hypot(*out) > 10
                            an = np.arctan2(x2 * out[1] - y2 * out[0], x2 * out[0] + y2 * out[1])[ok]
                            rot = [proj(-np.mean(np.sin(-an)) / D, 1e6), proj(cx.frot, 1e6)]
                    else:
                        out, pure = call(lambda x, y: cx.run(name, x, y), cur, {}, kind)
                    if name in ('hadec2altaz', 'hadec2altaz2'):
                        u = vec(a0, b0)
                        u = roty(u, LAT - 90)       # x: towards the south, z: zenith, y: towards the west
                        want = np.array([-u[0], -u[1], u[2]])
                    elif name == 'refract':
                        want = vec(b0, a0 + 79. / 3600 * np.tan(30 * D) / np.tan(a0 * D))
                    elif name == 'hadec2xy':
                        h, (th0, td0) = a0, cx.tel_h3
                        want = np.array([np.cos(b0 * D) * np.sin((h - th0) * D),
                                         np.sin(b0 * D) * np.cos(td0 * D) - np.cos(b0 * D) * np.sin(td0 * D) * np.cos((h - th0) * D)])
                    elif name == 'radec2eclip':
                        want = rotx(vec(a0, b0), -OBL)
                    elif name in ('precess', 'aberrate') and not cx.astropy and rng.random() < .05 and (cx.pr if name == 'precess' else cx.ab):
                        # the astropy flavour of the same correction agrees to 1.1 arcsec
                        want = vec(*(T.apply_precession_from_icrs if name == 'precess' else T.apply_aberration)(a0, b0, cx.mjd, use_astropy=True))
                        wtol = 9000 if name == 'precess' else 4500
                except Exception as exc:
                    for i in range(m):
                        ev[i].append({'op': 'step', 'e': name, 'exc': type(exc).__name__, 'msg': str(exc)[:80], 'kind': kind})
                    break
                cur = [np.array(c, float) for c in out]
                sh = show(dest, cur)
                scale = 1 if (dest in LONLAT or dest in ALTAZ or dest in TAN) else 16
                for i in range(m):
                    vv = [proj(x, 1) for x in sh[:, i]]
                    e = {'op': 'step', 'e': name, 'sys': dest, 'v': vv, 'tol': [2 * tol * scale] * len(vv), 'mod': [0] * len(vv), 'pure': pure, 'kind': kind}
                    if want is not None:
                        e['want'] = [proj(x, 1e9) for x in want[:, i]]
                        e['wtol'] = wtol
                    if rot and i == 0:
                        e['rot'] = rot
                    if ctr and i == m - 1:
                        if dest in TAN:
                            e['centre'] = 2 * tol
                        elif dest == 'cs5':
                            e['centre'] = (14000 if cx.pm else 12) + 32 * max(0, tol - 180)
                    ev[i].append(e)
                sysname = dest
            runs += ev
    # the pole of the mount goes to the pole of the sky
    for me, ma in [(T.ME_ARCSEC, T.MA_ARCSEC)] + [(rng.uniform(-300, 300), rng.uniform(-300, 300)) for _ in range(30)]:
        R = T.compute_polar_misalignment_rotation_matrix(me_arcsec=me, ma_arcsec=ma)
        h, d = T.altaz2hadec(LAT - me / 3600, ma / 3600)
        got = R.dot(vec(h, d))
        runs.append([{'op': 'start', 'sys': 'm', 'v': [0]},
                     {'op': 'step', 'e': 'polmis_matrix', 'sys': 'p', 'v': [proj(x, 1e9) for x in got], 'tol': [0] * 3, 'mod': [0] * 3,
                      'want': [0, 0, 1000000000], 'wtol': 12, 'pure': True}])
    ck.cov['walks'] = len(walks)
    ck.cov['pointings'] = nctx
    ck.sample(runs[0])
    ck.judge_runs('SkyTrace', runs, lambda e, c, rn: ('%s:%s' % (c, e.get('e')), {'event': e, 'run': rn[-6:]}))
    ck.assumptions = ['altitudes 28 to 88 deg, declinations -25 to 80 deg, dates 2019-2030; 2 arcsec/100 accuracy claimed for the inverse of the aberration']
