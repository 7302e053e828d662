"""C12: the catalogue of public calls.  An entry is made(rs, work) -> (function, positional
arguments, keyword arguments[, indices or names of the arguments that the call is there to change]).
Families: functions that may share something."""
import os
import numpy as np

CAT = {}          # name -> (family, maker, tolerance)
BAD = {}          # family -> list of makers of calls that fail


def entry(family, tol=50):
    def deco(f):
        CAT[f.__name__] = (family, f, tol)
        return f
    return deco


def bad(family):
    def deco(f):
        BAD.setdefault(family, []).append(f)
        return f
    return deco


def xy(rs, n=None, r=400.):
    n = n or int(rs.integers(1, 9))
    a, d = rs.uniform(0, 2 * np.pi, n), r * np.sqrt(rs.uniform(.02, 1, n))
    return d * np.cos(a), d * np.sin(a)


OBJ = {}
NEAR = None       # generator of small changes, when a call like an earlier one is wanted


def nearby(args, kw, rs):
    """the same call with one argument a little different"""
    from astropy.table import Table
    num = lambda v: isinstance(v, (float, np.floating)) or isinstance(v, np.ndarray) and v.dtype.kind == 'f' or isinstance(v, list) and len(v) and all(isinstance(x, (float, np.floating)) for x in v) \
        or isinstance(v, Table) and any(v[c].dtype.kind == 'f' for c in v.colnames)
    k = [(args, i) for i in range(len(args)) if num(args[i])] + [(kw, i) for i in kw if num(kw[i])]
    if not k:
        return
    o, i = k[int(rs.integers(len(k)))]
    step = float(rs.choice([1e-7, 1e-5, 1e-3, .02]))
    v = o[i]
    if isinstance(v, Table):
        c = [c for c in v.colnames if v[c].dtype.kind == 'f']
        c = c[int(rs.integers(len(c)))]
        v[c] = v[c] + 1e-3 * rs.uniform(-1, 1, len(v))
    elif isinstance(v, list):
        o[i] = [x + step * (1 + abs(x)) * .1 for x in v]
    else:
        o[i] = v + step * (1 + np.abs(v)) * .1


def shared(key, make):
    """an object that lives as long as the process and is used by all calls that ask for it"""
    if key not in OBJ:
        OBJ[key] = make()
    return OBJ[key]


def simple(family, modname, fname, make, tol=50, name=None):
    def maker(rs, work):
        import importlib
        m = importlib.import_module('desimeter.' + modname)
        a = make(rs)
        a, k = a if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], dict) and isinstance(a[0], (tuple, list)) else (a, {})
        return (getattr(m, fname), list(a), k)
    CAT[name or modname.split('.')[-1] + '.' + fname] = (family, maker, tol)


# ------------------------------------------------------------------ petals, cameras, optics
P = 'transform.ptl2fp'
simple('petal', P, 'ptl2fp', lambda rs: (int(rs.integers(10)), *xy(rs)))
simple('petal', P, 'ptl2fp', lambda rs: (int(rs.integers(10)), *[np.array(v) for v in zip(*rs.uniform(50, 300, (4, 3)))]), name='ptl2fp.ptl2fp/z')
simple('petal', P, 'fp2ptl', lambda rs: (int(rs.integers(10)), *xy(rs)))
simple('petal', P, 'fp2ptl', lambda rs: (int(rs.integers(10)), *[np.array(v) for v in zip(*rs.uniform(50, 300, (4, 3)))]), name='ptl2fp.fp2ptl/z')
simple('petal', P, 'Rxyz', lambda rs: tuple(rs.uniform(-3, 3, 3)))


@entry('petal')
def apply_ptl2fp(rs, work):
    from astropy.table import Table
    from desimeter.transform.ptl2fp import apply_ptl2fp as f
    n = int(rs.integers(1, 30))
    t = Table(dict(PETAL_LOC=rs.integers(0, 10, n), X_PTL=rs.uniform(20, 400, n), Y_PTL=rs.uniform(-80, 80, n), Z_PTL=rs.uniform(-20, 0, n), MARK=np.arange(n)))
    return f, [t], {}, {0: ['X_FP', 'Y_FP', 'Z_FP']}


@bad('petal')
def no_petal(rs, work):
    from desimeter.transform import ptl2fp as m
    return (m.ptl2fp if rs.random() < .5 else m.fp2ptl), [int(rs.choice([-1, 10, 99])), *xy(rs)], {}


@bad('petal')
def no_petal_in_table(rs, work):
    from astropy.table import Table
    from desimeter.transform.ptl2fp import apply_ptl2fp as f
    t = Table(dict(PETAL_LOC=[1, 12], X_PTL=[100., 120.], Y_PTL=[0., 5.], Z_PTL=[-4., -4.]))
    return f, [t], {}, {0: ['X_FP', 'Y_FP', 'Z_FP']}


G = 'transform.gfa2fp'
simple('camera', G, 'gfa2fp', lambda rs: (int(rs.integers(10)), rs.uniform(0, 2048, 5), rs.uniform(0, 1032, 5)))
simple('camera', G, 'fp2gfa', lambda rs: (int(rs.integers(10)), *xy(rs)))


@entry('camera')
def fit_gfa2fp(rs, work):
    from desimeter.transform.gfa2fp import fit_gfa2fp as f
    from desimeter.io import load_metrology
    m = load_metrology()
    m['X_FP'] += rs.normal(0, .01)
    if rs.random() < .5:
        m = m[rs.permutation(len(m))]
    return f, [m], {}


@entry('camera')
def all_gfa2fp(rs, work):
    from desimeter.fieldmodel import FieldModel
    n = int(rs.integers(2, 12))
    return FieldModel().all_gfa2fp, [rs.uniform(0, 2048, n), rs.uniform(0, 1032, n), rs.integers(0, 10, n)], {}


@bad('camera')
def no_camera(rs, work):
    from desimeter.transform import gfa2fp as m
    return (m.gfa2fp if rs.random() < .5 else m.fp2gfa), [int(rs.choice([-1, 10, 99])), *xy(rs)], {}


R = 'transform.tan2fp.raytracefit'
adc = lambda rs: [float(v) for v in rs.choice([0., 45., 120., 200., 300.], 2)]
simple('optics', R, 'tan2fp', lambda rs: (*xy(rs, r=.025), *adc(rs)))
simple('optics', R, 'fp2tan', lambda rs: (*xy(rs), *adc(rs)))
E22 = 'transform.tan2fp.echo22'
simple('optics', E22, 'tan2fp', lambda rs: xy(rs, r=.025))
simple('optics', E22, 'fp2tan', lambda rs: xy(rs))
simple('optics', E22, 'radius2theta', lambda rs: (rs.uniform(0, 410, 4),))
simple('optics', E22, 'theta2radius', lambda rs: (rs.uniform(0, 1.6, 4),))


@entry('optics')
def interpolate_coeffs(rs, work):
    from desimeter.transform.tan2fp.raytracefit import get_raytracefit
    return get_raytracefit().interpolate_coeffs, adc(rs), {}


@entry('optics')
def raytracefit_json(rs, work):
    from desimeter.transform.tan2fp.raytracefit import get_raytracefit
    return get_raytracefit().tojson, [], {}


@bad('optics')
def no_adc(rs, work):
    from desimeter.transform.tan2fp import raytracefit as m
    return m.tan2fp, [*xy(rs, r=.02), None, 'x'], {}


# ------------------------------------------------------------------ tables of the curved surface, qs
for f, lo, hi in (('r2s', 0, 410), ('s2r', 0, 410), ('r2z', 0, 410), ('r2n', 0, 410), ('s2z', 0, 410), ('s2n', 0, 410), ('z2r', -8, -1), ('z2s', -8, -1), ('n2s', .5, 5), ('n2r', .5, 5)):
    simple('surface', 'transform.rszn_lookups', f, lambda rs, lo=lo, hi=hi: (rs.uniform(lo, hi, 5),))
for f in ('xy2qs', 'xy2uv', 'uv2xy'):
    simple('surface', 'transform.xy2qs', f, lambda rs: xy(rs))
simple('surface', 'transform.xy2qs', 'qs2xy', lambda rs: (rs.uniform(0, 360, 5), rs.uniform(30, 400, 5)))
for f in ('r2s', 's2r'):
    simple('surface', 'transform.xy2qs', f, lambda rs: (rs.uniform(20, 400, 5),))


# ------------------------------------------------------------------ positioners
T = 'transform.pos2ptl'
arms = lambda rs, n: [list(v) for v in (rs.uniform(2.9, 3.1, n), rs.uniform(2.9, 3.1, n), rs.uniform(-180, 180, n), rs.uniform(-5, 5, n))]
simple('positioner', T, 'int2ptl', lambda rs: (list(rs.uniform(-150, 150, 4)), list(rs.uniform(5, 170, 4)), *arms(rs, 4), list(rs.uniform(50, 300, 4)), list(rs.uniform(-50, 50, 4))))


def _ptl2int(rs):
    a = arms(rs, 4)
    X, Y = rs.uniform(50, 300, 4), rs.uniform(-50, 50, 4)
    return list(X + rs.uniform(-3, 3, 4)), list(Y + rs.uniform(-3, 3, 4)), *a, list(X), list(Y)


simple('positioner', T, 'ptl2int', _ptl2int)
simple('positioner', T, 'loc2ext', lambda rs: (rs.uniform(-3, 3, 4), rs.uniform(-3, 3, 4), *[np.array(v) for v in arms(rs, 4)]))
simple('positioner', T, 'ext2loc', lambda rs: (rs.uniform(-180, 180, 4), rs.uniform(5, 170, 4), *[np.array(v) for v in arms(rs, 4)[:2]]))
simple('positioner', T, 'ptl2flat', lambda rs: xy(rs))
simple('positioner', T, 'flat2ptl', lambda rs: xy(rs))
for f in ('flat2loc', 'loc2flat', 'ext2int', 'int2ext'):
    simple('positioner', T, f, lambda rs: (rs.uniform(-50, 50, 4), rs.uniform(-50, 50, 4)) if rs.random() < .5 else (list(rs.uniform(-50, 50, 4)), 12.5))
simple('positioner', T, 'delta_angle', lambda rs: (list(rs.uniform(-180, 180, 4)), list(rs.uniform(-180, 180, 4)), int(rs.integers(-1, 2))))
RANGES = lambda: [[-185., 185.], [-5., 185.]]
simple('positioner', 'transform.xy2tp', 'xy2tp', lambda rs: ([rs.uniform(-4, 4), rs.uniform(-4, 4)], [3.01, 2.98], RANGES(), float(rs.uniform(-180, 180))))
simple('positioner', 'transform.xy2tp', 'tp2xy', lambda rs: ([rs.uniform(-180, 180), rs.uniform(0, 180)], [3.01, 2.98]))


@bad('positioner')
def short_arms(rs, work):
    from desimeter.transform import pos2ptl as m
    return m.loc2ext, [[1., 2.], [1., 2.], [3.], None, 0., 0.], {}


# ------------------------------------------------------------------ sky
S = 'transform.radec2tan'
sky = lambda rs, n=5: (rs.uniform(30, 320, n), rs.uniform(-20, 60, n))
mjd = lambda rs: float(rs.uniform(58500, 60500))


def _near(rs, n=5):
    ra, dec = float(rs.uniform(5, 350)), float(rs.uniform(-15, 60))
    return rs.uniform(-1, 1, n) + ra, rs.uniform(-1, 1, n) + dec, ra, dec


def _opts(rs):
    k = {v: bool(rs.integers(2)) for v in ('precession', 'aberration', 'polar_misalignment')}
    if k['polar_misalignment'] and rs.random() < .5:
        k['use_hardcoded_polmis_rotmat'] = True
    return k


def _r2t(rs):
    a, d, ra, dec = _near(rs)
    return (a, d, ra, dec, mjd(rs), float(ra + rs.uniform(-30, 30)) % 360, float(rs.uniform(-1, 1))), _opts(rs)


def _t2r(rs):
    _, _, ra, dec = _near(rs)
    return (*xy(rs, 5, .025), ra, dec, mjd(rs), float(ra + rs.uniform(-30, 30)) % 360, float(rs.uniform(-1, 1))), _opts(rs)


simple('sky', S, 'radec2tan', _r2t)
simple('sky', S, 'tan2radec', _t2r)
simple('sky', S, 'radec2tan', lambda rs: (_r2t(rs)[0], {'use_astropy': True, 'aberration': False}), name='radec2tan.radec2tan/astropy')
for f in ('apply_precession_from_icrs', 'undo_precession_from_icrs', 'apply_aberration', 'undo_aberration'):
    simple('sky', S, f, lambda rs: (*sky(rs), mjd(rs)))
simple('sky', S, 'apply_precession', lambda rs: (*sky(rs), float(rs.uniform(-20, 20))))
simple('sky', S, 'apply_refraction', lambda rs: (rs.uniform(25, 90, 5),))
simple('sky', S, 'undo_refraction', lambda rs: (rs.uniform(25, 90, 5),))
simple('sky', S, 'hadec2altaz', lambda rs: sky(rs))
simple('sky', S, 'altaz2hadec', lambda rs: (rs.uniform(25, 85, 5), rs.uniform(0, 360, 5)))
simple('sky', S, 'radec2eclip', lambda rs: sky(rs))
simple('sky', S, 'eclip2radec', lambda rs: sky(rs))
simple('sky', S, 'get_hardcoded_polmis_rotmat', lambda rs: ((), {'inverse': bool(rs.integers(2))}))
simple('sky', S, 'compute_polar_misalignment_rotation_matrix', lambda rs: tuple(rs.uniform(-100, 100, 2)))


def _h2x(rs):
    a, d, ra, dec = _near(rs)
    return a, d, ra, dec


simple('sky', S, 'hadec2xy', _h2x)
simple('sky', S, 'xy2hadec', lambda rs: (*xy(rs, 5, .025), *_near(rs)[2:]))
simple('sky', 'time', 'mjd2lst', lambda rs: (mjd(rs),))
simple('sky', 'fieldmodel', 'fieldrot', lambda rs: (*_near(rs)[2:], mjd(rs), float(rs.uniform(0, 360))))
simple('sky', 'fieldmodel', 'dfieldrotdt', lambda rs: (*_near(rs)[2:], mjd(rs), float(rs.uniform(0, 360))))


@bad('sky')
def sky_shapes(rs, work):
    from desimeter.transform import radec2tan as m
    return m.radec2tan, [np.zeros(3), np.zeros(2), 10., 20., 59000., 10., 0.], {}


FA = 'fiberassign'


def _tile(rs):
    ra, dec = float(rs.uniform(5, 350)), float(rs.uniform(-15, 60))
    k = {'use_hardcoded_polmis_rotmat': bool(rs.integers(2))}
    if rs.random() < .5:
        k['adc1'], k['adc2'] = adc(rs)
    return (ra, dec, mjd(rs), float(rs.uniform(-30, 30)), float(rs.uniform(-.2, .2))), k


def _fa_r(rs):
    t, k = _tile(rs)
    k['to_platemaker'] = bool(rs.integers(2))
    return (rs.uniform(-1, 1, 5) + t[0], rs.uniform(-1, 1, 5) + t[1], *t), k


def _fa_x(rs):
    t, k = _tile(rs)
    k['from_platemaker'] = bool(rs.integers(2))
    return (*xy(rs, 5, 380.), *t), k


for f in ('fiberassign_radec2xy_cs5', 'fiberassign_radec2xy_flat'):
    simple('tile', FA, f, _fa_r)
for f in ('fiberassign_cs5_xy2radec', 'fiberassign_flat_xy2radec'):
    simple('tile', FA, f, _fa_x)
simple('tile', FA, 'pm_get_adc_angles', lambda rs: (float(rs.uniform(-50, 50)), float(rs.uniform(-15, 60))))


# ------------------------------------------------------------------ guide stars
def sky_of(rs):
    import c22_guide as g
    return g


def _field(rs):
    from desimeter.fieldmodel import FieldModel
    fm = shared('field', FieldModel)
    fm.ra, fm.dec, fm.mjd, fm.lst, fm.hexrot_deg, fm.adc1, fm.adc2 = float(rs.uniform(5, 350)), float(rs.uniform(-10, 60)), mjd(rs), 0., float(rs.uniform(-.5, .5)), *adc(rs)
    fm.lst = (fm.ra + float(rs.uniform(-30, 30))) % 360
    fm.sxx, fm.syy, fm.sxy, fm.fieldrot_zp_deg = 1 + float(rs.normal(0, 1e-3)), 1 + float(rs.normal(0, 1e-3)), float(rs.normal(0, 1e-3)), float(rs.normal(0, .3))
    fm.fieldrot_deg = .1
    if NEAR is not None:
        a = str(NEAR.choice(['ra', 'dec', 'mjd', 'lst', 'hexrot_deg', 'adc1', 'adc2', 'sxx', 'fieldrot_zp_deg']))
        setattr(fm, a, getattr(fm, a) + float(NEAR.choice([.001, .03])))
    return fm


def stars(rs):
    from astropy.table import Table
    fm = _field(rs)
    n = int(rs.integers(20, 40))
    x, y, p = rs.uniform(30, 2000, n), rs.uniform(30, 1000, n), rs.integers(0, 10, n)
    xf, yf = fm.all_gfa2fp(x, y, p)
    ra, dec = fm.fp2radec(xf, yf)
    t = Table(dict(xcentroid=x, ycentroid=y, petal_loc=p, ra=ra, dec=dec, ra_gaia=np.array(ra) + rs.normal(0, 1e-5, n), dec_gaia=np.array(dec) + rs.normal(0, 1e-5, n), mjd_obs=np.full(n, fm.mjd),
                   pmra=rs.normal(0, 20, n), pmdec=rs.normal(0, 20, n), ref_epoch=np.full(n, 2015.5)))
    return fm, t


@entry('guide', 2000)
def fit_tancorr(rs, work):
    from desimeter.fieldmodel import FieldModel
    fm, t = stars(rs)
    g = FieldModel()
    g.ra, g.dec, g.expid, g.adc1, g.adc2, g.hexrot_deg = fm.ra, fm.dec, 5, fm.adc1, fm.adc2, fm.hexrot_deg

    def f(cat, **k):
        g.fit_tancorr(cat, **k)
        return g
    return f, [t], dict(mjd=fm.mjd, hexrot_deg=fm.hexrot_deg, lst=fm.lst)


@entry('guide')
def read_catalogue(rs, work):
    from desimeter.fieldmodel import FieldModel
    fm, t = stars(rs)
    p = os.path.join(work, 'cat%d.%s' % (rs.integers(1 << 30), rs.choice(['csv', 'fits'])))
    t.meta['EXTNAME'] = 'CAT'
    if p.endswith('fits'):
        from astropy.io import fits
        t.meta.update(TARGTRA=fm.ra, TARGTDEC=fm.dec, MJD_OBS=fm.mjd, EXPID=7)
    t.write(p, overwrite=True)
    g = FieldModel()
    return g.read_guide_stars_catalog, [p], {}


@entry('guide')
def compute_fieldrot(rs, work):
    fm = _field(rs)
    return fm.compute_fieldrot, [], {}


@entry('guide')
def fp2radec(rs, work):
    return _field(rs).fp2radec, list(xy(rs)), {}


@entry('guide')
def radec2fp(rs, work):
    fm = _field(rs)
    return fm.radec2fp, [rs.uniform(-1, 1, 5) + fm.ra, rs.uniform(-1, 1, 5) + fm.dec], {}


@entry('guide')
def field_json(rs, work):
    from desimeter.fieldmodel import FieldModel
    return FieldModel.fromjson, [_field(rs).tojson()], {}


@entry('guide', 200)
def tancorr(rs, work):
    from desimeter.fieldmodel import TanCorr
    c = shared('tancorr', TanCorr)
    x, y = rs.uniform(-.02, .02, (2, 20))
    a = rs.uniform(-.01, .01)
    u, v = 1.001 * (x - a * y) + 1e-4, y + a * x

    def f(*s):
        c.fit(*s)
        return c.apply(s[0], s[1]), c.apply_inverse(s[0], s[1]), c.tojson(), vars(c)
    return f, [x, y, u, v], {}


@bad('guide')
def no_stars(rs, work):
    fm, t = stars(rs)
    t.remove_column('ra_gaia')
    return fm.fit_tancorr, [t], {}


# ------------------------------------------------------------------ pictures of the focal plane
def focal(rs, kind='init'):
    """spots of a simulated focal plane"""
    from astropy.table import Table
    from desimeter.io import load_metrology, desimeter_data_dir
    from desimeter.transform.fvc2fp import FVC2FP
    t = FVC2FP.read_jsonfile(os.path.join(str(desimeter_data_dir()), kind + '-fvc2fp.json'))
    m = load_metrology()
    loc = np.array(m['LOCATION'])
    pin = np.array((m['DEVICE_TYPE'] == 'FIF') | (m['DEVICE_TYPE'] == 'GIF'))
    fids = rs.permutation(np.unique(loc[pin]))[:int(rs.integers(30, 80))]
    k = np.append(np.flatnonzero(pin & np.isin(loc, fids)), rs.permutation(np.flatnonzero(m['DEVICE_TYPE'] == 'POS'))[:100])
    x, y = t.fp2fvc(np.array(m['X_FP'])[k], np.array(m['Y_FP'])[k])
    o = rs.permutation(len(k))
    dx, dy = rs.normal(0, 2, 2)
    s = Table(dict(XPIX=x[o] + dx, YPIX=y[o] + dy, XERR=np.full(len(k), .02), YERR=np.full(len(k), .02), COUNTS=rs.uniform(1e4, 9e4, len(k))))
    s['LOCATION'], s['PINHOLE_ID'] = np.where(pin, loc, -1)[k][o], np.array(m['PINHOLE_ID'])[k][o]
    return s, os.path.join(str(desimeter_data_dir()), kind + '-fvc2fp.json'), m


def lens(rs):
    return str(rs.choice(['init', 'single-lens', 'default']))


def lenses():
    from desimeter.io import desimeter_data_dir
    return sorted(f[:-len('-fvc2fp.json')] for f in os.listdir(str(desimeter_data_dir())) if f.endswith('-fvc2fp.json'))


@entry('picture')
def findfiducials(rs, work):
    from desimeter.findfiducials import findfiducials as f
    L = lenses()
    s, p, m = focal(rs, L[int(rs.integers(len(L)))])
    s.remove_columns(['LOCATION', 'PINHOLE_ID'])
    return f, [s], {'input_transform': p}, {0: ['LOCATION', 'PETAL_LOC', 'DEVICE_LOC', 'PINHOLE_ID']}


@entry('picture')
def findfiducials_default(rs, work):
    from desimeter.findfiducials import findfiducials as f
    s, p, m = focal(rs)
    s.remove_columns(['LOCATION', 'PINHOLE_ID'])
    return f, [s], {}, {0: ['LOCATION', 'PETAL_LOC', 'DEVICE_LOC', 'PINHOLE_ID']}


@entry('picture', 5000)
def fvc_fit(rs, work):
    from desimeter.transform.fvc2fp import FVC2FP
    s, p, m = focal(rs)
    t = FVC2FP.read_jsonfile(p)
    k = dict(zbfit=bool(rs.integers(2)), fixed_scale=bool(rs.integers(2)), fixed_rotation=bool(rs.integers(2)))
    if rs.random() < .5:
        k['metrology'] = m

    def f(spots, **kw):
        t.fit(spots, **kw)
        return t
    return f, [s], k


@entry('picture', 5000)
def fvc_fit_update(rs, work):
    from desimeter.transform.fvc2fp import FVC2FP
    s, p, m = focal(rs)
    t = FVC2FP.read_jsonfile(p)

    def f(spots, **kw):
        t.fit(spots, **kw)
        return t, spots
    return f, [s], dict(update_spots=True, zbfit=False), {0: ['X_FP', 'Y_FP', 'X_FP_METRO', 'Y_FP_METRO', 'Z_FP_METRO']}


@entry('picture')
def fvc2fp(rs, work):
    from desimeter.transform.fvc2fp import FVC2FP
    from desimeter.io import fvc2fp_filename
    t = shared('lens', lambda: FVC2FP.read_jsonfile(fvc2fp_filename()))
    return t.fvc2fp, [rs.uniform(500, 5500, 5), rs.uniform(500, 5500, 5)], {}


@entry('picture')
def fvc2fp_errors(rs, work):
    from desimeter.transform.fvc2fp import FVC2FP
    from desimeter.io import fvc2fp_filename
    t = FVC2FP.read_jsonfile(fvc2fp_filename())
    return t.fvc2fp, [rs.uniform(500, 5500, 5), rs.uniform(500, 5500, 5)], dict(xerr=rs.uniform(.01, .1, 5), yerr=rs.uniform(.01, .1, 5))


@entry('picture', 2000)
def fp2fvc(rs, work):
    from desimeter.transform.fvc2fp import FVC2FP
    L = lenses()
    from desimeter.io import desimeter_data_dir
    n = L[int(rs.integers(len(L)))]
    t = shared(n, lambda: FVC2FP.read_jsonfile(os.path.join(str(desimeter_data_dir()), n + '-fvc2fp.json')))
    return t.fp2fvc, list(xy(rs)), {}


@entry('picture', 2000)
def dm2pm(rs, work):
    from desimeter.transform.dm2pm import DM2PM
    from desimeter.io import dm2pm_filename
    t = shared('dm2pm', lambda: DM2PM.read(dm2pm_filename()))
    return (t.dm2pm if rs.random() < .5 else t.pm2dm), list(xy(rs)), {}


@entry('picture', 2000)
def zhaoburge(rs, work):
    from desimeter.transform import zhaoburge as z
    x, y = rs.uniform(-.7, .7, (2, 30))
    ids = np.array([2, 5, 6, 9, 20, 28, 29, 30])
    if rs.random() < .5:
        return z.getZhaoBurgeXY, [ids, rs.normal(0, 1e-3, 8), x, y], {}
    xp, yp = z.transform(x, y, 1.02, .01, .002, -.001, ids, rs.normal(0, 1e-3, 8))
    return z.fit_scale_rotation_offset, [x, y, xp, yp], dict(fitzb=bool(rs.integers(2)), zbpolids=ids, zbcoeffs=np.zeros(8))


@entry('picture')
def fvc_json(rs, work):
    from desimeter.transform.fvc2fp import FVC2FP
    L = lenses()
    from desimeter.io import desimeter_data_dir
    return FVC2FP.fromjson, [open(os.path.join(str(desimeter_data_dir()), L[int(rs.integers(len(L)))] + '-fvc2fp.json')).read()], {}


def image(rs, n=12):
    im = rs.normal(1000, 5, (150, 180))
    yy, xx = np.mgrid[:150, :180]
    for k in range(n):
        im += rs.uniform(2000, 9000) * np.exp(-((xx - 20 - 35 * (k % 4) - rs.uniform()) ** 2 + (yy - 20 - 35 * (k // 4) - rs.uniform()) ** 2) / 2)
    return im


@entry('image', 5000)
def detectspots(rs, work):
    from desimeter.detectspots import detectspots as f
    im = image(rs)
    return f, [im.astype(str(rs.choice(['f4', 'f8'])))], {}


@entry('image', 2000)
def fitcentroid(rs, work):
    from desimeter.detectspots import fitcentroid as f
    return f, [image(rs)[16:25, 16:25] - 1000.], {}


@entry('image')
def gaussian_convolve(rs, work):
    from desimeter.detectspots import gaussian_convolve as f
    return f, [image(rs, 3)[:40, :60]], dict(sigma=float(rs.choice([1., 2.])))


@entry('image', 2000)
def detect_phi_arm(rs, work):
    from desimeter.brightimage import detect_phi_arm as f
    T = np.zeros((21, 21))
    T[9:12, 10:] = rs.uniform(1, 2, (3, 11))
    im = image(rs, 2)
    im[70:74, 60:90] += 800.
    return f, [float(rs.uniform(60, 62)), float(rs.uniform(70, 72)), im, T], {}


@bad('image')
def no_spots(rs, work):
    from desimeter.detectspots import detectspots as f
    return f, [rs.normal(1000, 3, (60, 60))], {}


@bad('picture')
def no_lens(rs, work):
    from desimeter.findfiducials import findfiducials as f
    s, p, m = focal(rs)
    return f, [s], {'input_transform': os.path.join(work, 'no-such-lens.json')}, {0: list(s.colnames)}


@bad('picture')
def no_spots_to_fit(rs, work):
    from desimeter.transform.fvc2fp import FVC2FP
    s, p, m = focal(rs)
    t = FVC2FP.read_jsonfile(p)
    s['LOCATION'] = -1
    return t.fit, [s[:0]], {}


# ------------------------------------------------------------------ matching
@entry('match')
def match_same_system(rs, work):
    from desimeter.match import match_same_system as f
    x, y = rs.uniform(0, 100, (2, 20))
    return f, [x[:18], y[:18], x[2:] + .1, y[2:]], dict(remove_duplicates=bool(rs.integers(2)))


@entry('match')
def match_pattern(rs, work):
    from desimeter.match import match_arbitrary_translation_dilatation as f
    x, y = rs.uniform(0, 100, (2, 4))
    o = rs.permutation(4)
    return f, [x, y, 1.001 * x[o] + 3, 1.001 * y[o] - 2], {}


@entry('match')
def match_keys(rs, work):
    from desimeter.match_positioners import match as f
    return f, [rs.permutation(20)[:12], rs.permutation(20)[:12]], {}


@entry('match')
def match_positioners(rs, work):
    from astropy.table import Table
    from desimeter.match_positioners import match_positioners as f
    i = np.arange(12)
    X, Y = 10.4 * (i % 4) + 5.2 * (i // 4 % 2), 9. * (i // 4)
    a = rs.uniform(0, 2 * np.pi, 12)
    d = rs.uniform(0, 5.9, 12)
    o = rs.permutation(12)
    fvc = Table(dict(X_FP=(X + d * np.cos(a))[o][:11], Y_FP=(Y + d * np.sin(a))[o][:11], PINHOLE_ID=np.zeros(11, int), COUNTS=np.full(11, 2e5)))
    metr = Table(dict(DEVICE_ID=['M%05d' % k for k in i], X_FP=X, Y_FP=Y, PINHOLE_ID=np.zeros(12, int)))
    cal = Table(dict(POS_ID=['M%05d' % k for k in i], LENGTH_R1=np.full(12, 3.), LENGTH_R2=np.full(12, 3.)))
    return f, [fvc, metr, cal], dict(return_alternatives=bool(rs.integers(2)))


@entry('match', 2000)
def average_coordinates(rs, work):
    from astropy.table import Table
    from desimeter.averagecoord import average_coordinates as f
    i = np.arange(25)
    x, y = 40. * (i % 5) + rs.uniform(-8, 8, 25), 40. * (i // 5) + rs.uniform(-8, 8, 25)
    t = []
    for k in range(3):
        o = rs.permutation(25)[:24]
        t.append(Table(dict(XPIX=x[o] + k, YPIX=y[o] - k, MARK=o)))
    return f, [t, 'XPIX', 'YPIX'], {}


@entry('match', 2000)
def simplecorr(rs, work):
    from desimeter.simplecorr import SimpleCorr
    c = shared('simplecorr', SimpleCorr)
    x, y = rs.uniform(-300, 300, (2, 20))
    u, v = 1.001 * (x - .01 * y) + 3, y + .01 * x

    def f(*s, **k):
        c.fit(*s, **k)
        return vars(c), c.apply(s[0], s[1]), c.apply_inverse(s[0], s[1])
    return f, [x, y, u, v], dict(solid=bool(rs.integers(2)))


@entry('match', 2000)
def circle(rs, work):
    from desimeter import circles as m
    a = np.sort(rs.uniform(0, 6, 14))
    x, y = 3 * np.cos(a) + 100 + rs.normal(0, .003, 14), 3 * np.sin(a) - 20 + rs.normal(0, .003, 14)
    x[3] += rs.choice([0., 1.])
    return (m.robust_fit_circle if rs.random() < .5 else m.fit_circle), [x, y], {}


@bad('match')
def match_nothing(rs, work):
    from desimeter.averagecoord import average_coordinates as f
    return f, [[], 'XPIX', 'YPIX'], {}


@bad('match')
def match_short(rs, work):
    from desimeter.simplecorr import SimpleCorr
    return SimpleCorr().fit, [np.zeros(3), np.zeros(2), np.zeros(3), np.zeros(3)], {}


@bad('match')
def match_one_point(rs, work):
    from desimeter.simplecorr import SimpleCorr
    v = np.full(5, float(rs.integers(9)))
    return shared('simplecorr', SimpleCorr).fit, [v, v, v, v], {}


@bad('match')
def repeated_key(rs, work):
    from desimeter.match_positioners import match as f
    return f, [np.array([1, 2, 2]), np.array([1, 2])], {}


# ------------------------------------------------------------------ turbulence
def air(rs, n=60):
    x, y = rs.uniform(-300, 300, (2, n))
    return x, y, x + .02 * np.sin(x / 80) + rs.normal(0, .002, n), y + .02 * np.cos(y / 90) + rs.normal(0, .002, n)


@entry('air', 20000)
def correct(rs, work):
    from desimeter.turbulence import correct as f
    x, y, u, v = air(rs)
    return f, [u, v, x, y], {}


@entry('air', 2000)
def correct_with_pol(rs, work):
    from desimeter.turbulence import correct_with_pol as f
    x, y, u, v = air(rs)
    return f, [u, v, x, y], dict(win=float(rs.choice([50, 120])))


@entry('air', 20000)
def correct_using_stationary(rs, work):
    from desimeter.turbulence import correct_using_stationary as f
    x, y, u, v = air(rs)
    return f, [u[:40], v[:40], x[:40], y[:40], u[40:], v[40:]], {}


@entry('air')
def make_data(rs, work):
    from desimeter import turbulence as m
    x, y, u, v = air(rs)
    from astropy.table import Table

    def f(*a):
        d = np.zeros(len(a[0]), dtype=[(k, 'f8') for k in ('x', 'y', 'dx', 'dy')])
        d['x'], d['y'], d['dx'], d['dy'] = a[0], a[1], a[2] - a[0], a[3] - a[1]
        return m.empirical_covariance(d, bins=5)
    return f, [x, y, u, v], {}


@bad('air')
def air_short(rs, work):
    from desimeter.turbulence import correct as f
    return f, [np.zeros(4), np.zeros(3), np.zeros(4), np.zeros(4)], {}


# ------------------------------------------------------------------ calibration
def moves(rs, n=12, seqs=1):
    import calibsim as cs
    par = dict(cs.PAR, OFFSET_T=float(rs.uniform(-60, 60)), OFFSET_P=float(rs.uniform(-5, 5)), LENGTH_R1=float(rs.uniform(2.95, 3.05)))
    T, P = list(np.linspace(-120, 120, n)) + list(np.full(n, 30.)), list(np.full(n, 90.)) + list(np.linspace(20, 170, n))
    petal = int(rs.integers(10))
    x, y = cs.measure(T, P, par, petal)
    return np.array(T), np.array(P), x + rs.normal(0, .003, 2 * n), y + rs.normal(0, .003, 2 * n), petal, par


@entry('calib', 5000)
def fit_params(rs, work):
    from desimeter.posparams import fitter as m
    from desimeter.transform.ptl2fp import fp2ptl
    T, P, x, y, petal, par = moves(rs)
    px, py, _ = fp2ptl(petal, x, y)
    n = len(T)
    seq = [0] * n
    for i in range(int(rs.integers(0, 4))):
        seq[5 * i + 1] = i % 3 + 1
    k = dict(mode=str(rs.choice(['static', 'dynamic'])), outlier_rejection=bool(rs.integers(2)))
    if rs.random() < .6 or k['mode'] == 'dynamic':
        k['nominals'] = dict(m.default_values, **par)
        k['bounds'] = {a: list(b) if not isinstance(b, (int, float)) else b for a, b in m.default_bounds.items()}
    if rs.random() < .4:
        k['keep_fixed'] = ['LENGTH_R2']
    return m.fit_params, [list(T), list(P), list(px), list(py), [1.] * n, [1.] * n, [False] * n, seq], k


def moves_file(rs, work):
    import calibsim as cs
    from astropy.table import Table
    T, P, x, y, petal, par = moves(rs)
    n = len(T)
    posid = 'M%05d' % rs.integers(100)
    p = os.path.join(work, 'moves%d.csv' % rs.integers(1 << 30))
    Table({'DATE': [cs.date(.5 * i, 0) for i in range(n)], 'POS_ID': [posid] * n, 'PETAL_LOC': [petal] * n, 'PETAL_ID': [4] * n, 'DEVICE_LOC': [101] * n, 'POS_T': T, 'POS_P': P, 'X_FP': x, 'Y_FP': y, 'CTRL_ENABLED': ['True'] * n, 'RECENT_REHOME': np.ones(n, int),
           'TOTAL_MOVE_SEQUENCES': np.arange(3, n + 3), 'EXPOSURE_ID': 500 + np.arange(n) // 3, 'LOG_NOTE': ['arc'] * n}).write(p, overwrite=True)
    return posid, p


@entry('calib', 5000)
def run_best_fits(rs, work):
    from desimeter.posparams.fithandler import run_best_fits as f
    posid, p = moves_file(rs, work)
    d = os.path.join(work, 'fits')
    os.makedirs(d, exist_ok=True)
    from astropy.table import Table

    def g(*a, **k):
        r = f(*a, **k)
        m = r[1] if isinstance(r, tuple) else r
        p = os.path.join(d, a[0] + '_paramfits.csv')
        if not os.path.exists(p):
            return sorted(os.listdir(d))
        t = Table.read(p)
        t.remove_columns([c for c in t.colnames if c.startswith('ANALYSIS_DATE')])      # the time of day
        return t
    return g, [posid, p, 5, 100000, d, float(rs.choice([.01, .2]))], dict(printf=lambda *a, **k: None)


@entry('calib')
def posmove_selection(rs, work):
    from astropy.table import Table
    from desimeter.posparams.posmoveselection import posmove_selection as f
    n = int(rs.integers(4, 12))
    t = Table(dict(LOG_NOTE=[str(rs.choice(['arc calibration', 'grid', 'xytest arc', 'park'])) for _ in range(n)], A=np.arange(n)))
    return f, [t, str(rs.choice(['arc', 'arc & xytest', 'grid | park']))], {}


@entry('calib')
def eval_move_flags(rs, work):
    from desimeter.posparams.flags import eval_move_flags as f
    T, P, x, y, petal, par = moves(rs)
    m = float(rs.choice([0., 1.]))
    return f, [list(T), list(P), list(m * x), list(m * y)], {}


@bad('calib')
def no_moves(rs, work):
    from desimeter.posparams import fitter as m
    return m.fit_params, [[1., 2.], [1.], [1., 2.], [3., 4.], [1., 1.], [1., 1.], [False] * 2, [1, 2]], dict(nominals={}, bounds={})


@bad('calib')
def no_file(rs, work):
    from desimeter.posparams.fithandler import run_best_fits as f
    return f, ['M1', os.path.join(work, 'none.csv'), 5, 100, work, .01], dict(printf=lambda *a, **k: None)


# ------------------------------------------------------------------ parts of the above
ang = lambda rs: (float(rs.uniform(-180, 180)),)
for f in ('vecX', 'vecY', 'vecZ', 'refX', 'refY', 'refZ'):
    simple('sky', S, f, ang)
simple('sky', S, 'getLONLAT', lambda rs: (rs.uniform(-1, 1, (3, 4)),))
simple('sky', S, 'getSunLon', lambda rs: (mjd(rs),))
simple('sky', S, 'rotation_matrix', lambda rs: (rs.uniform(-1, 1, 3), float(rs.uniform(-3, 3))))
for f in ('dfieldrotdt_physical_model',):
    simple('sky', 'fieldmodel', f, lambda rs: (*_near(rs)[2:], mjd(rs), float(rs.uniform(0, 360))))
simple('sky', 'fieldmodel', 'dfieldrotdt_empirical_model', lambda rs: (*_near(rs)[2:], float(rs.uniform(0, 360))))
simple('positioner', T, 'int2loc', lambda rs: (list(rs.uniform(-150, 150, 4)), list(rs.uniform(5, 170, 4)), *arms(rs, 4)))
simple('positioner', T, 'loc2int', lambda rs: (list(rs.uniform(-3, 3, 4)), list(rs.uniform(-3, 3, 4)), *arms(rs, 4)))
simple('data', 'trig', 'sincosd', ang)
simple('data', 'trig', 'arctan2d', lambda rs: (rs.uniform(-1, 1, 4), rs.uniform(-1, 1, 4)))
simple('data', 'trig', 'arcsind', lambda rs: (rs.uniform(-1, 1, 4),))
simple('data', 'trig', 'getNorm', lambda rs: (rs.uniform(-1, 1, (3, 4)),))
simple('match', 'match', 'compute_triangles_with_arbitrary_orientation', lambda rs: tuple(rs.uniform(0, 50, (2, 4))))
simple('match', 'match', 'compute_triangles_with_fixed_orientation', lambda rs: tuple(rs.uniform(0, 50, (2, 4))))
Z = 'transform.zhaoburge'
for f in ('getZhaoBurgeTerm', 'getZ'):
    simple('picture', Z, f, lambda rs: (int(rs.integers(1, 20)), *rs.uniform(-.7, .7, (2, 6))), 2000)


@entry('picture', 2000)
def fit_zhaoburge(rs, work):
    from desimeter.transform import zhaoburge as z
    x, y = rs.uniform(-.7, .7, (2, 40))
    ids = np.array([2, 5, 6, 9, 20, 28, 29, 30])
    dx, dy = z.getZhaoBurgeXY(ids, rs.normal(0, 1e-3, 8), x, y)
    return z.fitZhaoBurge, [x, y, x + dx, y + dy], {} if rs.random() < .5 else dict(polids=ids)


@entry('positioner')
def alignment(rs, work):
    from desimeter.transform import ptl2fp as m

    def f(p):
        return dict(m.get_petal_alignment_data()[p])
    return f, [int(rs.integers(10))], {}


@entry('optics')
def fresh_optics(rs, work):
    from desimeter.transform.tan2fp.raytracefit import TAN2FP_RayTraceFit, get_raytracefit
    s = get_raytracefit().tojson()
    x, y = xy(rs)

    def f(x, y, a, b):
        o = shared('optics', lambda: TAN2FP_RayTraceFit.fromjson(s))
        return o.fp2tan(x, y, a, b)
    return f, [x, y, *adc(rs)], {}


@entry('picture', 2000)
def expected_positions(rs, work):
    """spots of a picture and where the positioners should be"""
    from desimeter.transform.fvc2fp import FVC2FP
    import json as js
    s, p, m = focal(rs)
    t = FVC2FP.read_jsonfile(p)
    u = FVC2FP.fromjson(t.tojson())
    return u.fp2fvc, list(t.fvc2fp(np.array(s['XPIX'])[:6], np.array(s['YPIX'])[:6])), {}


# ------------------------------------------------------------------ data, masks, text
simple('data', 'io', 'load_metrology', lambda rs: ())
simple('data', 'io', 'load_petal_alignement', lambda rs: ())
simple('data', 'io', 'load_nominal_positioner_locations', lambda rs: ())
simple('data', 'io', 'read_hexrot_deg', lambda rs: ({'FOCUS': '%s' % ','.join('%.1f' % v for v in rs.uniform(-100, 100, 6))},))
simple('data', 'util', 'parse_fibers', lambda rs: (str(rs.choice(['1,5:9,20', '3:7', '9,3', '100:110,5'])),))
simple('data', 'processfvc', 'get_outfilename', lambda rs: (str(rs.choice(['/a/fvc-1.fits', '/b/x.fits.fz'])),))
for f in ('sind', 'cosd', 'tand', 'put360', 'rot2deg'):
    simple('data', 'trig', f, lambda rs: (float(rs.uniform(-400, 400)),))
simple('data', 'trig', 'average_angles_deg', lambda rs: (rs.uniform(0, 360, 4), rs.uniform(0, 360, 4)))
simple('data', 'trig', 'getNormalized', lambda rs: (rs.uniform(-1, 1, (3, 4)),))
simple('data', 'trig', 'getXYZ', lambda rs: (rs.uniform(0, 360, 4), rs.uniform(-90, 90, 4)))


@entry('data')
def mask_names(rs, work):
    from desimeter.posparams.movemask import movemask as m
    return m.names, [int(rs.integers(0, 8))], {}


@entry('data')
def nominal_after_metrology(rs, work):
    from desimeter import io

    def f():
        return io.load_metrology()['X_FP', 'LOCATION'][:50], io.load_nominal_positioner_locations()['X_PTL', 'DEVICE_LOC'][:50]
    return f, [], {}


@bad('data')
def bad_fibers(rs, work):
    from desimeter.util import parse_fibers as f
    return f, ['5,a:2'], {}


@bad('data')
def bad_header(rs, work):
    from desimeter.io import read_hexrot_deg as f
    return f, [{'FOCUS': '1,2'}], {}
