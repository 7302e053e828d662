"""Simulated positioner moves for the calibration checks (C14, C15)."""
import datetime
import numpy as np

T0 = datetime.datetime(2020, 3, 1)
PAR = dict(LENGTH_R1=3.05, LENGTH_R2=2.95, OFFSET_T=-35., OFFSET_P=4., OFFSET_X=210.3, OFFSET_Y=44.2)


def date(hours, style=0):
    t = T0 + datetime.timedelta(hours=hours)
    return [t.isoformat(sep=' '), t.isoformat(sep=' ') + '+00:00', t.isoformat()][style]


def measure(T, P, par, petal, eT=0., eP=0.):
    """error-free measured coordinates of moves to (T, P)"""
    import desimeter.transform.pos2ptl as p2
    from desimeter.transform.ptl2fp import ptl2fp
    n = len(T)
    x, y = p2.int2ptl(np.array(T, float), np.array(P, float), np.full(n, par['LENGTH_R1']), np.full(n, par['LENGTH_R2']),
                      par['OFFSET_T'] + np.zeros(n) + eT, par['OFFSET_P'] + np.zeros(n) + eP, np.full(n, par['OFFSET_X']), np.full(n, par['OFFSET_Y']))
    fx, fy, _ = ptl2fp(petal, np.array(x), np.array(y))
    return np.array(fx), np.array(fy)
