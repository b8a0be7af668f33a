"""Builders of planets and vehicles from /repo's data, used by the drivers."""
import random
import os
import numpy as np
from kit import REPO, res
from AMAT.planet import Planet
from AMAT.vehicle import Vehicle

D = os.path.join(REPO, 'atmdata')
ATM = dict(VENUS=('Venus/venus-gram-avg.dat', 0, 1, 2, 3, False),
           EARTH=('Earth/earth-gram-avg.dat', 0, 1, 2, 3, False),
           MARS=('Mars/mars-gram-avg.dat', 0, 1, 2, 3, False),
           JUPITER=('Jupiter/jupiter-galileo-asi.dat', 0, 1, 2, 3, True),
           SATURN=('Saturn/saturn-nominal.dat', 0, 1, 2, 3, True),
           TITAN=('Titan/titan-gram-avg.dat', 0, 1, 2, 3, False),
           URANUS=('Uranus/uranus-ames.dat', 0, 1, 2, 3, False),
           NEPTUNE=('Neptune/neptune-gram-avg.dat', 0, 7, 6, 5, True))
PLANETS = ['VENUS', 'EARTH', 'MARS', 'JUPITER', 'SATURN', 'TITAN', 'URANUS', 'NEPTUNE']
# typical atmosphere-relative entry speed range (km/s) and a steep / shallow entry angle
SPEED = dict(VENUS=(10.5, 12.5), EARTH=(11.0, 13.0), MARS=(5.3, 7.0), JUPITER=(47., 60.), SATURN=(27., 36.),
             TITAN=(4.0, 6.5), URANUS=(20., 26.), NEPTUNE=(24., 30.))
GAMMA = dict(VENUS=(-30., -4.), EARTH=(-30., -4.), MARS=(-30., -7.), JUPITER=(-25., -6.), SATURN=(-30., -6.),
             TITAN=(-60., -25.), URANUS=(-35., -8.), NEPTUNE=(-30., -9.))

# the real planets: mean radius (m), gravitational parameter (m3/s2), spin (rad/s, negative when retrograde), oblateness J2, pole (right ascension, declination, degrees)
REAL = dict(VENUS=(6051.8e3, 3.24859e14, -2.9924e-7, 4.458e-6, 272.76, 67.16), EARTH=(6371e3, 3.986004e14, 7.2921e-5, 1082.63e-6, 0., 90.),
            MARS=(3389.5e3, 4.282837e13, 7.0882e-5, 1960.45e-6, 317.681, 52.887), JUPITER=(69911e3, 1.266865e17, 1.75852e-4, 14696e-6, 268.057, 64.495),
            SATURN=(58232e3, 3.793119e16, 1.6379e-4, 16291e-6, 40.589, 83.537), TITAN=(2574.7e3, 8.9781e12, 4.5607e-6, 33.1e-6, 39.483, 83.428),
            URANUS=(25559e3, 5.793939e15, -1.01237e-4, 3343.43e-6, 257.311, -15.175), NEPTUNE=(24622e3, 6.836529e15, 1.08338e-4, 3411e-6, 299.36, 43.3))


def body(pid):
    p, w = Planet(pid), REAL[pid]
    u = [np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)]) for a, d in ((p.a0, p.d0), np.radians(w[4:]))]
    e = [res(x / y - 1, 1e4) for x, y in zip((p.RP, p.GM, p.OMEGA, p.J2), w)]
    return dict(ev='body', rp=e[0], gm=e[1], spin=e[2], j2=e[3], pole=res(np.degrees(np.linalg.norm(np.cross(*u))) + (90. if u[0] @ u[1] < 0 else 0.), 1e3))



# heat capacity ratio of the air, surface density (kg/m3), top of the atmosphere and trap-in altitude (km)
AIR = dict(VENUS=(1.289, 64.8, 180., 10.), EARTH=(1.4, 1.225, 120., 10.), MARS=(1.289, .016, 120., 10.), JUPITER=(1.435, .163, 1000., 50.),
           SATURN=(1.435, .19, 1000., 50.), TITAN=(1.4, 5.43, 1000., 30.), URANUS=(1.45, .379, 1500., 10.), NEPTUNE=(1.45, .44, 1000., 10.))


def air(pid):
    """the air of a planet as it comes, with its table"""
    p, w = planet(pid), AIR[pid]
    e = lambda x, y: res(x / y - 1, 1e4)
    return dict(ev='air', gas=e(p.CPCV, w[0]), surface=e(p.rho0, w[1]), table=e(p.rho0, float(p.density_int(0.))), top=e(p.h_thres, w[2] * 1e3), skip=e(p.h_skip, w[2] * 1e3), trap=e(p.h_trap, w[3] * 1e3))


CDM = [0.5, 3., 12., 40.]                  # Mach numbers of the drag coefficient tables c['cdm']


def planet(pid, kind='cubic', h_skip=None):
    p = Planet(pid)
    f, h, t, pr, d, km = ATM[pid]
    p.loadAtmosphereModel(os.path.join(D, f), h, t, pr, d, intType=kind, heightInKmFlag=km)
    if h_skip is not None:
        p.h_skip = h_skip
    return p


def vacuum(pid):
    """planet whose atmosphere table is all zero density (valid table, no forces)"""
    p = planet(pid, kind='linear')
    from scipy.interpolate import interp1d
    hh = np.array([-1e9, 1e9])
    p.density_int = interp1d(hh, np.zeros(2), kind='linear', fill_value=0.0, bounds_error=False)
    return p


def vehicle(c, p=None):
    """c: dict with planet, mass, beta, LD, A, RN, state (8-tuple), tol"""
    p = p or planet(c['planet'], kind=c.get('kind', 'linear'), h_skip=c.get('h_skip'))
    v = Vehicle('V', c['mass'], c['beta'], c['LD'], c['A'], c.get('alpha', 0.0), c['RN'], p, **({'userDefinedCDMach': True} if c.get('cdm') else {}))
    if c.get('cdm'):
        cd = c['mass'] / (c['beta'] * c['A'])
        v.setCDMachFunction(lambda M: cd * np.interp(M, CDM, c['cdm']))
    v.setInitialState(*c['state'])
    v.setSolverParams(c.get('tol', 1e-6))
    return v


def random_vehicle(r, pid, **over):
    """random flight configuration on planet pid; r: random.Random"""
    c = dict(planet=pid, mass=r.choice([25.97, 300.0, 1000.0, 4063.0]), beta=r.uniform(30, 400), LD=r.choice([0.0, 0.2, 0.4, r.uniform(0.05, 1.0)]),
             A=r.uniform(0.2, 12.0), RN=r.uniform(0.1, 2.5), kind=r.choice(['linear', 'cubic']), tol=1e-6)
    c['alpha'] = r.choice([0., 0., .15, -.4])
    p = Planet(pid)
    lo, hi = SPEED[pid]
    g0, g1 = GAMMA[pid]
    h0 = p.h_skip / 1e3
    if r.random() < 0.4:
        h0 = h0 * r.uniform(0.6, 0.99)
    c['state'] = [h0, r.choice([0.0, r.uniform(-180, 180)]), r.choice([0.0, r.uniform(-70, 70)]), r.uniform(lo, hi),
                  r.choice([0.0, r.uniform(-180, 180)]), r.uniform(g0, g1), r.choice([0.0, r.uniform(0, 3000)]), r.choice([0.0, r.uniform(0, 5e4)])]
    c.update(over)
    return c


def jittered(state, RP, k):
    """the state changed by a few units in the last place of each number (k = 1, 2, ...), as another order of the same arithmetic would"""
    r = random.Random(k)
    out = [x * (1 + r.choice([-3, -2, -1, 1, 2, 3]) * 2.2e-16) for x in state]
    out[0] += r.choice([-2, -1, 1, 2]) * 2.2e-16 * RP / 1e3
    return out
