"""C17: visibility (spec/View.tla, ViewGen.tla, ViewTrace.tla)."""
import math, random
import numpy as np
from AMAT.planet import Planet
from AMAT.approach import Approach
from AMAT.orbiter import PropulsiveOrbiter
from AMAT.visibility import LanderToPlanet, LanderToOrbiter, OrbiterToPlanet
import amat
from c14 import Truth, vinf_of, bi_axes, U
from c16 import Leg, kepler
from kit import q, res, relres, fingerprint

S9 = 1e9
N = np.linalg.norm
TARGETS = ['EARTH', 'VENUS', 'MARS', 'JUPITER', 'SATURN', 'URANUS', 'NEPTUNE', 'SUN', 'MERCURY']
DATES = ['2035-03-01 12:00:00', '1999-11-23 01:02:03', '2047-07-19 00:00:00', '2020-02-29 23:59:00']


def latitude(c, r):
    return r.choice([0., 0., 90., -90., 45.]) if r.random() < .12 else max(-89.9, min(89.9, 28. * c['lat'] + r.uniform(-14, 14)))


def day(r):
    return '%d-%02d-%02d %02d:%02d:%02d' % (r.randint(1975, 2075), r.randint(1, 12), r.randint(1, 28), r.randrange(24), r.randrange(60), r.randrange(60))


def later(date, r):
    """another hour of the same day"""
    return '%s %02d:%02d:%02d' % (date.split()[0], (int(date.split()[1][:2]) + r.randint(5, 19)) % 24, r.randrange(60), r.randrange(60))


def ephemeris(target, observer, date):
    from astropy.coordinates import solar_system_ephemeris, get_body_barycentric
    from astropy.time import Time
    with solar_system_ephemeris.set('builtin'):
        f = lambda b: get_body_barycentric(b, Time(date, scale='tdb')).xyz.value
        return np.asarray(f(target)) - np.asarray(f('saturn' if observer == 'TITAN' else observer))


def lander(p, lat, t):
    a = p.OMEGA * np.asarray(t)
    return p.RP * np.array([math.cos(lat) * np.cos(a), math.cos(lat) * np.sin(a), math.sin(lat) + 0 * a]).T


def looks(V, up, line, rng):
    """per-sample events of a lander: unit zenith directions, unit lines of sight"""
    ev = []
    for k in range(len(up)):
        el = math.degrees(math.atan2(up[k] @ line[k], N(np.cross(up[k], line[k]))))
        e = float(V.elevation_array[k])
        ev.append(dict(ev='look', elev=q(el, 1e6), rep=q(e, 1e6), zen=q(V.beta_array[k], 1e6), vis=int(bool(V.visible_array[k])), pos=int(e > 0), range=0 if rng is None else relres([V.range_array[k]], [rng[k]], S9)))
    return ev


def flags(x):
    return int(all(v in (0, 1) for v in np.asarray(x).tolist()))


def sizes(n, *arrs):
    return int(all(len(a) == n for a in arrs))


def wrapdeg(x):
    return (np.asarray(x, float) + 180) % 360 - 180


def near(r):
    """a small distance from an edge, either side"""
    return r.choice([-1, 1]) * 10 ** r.uniform(-4.7, -2.)


def graze(f, span, r):
    """a time up to span at which f is close to zero, if f changes sign"""
    ts = np.linspace(0, span, 400)
    v = [f(x) for x in ts]
    at = [j for j in range(1, 399) if v[j] * v[j + 1] < 0]
    if not at:
        return span
    j = r.choice(at)
    w = near(r)
    g = lambda x: f(x) - w
    lo, hi = ts[j], ts[j + 1]
    if g(lo) * g(hi) >= 0:
        return span
    for _ in range(60):
        m = .5 * (lo + hi)
        lo, hi = (m, hi) if g(lo) * g(m) > 0 else (lo, m)
    return lo


def l2p(c, r):
    name = amat.PLANETS[c['planet']]
    tgt = TARGETS[c['target']]
    if tgt == name or (name == 'TITAN' and tgt == 'SATURN'):
        return []
    date = DATES[c['date']] if r.random() < .5 else day(r)
    ev = l2p_view(c, r, name, tgt, date)
    return ev if r.random() < .6 else ev + l2p_view(c, r, name, tgt, later(date, r))


def l2p_view(c, r, name, tgt, date):
    p = Planet(name)
    lat = latitude(c, r)
    n = [2, 25, 49][c['n']]
    d = ephemeris(tgt, name, date)
    u = U(bi_axes(p) @ d)
    if r.random() < .3:                              # a site that has the target just above or below the horizon at the start
        R, s = math.hypot(u[0], u[2]), math.sin(near(r))
        if abs(s) < R:
            both = [wrapdeg(math.degrees(math.atan2(u[2], u[0]) + k * math.acos(s / R))) for k in (-1, 1)]
            lat = ([float(x) for x in both if abs(x) <= 90] or [lat])[0]
    V = LanderToPlanet(tgt, name, lat, date, num_points=n, ephem_file='builtin')
    T = 2 * math.pi / abs(p.OMEGA)
    t = np.linspace(0, T, n)
    ok = sizes(n, V.t_array, V.longitude_array, V.beta_array, V.elevation_array, V.visible_array)
    L = lander(p, math.radians(lat), t)
    last = np.asarray(getattr(V, 'lander_pos_vec_bi', L[-1]), float)         # the position of the last sample, where it is kept
    ev = [dict(ev='time', t0=int(V.t_array[0] != 0), t=relres(V.t_array, t, S9) if ok else 10 ** 9, n=ok, lon=res(np.max(np.abs(wrapdeg(np.asarray(V.longitude_array) - np.degrees(p.OMEGA * t)))), 1e6) if ok else 10 ** 9,
               pos=res(N(last - L[-1]) / p.RP, S9), dir=res(N(np.asarray(getattr(V, 'obs_tar_pos_vec_bi_unit', u), float) - u), S9), orb=0, range=relres([V.range], [N(d) * 1e3], S9), flag=flags(V.visible_array))]
    if ok:
        ev += looks(V, L / p.RP, np.array([u] * n), None)
    return ev


def orb(c, r):
    name = amat.PLANETS[c['planet']]
    p = Planet(name)
    mu = p.GM
    v = vinf_of(dict(dir=c['dir'], speed=1), r, p)
    rp = p.RP * r.uniform(1.05, 2.5)
    psi = 2 * math.pi * c['psi'] / 4 + r.uniform(-.7, .7)
    A = Approach(name, v_inf_vec_icrf_kms=v.copy(), rp=rp, psi=psi)
    X = Truth(p, v, rp, psi)
    ra = rp * [r.uniform(1.02, 1.3), r.uniform(2., 6.), r.uniform(10., 40.)][c['size']]
    O = PropulsiveOrbiter(A, (ra - p.RP) / 1e3)
    Lg = Leg.shape(mu, X.P, X.Q, X.hh, rp, ra)
    k = min(1., Lg.sini)
    T = 2 * math.pi * math.sqrt(Lg.a ** 3 / mu)
    ev, kept, before = [], [], []

    def positions(t):
        out = []
        for x in t:
            E = kepler(2 * math.pi * x / T, Lg.e)
            out.append(Lg.a * ((math.cos(E) - Lg.e) * Lg.P + math.sqrt(1 - Lg.e ** 2) * math.sin(E) * Lg.Q))
        return np.array(out)

    for view in c['views']:
        n = r.choice([24, 37, 60])
        span = [r.uniform(.2, 1.), r.uniform(1., 4.), r.uniform(10., 60.)][c['span']] * T
        t = np.linspace(0, span, n)
        pos = positions(t)
        if view == 'l2o':
            lat = latitude(c, r)
            if r.random() < .5:                      # the last sample with the orbiter just above or below the horizon
                def sine(x):
                    Lx = lander(p, math.radians(lat), np.array([x]))[0]
                    return U(Lx) @ U(positions([x])[0] - Lx)
                span = graze(sine, span, r)
                t = np.linspace(0, span, n)
                pos = positions(t)
            V = LanderToOrbiter(name, lat, O, span, num_points=n)
            L = lander(p, math.radians(lat), t)
            got = np.array([V.lander_pos_x_bi_arr, V.lander_pos_y_bi_arr, V.lander_pos_z_bi_arr]).T
            go = np.array([V.orbiter_pos_x_bi_arr, V.orbiter_pos_y_bi_arr, V.orbiter_pos_z_bi_arr]).T
            ok = int(sizes(n, V.t_array, V.longitude_array, V.beta_array, V.elevation_array, V.visible_array, V.range_array) and got.shape == L.shape and go.shape == L.shape)
            D = pos - L
            rng = N(D, axis=1)
            ev.append(dict(ev='time', t0=int(V.t_array[0] != 0), t=relres(V.t_array, t, S9), n=ok, lon=res(np.max(np.abs(wrapdeg(np.asarray(V.longitude_array) - np.degrees(p.OMEGA * t)))), 1e6) if ok else 10 ** 9, pos=res(np.max(N(got - L, axis=1)) / p.RP, S9) if ok else 10 ** 9,
                           dir=0, orb=res(np.max(N(go - pos, axis=1) / N(pos, axis=1)) * k, S9) if ok else 10 ** 9, range=0, flag=flags(V.visible_array)))
            if ok and k > .05:
                ev += looks(V, L / p.RP, D / rng[:, None], rng)
            kept.append((V, ['t_array', 'longitude_array', 'beta_array', 'elevation_array', 'visible_array', 'range_array', 'orbiter_pos_x_bi_arr', 'orbiter_pos_z_bi_arr', 'lander_pos_x_bi_arr']))
        else:
            tgt = r.choice([x for x in TARGETS if x != name and not (name == 'TITAN' and x == 'SATURN')])
            date = DATES[r.randrange(4)] if r.random() < .5 else day(r)
            if before and r.random() < .5:
                tgt, date = before[-1][0], later(before[-1][1], r)
            before.append((tgt, date))
            d = ephemeris(tgt, name, date)
            u = U(bi_axes(p) @ d)
            if r.random() < .5:                      # the last sample just before or after a limb crossing
                def miss(x):
                    P = positions([x])[0]
                    return N(np.cross(P, u)) / p.RP - 1 if P @ u < 0 else 1.
                span = graze(miss, span, r)
                t = np.linspace(0, span, n)
                pos = positions(t)
            V = OrbiterToPlanet(tgt, name, O, date, span, num_points=n, ephem_file='builtin')
            go = np.array([V.orbiter_pos_x_bi_arr, V.orbiter_pos_y_bi_arr, V.orbiter_pos_z_bi_arr]).T * p.RP
            ok = int(sizes(n, V.t_array, V.visible_array, V.d_array) and go.shape == pos.shape)
            ev.append(dict(ev='time', t0=int(V.t_array[0] != 0), t=relres(V.t_array, t, S9), n=ok, lon=0, pos=0, dir=res(N(np.asarray(getattr(V, 'obs_tar_pos_vec_bi_unit', u), float) - u), S9), orb=res(np.max(N(go - pos, axis=1) / N(pos, axis=1)) * k, S9) if ok else 10 ** 9,
                           range=relres([V.range], [N(d) * 1e3], S9), flag=flags(V.visible_array)))
            if ok and k > .05:
                for j in range(n):
                    w = N(np.cross(pos[j], u)) / p.RP
                    ev.append(dict(ev='pass', toward=q(-(pos[j] @ u) / N(pos[j]), 1e6), miss=q(min(w, 9.), 1e8), vis=int(bool(V.visible_array[j])), d=res((V.d_array[j] - w) / (N(pos[j]) / p.RP), S9)))
            kept.append((V, ['t_array', 'd_array', 'visible_array', 'range', 'orbiter_pos_x_bi_arr']))
        V._seen = None
        for (W, names, *b4) in kept[:-1]:
            ev.append(dict(ev='stay', same=int(fingerprint([getattr(W, x) for x in names]) == b4[0])))
        W, names = kept[-1]
        kept[-1] = (W, names, fingerprint([getattr(W, x) for x in names]))
    return ev


def relay(c, r):
    """a stationary relay: equatorial circular orbit of one rotation period, seen from under it and from elsewhere on its meridian"""
    name = c['planet']
    p = Planet(name)
    s = 1 if p.OMEGA > 0 else -1
    rs = (p.GM / p.OMEGA ** 2) ** (1 / 3)
    v = r.uniform(2., 12.)
    e = 1 + rs * (v * 1e3) ** 2 / p.GM
    th = math.acos(-1 / e)
    O = PropulsiveOrbiter(Approach(name, v_inf_vec_icrf_kms=bi_axes(p).T @ np.array([-math.cos(th), s * math.sin(th), 0.]) * v, rp=rs, psi=math.pi * (1.5 if s > 0 else .5)), (rs - p.RP) / 1e3)
    start = np.asarray(O.pos_vec_bi(0.), float)
    if N(start - [rs, 0, 0]) > 1e-6 * rs:
        return []
    ev = []
    for lat in [0., r.choice([0., r.uniform(-80., 80.)])]:
        n, span = r.choice([200, 301]), abs(2 * math.pi / p.OMEGA) * r.choice([1., r.uniform(.1, 3.)])
        t = np.linspace(0, span, n)
        V = LanderToOrbiter(name, lat, O, span, num_points=n)
        L = lander(p, math.radians(lat), t)
        D = lander(p, 0., t) * rs / p.RP - L
        rng = N(D, axis=1)
        ok = sizes(n, V.t_array, V.longitude_array, V.beta_array, V.elevation_array, V.visible_array, V.range_array)
        ev.append(dict(ev='time', t0=int(V.t_array[0] != 0), t=relres(V.t_array, t, S9), n=ok, lon=0, pos=0, dir=0, orb=0, range=0, flag=flags(V.visible_array)))
        if ok:
            ev += looks(V, L / p.RP, D / rng[:, None], rng)
    return ev


def case(c):
    if 'body' in c:
        return [amat.body(c['body'])]
    r = random.Random(c['n'] if c['kind'] == 'orb' else c['seed'])
    return dict(orb=orb, l2p=l2p, relay=relay)[c['kind']](c, r)


def run(ctx):
    ctx.design('View', 'CONSTANTS\nRad = 2\nSpan = %d\nMaxT = %d\nSPECIFICATION Spec\nINVARIANTS RuleIsDefinition OneEntryPerTime LatitudeStays OneTurnIsFour Mirror VolumeNeverFalls NothingUnseen\nCHECK_DEADLOCK FALSE\n' % ((5, 7) if ctx.thorough else (3, 4)))
    g = ctx.generate('ViewGen', 'SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n')
    r = ctx.rng('c17')
    r.shuffle(g)
    a, b = [c for c in g if c['kind'] == 'l2p'], [c for c in g if c['kind'] == 'orb']
    a = [dict(c, seed=r.randrange(10 ** 9)) for c in (a if ctx.thorough else a[:300])]
    b = [dict(c, n=r.randrange(10 ** 9)) for c in (b[:6000] if ctx.thorough else b[:400])]
    d = [dict(kind='relay', planet=x, seed=r.randrange(10 ** 9)) for x in amat.PLANETS for _ in range(8 if ctx.thorough else 1)]
    cases = a + b + d
    ctx.notes['lattice_points'] = len(g)
    ctx.cases_replayed += len(cases)
    cases += [dict(body=x) for x in amat.PLANETS]
    traces = ctx.run_cases(case, cases, timeout=120)
    ctx.validate('ViewTrace', cases, traces)
