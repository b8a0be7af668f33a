"""C12: laws of the flight dynamics (spec/Dynamics.tla, DynamicsGen.tla, DynamicsTrace.tla)."""
import math, random
import numpy as np
from scipy.interpolate import CubicSpline
import amat, orbit
from kit import q, res, relres

COS8 = [1, 1, 0, -1, -1, -1, 0, 1]


def cdmach(m):
    m = np.asarray(m, float)
    return 1.0 + 0.6 * np.tanh((m - 1.2) * 1.3) * np.exp(-m / 60.)


def config(c, r):
    pl = amat.PLANETS[c['planet']]
    p = amat.Planet(pl)
    lo, hi = amat.SPEED[pl]
    gam = {-2: -r.uniform(30, 60), -1: -r.uniform(3, 20), 0: r.uniform(-1, 1), 1: r.uniform(3, 40)}[c['path']]
    lat = {-2: -r.uniform(50, 75), -1: -r.uniform(10, 40), 0: r.uniform(-2, 2), 1: r.uniform(10, 40), 2: r.uniform(50, 75)}[c['lat']]
    if c['lat'] == 0 and r.random() < .3:
        lat = 0.
    head = 45. * c['head'] + (0. if r.random() < .2 else r.uniform(-15, 15))      # also due east, north, ...
    if c['path'] == 0 and r.random() < .3:
        gam = 0.
    top = min(p.h_skip, p.h_thres)
    f = dict(TITAN=.35, URANUS=.3, NEPTUNE=.35, SATURN=.4, JUPITER=.45).get(pl, .5)
    return dict(planet=pl, mass=r.choice([60., 900.]), beta=r.uniform(60, 300), LD=[0., r.uniform(.1, .3), r.uniform(.4, .8)][c['ld']], A=r.uniform(.5, 8), RN=r.uniform(.2, 2.),
                h=top * r.uniform(f, f + .2) / 1e3, theta=r.uniform(-180, 180), phi=lat, v=r.uniform(lo, hi) * (1. if c['path'] < 0 or r.random() < .5 else r.uniform(.5, .9)),
                psi=head, gamma=gam, alpha=r.choice([0., .3, -.2]), bank=45. * c['bank'], cdm=c['cdm'], air=c['air'], drange=r.choice([0., 900.]))


def build(k, LD=None, tol=1e-11, kind='cubic'):
    p = amat.planet(k['planet'], kind=kind) if k['air'] else amat.vacuum(k['planet'])
    p.h_skip, p.h_trap = 1e12, -1e12
    if not k['air']:
        p.density = lambda h: 0.0       # also below the surface
    v = amat.Vehicle('V', k['mass'], k['beta'], k['LD'] if LD is None else LD, k['A'], k.get('alpha', 0.0), k['RN'], p, userDefinedCDMach=bool(k['cdm']))
    if k['cdm']:
        v.setCDMachFunction(cdmach)
    v.setInitialState(k['h'], k['theta'], k['phi'], k['v'], k['psi'], k['gamma'], k['drange'], 0.0)
    v.setSolverParams(tol)
    return v


def fly(k, t, dt, integ=1, **kw):
    v = build(k, **kw)
    getattr(v, 'propogateEntry' + ('2' if integ == 2 else ''))(t, dt, k['bank'])
    return v


def series(v):
    return [np.asarray(x, float) for x in (v.tc, v.rc, v.thetac, v.phic, v.vc, v.psic, v.gammac, v.drangec)]


def jacobi(p, r, phi, v):
    """energy in the rotating frame of the oblate planet, per unit mass"""
    s = np.sin(phi)
    x = r / p.RP
    U = p.GM / p.RP * (-1 / x + p.J2 / (2 * x ** 3) * (3 * s ** 2 - 1) + p.J3 / (2 * x ** 4) * (5 * s ** 3 - 3 * s))
    return v ** 2 / 2 - p.OMEGA ** 2 * r ** 2 * np.cos(phi) ** 2 / 2 + U


def drag(k, p, r, v):
    rho = np.array([p.density(x) for x in (r - p.RP)], float)
    CD = k['mass'] / (k['beta'] * k['A'])
    if k['cdm']:
        CD = cdmach(v / np.asarray(p.sonic_int(r - p.RP), float))
    return .5 * rho * v ** 2 * CD * k['A'] / k['mass'], .5 * rho * v ** 2 * (k['mass'] / (k['beta'] * k['A'])) * k['A'] / k['mass']


def accel(p, r, th, ph):
    """gravity of the oblate planet, a vector in planet-fixed axes, from the gradient of the potential"""
    er = np.array([np.cos(ph) * np.cos(th), np.cos(ph) * np.sin(th), np.sin(ph)])
    en = np.array([-np.sin(ph) * np.cos(th), -np.sin(ph) * np.sin(th), np.cos(ph)])
    x, s = r / p.RP, np.sin(ph)
    g = p.GM / p.RP ** 2
    gr = g * (-1 / x ** 2 + 3 * p.J2 / (2 * x ** 4) * (3 * s * s - 1) + 2 * p.J3 / x ** 5 * (5 * s ** 3 - 3 * s))
    gn = -g * (3 * p.J2 / x ** 4 * s * np.cos(ph) + p.J3 / (2 * x ** 5) * (15 * s * s - 3) * np.cos(ph))
    return gr * er + gn * en


def local(k, v, j, dt):
    """rates at sample j by a five point stencil, against vector mechanics"""
    p = v.planetObj
    t, r, th, ph, V, ps, ga, ds = (x[j - 2:j + 3] for x in series(v))
    D = lambda y: (y[0] - 8 * y[1] + 8 * y[3] - y[4]) / (12 * dt)
    r0, th0, ph0, v0, ps0, ga0 = (x[2] for x in (r, th, ph, V, ps, ga))
    er = np.array([np.cos(ph0) * np.cos(th0), np.cos(ph0) * np.sin(th0), np.sin(ph0)])
    ee = np.array([-np.sin(th0), np.cos(th0), 0.])
    en = np.cross(er, ee)
    vel = v0 * (np.sin(ga0) * er + np.cos(ga0) * (np.cos(ps0) * ee + np.sin(ps0) * en))
    W = np.array([0, 0, p.OMEGA])
    R = r0 * er
    dr, lbase = drag(k, p, np.array([r0]), np.array([v0]))
    vh = vel / v0
    side = -np.sin(ps0) * ee + np.cos(ps0) * en          # horizontal, to the left of the heading
    upv = np.cross(vh, side)
    upv = upv if upv @ er > 0 else -upv
    b = math.radians(k['bank'])
    lift = lbase[0] * k['LD'] * (np.cos(b) * upv + np.sin(b) * side)
    aero = -dr[0] * vh + lift
    g = accel(p, r0, th0, ph0)
    cor = -2 * np.cross(W, vel) - np.cross(W, np.cross(W, R))
    a = g + aero + cor
    # acceleration of the moving triad: d/dt of the local directions along the path
    thd, phd = vel @ ee / (r0 * np.cos(ph0)), vel @ en / r0
    vdot = a @ vh
    # gamma: V cos(gamma) gdot = a_r + (horizontal speed)^2/r - vdot sin(gamma)
    vhor2 = (vel @ ee) ** 2 + (vel @ en) ** 2
    gdot = (a @ er + vhor2 / r0 - vdot * np.sin(ga0)) / (v0 * np.cos(ga0))
    # heading: components of the horizontal acceleration in the turning local axes
    ve, vn, vr = vel @ ee, vel @ en, vel @ er
    ved = a @ ee + ve * vn / r0 * np.tan(ph0) - ve * vr / r0
    vnd = a @ en - ve * ve / r0 * np.tan(ph0) - vn * vr / r0
    psd = (ve * vnd - vn * ved) / vhor2
    # the code divides the heading forces by (cos(gamma) + 0.01): forces that pass through that term
    f = abs((g + lift + (-np.cross(W, np.cross(W, R)))) @ side) / (v0 * np.cos(ga0)) + 2 * abs(p.OMEGA) * abs(np.tan(ga0))
    slack = 1.3 * .01 / np.cos(ga0) * f
    sc = (np.linalg.norm(g) + np.linalg.norm(aero) + v0 * v0 / r0)
    return dict(ev='local', dr=res((D(r) - vr) / v0, 1e6), dth=res((D(th) - thd) * r0 * np.cos(ph0) / v0, 1e6), dph=res((D(ph) - phd) * r0 / v0, 1e6), ds=res((D(ds) - v0 * np.cos(ga0)) / v0, 1e6),
                dv=res((D(V) - vdot) / sc, 1e6), dg=res((D(ga) - gdot) * v0 / sc, 1e6), dpsi=res((D(ps) - psd) * v0 * np.cos(ga0) / sc, 1e6), slack=q(slack * v0 * np.cos(ga0) / sc, 1e6))


def case(c):
    r = random.Random(c['n'])
    k = config(c, r)
    ev = []
    # local laws
    dt = .05
    v = fly(k, 12 * dt, dt)
    ev.append(local(k, v, 5, dt))
    # a longer flight: energy
    T = r.choice([60., 150.]) if k['air'] else r.choice([300., 1200.])
    v = fly(k, T, .25 if k['air'] else 5.)
    p = v.planetObj
    t, R, th, ph, V, ps, ga, ds = series(v)
    m = len(t)
    bad = np.where((np.abs(ga) > math.radians(80)) | (np.abs(ph) > math.radians(85)) | (R < p.RP + 1e3) | (V < 50.) | (np.degrees(ga) < -80))[0]
    m = int(bad[0]) if len(bad) else m
    if m > 10:
        J = jacobi(p, R[:m], ph[:m], V[:m])
        E0 = V[0] ** 2 / 2
        dr, _ = drag(k, p, R[:m], V[:m])
        P = dr * V[:m]
        lost = CubicSpline(t[:m], P).antiderivative()(t[:m])
        tot = max(lost[-1], 1e-6 * E0)
        ev.append(dict(ev='flight', air=k['air'], drift=res(np.max(np.abs(J - J[0])) / E0, 1e9), gain=res(max(0., np.max(np.diff(J))) / E0, 1e9), balance=res(np.max(np.abs(J[0] - J - lost)) / tot, 1e6)))
    # lift
    if k['air'] and k['LD'] > 0:
        sr = build(k)
        f = lambda b, ld: [float(np.asarray(y)[-1]) for y in (lambda w: (w.vc, w.gammac, w.psic))(fly(dict(k, bank=b), 12 * dt, dt, LD=ld))]
        a, z, u, h = f(k['bank'], None), f(k['bank'], 0.0), f(0.0, None), f(k['bank'], k['LD'] / 2)
        ref = u[1] - f(0.0, 0.0)[1]
        if ref > 1e-7:
            b = math.radians(k['bank'])
            up, sd = (a[1] - z[1]) / ref, (a[2] - z[2]) * (math.cos(math.radians(k['gamma'])) + .01) / ref
            hh = [(h[1] - z[1]) / ref, (h[2] - z[2]) * (math.cos(math.radians(k['gamma'])) + .01) / ref]
            prop = max(abs(2 * hh[0] - up), abs(2 * hh[1] - sd), abs(up - math.cos(b)) - .01, abs(sd - math.sin(b)) - .02)
            d0 = drag(k, sr.planetObj, np.array([sr.planetObj.RP + k['h'] * 1e3]), np.array([k['v'] * 1e3]))[0][0] * 12 * dt
            # drag of a vehicle without lift, with and without air
            vac = float(fly(dict(k, air=0, bank=0.), 12 * dt, dt, LD=0.).vc[-1])
            ev.append(dict(ev='lift', bank=c['bank'], up=q(up, 1e6) if c['bank'] not in (2, 6) else q(up, 1e5), side=q(sd, 1e6) if c['bank'] not in (0, 4) else q(sd, 1e5), prop=res(max(0, prop), 1e6),
                           work=res(abs(a[0] - z[0]) / max(abs(z[0] - vac), 1e-3 * k['v'] * 1e3 / 1e3), 1e4), drag=q((z[0] - vac) / max(d0, 1e-9), 1e3)))
    # integrators
    if c['agree']:
        T = 200. if k['air'] else 600.
        A, B = fly(k, T, 2., 1, tol=1e-9), fly(k, T, 2., 2, tol=1e-9)
        a, b = series(A), series(B)
        n = min(len(a[0]), len(b[0]))
        bad = np.where((np.abs(a[6][:n]) > math.radians(75)) | (np.abs(a[3][:n]) > math.radians(85)) | (a[1][:n] < p.RP) | (a[4][:n] < 100.))[0]
        cut = int(bad[0]) if len(bad) else n
        d = [relres(x[:cut], y[:cut], 1e6, floor=s) for x, y, s in zip(a, b, (1., 1., 1., 1., V[0], 1., 1., 1e6))] if cut else [0]
        # the flights end together unless one was stopped by the vertical path
        flag = int(len(a[0]) == len(b[0]) or len(bad) > 0)
        if not flag:
            w = a if len(a[0]) > n else b
            flag = int(abs(w[6][n]) > math.radians(75) or abs(w[3][n]) > math.radians(85) or w[1][n] < p.RP or w[4][n] < 100.)
        ev.append(dict(ev='agree', diff=-1 if min(d) < 0 else max(d), flag=flag, tol=300))
    return ev


def forces(c):
    """force and acceleration terms in every form: scalar, vectorised, nondimensional"""
    r = random.Random(c['n'])
    ev = []
    for _ in range(c['m']):
        k = config(dict(planet=amat.PLANETS.index(c['planet']), path=r.randint(-2, 1), lat=r.randint(-2, 2), ld=r.randint(0, 2), head=r.randint(0, 7), bank=r.randint(0, 7), cdm=r.randint(0, 1), air=1), r)
        k['bank'] += r.uniform(-20, 20)
        v = build(k)
        p = v.planetObj
        n, b = 3, math.radians(k['bank'])
        R = p.RP + min(p.h_skip, p.h_thres, p.h_thres if p.h_skip > 1e11 else p.h_skip) * np.array([r.uniform(.05, .9) for _ in range(n)])
        V = k['v'] * 1e3 * np.array([r.uniform(.1, 1.2) for _ in range(n)])
        if r.random() < .2 and p.RP == int(p.RP):            # whole metres and metres per second
            R, V = np.rint(R).astype(int), np.rint(V).astype(int)
        th, ph = np.full(n, math.radians(k['theta'])), np.full(n, math.radians(k['phi']))
        dr, l0 = drag(k, p, R, V)
        li = l0 * k['LD']
        want = dict(a_s=-dr, a_n=li * math.cos(b), a_w=li * math.sin(b), D=dr * k['mass'], L=li * k['mass'])
        sc = dict(D=np.abs(dr) * k['mass'], L=np.abs(l0) * k['mass'])
        fac, ffac = p.RP / p.Vref ** 2, None
        out = {}
        for name, w in want.items():
            args = () if name in 'DL' else (b,)
            s = sc.get(name, np.maximum(np.abs(dr), np.abs(li)))
            a = np.array([float(getattr(v, name)(R[i], th[i], ph[i], V[i], *args)) for i in range(n)])
            x = np.asarray(getattr(v, name + 'vectorized')(R, th, ph, V, *args), float)
            z = [relres(a / s, w / s, 1e9, floor=1.), relres(x / s, w / s, 1e9, floor=1.)]
            if name not in 'DL':
                y = np.array([float(getattr(v, name + 'bar')(R[i] / p.RP, th[i], ph[i], V[i] / p.Vref, b)) for i in range(n)]) / fac
                z.append(relres(y / s, w / s, 1e9, floor=1.))
            out[name] = -1 if min(z) < 0 else max(z)
        ev.append(dict(ev='force', along=out['a_s'], up=out['a_n'], side=out['a_w'], drag=out['D'], lift=out['L']))
    return ev


def statics(c):
    return [amat.body(c['planet'])] + forces(c) + orbits(c)


def orbits(c):
    """orbit through a state, transfer costs"""
    r = random.Random(c['n'])
    p = amat.planet(c['planet'], kind='linear')
    v = amat.Vehicle('V', 100., 100., .2, 1., 0., 1., p)
    ev = []
    for _ in range(c['m']):
        rr = p.RP * r.choice([1.0 + r.uniform(0, .05), r.uniform(1, 5)])
        ve = math.sqrt(2 * p.GM / rr)
        th, ph, ps, ga = r.uniform(-math.pi, math.pi), r.uniform(-1.5, 1.5), r.uniform(-math.pi, math.pi), math.radians(r.choice([0.3, r.uniform(-80, 80)]))
        sp = ve * r.uniform(.6, 1.1)
        R, V = orbit.state_vectors(rr, th, ph, sp, ps, ga, p.OMEGA)
        el = orbit.elements(R, V, p.GM)
        if abs(el['E']) * rr / p.GM < 1e-2:
            continue
        apo = float(v.compute_ApoapsisAltitudeKm(rr, sp, ga, th, ph, ps)) if el['E'] < 0 else None
        peri = float(v.compute_PeriapsisAltitudeKm(rr, sp, ga, th, ph, ps))
        E, a = float(v.computeEnergyScalar(rr, sp)), None
        H = float(v.computeAngMomScalar(rr, sp, ga))
        rel = orbit.elements(*orbit.state_vectors(rr, th, ph, sp, ps, ga, 0.), p.GM)
        arr = np.asarray(v.computeEnergy(np.array([rr, rr * 1.1]), np.array([sp, sp * .9])), float)
        el2 = [relres([E], [rel['E']], 1e9, floor=p.GM / rr), relres([H], [np.linalg.norm(rel['h'])], 1e9), relres([float(v.computeSemiMajorAxisScalar(rel['E']))], [rel['a']], 1e9),
               res(float(v.computeEccScalar(np.linalg.norm(rel['h']), rel['E'])) ** 2 - rel['e'] ** 2, 1e9), relres([arr[0], arr[1]], [rel['E'], .5 * (.9 * sp) ** 2 - p.GM / (1.1 * rr)], 1e9, floor=p.GM / rr)]
        ev.append(dict(ev='orbit', apo=res((apo * 1e3 + p.RP - el['ra']) / el['a'], 1e8) if apo is not None else 0, peri=res((peri * 1e3 + p.RP - el['rp']) / el['a'], 1e8), elem=-1 if min(el2) < 0 else max(el2)))
        # transfers, any order of the apsides that keeps them apart
        ra = p.RP * r.uniform(1.05, 20)
        rp, tp = p.RP * r.uniform(.9, 1.04), p.RP * r.uniform(.95, 1.04)
        ta = p.RP * r.uniform(1.05, 20)
        km = lambda x: (x - p.RP) / 1e3
        va = lambda a_, p_: math.sqrt(2 * p.GM * p_ / (a_ * (a_ + p_)))
        vp = lambda a_, p_: math.sqrt(2 * p.GM * a_ / (p_ * (a_ + p_)))
        x = float(v.compute_periapsis_raise_DV(km(rp), km(ra), km(tp)))
        y = float(v.compute_apoapsis_raise_DV(km(rp), km(ra), km(ta)))
        wx, wy = va(ra, tp) - va(ra, rp), vp(ta, rp) - vp(ra, rp)
        big = lambda z: 0 if abs(z) < 1e-6 else (1 if z > 0 else -1)
        ev.append(dict(ev='dv', peri=res((x - wx) / va(ra, rp), 1e9), apo=res((y - wy) / vp(ra, rp), 1e9), speri=big(x), dperi=big(wx), sapo=big(y), dapo=big(wy)))
    return ev


def run(ctx):
    ctx.design('Dynamics', 'SPECIFICATION Spec\nCONSTANTS Steps=%d MaxE=3\nINVARIANTS TurnsTheRightWay NoTurnWithoutLift Proportional Orbits\nPROPERTIES EnergyConstantInVacuum EnergyOnlyFalls Balance LiftDoesNoWork\nCHECK_DEADLOCK FALSE\n' % (5 if ctx.thorough else 3), workers=8)
    g = ctx.generate('DynamicsGen', 'SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n')
    r = ctx.rng('c12')
    r.shuffle(g)
    cases, n = [], 0
    # every pair of (air, lift) with every bank and planet; the rest of the lattice as it comes
    for air, ld, num in ((0, 1, 60), (1, 0, 24), (1, 1, 140), (1, 2, 140)):
        sub = [c for c in g if c['air'] == air and c['ld'] == ld]
        seen = {}
        for c in sub:
            seen.setdefault((c['planet'], c['bank']), c)
        pick = list(seen.values())
        pick += [c for c in sub if c not in pick][:4000 if ctx.thorough else max(0, num - len(pick))]
        pick = pick[:(600 if ctx.thorough else num)]
        for c in pick:
            n += 1
            cases.append(dict(c, n=r.randrange(10 ** 9), agree=int(n % 4 == 0)))
    ctx.notes['lattice_points'] = len(g)
    ctx.cases_replayed += len(cases)
    traces = ctx.run_cases(case, cases, timeout=120)
    ctx.validate('DynamicsTrace', cases, traces)
    oc = [dict(planet=p, n=r.randrange(10 ** 9), m=400 if ctx.thorough else 60) for p in amat.PLANETS]
    traces = ctx.run_cases(statics, oc, timeout=60)
    ctx.validate('DynamicsTrace', oc, traces)
