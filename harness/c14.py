"""C14: approach hyperbolas (spec/Orbital.tla, ApproachGen.tla, ApproachTrace.tla)."""
import math, random
import numpy as np
from AMAT.planet import Planet
from AMAT.approach import Approach
import amat
from kit import q, res, relres

U = lambda x: np.asarray(x, float) / np.linalg.norm(x)
S9 = 1e9


def vres(a, b, scale=None):
    """residual of two vectors, relative to the size of the second"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    s = scale or np.linalg.norm(b) or 1.
    return res(np.linalg.norm(a - b) / s, S9)


def angres(a, b):
    d = (float(a) - float(b) + math.pi) % (2 * math.pi) - math.pi
    return res(d, S9)


def bi_axes(p):
    """rows: axes of the planet's inertial equator frame in ICRF, from the pole"""
    pole = np.array([math.cos(p.d0) * math.cos(p.a0), math.cos(p.d0) * math.sin(p.a0), math.sin(p.d0)])
    x = np.array([-math.sin(p.a0), math.cos(p.a0), 0.])        # ascending node of the planet's equator on the ICRF equator
    return np.array([x, np.cross(pole, x), pole])


def vinf_of(c, r, p):
    d = np.array(c['dir'], float) + np.array([r.uniform(-.35, .35) for _ in range(3)])
    if r.random() < .1:
        k = r.randrange(3)
        s = np.sign(d) * np.eye(3)[k] if r.random() < .5 else d * (1 - np.eye(3)[k])      # along an axis or in a plane of the inertial frame
        if np.linalg.norm(np.cross(U(s), bi_axes(p)[2])) > 1e-3:                           # along the pole the aim point's angle has no meaning
            d = s
    elif r.random() < .15:                                   # in the equator plane of the planet: with the aim angle due east or west, an equatorial orbit
        k = bi_axes(p)
        d = (math.cos(d[0] * 3) * k[0] + math.sin(d[0] * 3) * k[1]) if r.random() < .5 else k[r.randrange(2)] * np.sign(d[0])
    elif r.random() < .1:                                    # almost along the pole, either way
        k = bi_axes(p)
        t, f = r.uniform(.002, .06), r.uniform(-math.pi, math.pi)
        d = math.sin(t) * (math.cos(f) * k[0] + math.sin(f) * k[1]) + math.cos(t) * k[2] * r.choice([1, -1])
    ve = math.sqrt(2 * p.GM / p.RP) / 1e3
    return U(d) * ve * [r.uniform(.03, .1), r.uniform(.2, .6), r.uniform(.8, 2.)][c['speed']]


def build(c, r):
    p = Planet(amat.PLANETS[c['planet']])
    v = vinf_of(c, r, p)
    h_EI = p.h_skip * (r.uniform(.8, 1.2) if r.random() < .7 else r.choice([1., r.uniform(.1, .8), r.uniform(1.2, 3.)]))
    rp = (p.RP + h_EI * r.uniform(.05, .9)) if c['entry'] else p.RP * r.uniform(1.02, 6.)
    if c['deep'] and c['entry']:
        rp = p.RP * r.uniform(.5, .99)
    psi = 2 * math.pi * c['psi'] / 8 + (r.choice([0., 0., 1e-9, -1e-9]) if r.random() < .25 else r.uniform(-.35, .35))      # a quarter due north, east, south, west or half way
    given = v.copy()
    A = Approach(amat.PLANETS[c['planet']], v_inf_vec_icrf_kms=given, rp=rp, psi=psi, is_entrySystem=bool(c['entry']), h_EI=h_EI if c['entry'] else None)
    return p, v, rp, psi, h_EI, A, int(np.array_equal(given, v))


class Truth:
    """the hyperbola asked for, built from vectors"""
    def __init__(self, p, v_icrf_kms, rp, psi):
        M = bi_axes(p)
        self.M = M
        self.vinf = M @ (np.asarray(v_icrf_kms, float) * 1e3)
        self.S = U(self.vinf)
        self.v = np.linalg.norm(self.vinf)
        self.mu = p.GM
        self.a = -p.GM / self.v ** 2
        self.e = 1 + rp * self.v ** 2 / p.GM
        self.rp = rp
        T = U(np.cross(self.S, [0, 0, 1]))
        R = np.cross(self.S, T)
        self.T, self.R = T, R
        th = psi + math.pi / 2
        self.B = math.cos(th) * T + math.sin(th) * R            # direction of the aim point
        b = -self.a * math.sqrt(self.e ** 2 - 1)
        self.bvec = b * self.B
        self.h = np.cross(self.bvec, self.vinf)
        # periapsis: turn from the aim direction
        self.hh = U(self.h)
        c = 1 / self.e
        self.P = c * self.S + math.sqrt(1 - c * c) * self.B
        self.Q = np.cross(self.hh, self.P)

    def state(self, th):
        r = self.rp * (1 + self.e) / (1 + self.e * math.cos(th))
        R = r * (math.cos(th) * self.P + math.sin(th) * self.Q)
        V = self.mu / np.linalg.norm(self.h) * (-math.sin(th) * self.P + (self.e + math.cos(th)) * self.Q)
        return R, V


def approach_events(c, r):
    p, v, rp, psi, h_EI, A, given = build(c, r)
    X = Truth(p, v, rp, psi)
    H = np.linalg.norm(X.h)
    ev = [dict(ev='shape', given=given, a=relres([A.a], [X.a], S9), e=relres([A.e], [X.e], S9), h=relres([A.h], [H], S9), rp=relres([np.linalg.norm(A.rp_vec_bi)], [rp], S9), beta=res(math.cos(A.beta) - 1 / X.e, S9),
               asym=vres(A.rp_vec_bi, rp * X.P), vinf=max(vres(A.v_inf_vec_bi, X.vinf), vres(A.v_inf_vec_bi_unit, X.S), vres(A.v_inf_vec_bi_kms, X.vinf / 1e3), relres([A.v_inf_mag, A.v_inf_mag_kms * 1e3, A.v_inf_vec_bi_mag_kms * 1e3], [X.v] * 3, S9)),
               hdir=vres(A.h_vec_bi_unit, X.hh), evec=max(vres(A.e_vec_bi, X.e * X.P), vres(A.e_vec_bi_unit, X.P), vres(A.rp_vec_bi_unit, X.P)))]
    # orientation
    N = np.cross([0, 0, 1], X.hh)
    sini = np.linalg.norm(N)
    cond = 1. if sini > 1e-2 else sini
    flat = sini < 1e-6                                          # no line of nodes to speak of
    node = math.atan2(N[1], N[0])
    argp = math.atan2(X.P[2], U(N) @ X.P * sini)                # e_z = sin i sin w
    M = np.array([A.ICRF_to_BI(x) for x in np.eye(3)]).T        # columns: images of the axes
    Dp = np.array([A.BI_to_BI_dprime(x) for x in np.eye(3)]).T
    rot = max(vres(M @ M.T, np.eye(3)), res(np.linalg.det(M) - 1, S9), vres(Dp @ Dp.T, np.eye(3)), res(np.linalg.det(Dp) - 1, S9),
              vres(A.ICRF_to_BI(np.array([v, 2 * v, -v])), np.array([X.vinf, 2 * X.vinf, -X.vinf]) / 1e3))
    axes = max(vres(A.S_vec_bi_unit, X.S), vres(A.T_vec_bi_unit, X.T), vres(A.R_vec_bi_unit, X.R), vres(A.T_vec_bi_unit_dprime, Dp @ X.T), vres(A.R_vec_bi_unit_dprime, Dp @ X.R),
               vres(A.rp_vec_bi_dprime, Dp @ (rp * X.P)), vres(A.rp_vec_bi_dprime_analytic, Dp @ (rp * X.P)), vres(A.h_vec_bi / np.linalg.norm(A.h_vec_bi), X.hh))
    # arccos loses digits near 0 and pi
    sq = lambda a: 1e9 * min(1., max(1e-6, abs(math.sin(a))))
    ang = lambda got, want: res(((float(got) - want + math.pi) % (2 * math.pi) - math.pi), sq(want) * cond)
    ev.append(dict(ev='plane', i=res(A.i - math.acos(max(-1, min(1, X.hh[2]))), sq(A.i)), node=ang(A.OMEGA, node), arg=ang(A.omega, argp), nodey=0 if flat else q(N[1] / sini, 1e6), nodeq=q(math.sin(A.OMEGA), 1e6), periz=0 if flat else q(X.P[2] / sini, 1e6),
                   argq=q(math.sin(A.omega), 1e6), axes=axes, b=relres([A.b_mag], [np.linalg.norm(X.bvec)], S9), bdir=vres(A.B_vec_bi_unit, X.B), bang=angres(A.b_plane_angle_theta, math.atan2(X.B @ X.R, X.B @ X.T)),
                   rot=rot, pole=vres(M, X.M), aim=vres(Dp @ X.S, [0, 0, 1])))
    # points
    lim = math.acos(-1 / X.e)
    cd = max(1e-3, sini)
    ths = [-lim * .97, -lim * .6, -.3, 1e-3, lim * .4, lim * .9, r.uniform(-lim, lim) * .98]
    arrp, arrv, arrr = np.asarray(A.pos_vec_bi(np.array(ths)), float), np.asarray(A.vel_vec_bi(np.array(ths)), float), np.asarray(A.r_mag_bi(np.array(ths)), float)
    for k, th in enumerate(ths):
        P, V = np.asarray(A.pos_vec_bi(th), float), np.asarray(A.vel_vec_bi(th), float)
        tP, tV = X.state(th)
        rr = np.linalg.norm(P)
        w = 1e-5
        rate = (np.asarray(A.pos_vec_bi(th + w), float) - np.asarray(A.pos_vec_bi(th - w), float)) / (2 * w) * H / rr ** 2
        vr = P @ V / rr
        ev.append(dict(ev='point', r=max(relres([rr], [np.linalg.norm(tP)], S9), relres([A.r_mag_bi(th)], [rr], S9)), plane=res(P @ X.hh / rr * cd, S9), energy=relres([V @ V / 2 - p.GM / rr], [X.v ** 2 / 2], S9, floor=p.GM / rr),
                       mom=res(np.linalg.norm(np.cross(P, V) - X.h) / H * cd, S9), rate=res(np.linalg.norm(rate - V) / np.linalg.norm(V), S9), radial=q(vr / np.linalg.norm(V), 1e6), side=int(np.sign(th)) if abs(th) > 1e-2 else int(np.sign(q(vr / np.linalg.norm(V), 1e6))),
                       anom=max(res(np.linalg.norm(P - tP) / rr * cd, S9), res(np.linalg.norm(V - tV) / np.linalg.norm(tV) * cd, S9)), arr=max(vres(arrp[:, k], P), vres(arrv[:, k], V), relres([arrr[k]], [rr], S9)), dp=vres(A.pos_vec_bi_dprime(th), Dp @ P)))
    if c['entry']:
        P, V = np.asarray(A.r_vec_entry_bi, float), np.asarray(A.v_vec_entry_bi, float)
        rE = p.RP + h_EI
        th = -math.acos(max(-1., min(1., (X.rp * (1 + X.e) / rE - 1) / X.e)))
        tP, tV = X.state(th)
        Va = tV - np.cross([0, 0, p.OMEGA], tP)
        u = tP / rE
        ga, gi = math.asin(u @ U(Va)), math.asin(u @ U(tV))
        east = U(np.cross([0, 0, 1], u))
        north = np.cross(u, east)
        head = math.atan2(Va @ north, Va @ east)
        coslat = math.hypot(u[0], u[1])
        # grazing entries: angles follow from a square root
        gz = min(1., max(1e-4, abs(math.sin(th))))
        known = math.acos(max(-1., min(1., U(Va) @ east)))
        ev.append(dict(ev='entry', r=max(relres([np.linalg.norm(P)], [rE], S9), relres([A.r_vec_entry_bi_mag, A.r_EI], [rE, rE], S9)), inb=int(P @ V < 0 and A.theta_star_entry < 0), on=max(res(np.linalg.norm(P - tP) / rE * gz * cd, S9), res(np.linalg.norm(V - tV) / np.linalg.norm(tV) * gz * cd, S9), res((A.theta_star_entry - th) * gz, S9)),
                       lat=max(res((A.latitude_entry_bi - math.asin(u[2])) * gz * cd * coslat, S9), res((A.latitude_entry_bi_analytic - math.asin(u[2])) * gz * cd * coslat, S9)), lon=res(((A.longitude_entry_bi - math.atan2(u[1], u[0]) + math.pi) % (2 * math.pi) - math.pi) * coslat * gz * cd, S9), v=relres([A.v_entry_inertial_mag, np.linalg.norm(V)], [np.linalg.norm(tV)] * 2, S9),
                       g=max(res((A.gamma_entry_inertial - gi) * gz * abs(math.sin(gi)), S9), res((A.gamma_entry_inertial_check - gi) * gz, S9)), va=res(np.linalg.norm(np.asarray(A.v_vec_entry_atm, float) - Va) / np.linalg.norm(Va) * gz * cd, S9), vam=res((A.v_entry_atm_mag - np.linalg.norm(Va)) / np.linalg.norm(Va) * gz, S9), ga=res((A.gamma_entry_atm - ga) * gz, S9),
                       head=res(((A.heading_entry_atm - head + math.pi) % (2 * math.pi) - math.pi) * gz * cd * abs(math.sin(head)), S9),
                       headk=res((A.heading_entry_atm - known) * gz * cd * abs(math.sin(known)), S9)))
    else:
        P, V = np.asarray(A.r_vec_rp_bi, float), np.asarray(A.v_vec_rp_bi, float)
        tP, tV = X.state(0.)
        ev.append(dict(ev='peri', r=vres(P, tP), v=res(np.linalg.norm(V - tV) / np.linalg.norm(tV) * cd, S9), dot=res(U(P) @ U(V) * cd, S9)))
    return ev


def case(c):
    return [amat.body(c['body'])] if 'body' in c else approach_events(c, random.Random(c['n']))


def run(ctx):
    ctx.design('Orbital', 'SPECIFICATION Spec\nINVARIANTS FrameOrthogonal MomentumIsNormal NodeReadBack ArgReadBack InclReadBack InPlane AheadOfPeriapsis Aim Asymptote\nCHECK_DEADLOCK FALSE\n')
    g = ctx.generate('ApproachGen', 'SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n')
    r = ctx.rng('c14')
    r.shuffle(g)
    cases = [dict(c, n=r.randrange(10 ** 9)) for c in (g if ctx.thorough else g[:1200])]
    ctx.notes['lattice_points'] = len(g)
    ctx.cases_replayed += len(cases)
    cases += [dict(body=x) for x in amat.PLANETS]
    traces = ctx.run_cases(case, cases, timeout=60)
    ctx.validate('ApproachTrace', cases, traces)
