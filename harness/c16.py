"""C16: orbits after capture (spec/Conic.tla, Mission.tla, OrbitGen.tla, OrbitTrace.tla)."""
import math, random
import numpy as np
from AMAT.planet import Planet
from AMAT.approach import Approach
from AMAT.orbiter import Orbiter, PropulsiveOrbiter
import amat, guided
from orbit import state_vectors
from c14 import Truth, vinf_of, vres, U, bi_axes
from kit import res, relres, fingerprint

S9 = 1e9
N = np.linalg.norm


class Leg:
    """the orbit through a state"""
    def __init__(self, mu, R, V):
        self.mu = mu
        self.h = np.cross(R, V)
        self.hh = U(self.h)
        self.ev = np.cross(V, self.h) / mu - U(R)
        self.e = N(self.ev)
        self.P = U(self.ev)
        self.Q = np.cross(self.hh, self.P)
        self.p = self.h @ self.h / mu
        self.a = self.p / (1 - self.e ** 2)
        self.E = V @ V / 2 - mu / N(R)
        self.rp, self.ra = self.p / (1 + self.e), self.p / (1 - self.e)
        self.R, self.V = R, V
        n = np.cross([0, 0, 1], self.hh)
        self.sini = N(n)
        self.node = math.atan2(n[1], n[0])
        self.arg = math.atan2(self.P[2], U(n) @ self.P * self.sini) if self.sini else 0.
        self.i = math.acos(max(-1., min(1., self.hh[2])))
        self.k = min(1., self.e)                    # how well the line of apsides is determined
        self.ka = self.k * min(1., self.sini)       # and the angles to and from the line of nodes

    @classmethod
    def shape(cls, mu, P, Q, hh, rp, ra):
        e = (ra - rp) / (ra + rp)
        p = rp * (1 + e)
        R = rp * P
        V = math.sqrt(mu * p) / rp * Q
        L = cls(mu, R, V)
        if abs(e) < 1e-9:                           # a circle: its angles are counted from P
            L.P, L.Q = P, Q
            L.arg = math.atan2(P[2], Q[2])
        return L

    def anomaly(self, R):
        return math.atan2(R @ self.Q, R @ self.P)

    def state(self, th):
        r = self.p / (1 + self.e * math.cos(th))
        return r * (math.cos(th) * self.P + math.sin(th) * self.Q), math.sqrt(self.mu / self.p) * (-math.sin(th) * self.P + (self.e + math.cos(th)) * self.Q)


def wrap(x):
    return (float(x) + math.pi) % (2 * math.pi) - math.pi


def angles_ok(got, want, k):
    """residual of an angle that came from an arc cosine"""
    return res(wrap(got - want) * k * min(1., max(1e-6, abs(math.sin(want)))), S9)


def points(L, pos, vel, rmag, ths, full=True):
    ev = []
    ap, av = np.asarray(pos(np.array(ths)), float), np.asarray(vel(np.array(ths)), float)
    for j, th in enumerate(ths):
        P, V = np.asarray(pos(th), float), np.asarray(vel(th), float)
        tP, tV = L.state(th)
        r = N(P)
        ev.append(dict(ev='point', r=max(relres([r], [N(tP)], S9), relres([rmag(th)], [N(tP)], S9)), pos=res(N(P - tP) / N(tP) * L.k, S9), energy=res((V @ V / 2 - L.mu / r - L.E) / (L.mu / r), S9),
                       mom=res(N(np.cross(P, V) - L.h) / N(L.h) * L.k, S9), vel=res(N(V - tV) / N(tV) * L.k, S9), arr=max(vres(ap[:, j], P), res(N(av[:, j] - V) / N(V), S9))))
    return ev


def arc_res(L, A, RP):
    """all points on the conic and in its plane"""
    X = np.asarray(A, float) * RP
    r = N(X, axis=1)
    conic = np.max(np.abs(r + X @ L.ev - L.p) / L.p)
    plane = np.max(np.abs(X @ L.hh) / r)
    return max(res(conic * L.k, S9), res(plane * L.k, S9)), res(plane * L.k, S9)


def end_of(veh, c, r):
    """orbit after a guided flight, with the apoapsis and the manoeuvre the flight itself reported"""
    f = {k: float(getattr(veh, k + '_full')[-1]) for k in guided.SERIES[:7]}
    p = veh.planetObj
    d = math.radians
    s = (p.RP + f['h_km'] * 1e3, d(f['theta_deg']), d(f['phi_deg']), f['v_kms'] * 1e3, d(f['psi_deg']), d(f['gamma_deg']))
    return s


def aero(c, r):
    if c['kind'] == 'guided':
        veh = guided.fly(c['flight'])
        return orbits(c, r, veh, end_of(veh, c, r), c['flight']['target'][0])
    name = amat.PLANETS[c['planet']]
    p = amat.planet(name, kind='linear')
    mu, W = p.GM, np.array([0., 0., p.OMEGA])
    # an outbound state below the top of the atmosphere, on a coast orbit asked for
    flat = r.random() < .12                                  # exactly over the equator, eastward or westward
    lat = 0. if flat else math.radians(35 * c['lat'] + r.uniform(-15, 15))
    lon = r.uniform(-math.pi, math.pi)
    rpc = p.RP + p.h_skip * r.uniform(.3, .85)
    ra = p.RP * [r.uniform(1.2, 2.), r.uniform(3., 10.), r.uniform(20., 80.)][c['size']] + p.h_skip
    r0 = p.RP + p.h_skip * r.uniform(.93, .98)
    r0 = max(r0, rpc * 1.0001)
    e = (ra - rpc) / (ra + rpc)
    pp = rpc * (1 + e)
    th = math.acos(max(-1., min(1., (pp / r0 - 1) / e)))
    vr, vt = math.sqrt(mu / pp) * e * math.sin(th), math.sqrt(mu * pp) / r0
    head = (math.pi if c['heading'] % 3 == 2 else 0.) if flat else 2 * math.pi * c['heading'] / 8 + r.uniform(-.39, .39)
    u = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
    east = np.array([-math.sin(lon), math.cos(lon), 0.])
    north = np.cross(u, east)
    V = vr * u + vt * (math.cos(head) * east + math.sin(head) * north) - np.cross(W, r0 * u)
    v, g = N(V), math.asin(V @ u / N(V))
    psi = math.atan2(V @ north, V @ east)
    d = math.degrees
    veh = amat.vehicle(dict(mass=2000., beta=300., LD=.2, A=5., RN=1., state=[(r0 - p.RP) / 1e3, d(lon), d(lat), v / 1e3, d(psi), d(g), 0., 0.], tol=1e-7), p)
    (veh.propogateEntry2 if r.random() < .5 else veh.propogateEntry)(3000., r.choice([.5, 1., 2.]), r.choice([0., 45., 180.]))
    peri = (p.h_skip * r.uniform(1.1, 4.)) / 1e3 if r.random() < .85 else None
    # exit state: the last sample of the flight
    return orbits(c, r, veh, (veh.rc[-1], veh.thetac[-1], veh.phic[-1], veh.vc[-1], veh.psic[-1], veh.gammac[-1]), peri)


def orbits(c, r, veh, state, peri):
    p = veh.planetObj
    mu, W = p.GM, np.array([0., 0., p.OMEGA])
    R, Vi = state_vectors(*state, p.OMEGA)
    _, Vr = state_vectors(*state)
    L = Leg(mu, R, Vi)
    if peri is None:                                        # lowered, not raised
        peri = (L.rp - p.RP) / 1e3 * r.uniform(.1, .97)
    if not (L.E < 0 and L.ra > (p.RP + peri * 1e3) * 1.001):
        return []                                           # not captured: no orbit to speak of
    O = Orbiter(veh, peri)
    gi = math.asin(U(R) @ U(Vi))
    ev = [dict(ev='exit', pos=vres(O.terminal_r_vec, R), vel=vres(O.terminal_v_ie_vec, Vi), rel=vres(O.terminal_v_vec, Vr), g=max(res(O.terminal_fpa_ie_rad - gi, S9), res(O.terminal_g_bi - gi, S9), relres([O.v_ie_mag, O.terminal_v_bi], [N(Vi)] * 2, S9)),
               rep=relres([O.terminal_r, O.terminal_v, O.terminal_r_bi], [N(R), N(Vr), N(R)], S9),
               said=relres([O.r_apoapsis_mag, O.PRM_dv_mag + 1.], [p.RP + 1e3 * float(veh.terminal_apoapsis), float(veh.periapsis_raise_DV) + 1.], S9) if c['kind'] == 'guided' else 0)]
    exit_k = L.k * max(1e-3, abs(math.sin(L.anomaly(R))))

    def coast(n):
        A = np.array([O.x_coast_arr, O.y_coast_arr, O.z_coast_arr]).T
        arc, plane = arc_res(L, A, p.RP)
        X = A * p.RP
        th = np.unwrap([L.anomaly(x) for x in X])
        end = -L.ra * L.P
        ev.append(dict(ev='coast', start=res(N(X[0] - R) / N(R) * exit_k, S9), end=max(res(N(X[-1] - end) / L.ra * L.k, S9), relres([O.r_apoapsis_mag], [L.ra], S9), res(N(np.asarray(O.r_apoapsis_vec) * p.RP - end) / L.ra * L.k, S9)), arc=arc, plane=plane,
                       elem=max(res(O.i - L.i, S9), angles_ok(O.OMEGA, L.node, L.ka), angles_ok(O.omega, L.arg, L.ka), res(N(np.asarray(O.e_vec_bi) - L.ev), S9), vres(O.h_vec_bi, L.h)), th=res((O.theta_star_exit - L.anomaly(R)) * exit_k, S9),
                       fwd=int(np.all(np.diff(th) > 0)), n=int(len(A) == n)))
    coast(301)
    rp = p.RP + peri * 1e3
    F = Leg.shape(mu, L.P, L.Q, L.hh, rp, L.ra)
    F.k = L.k
    v1, v2 = math.sqrt(mu * L.p) / L.ra, math.sqrt(mu * F.p) / L.ra
    av, ao = np.asarray(O.v_apoapsis_vec_coast, float), np.asarray(O.v_apoapsis_vec_orbit, float)

    def raised():
        ev.append(dict(ev='prm', ra=relres([O.r_mag_bi(math.pi)], [L.ra], S9), rp=max(relres([O.r_mag_bi(0.)], [rp], S9), relres([O.r_periapsis_mag], [rp], S9)), v1=relres([N(O.v_apoapsis_vec_coast), O.v_apoapsis_mag_coast], [v1] * 2, S9), v2=relres([N(O.v_apoapsis_vec_orbit), O.v_apoapsis_mag_orbit], [v2] * 2, S9),
                       par=res(N(U(O.v_apoapsis_vec_coast) - U(O.v_apoapsis_vec_orbit)), S9), perp=res(N(U(O.v_apoapsis_vec_orbit) + L.Q) * L.k, S9), dv=max(res(N(np.asarray(O.PRM_dv_vec) - (ao - av)) / N(ao), S9), res((O.PRM_dv_mag - abs(v2 - v1)) / v2, S9)),
                       elem=relres([O.a, O.e, O.h], [F.a, F.e, N(F.h)], S9, floor=1e-3), orient=max(res(O.i - F.i, S9), angles_ok(O.OMEGA, F.node, L.ka), angles_ok(O.omega, F.arg, L.ka))))
    raised()
    ths = [0.3, 1.7, 3.0, 3.5, 5., r.uniform(0, 2 * math.pi)]
    ev += points(F, O.pos_vec_bi, O.vel_vec_bi, O.r_mag_bi, ths)

    def arc(L_, arrs, start, end, n, full):
        A = np.array(arrs).T
        a, _ = arc_res(L_, A, p.RP) if full else (0, 0)
        ev.append(dict(ev='arc', start=res(N(A[0] * p.RP - start) / N(start) * L_.k, S9), end=res(N(A[-1] * p.RP - end) / N(end) * L_.k, S9), arc=a, n=int(len(A) == n)))

    def orbit(n):
        A = np.array([O.x_orbit_arr, O.y_orbit_arr, O.z_orbit_arr]).T * p.RP
        ap = -F.ra * F.P
        arc(F, (O.x_orbit_arr, O.y_orbit_arr, O.z_orbit_arr), ap, ap, n, True)
        half = A[(n - 1) // 2]                                # half way round: periapsis
        ev.append(dict(ev='arc', start=res(N(half - F.rp * F.P) / F.rp * F.k, S9), end=0, arc=0, n=1))
    orbit(601)

    probe = None
    COAST = ['a', 'e', 'h', 'i', 'OMEGA', 'omega', 'x_coast_arr', 'y_coast_arr', 'x_orbit_arr', 'z_orbit_arr', 'PRM_dv_vec', 'PRM_dv_mag', 'theta_star_exit', 'terminal_r_vec', 'r_apoapsis_mag', 'r_periapsis_mag', 'e_vec_bi', 'h_vec_bi']
    PROBE = ['a_probe_orbit', 'e_probe_orbit', 'h_probe_orbit', 'i_probe_orbit', 'OMEGA_probe_orbit', 'omega_probe_orbit', 'dV_vec_probe_targeting', 'r_periapsis_probe', 'theta_star_probe_targeting']
    DEFL = ['a_orbiter_defl', 'e_orbiter_defl', 'h_orbiter_defl', 'omega_orbiter_defl', 'dV_vec_orbiter_deflection', 'x_orbiter_defl_arr']
    attr = lambda names: fingerprint([getattr(O, n, None) for n in names])

    def after(X, r1, v1v, dV, a, e, h, i, Om, om, evec, hvec, dvec, aps, isp, on, onk, posfn):
        through = 0 if isp else res(N(np.asarray(posfn(X.anomaly(r1)), float) - r1) / N(r1) * X.k, S9)
        ev.append(dict(ev='burn', probe=int(isp), along=res(N(np.asarray(dvec) - dV * U(v1v)) / max(abs(dV), 1e-9), S9), size=res((N(dvec) - abs(dV)) / max(abs(dV), 1e-9), S9), shape=max(relres([a, h], [X.a, N(X.h)], S9), res((e - X.e) * min(1., X.e), S9)),
                       plane=max(res((i - X.i) * X.sini, S9), angles_ok(Om, X.node, X.ka), vres(hvec, X.h)), peri=max(angles_ok(om, X.arg, X.ka), res(N(np.asarray(evec) - X.ev), S9)), aps=relres(aps, [X.rp, X.ra], S9),
                       quad=int(X.ka < 1e-2 or (math.sin(Om) * math.sin(X.node) >= -1e-6 and math.sin(om) * math.sin(X.arg) >= -1e-6)), through=through, on=on, onk=onk))

    for op in c['hist']:
        keep = {'T': COAST, 'D': COAST + PROBE, 'C': ['a', 'e', 'h', 'i', 'OMEGA', 'omega', 'x_orbit_arr', 'PRM_dv_vec', 'r_apoapsis_mag', 'v_apoapsis_vec_coast'] + PROBE + DEFL, 'O': COAST[:8] + PROBE + DEFL}[op]
        b4 = attr(keep)
        if op == 'C':
            n = r.choice([51, 301, 77])
            O.compute_coast_trajectory(n)
            coast(n)
            raised()
        elif op == 'O':
            n = r.choice([51, 301, 77])
            O.compute_orbit_trajectory(n)
            orbit(n)
        elif op == 'T':
            th1 = math.pi + r.choice([0., .02, -.02, .5, -.7, r.uniform(-3.1, 3.1)])
            r1, v1v = np.asarray(O.pos_vec_bi(th1), float), np.asarray(O.vel_vec_bi(th1), float)
            dV = N(v1v) * r.choice([-1, -1, 1]) * r.uniform(.002, .12)
            while N(v1v) + dV > .98 * math.sqrt(2 * mu / N(r1)):
                dV = dV / 2 if dV > 1e-3 * N(v1v) else -2 * abs(dV)
            n = r.choice([301, 40])
            O.compute_probe_targeting_trajectory(th1, dV, n)
            X = Leg(mu, r1, v1v + dV * U(v1v))
            probe = (X, th1)
            tP, _ = F.state(th1)
            after(X, r1, v1v, dV, O.a_probe_orbit, O.e_probe_orbit, O.h_probe_orbit, O.i_probe_orbit, O.OMEGA_probe_orbit, O.omega_probe_orbit, O.e_vec_bi_probe_orbit, O.h_vec_bi_probe_orbit, O.dV_vec_probe_targeting,
                  [O.r_periapsis_probe, O.r_apoapsis_probe], True, res(N(r1 - tP) / N(tP) * F.k, S9), 0, None)
            ev[-1]['aps'] = max(ev[-1]['aps'], relres([O.h_periapsis_probe + p.RP], [X.rp], S9))

            def posk(th):
                """position as the code draws it: turned from the final orbit's periapsis"""
                rr = X.p / (1 + X.e * math.cos(th))
                return rr * (math.cos(th) * F.P + math.sin(th) * F.Q)
            for th in (.4, 2.5, 3.3, 5.5, r.uniform(0, 6.28)):
                P, V = np.asarray(O.pos_vec_bi_probe(th), float), np.asarray(O.vel_vec_bi_probe(th), float)
                tP, tV = X.state(th)
                ev.append(dict(ev='probe', r=relres([N(P)], [N(tP)], S9), vel=res(N(V - tV) / N(tV) * X.k, S9), energy=res((V @ V / 2 - mu / N(tP) - X.E) / (mu / N(tP)), S9), plane=res(U(P) @ X.hh * X.k, S9), pos=res(N(P - tP) / N(tP) * X.k, S9), posk=res(N(P - posk(th)) / N(tP) * X.ka, S9)))
            inside = X.rp - p.RP < p.h_skip
            if abs(X.rp - p.RP - p.h_skip) < 1e-3 * p.h_skip or X.ra < (p.RP + p.h_skip) * (1 + 1e-6):
                pass                                          # grazing: either is right; never above the atmosphere: nowhere to enter
            elif inside:
                rE = p.RP + p.h_skip
                thE = 2 * math.pi - math.acos(max(-1., min(1., (X.p / rE - 1) / X.e)))
                tP, tV = X.state(thE)
                cP, cV = np.asarray(O.r_vec_bi_probe_entry, float), np.asarray(O.v_bi_vec_probe_entry, float)
                gz = min(1., max(1e-4, abs(math.sin(thE)))) * X.k
                u_ = U(cP)
                Va = cV - np.cross(W, cP)
                ga, gak, gi = math.asin(u_ @ U(Va)), math.asin(u_ @ U(cV)), -math.acos(min(1., N(X.h) / (rE * N(tV))))
                ee = U(np.cross([0, 0, 1], u_))
                nn = np.cross(u_, ee)
                hd = math.atan2(Va @ nn, Va @ ee)
                hk = math.acos(max(-1., min(1., U(Va) @ ee)))
                cl = math.hypot(u_[0], u_[1])
                ev.append(dict(ev='entry', has=1, want=1, r=relres([N(cP), O.r_vec_bi_probe_entry_mag, O.r_EI, O.h_EI + p.RP], [rE] * 4, S9), inb=int(wrap(O.theta_star_probe_entry) < 0), v=relres([N(cV), O.v_bi_mag_probe_entry], [N(tV)] * 2, S9), g=res((O.gamma_inertial_probe_entry - gi) * gz, S9),
                               ll=max(res((O.latitude_probe_entry_bi - math.asin(u_[2])) * cl, S9), res(wrap(O.longitude_probe_entry_bi - math.atan2(u_[1], u_[0])) * cl, S9), res(wrap(O.theta_star_probe_entry - thE) * gz, S9)), va=max(vres(O.v_vec_probe_entry_atm, Va), relres([O.v_mag_probe_entry_atm], [N(Va)], S9)),
                               ga=res(O.gamma_atm_probe_entry - ga, S9), gak=res(O.gamma_atm_probe_entry - gak, S9), head=res(wrap(O.heading_atm_probe_entry - hd) * abs(math.sin(hd)) * cl, S9), headk=res((O.heading_atm_probe_entry - hk) * abs(math.sin(hk)) * cl, S9)))
                A = (O.x_probe_orbit_arr, O.y_probe_orbit_arr, O.z_probe_orbit_arr)
                s0, e0 = np.asarray(O.pos_vec_bi_probe(th1), float), cP
                arc(X, A, s0, e0, n, False)
            else:
                ev.append(dict(ev='entry', has=0, want=0, r=0, inb=1, v=0, g=0, ll=0, va=0, ga=0, gak=0, head=0, headk=0))
        elif op == 'D':
            X, th1 = probe
            th2 = math.pi + r.choice([.03, .3, -.4, r.uniform(-3.1, 3.1)])
            r1, v1v = np.asarray(O.pos_vec_bi_probe(th2), float), np.asarray(O.vel_vec_bi_probe(th2), float)
            dV = N(v1v) * r.choice([1, 1, -1]) * r.uniform(.002, .12)
            while N(v1v) + dV > .98 * math.sqrt(2 * mu / N(r1)):
                dV = dV / 2 if dV > 1e-3 * N(v1v) else -2 * abs(dV)
            n = r.choice([601, 61])
            O.compute_orbiter_deflection_trajectory(th2, dV, n)
            Y = Leg(mu, r1, v1v + dV * U(v1v))
            tP, _ = X.state(th2)
            rr = X.p / (1 + X.e * math.cos(th2))
            pk = rr * (math.cos(th2) * F.P + math.sin(th2) * F.Q)
            after(Y, r1, v1v, dV, O.a_orbiter_defl, O.e_orbiter_defl, O.h_orbiter_defl, O.i_orbiter_defl, O.OMEGA_orbiter_defl, O.omega_orbiter_defl, O.e_vec_bi_orbiter_defl, O.h_vec_bi_orbiter_defl, O.dV_vec_orbiter_deflection,
                  [O.r_periapsis_orbiter_defl, O.r_apoapsis_orbiter_defl], False, res(N(r1 - tP) / N(tP) * X.k, S9), res(N(r1 - pk) / N(tP) * X.ka, S9), O.pos_vec_bi_orbiter_defl)
            ev[-1]['aps'] = max(ev[-1]['aps'], relres([O.h_periapsis_orbiter_defl + p.RP], [Y.rp], S9))
            pe = Y.rp * Y.P
            arc(Y, (O.x_orbiter_defl_arr, O.y_orbiter_defl_arr, O.z_orbiter_defl_arr), pe, pe, n, True)
        ev.append(dict(ev='stay', same=int(attr(keep) == b4)))
    return ev


def kepler(M, e):
    """eccentric anomaly by bisection and Newton, any number of revolutions"""
    lo, hi = M - 1.0000001 * e - 1e-12, M + 1.0000001 * e + 1e-12
    for _ in range(60):
        m = .5 * (lo + hi)
        if m - e * math.sin(m) > M:
            hi = m
        else:
            lo = m
    E = .5 * (lo + hi)
    return E


def prop(c, r):
    name = amat.PLANETS[c['planet']]
    p = Planet(name)
    mu = p.GM
    v = vinf_of(c, r, p)
    rp = p.RP * r.uniform(1.02, 3.)
    psi = 2 * math.pi * c['psi'] / 8 + (0. if r.random() < .2 else r.uniform(-.35, .35))
    A = Approach(name, v_inf_vec_icrf_kms=v.copy(), rp=rp, psi=psi)
    X = Truth(p, v, rp, psi)
    ra = rp * [r.uniform(1.01, 1.2), r.uniform(2., 5.), r.uniform(20., 200.), r.uniform(1000., 8000.)][c['size']]
    if c['size'] == 0 and r.random() < .4:
        ra = rp                                     # a circular orbit
    O = PropulsiveOrbiter(A, (ra - p.RP) / 1e3)
    L = Leg.shape(mu, X.P, X.Q, X.hh, rp, ra)
    L.k = min(1., L.sini)
    _, V0 = X.state(0.)
    R1, V1 = L.state(0.)
    want = V1 - V0
    dv = np.asarray(O.DV_OI_vec, float)
    ev = [dict(ev='capture', rp=max(relres([O.r_mag_bi(0.)], [rp], S9), relres([O.rp], [rp], S9)), ra=max(relres([O.r_mag_bi(math.pi)], [ra], S9), relres([O.ra], [ra], S9)), at=res(N(np.asarray(O.pos_vec_bi(0.), float) - X.rp * X.P) / rp * L.k, S9),
               plane=max(res(wrap(O.i - L.i), S9), angles_ok(O.OMEGA, L.node, L.k), angles_ok(O.omega, L.arg, L.k)), vp=max(res(N(np.asarray(O.vp_vec, float) - V1) / N(V1) * L.k, S9), relres([O.vp, O.vp_check], [N(V1)] * 2, S9)),
               dv=max(res(min(N(dv - want), N(dv + want)) / N(V0) * L.k, S9), res((O.DV_OI_mag - N(want)) / N(V0), S9), res((O.DV_OI_mag_check - N(want)) / N(V0), S9)), par=res(N(np.cross(U(dv), U(V0))) * L.k * min(1., N(want) / N(V0)), S9),
               elem=max(relres([O.a, O.h], [L.a, N(L.h)], S9), res(O.e - L.e, S9)))]
    ev += points(L, O.pos_vec_bi, O.vel_vec_bi, O.r_mag_bi, [0.3, 1.7, 3.0, 3.5, 5., r.uniform(0, 2 * math.pi)])
    L.k2 = L.k

    def drawn(n):
        a, _ = arc_res(L, np.array([O.x_orbit_arr, O.y_orbit_arr, O.z_orbit_arr]).T, p.RP)
        x = np.array([O.x_orbit_arr, O.y_orbit_arr, O.z_orbit_arr]).T * p.RP
        ev.append(dict(ev='arc', start=res(N(x[0] - rp * L.P) / rp * L.k, S9), end=max(res(N(x[-1] - rp * L.P) / rp * L.k, S9), res(N(x[(n - 1) // 2] + ra * L.P) / ra * L.k, S9)), arc=a, n=int(len(x) == n)))
    drawn(601)
    T = 2 * math.pi * math.sqrt(L.a ** 3 / mu)
    spans = [[.3, 1., 3.], [50., .9], [700., 5.]][c['span']]
    for span, n in [(x, r.choice([2, 31, 101])) for x in spans] + [(spans[-1], 17)]:         # the last one again with other times
        O.compute_timed_orbit_trajectory(span * T, n)
        t = np.linspace(0., span * T, n)
        if len(O.t_array) != n:
            ev.append(dict(ev='timed', t=0, kep=0, anom=0, pos=0, n=0))
            continue
        Es = np.array([kepler(x * 2 * math.pi / T, L.e) for x in t])
        pos = np.array([L.a * ((math.cos(E) - L.e) * L.P + math.sqrt(1 - L.e ** 2) * math.sin(E) * L.Q) for E in Es])
        got = np.array([O.x_timed_orbit_arr, O.y_timed_orbit_arr, O.z_timed_orbit_arr]).T * p.RP
        # near periapsis of an elongated orbit the position turns fast with time
        amp = np.array([1 / (1 - L.e * math.cos(E)) for E in Es]) * math.sqrt((1 + L.e) / (1 - L.e)) * max(1., span)
        amp = np.maximum(1., amp * 1e-4)
        ok = got.shape == pos.shape
        anom = np.array([wrap(x - math.atan2(math.sqrt(1 - L.e ** 2) * math.sin(E), math.cos(E) - L.e)) for x, E in zip(np.asarray(O.theta_star_array, float), Es)]) if len(O.theta_star_array) == n else np.array([1.])
        ev.append(dict(ev='timed', t=relres(O.t_array, t, S9), kep=max(res(np.max(np.abs(np.asarray(O.E_array, float) - L.e * np.sin(O.E_array) - 2 * math.pi * t / T)) / max(1., span), S9), relres(O.M_array, 2 * math.pi * t / T, S9), relres([O.P], [T], S9)), anom=res(np.max(np.abs(anom) / amp), S9),
                       pos=res(np.max(N(got - pos, axis=1) / N(pos, axis=1) / amp) * L.k, S9) if ok else 10 ** 9, n=int(ok and len(O.E_array) == n)))
    n = r.choice([21, 101])
    O.compute_orbit_trajectory(n)
    drawn(n)
    return ev


def case(c):
    r = random.Random(c['n'])
    return aero(c, r) if c['kind'] in ('aero', 'guided') else prop(c, r)


def run(ctx):
    ctx.design('Conic', 'SPECIFICATION Spec\nINVARIANTS Momentum Energy Radial EccVec Apsides Leap Back Ahead\nCHECK_DEADLOCK FALSE\n')
    ctx.design('Mission', 'CONSTANTS\nWhere = {0, 90, 180}\nSize = {1, 2}\nMaxOps = %d\nSPECIFICATION Spec\nINVARIANTS JoinUp CoastAndOrbitStay Repeatable\nPROPERTY ParentsStay\nCHECK_DEADLOCK FALSE\n' % (5 if ctx.thorough else 4))
    g = ctx.generate('OrbitGen', 'CONSTANT MaxOps = %d\nSPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n' % (4 if ctx.thorough else 3))
    r = ctx.rng('c16')
    r.shuffle(g)
    a, b = [c for c in g if c['kind'] == 'aero'], [c for c in g if c['kind'] == 'prop']
    cases = [dict(c, n=r.randrange(10 ** 9)) for c in (a[:12000] + b if ctx.thorough else a[:1200] + b[:800])]
    # the same after guided flights of every kind
    for k in range(60 if ctx.thorough else 10):
        f = guided.lift_case(r, r.choice(['NEPTUNE', 'VENUS', 'EARTH', 'MARS', 'TITAN', 'URANUS']), plain=1) if k % 2 else guided.drag_case(r, r.choice(['EARTH', 'MARS', 'VENUS', 'TITAN']), plain=1)
        cases.append(dict(kind='guided', flight=f, hist=r.choice(a)['hist'], n=r.randrange(10 ** 9)))
    r.shuffle(cases)
    ctx.notes['lattice_points'] = len(g)
    ctx.cases_replayed += len(cases)
    traces = ctx.run_cases(case, cases, timeout=120)
    ctx.validate('OrbitTrace', cases, traces)
