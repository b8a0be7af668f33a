"""C15: deflection manoeuvres (spec/Conic.tla, DeflectGen.tla, DeflectTrace.tla)."""
import math, random
import numpy as np
from AMAT.planet import Planet
from AMAT.maneuver import ProbeOrbiterDeflection, ProbeProbeDeflection, OrbiterOrbiterDeflection
import amat
from c14 import Truth, vinf_of, vres, U
from kit import res, relres

S9 = 1e9


def conic_of(mu, R, V):
    h = np.cross(R, V)
    e = np.cross(V, h) / mu - U(R)
    return h, e, V @ V / 2 - mu / np.linalg.norm(R)


def vel_at(mu, h, e, R):
    return mu / (h @ h) * np.cross(h, e + U(R))


def hyp_time(mu, en, e, R, V):
    """time since periapsis on a hyperbola"""
    a = mu / (2 * en)
    F = math.asinh((R @ V) / (math.sqrt(mu * a) * np.linalg.norm(e)))
    return math.sqrt(a ** 3 / mu) * (np.linalg.norm(e) * math.sinh(F) - F)


def case(c):
    r = random.Random(c['n'])
    name = amat.PLANETS[c['planet']]
    p = Planet(name)
    v = vinf_of(c, r, p)
    kind = c['kind']
    hEI = [p.h_skip * r.uniform(.8, 1.1) for _ in range(2)]
    probe = [kind < 2, kind == 1]
    rp = [(p.RP + hEI[k] * r.uniform(.05, .9)) if probe[k] else p.RP * r.uniform(1.02, 4.) for k in range(2)]
    rdv = [max(rp[0], rp[1], p.RP + max(hEI)) / p.RP * r.uniform(1.05, 3.), r.uniform(8., 20.), r.uniform(50., 200.), r.uniform(500., 1500.)][c['dist']]
    psi = [2 * math.pi * c['psi'] / 4 + (0. if r.random() < .2 else r.uniform(-.7, .7))]
    psi.append(psi[0] + 2 * math.pi * c['turn'] / 8 + (0. if r.random() < .2 else r.uniform(-.3, .3)))
    if kind == 0:
        D = ProbeOrbiterDeflection(name, v.copy(), rp[0], psi[0], hEI[0], rp[1], psi[1], rdv)
        one, two = D.probe, D.space
        vb, va, t1, t2, th = D.v_vec_dv_probe, D.v_vec_dv_space, D.TOF_probe, D.TOF_space, D.theta_star_dv_probe
    elif kind == 1:
        D = ProbeProbeDeflection(name, v.copy(), rp[0], psi[0], hEI[0], rp[1], psi[1], hEI[1], rdv)
        one, two = D.probe1, D.probe2
        vb, va, t1, t2, th = D.v_vec_dv_probe1, D.v_vec_dv_probe2, D.TOF_probe1, D.TOF_probe2, D.theta_star_dv_probe1
    else:
        D = OrbiterOrbiterDeflection(name, v.copy(), rp[0], psi[0], rp[1], psi[1], rdv)
        one, two = D.space1, D.space2
        vb, va, t1, t2, th = D.v_vec_dv_space1, D.v_vec_dv_space2, D.TOF_space1, D.TOF_space2, D.theta_star_dv_space1
    X = [Truth(p, v, rp[k], psi[k]) for k in range(2)]
    ro = rdv * p.RP
    t_th = -math.acos((X[0].rp * (1 + X[0].e) / ro - 1) / X[0].e)
    tR, tV = X[0].state(t_th)
    R, Vb, Va = (np.asarray(x, float) for x in (D.r_vec_dv, vb, va))
    mu = p.GM
    # how well the velocity can be had back from two positions nearly in line
    sin1 = min(1., abs(math.sin(t_th)))
    h0, e0, en0 = conic_of(mu, tR, tV)
    T1 = -hyp_time(mu, en0, e0, tR, tV) / 86400
    z = [min(1., np.linalg.norm(np.cross([0, 0, 1], x.hh))) for x in X]
    legs = max(vres(one.rp_vec_bi, X[0].rp * X[0].P), vres(two.rp_vec_bi, X[1].rp * X[1].P))
    if probe[0]:
        legs = max(legs, relres([one.r_vec_entry_bi_mag], [p.RP + hEI[0]], S9))
    if probe[1]:
        legs = max(legs, relres([two.r_vec_entry_bi_mag], [p.RP + hEI[1]], S9))
    ev = [dict(ev='first', r=max(relres([np.linalg.norm(R)], [ro], S9), relres([D.r_dv], [ro], S9)), on=max(res(np.linalg.norm(R - tR) / ro * z[0], S9), res(np.linalg.norm(D.r_vec_dv_unit - U(tR)) * z[0], S9), res(th - t_th, S9)), inb=int(R @ Vb < 0 and th < 0),
               v=res(np.linalg.norm(Vb - tV) / np.linalg.norm(tV) * z[0] * sin1, S9), tof=relres([t1], [T1], S9), legs=legs)]
    # the conic after the manoeuvre
    G = X[1].rp * X[1].P
    h, e, en = conic_of(mu, R, Va)
    cosd = U(R) @ U(G)
    sin2 = min(1., math.sqrt(max(0., 1 - cosd ** 2)))
    own = int(kind == 1)
    cond = sin2 * sin2 * z[1] * z[0]
    arr = vel_at(mu, h, e, G)
    T2 = (hyp_time(mu, en, e, G, arr) - hyp_time(mu, en, e, R, Va)) / 86400 if en > 0 else float('nan')
    P = h @ h / mu
    # travels from R to G by the angle less than half a turn
    ahead = int(np.cross(R, G) @ h > 0)
    # second vehicle's own trajectory at this distance
    th2 = math.acos((X[1].rp * (1 + X[1].e) / ro - 1) / X[1].e)
    P2 = X[1].rp * (1 + X[1].e)
    f2, g2 = 1 - X[1].rp / P2 * (1 - math.cos(th2)), ro * X[1].rp / math.sqrt(mu * P2) * math.sin(th2)
    oV = (G - f2 * tR) / g2
    R2, V2 = X[1].state(-th2)
    hh, ee, nn = conic_of(mu, R2, V2)
    oT = -hyp_time(mu, nn, ee, R2, V2) / 86400
    ev.append(dict(ev='second', own=own, energy=res((en - X[1].v ** 2 / 2) / (X[1].v ** 2 / 2 + mu / ro) * sin2 * z[0], S9), plane=res(U(h) @ U(G) * cond, S9), conic=res((np.linalg.norm(G) + e @ G - P) / P * cond, S9),
                   tof=res((t2 - T2) / T2 * cond, S9), ahead=ahead, ownv=res(np.linalg.norm(Va - oV) / np.linalg.norm(oV) * math.sin(th2) * z[0] * z[1], S9), owntof=relres([t2], [oT], S9)))
    d = Va - Vb
    ev.append(dict(ev='burn', vec=res(np.linalg.norm(np.asarray(D.dv_maneuver_vec, float) - d) / np.linalg.norm(Vb), S9), mag=res((D.dv_maneuver_mag - np.linalg.norm(d)) / np.linalg.norm(d), S9)))
    return ev


def run(ctx):
    ctx.design('Conic', 'SPECIFICATION Spec\nINVARIANTS Momentum Energy Radial EccVec Apsides Leap Back Ahead\nCHECK_DEADLOCK FALSE\n')
    g = ctx.generate('DeflectGen', 'SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n')
    r = ctx.rng('c15')
    r.shuffle(g)
    cases = [dict(c, n=r.randrange(10 ** 9)) for c in (g if ctx.thorough else g[:3000])]
    ctx.notes['lattice_points'] = len(g)
    ctx.cases_replayed += len(cases)
    traces = ctx.run_cases(case, cases, timeout=60)
    ctx.validate('DeflectTrace', cases, traces)
