"""C18: link budgets, schedules and data volume (spec/Link.tla, LinkGen.tla, LinkTrace.tla)."""
import contextlib, io, math, random, re
from types import SimpleNamespace
import numpy as np
from AMAT.telecom import Link, Schedule
from kit import q, res, relres, fingerprint

M = 1e6
dB = lambda x: 10 * math.log10(x)
BUDGET = ['freq', 'wavelength', 'Pt', 'Pt_dB', 'Lt_dB', 'L_sc_dB', 'Gt_dBi', 'Gr_dBi', 'Ts', 'Ts_dBK', 'range', 'Ls_dB', 'La_dB', 'L_other_dB', 'L_DSN_dB', 'R', 'R_dBHz', 'EB_N0', 'EB_N0_req', 'EB_N0_margin', 'Ka_dB']


def antenna(kind, side, r, wl):
    """keyword arguments and gain meant"""
    D, eta, G = r.uniform(.1, 70.), r.uniform(.2, .95), r.uniform(1., 80.)
    dish = dB(eta * (math.pi * D / wl) ** 2)
    k = lambda **a: {n + side if n != 'G' else 'G%s_dBi' % side: x for n, x in a.items()}
    return {'dish': (k(D=D, eta_=eta), dish), 'gain': (k(G=G), G), 'both': (k(D=D, eta_=eta, G=G), dish), 'half': (k(D=D, G=G) if r.random() < .5 else k(eta_=eta, G=G), G),
            'zero': (k(G=r.choice([0, 0.0])), 0.), 'negative': (k(G=-G / 4), -G / 4)}[kind]


def link(c, r):
    f = [r.uniform(.4, 1.), r.uniform(2., 9.), r.uniform(26., 40.)][c['band']]
    wl = 3e8 / (f * 1e9)
    ta, gt = antenna(c['tx'], 't', r, wl)
    ra, gr = antenna(c['rx'], 'r', r, wl)
    Pt, Ts, rng, Lo, R, req = r.uniform(.5, 120.), r.uniform(20., 500.), 10 ** r.uniform(2.5, 9.7), r.choice([0., r.uniform(0, 5.)]), 10 ** r.uniform(-2, 4.5), r.uniform(-1.5, 12.)
    loss = dict(Lt_dB=1.0, L_sc_dB=.2, La_dB=.35, L_DSN_dB=1.0)
    kw = {}
    if not c['defaults']:
        kw = {k: r.choice([0., r.uniform(0., 4.)]) for k in loss}
        if c['variant']:
            del kw[r.choice(sorted(kw))]
        loss.update(kw)
    kw.update(ta)
    kw.update(ra)
    L = Link(f, Pt, Ts, rng, Lo, R, req, **kw)
    ls = 20 * math.log10(4 * math.pi * rng * 1e3 / wl)
    ka = dB(1.38e-23)
    out = io.StringIO()
    b4 = fingerprint([getattr(L, x, None) for x in BUDGET])
    with contextlib.redirect_stdout(out):
        L.print_link_budget()
    printed = 1
    # signed results; the other entries are compared in size (the sheet writes the sign of a gain or loss by hand)
    sheet = [('Available Eb/N0', L.EB_N0, 1), ('Eb/N0 Margin', L.EB_N0_margin, 1), ('Required Eb/N0', req, 1), ('Transmitter Gain, dBi', gt, 1), ('Receiver Gain, dBi', gr, 1),
             ('Frequency, GHz', f, 0), ('Transmitter Power, W', Pt, 0), ('Transmitter Power, dB', dB(Pt), 0), ('Transmitter Loss, dB', loss['Lt_dB'], 0), ('S/C Circuit Loss, dB', loss['L_sc_dB'], 0),
             ('Transmit antenna D., m', kw.get('Dt'), 0), ('Transmit antenna eff', kw.get('eta_t'), 0), ('Receive antenna D., m', kw.get('Dr'), 0), ('Receive antenna eff', kw.get('eta_r'), 0),
             ('System Noise Temp, K', Ts, 0), ('System Noise Temp, dBK', dB(Ts), 0), ('Link Distance, km', rng, 0), ('Free Space Loss, dB', ls, 0), ('Atmospheric Loss, dB', loss['La_dB'], 0),
             ('Other Losses, dB', Lo, 0), ("Boltzmann's const, dB", -ka, 0), ('Data rate, kbps', R, 0), ('Data rate, dBhz', dB(R * 1e3), 0)]
    for label, want, signed in sheet:
        m = re.search('^' + re.escape(label) + r'\s*:\s*[-+]*?(-?[\d.]+(?:e[-+]?\d+)?)\s*$', out.getvalue(), re.M)
        if not m or want is None:
            continue
        x = float(m.group(1))
        if not abs(x - want if signed else abs(x) - abs(want)) < .0051 + 1e-9 * abs(want):
            printed = 0
    ev = [dict(ev='ledger', gains=[q(dB(Pt), M), q(gt, M), q(gr, M)], losses=[q(ls, M)] + [q(loss[k], M) for k in sorted(loss)] + [q(Lo, M), q(dB(Ts), M), q(dB(R * 1e3), M), q(ka, M)], avail=q(L.EB_N0, M), margin=q(L.EB_N0_margin, M), req=q(req, M),
               gt=q(L.Gt_dBi, M), gr=q(L.Gr_dBi, M), ls=q(L.Ls_dB, M), entries=relres([L.Pt_dB + 100, L.Ts_dBK + 100, L.R_dBHz + 100, L.Ka_dB, L.Lt_dB + 1, L.L_sc_dB + 1, L.La_dB + 1, L.L_DSN_dB + 1, L.L_other_dB + 1],
                                                                              [dB(Pt) + 100, dB(Ts) + 100, dB(R * 1e3) + 100, ka, loss['Lt_dB'] + 1, loss['L_sc_dB'] + 1, loss['La_dB'] + 1, loss['L_DSN_dB'] + 1, Lo + 1]), printed=printed),
          dict(ev='stay', same=int(fingerprint([getattr(L, x, None) for x in BUDGET]) == b4))]
    return ev


def passes(c, r):
    """one link, several passes in turn"""
    L = Link(8.4, 30., 40., 1e6, 1., r.uniform(.1, 500.), 2., Gt_dBi=30., Gr_dBi=60.)
    b4 = fingerprint([getattr(L, x, None) for x in BUDGET])
    ev, kept = [], []
    for windows, sight in c['passes']:
        dt = r.choice([4., 60., 512., 1., .25, .1, 3600. / 7])
        exact = dt in (4., 60., 512., 1., .25)
        n = len(sight)
        ws = [(a * dt / 4, b * dt / 4) for a, b in windows]
        given = r.choice([lambda w: [tuple(x) for x in w], lambda w: [list(x) for x in w], lambda w: tuple(w), lambda w: np.array(w).reshape(-1, 2)])(ws)
        S = Schedule((n - 1) * dt, n, given)
        t = np.arange(n) * dt
        on = [int(bool(x)) for x in S.transmit_array]
        told = [2 if not exact and any(abs(w - x) < 1e-6 * dt for p in ws for w in p) else o for o, x in zip(on, t)]
        tl = relres(S.t_array, np.linspace(0, (n - 1) * dt, n))
        ev.append(dict(ev='plan', windows=[list(x) for x in windows], on=told, n=n, unit=4, t=tl))
        vis = SimpleNamespace(t_array=t, visible_array=np.array(sight, dtype=bool))
        keep = fingerprint([vis.t_array, vis.visible_array, S.transmit_array, S.t_array])
        L.compute_data_volume(vis, S)
        unit = L.R * dt / 2
        ev.append(dict(ev='flow', sight=list(sight), on=on, vol=[q(x / unit, M) for x in np.asarray(L.data_volume_array, float)]))
        ev.append(dict(ev='stay', same=int(fingerprint([vis.t_array, vis.visible_array, S.transmit_array, S.t_array]) == keep and fingerprint([getattr(L, x, None) for x in BUDGET]) == b4)))
        for a, b in kept:
            ev.append(dict(ev='stay', same=int(fingerprint([a]) == b)))
        kept.append((L.data_volume_array, fingerprint([L.data_volume_array])))
    return ev


def end_to_end(c, r):
    """the real visibility of an orbiter from a lander, many points and windows"""
    from AMAT.approach import Approach
    from AMAT.orbiter import PropulsiveOrbiter
    from AMAT.visibility import LanderToOrbiter
    import amat
    from AMAT.planet import Planet
    name = amat.PLANETS[c['planet']]
    p = Planet(name)
    A = Approach(name, v_inf_vec_icrf_kms=np.array([-0.910, 5.081, 4.710]), rp=p.RP * 1.5, psi=r.uniform(0, 6.28))
    O = PropulsiveOrbiter(A, apoapsis_alt_km=p.RP * r.uniform(1., 8.) / 1e3)
    n, T = 60, 60 * 2000.
    dt = T / (n - 1)
    V = LanderToOrbiter(name, r.uniform(-80, 80), O, T, num_points=n)
    W = [sorted((r.uniform(-T / 5, T * 1.1), r.uniform(0, T))) for _ in range(r.randrange(5))]
    S = Schedule(T, n, W)
    L = Link(8.4, 30., 40., 1e6, 1., r.uniform(.1, 500.), 2., Gt_dBi=30., Gr_dBi=60.)
    L.compute_data_volume(V, S)
    on = [int(bool(x)) for x in S.transmit_array]
    U = 1000
    wq = [[q(a / dt, U), q(b / dt, U)] for a, b in W]
    told = [2 if any(abs(w - U * k) <= 2 for p_ in wq for w in p_) else o for k, o in enumerate(on)]
    return [dict(ev='plan', windows=wq, on=told, n=n, unit=U, t=relres(S.t_array, np.linspace(0, T, n))),
            dict(ev='flow', sight=[int(bool(x)) for x in V.visible_array], on=on, vol=[q(x / (L.R * dt / 2), M) for x in np.asarray(L.data_volume_array, float)])]


def case(c):
    r = random.Random(c['n'])
    return {'link': link, 'pass': passes, 'end': end_to_end}[c['kind']](c, r)


INV = 'SPECIFICATION Spec\nINVARIANTS ScanIsUnion OrderDoesNotMatter TouchingWindowsJoin BackwardsIsNever StartsAtZero NeverFalls NothingUnscheduled FullRate AsSummed Balance\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    ctx.design('Link', 'CONSTANTS\nEnds = {1, 2, 3, 5}\nMaxWindows = %d\nTimes = 4\nRate = 3\n' % (3 if ctx.thorough else 2) + INV)
    gs = ctx.generate('LinkGen', 'CONSTANTS\nEnds = {0, 2, 4, 6, 8, 14, 18}\nMaxWindows = 2\nPoints = 4\nSPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n')
    if ctx.thorough:
        gs += [g for g in ctx.generate('LinkGen', 'CONSTANTS\nEnds = {1, 6, 10, 13}\nMaxWindows = 3\nPoints = 5\nSPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n') if g['kind'] == 'pass']
    r = ctx.rng('c18')
    r.shuffle(gs)
    P = [([[a - 2, b - 2] for a, b in g['windows']], g['sight']) for g in gs if g['kind'] == 'pass']
    P = P if ctx.thorough else P[:9000]
    cases = [dict(kind='pass', passes=P[k:k + 3], n=r.randrange(10 ** 9)) for k in range(0, len(P), 3)]
    links = [g for g in gs if g['kind'] == 'link']
    cases += [dict(g, n=r.randrange(10 ** 9)) for _ in range(10 if ctx.thorough else 2) for g in links]
    cases += [dict(kind='end', planet=k % 8, n=r.randrange(10 ** 9)) for k in range(160 if ctx.thorough else 24)]
    r.shuffle(cases)
    ctx.notes['spec_passes'] = len(P)
    ctx.notes['spec_links'] = len(links)
    ctx.cases_replayed += len(P) + len(links)
    traces = ctx.run_cases(case, cases, timeout=60)
    ctx.validate('LinkTrace', cases, traces)
