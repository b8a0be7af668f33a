"""C01: classification and truncation of flights (spec/Entry.tla)."""
import numpy as np
import amat
from kit import q, relres, absres, res

SERIES_SI = ['tc', 'rc', 'thetac', 'phic', 'vc', 'psic', 'gammac', 'drangec']
SERIES_PLOT = ['t_minc', 'h_kmc', 'v_kmsc', 'phi_degc', 'psi_degc', 'theta_degc', 'gamma_degc', 'drange_kmc']
SERIES_LOAD = ['acc_net_g', 'acc_drag_g', 'dyn_pres_atm', 'stag_pres_atm', 'q_stag_con', 'q_stag_rad', 'q_stag_total', 'heatload']
METHODS = ['propogateEntry', 'propogateEntry2', 'propogateEntry_util', 'propogateEntry_util2', 'propogateEntry_utilD', 'propogateEntry_utilD2']
RET = ['t_minc', 'h_kmc', 'v_kmsc', 'phi_degc', 'psi_degc', 'theta_degc', 'gamma_degc', 'drange_kmc', 'exitflag', 'acc_net_g',
       'dyn_pres_atm', 'stag_pres_atm', 'q_stag_total', 'heatload', 'acc_drag_g']


def shown(v):
    """number of the four plotted series that the entry plots do not show"""
    import matplotlib.pyplot as plt
    plt.close('all')
    v.makeBasicEntryPlots()
    lines = [np.asarray(l.get_xydata(), float) for n in plt.get_fignums() for a in plt.figure(n).axes for l in a.lines]
    plt.close('all')
    want = [np.column_stack([v.t_minc, y]) for y in (v.h_kmc, v.v_kmsc, v.acc_net_g, v.q_stag_total)]
    return sum(not any(len(l) == len(w) and relres(l, w, 1e9, floor=1e-9) in range(100) for l in lines) for w in want)


def fly(c, h_skip, h_trap):
    """fly case c with the given window; returns dict of series + exitflag + n"""
    p = amat.planet(c['planet'], kind=c['kind'])
    if h_skip is not None:
        p.h_skip = h_skip
    if h_trap is not None:
        p.h_trap = h_trap
    v = amat.vehicle(c, p)
    m = c['method']
    t, dt, bank = c['t'], c['dt'], c['bank']
    if 'util' not in m:
        getattr(v, m)(t, dt, bank)
        d = {k: getattr(v, k) for k in SERIES_SI + SERIES_PLOT + SERIES_LOAD}
        d['exitflag'], d['n'] = v.exitflag, int(v.index)
        if c.get('plot') and h_skip is not None and h_skip < 1e12:
            d['shown'] = shown(v)
    else:
        if 'D' in m:
            v.setDragModulationVehicleParams(c['beta'], 2.5)
        s = c['state']
        out = getattr(v, m)(s[0], s[1], s[2], s[3], s[5], s[4], s[6], s[7], t, dt, bank, p.density_int)
        d = dict(zip(RET, out))
        d['n'] = len(d['t_minc'])
    return p, d


def classes(h, p, tol=None):
    c = np.full(len(h), 4)
    c[h > p.h_skip] = 6
    c[np.abs(h - p.h_skip) < (1e-6 if tol is None else tol)] = 5         # at it, up to rounding of the radius
    c[h == p.h_trap] = 3
    c[h < p.h_trap] = 2
    c[h == 0] = 1
    c[h < 0] = 0
    return c


def case(c):
    if 'air' in c:
        return [amat.air(c['air'])]
    # the whole computed flight, unclassified: a window that nothing leaves
    p0, full = fly(c, 1e12, -1e12)
    pl = amat.planet(c['planet'], kind=c['kind'])
    hfull = np.asarray(full['h_kmc']) if 'util' in c['method'] else (np.asarray(full['rc']) - p0.RP)
    scale = 1e3 if 'util' in c['method'] else 1.0
    hs, ht = pl.h_skip, pl.h_trap
    hm = hfull * scale
    if c['window'] == 'touch-trap' and np.min(hm) > 1.0:
        ht = float(np.min(hm))
        hs = max(hs, float(np.max(hm)) * (1 if c['window2'] else 1.2))
    elif c['window'] == 'touch-skip':
        hs = float(np.max(hm))
    elif c['window'] == 'from-skip':                        # starts at the skip altitude, as entered
        hs = c['state'][0] * 1e3
    elif c['window'] == 'narrow':
        hs = max(float(hm[0]) + 1.0, hs * c['frac'])
        ht = min(hs * 0.9, float(hm[0]) * 0.999, ht + c['frac2'] * (max(float(np.min(hm)), 0.0)))
    p, d = fly(c, hs, ht)
    missing = d.pop('shown', 0)
    if scale != 1.0:
        cls = classes(hm, p, 1e-5)
        # the code classifies the altitude in metres; skip samples that are not decided at this resolution
        amb = (np.abs(hm - hs) < 1e-5) | (np.abs(hm - ht) < 1e-5) | (np.abs(hm) < 1e-5)
        if amb[1:].any():
            return []
    else:
        cls = classes(hm, p)
    runs = []
    for i, k in enumerate(cls):
        if not runs or runs[-1][0] != int(k):
            runs.append([int(k), i])
    n = d['n']
    names = [k for k in d if k not in ('exitflag', 'n')]
    lens = [int(len(d[k])) for k in names]
    pref = 0
    for k in names:
        a, b = np.asarray(d[k], float), np.asarray(full[k], float)[:len(d[k])]
        x = relres(a, b, 1e9, floor=1e-6)
        pref = x if x < 0 else max(pref, x)
        if pref < 0:
            break
    s = c['state']
    start, units, grid = 0, 0, 0
    if n > 0:
        first = [d['h_kmc'][0], d['theta_degc'][0], d['phi_degc'][0], d['v_kmsc'][0], d['psi_degc'][0], d['gamma_degc'][0], d['drange_kmc'][0], d['heatload'][0], d['t_minc'][0]]
        start = relres(first, list(s) + [0.0], 1e9, floor=1.0)
        t = np.asarray(d['t_minc']) * 60
        grid = relres(t, np.arange(len(t)) * c['dt'], 1e9, floor=1e-3)
    if 'util' not in c['method'] and n > 0:
        want = [d['tc'] / 60., (d['rc'] - p.RP) / 1e3, d['vc'] / 1e3, np.degrees(d['phic']), np.degrees(d['psic']), np.degrees(d['thetac']), np.degrees(d['gammac']), d['drangec'] / 1e3]
        for a, k in zip(want, SERIES_PLOT):
            x = relres(a, d[k], 1e9, floor=1e-6)
            units = x if x < 0 else max(units, x)
            if units < 0:
                break
    down, fine = -88000, None
    tend = float(full['t_minc'][-1]) * 60
    dur = int(tend >= c['t'] - 1e-6 * c['t'] - 1e-6 and tend <= c['t'] + c['dt'] * (1 + 1e-6))
    if not dur and tend <= c['t']:
        # the equations of motion are singular on a vertical path and at rest: the integrator may stop there
        fine = fly(dict(c, dt=0.004, t=tend + 2 * c['dt']), 1e12, -1e12)[1]
        if float(fine['gamma_degc'][-1]) < -75 or float(fine['v_kmsc'][-1]) < 0.5:
            dur = 1
        down = round(1e3 * float(fine['gamma_degc'][-1])) if c['method'].endswith('2') else -88000
    deep = round(1e3 * float(np.min(full['gamma_degc']))) if c['method'].endswith('2') else 0
    return [dict(ev='flight', down=down, deep=deep, drop=round(1e3 * float(fine['v_kmsc'][-1])) if fine else 0, runs=runs, total=int(len(hm)), flag=q(d['exitflag']), n=int(n), lens=lens, start=start, grid=grid, prefix=pref, units=units, dur=dur, shown=missing)]


def replay_batch(c):
    """TLC-enumerated altitude histories replayed through the real classifier"""
    p = amat.planet(c['planet'], kind='linear')
    v = amat.vehicle(dict(planet=c['planet'], mass=100., beta=100., LD=0., A=1., RN=1., state=[100., 0, 0, 5., 0, -10., 0, 0]), p)
    rnd = np.random.RandomState(c['seed'])
    bad = []
    for g in c['cases']:
        lo, hi = p.h_trap, p.h_skip
        h = np.array([{0: -rnd.randint(1, 2000), 1: 0, 2: rnd.randint(1, int(lo)), 3: lo, 4: rnd.randint(int(lo) + 1, int(hi)), 5: hi, 6: hi + rnd.randint(1, 5000)}[k] for k in g['s']], float)
        r = p.RP + h
        idx, flag = v.classifyTrajectory(r)
        cut = v.truncateTrajectory(*([np.arange(len(r))] * 8), idx)
        ok = (int(flag) == g['flag'] and int(idx) == g['cut'] and all(len(x) == g['cut'] and list(x) == list(range(g['cut'])) for x in cut))
        if not ok:
            bad.append(dict(history=g['s'], expected=[g['flag'], g['cut']], got=[float(flag), int(idx)]))
    return [dict(ev='batch', n=len(c['cases']), bad=bad)]


def run(ctx):
    inv = 'INVARIANTS Total ReportIsPrefix NothingPastEnd EndEventNext TimedOutIsWhole NeverEmpty\nCHECK_DEADLOCK FALSE\n'
    ctx.design('Entry', 'SPECIFICATION Spec\nCONSTANT MaxLen=%d\n' % (6 if ctx.thorough else 5) + inv)
    gen = ctx.generate('EntryGen', 'SPECIFICATION GSpec\nCONSTANT MaxLen=%d\nCHECK_DEADLOCK FALSE\n' % (5 if ctx.thorough else 4))
    batches = []
    for pl in amat.PLANETS:
        for k in range(0, len(gen), 1500):
            batches.append(dict(planet=pl, seed=ctx.rng(pl, k).randrange(10 ** 6), cases=gen[k:k + 1500]))
    for b, out in zip(batches, ctx.run_cases(replay_batch, batches)):
        for e in out:
            if e['ev'] == 'batch':
                ctx.cases_replayed += e['n']
                for x in e['bad'][:20]:
                    ctx.violation('spec-history-classified', dict(planet=b['planet'], history=x['history']), x)
            else:
                ctx.violation('no-exception' if e['ev'] == 'raise' else 'returns-a-result', dict(planet=b['planet']), e)
    # real flights
    r = ctx.rng('flights')
    cases = []
    reps = 6 if ctx.thorough else 1
    for rep in range(reps):
        for pl in amat.PLANETS:
            for m in METHODS:
                for w in ['default', 'touch-trap', 'touch-skip', 'narrow', 'from-skip']:
                    if 'util' in m and w.startswith('touch'):
                        continue
                    c = amat.random_vehicle(r, pl)
                    sh = r.random()
                    if sh < 0.45:                       # shallow: likely to skip out
                        c['state'][5] = amat.GAMMA[pl][1] * r.uniform(0.1, 1.1)
                    elif sh < 0.55:
                        c['state'][5] = r.uniform(0.5, 20)     # climbing from inside
                        c['state'][0] *= 0.8
                    if w == 'from-skip':
                        c['state'][0] = round(c['state'][0] * r.uniform(.8, 1.), r.choice([0, 0, 1, 3]))
                        c['state'][5] = -abs(c['state'][5])
                    c.update(method=m, window=w, window2=r.random() < .5, plot=int(r.random() < .1), frac=r.uniform(.5, 1.), frac2=r.uniform(0, 1.2), bank=r.choice([0., 180., r.uniform(-180, 180)]),
                             t=r.choice([30., 400., 1500., 777.7]), dt=r.choice([1.0, 0.5, 3.0, 7.3]))
                    cases.append(c)
            # long flight: skips out, comes back and may crash later
            c = amat.random_vehicle(r, pl)
            c['state'][5] = amat.GAMMA[pl][1] * r.uniform(.8, 1.1)
            c.update(method=r.choice(METHODS[:2]), window='default', window2=False, frac=1., frac2=0., bank=180., t=20000., dt=20.)
            cases.append(c)
    cases += [dict(air=p) for p in amat.PLANETS]
    traces = ctx.run_cases(case, cases, timeout=120)
    ctx.notes['outcomes'] = {str(k): sum(1 for t in traces for e in t if e.get('flag') == k) for k in (-1, 0, 1)}
    ctx.validate('EntryTrace', cases, traces)
