"""C08: loads and heating (spec/Loads.tla, LoadsGen.tla, LoadsTrace.tla)."""
import math, random
import numpy as np
import amat
from kit import relres, absres, res

ATM = 1.01325e5


def cdmach(m):
    m = np.asarray(m, float)
    return 1.0 + 0.6 * np.tanh((m - 1.2) * 1.3) * np.exp(-m / 60.)


def make(c):
    p = amat.planet(c['planet'], kind=c.get('kind', 'linear'))
    v = amat.Vehicle('V', c['mass'], c['beta'], c['LD'], c['A'], 0.0, c['RN'], p, userDefinedCDMach=bool(c['cdm']))
    if c['cdm']:
        v.setCDMachFunction(cdmach)
    v.setInitialState(*c['state'])
    v.setSolverParams(1e-6)
    return v


def fly_event(c, v, want0, last):
    p = v.planetObj
    h, V, t = np.asarray(v.rc) - p.RP, np.asarray(v.vc), np.asarray(v.tc)
    rho, pres = np.asarray(p.density_int(h), float), np.asarray(p.pressure_int(h), float)
    dyn = .5 * rho * V ** 2
    CD0 = c['mass'] / (c['beta'] * c['A'])
    CD = cdmach(V / np.asarray(p.sonic_int(h), float)) if c['cdm'] else CD0
    dr = dyn * c['A'] * CD / c['mass'] / 9.80665
    li = dyn * c['A'] * CD0 * c['LD'] / c['mass'] / 9.80665
    con, rad, tot, hl = (np.asarray(getattr(v, k), float) for k in ('q_stag_con', 'q_stag_rad', 'q_stag_total', 'heatload'))
    con2, rad2, tot2 = (np.asarray(f(v.rc, v.vc), float) for f in (v.qStagConvective, v.qStagRadiative, v.qStagTotal))
    integ = want0 + np.concatenate(([0.], np.cumsum(.5 * (tot[1:] + tot[:-1]) * np.diff(t))))
    worst = lambda *x: -1 if min(x) < 0 else max(x)
    nan = lambda a: int(np.sum(np.isnan(a)))
    return dict(ev='fly', sum=worst(relres(tot, con + rad, 1e9), relres(con, con2, 1e9), relres(rad, rad2, 1e9), relres(tot, tot2, 1e9)),
                neg=int(np.sum((con < 0) | (rad < 0) | (tot < 0)) + nan(tot)), cold=int(np.sum((rho > 0) & ~(con > 0))),
                dyn=relres(np.asarray(v.dyn_pres_atm) * ATM, dyn, 1e9, floor=1e-12), stag=relres(np.asarray(v.stag_pres_atm) * ATM, dyn + pres, 1e9, floor=1e-12),
                net=relres(v.acc_net_g, np.hypot(dr, li), 1e9, floor=1e-12), drag=relres(v.acc_drag_g, dr, 1e9, floor=1e-12),
                cfg=relres([hl[0]], [want0], 1e9), last=relres([hl[0]], [last], 1e9) if last is not None else 0,
                dec=int(np.sum(~(np.diff(hl) >= 0))), int=relres(hl - want0, integ - want0, 1e9, floor=max(1e-3, 1e-3 * want0)),
                lens=[len(x) for x in (t, con, rad, tot, hl, v.dyn_pres_atm, v.stag_pres_atm, v.acc_net_g, v.acc_drag_g)])


def mach_event(c, v):
    p = v.planetObj
    h, V = np.asarray(v.rc) - p.RP, np.asarray(v.vc)
    a, T = np.asarray(p.sonic_int(h), float), np.asarray(p.temp_int(h), float)
    m = np.asarray(v.computeMach(v.rc, v.vc), float)
    ks = range(0, len(h), max(1, len(h) // 7))
    sc = [float(v.computeMachScalar(v.rc[k], v.vc[k])) for k in ks]
    st = np.asarray(v.computeStagTemp(v.rc, v.vc), float)
    return dict(ev='mach', mach=relres(m, V / a, 1e9), scal=relres(sc, [m[k] for k in ks], 1e9), temp=relres(st, T * (1 + (p.CPCV - 1) / 2 * (V / a) ** 2), 1e9), cold=int(np.sum(~(st >= T * (1 - 1e-12)))))


def laws(c):
    """heating at single points, a vehicle per planet and nose radius"""
    r = random.Random(c['n'])
    p = amat.planet(c['planet'], kind=r.choice(['linear', 'cubic']))
    ev = []
    log = lambda x: round(math.log10(x) * 1e4)
    for _ in range(c['m']):
        rn = round(10 ** r.uniform(-2.3, 1.3), 5)
        v = amat.Vehicle('V', 100., 100., .2, 1., 0., rn, p)
        n = 4
        h = np.array([r.uniform(.05, .95) * min(p.h_skip, p.h_thres) for _ in range(n)])
        V = np.array([float(r.choice([r.randrange(1000, 20000), r.randrange(5000, 50000), r.choice([7990, 8010, 9000, 9500, 9990, 10010, 12500, 15999, 16000, 16500])])) for _ in range(n)])
        R = h + p.RP
        if r.random() < .3:                                  # whole metres and metres per second
            h = np.rint(h).astype(int)
            R, V = h + int(p.RP), V.astype(int)
        rho = np.asarray(p.density_int(R - p.RP), float)
        con, rad = np.asarray(v.qStagConvective(R, V), float), np.asarray(v.qStagRadiative(R, V), float)
        for k in range(n):
            if rho[k] < 1e-14:
                continue
            e = dict(ev='law', planet=c['planet'], rho=log(rho[k]), v=log(V[k]), ms=int(V[k]), rn=log(rn), con=log(con[k]) if con[k] > 0 else -10 ** 9, none=int(rad[k] == 0), rad=log(rad[k]) if rad[k] > 0 else -10 ** 9, fv=0)
            if c['planet'] == 'EARTH':
                e['fv'] = int(round(min(1e8, rad[k] / (4.736e4 * rn ** .6 * rho[k] ** 1.22) * 1e3)))
            ev.append(e)
        x = np.array([r.uniform(-1e3, 1e6) for _ in range(3)])
        if r.random() < .3:
            x = np.rint(x).astype(int)
        ev.append(dict(ev='unit', kpa=relres(np.asarray(v.convertToKPa(x.copy())) * 1e3, x, 1e9), cm2=relres(np.asarray(v.convertToPerCm2(x.copy())) * 1e4, x, 1e9)))
    return ev


def any_case(c):
    return laws(c) if 'm' in c else case(c)


def case(c):
    v = make(c)
    ev = []
    cfg, last, end, banks = c['state'][7], None, None, list(c['banks'])
    fl = 'propogateEntry2' if c['var'] == 2 else 'propogateEntry'
    flown = None
    for k, op in enumerate(c['ops']):
        if op in ('config0', 'configH'):
            cfg = 0.0 if op == 'config0' else c['H']
            v.setInitialState(*(c['state'][:7] + [cfg]))
            ev.append(dict(ev='set', source='config'))
        elif op == 'chain':
            s = [v.h_kmc[-1], v.theta_degc[-1], v.phi_degc[-1], v.v_kmsc[-1], v.psi_degc[-1], v.gamma_degc[-1], v.drange_kmc[-1], v.heatload[-1]]
            end = float(v.heatload[-1])
            v.setInitialState(*s)
            cfg = end
            ev.append(dict(ev='set', source='last'))
        elif op == 'fly':
            b = banks[k % len(banks)]
            st = [v.h0_km, v.theta0_deg, v.phi0_deg, v.v0_kms, v.psi0_deg, v.gamma0_deg, v.drange0_km]
            getattr(v, fl)(c['t'], c['dt'], b)
            flown = (st, b)
            if len(v.tc) == 0:
                break
            ev.append(fly_event(c, v, cfg, end))
            if not c['cdm'] or k == 0:
                ev.append(mach_event(c, v))
        else:
            rn = np.array(c['rn'])
            keep = rn.copy()
            nose = v.RN
            peak, load = v.computeHeatingForMultipleRN(v.tc, v.rc, v.vc, rn)
            wp, wl = [], []
            for x in keep:
                w = make(dict(c, RN=float(x)))
                w.setInitialState(*(flown[0] + [0.0]))
                getattr(w, fl)(c['t'], c['dt'], flown[1])
                wp.append(float(np.max(w.q_stag_total)))
                wl.append(float(w.heatload[-1]))
            ev.append(dict(ev='sweep', peak=relres(peak, wp, 1e9, floor=1e-9), load=relres(load, wl, 1e9, floor=1e-9), n=len(peak), n2=len(load), wn=len(keep), nose=res(v.RN - nose, 1e9)))
    return ev


def run(ctx):
    ctx.design('Loads', 'SPECIFICATION Spec\nCONSTANTS MaxOps=%d Rates={0,1,3} MaxFlight=%d Scales={1,2}\nINVARIANTS NeverDecreases GrowsByTheIntegral SweepIsDedicatedFlight\nCHECK_DEADLOCK FALSE\n' % ((4, 4) if ctx.thorough else (4, 3)))
    ctx.design('Heating', 'SPECIFICATION Spec\nCONSTANTS Grain=%d\nINVARIANTS HalfByFour Joins EarthTableRises\nPROPERTIES Hotter HotterRadiation\nCHECK_DEADLOCK FALSE\n' % (50 if ctx.thorough else 500))
    hist = ctx.generate('LoadsGen', 'SPECIFICATION GSpec\nCONSTANT Len1=%d\nCHECK_DEADLOCK FALSE\n' % 5)
    r = ctx.rng('c08')
    ctx.notes['histories'] = len(hist)
    short = [h for h in hist if len(h) <= 3]
    cases = []
    use = hist * 2 if ctx.thorough else short + r.sample([h for h in hist if len(h) > 3], 100)
    for n, h in enumerate(use):
        pl = amat.PLANETS[n % 8]
        c = amat.random_vehicle(r, pl)
        deep = r.random() < .3
        c.update(ops=h, banks=[r.choice([0., 180., 90., -90., r.uniform(-180, 180)]) for _ in range(3)], var=r.choice([1, 2]), H=r.uniform(10, 9e4), rn=[round(r.uniform(.05, 3.), 3) for _ in range(r.choice([1, 3, 5]))],
                 t=r.choice([60., 200., 600.]), dt=r.choice([.5, 1., 2.5]), cdm=int(r.random() < .25))
        if c['cdm']:
            c['t'], c['dt'] = 60., 2.5
        if deep:       # start inside the atmosphere, at lower speed
            p = amat.Planet(pl)
            c['state'][0] = p.h_skip / 1e3 * r.uniform(.15, .5)
            c['state'][3] *= r.uniform(.15, .7)
        cases.append(c)
    ctx.cases_replayed = len(cases)
    cases += [dict(planet=pl, n=r.randrange(10 ** 9), m=200 if ctx.thorough else 25) for pl in amat.PLANETS]
    traces = ctx.run_cases(any_case, cases, timeout=120)
    ctx.validate('LoadsTrace', cases, traces)
