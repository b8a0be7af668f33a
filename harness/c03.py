"""C03: analysis calls leave no trace (spec/History.tla)."""
import copy, math
import numpy as np
from scipy.interpolate import interp1d
import amat
from kit import fingerprint, relres

VCFG = ['mass', 'CD', 'beta', 'LD', 'CL', 'A', 'alpha', 'RN', 'vehicleID', 'h0_km', 'theta0_deg', 'phi0_deg', 'v0_kms', 'psi0_deg', 'gamma0_deg',
        'drange0_km', 'heatLoad0', 'tol', 'beta1', 'betaRatio', 'target_peri_km', 'target_apo_km', 'target_apo_km_tol', 'Ghdot', 'Gq', 'v_switch_kms',
        'lowAlt_km', 'numPoints_lowAlt', 'hdot_threshold', 'maxRollRate', 'Abar', 'mbar', 'userDefinedCDMach', 'CDMach',
        'h0_km_ref', 'theta0_deg_ref', 'phi0_deg_ref', 'v0_kms_ref', 'psi0_deg_ref', 'gamma0_deg_ref', 'drange0_km_ref', 'heatLoad0_ref']
PCFG = ['ATM_density', 'ATM_height', 'ATM_pressure', 'ATM_sonic', 'ATM_temp', 'CPCV', 'GM', 'ID', 'J2', 'J3', 'OMEGA', 'OMEGAbar', 'RP', 'Vref', 'a0', 'd0',
        'density_int', 'h_low', 'h_skip', 'h_thres', 'h_trap', 'pressure_int', 'rho0', 'sonic_int', 'tau', 'temp_int', 'EARTHG']
T, DT = 700., 7.
FLIGHT = ['tc', 'rc', 'thetac', 'phic', 'vc', 'psic', 'gammac', 'drangec', 't_minc', 'h_kmc', 'v_kmsc', 'phi_degc', 'psi_degc', 'theta_degc', 'gamma_degc',
          'drange_kmc', 'acc_net_g', 'acc_drag_g', 'dyn_pres_atm', 'stag_pres_atm', 'q_stag_con', 'q_stag_rad', 'q_stag_total', 'heatload', 'exitflag']


def flight(v):
    return [getattr(v, k) for k in FLIGHT]


STEP = ['t_step_array', 'delta_deg_array', 'hdot_array', 'hddot_array', 'qref_array', 'q_array', 'h_step_array', 'acc_step_array', 'acc_drag_array', 'density_mes_array']
PART = ['t_min', 'h_km', 'v_kms', 'theta_deg', 'phi_deg', 'psi_deg', 'gamma_deg', 'drange_km', 'acc_net_g', 'dyn_pres_atm', 'stag_pres_atm', 'q_stag_total', 'heatload']


def guided(v, phase):
    more = [k for k in STEP + [x + phase for x in PART] if hasattr(v, k)]
    return [getattr(v, k) for k in more] + [getattr(v, k) for k in ('t_min_full', 'h_km_full', 'v_kms_full', 'gamma_deg_full', 'heatload_full', 'acc_net_g_full', 'terminal_apoapsis', 'terminal_periapsis',
                                    'periapsis_raise_DV', 'apoapsis_raise_DV')]


ARR = (np.linspace(0, 60, 13), None, None)


GIVEN = []


def G(x):
    """an argument: remembered as it was given"""
    GIVEN.append((x, fingerprint(x)))
    return x


def untouched():
    ok = all(fingerprint(x) == b for x, b in GIVEN)
    del GIVEN[:]
    return int(ok)


def arrays(v):
    p = v.planetObj
    h = np.linspace(0.9, 0.3, 13) * p.h_skip
    return G(np.linspace(0., 60., 13)), G(p.RP + h), G(np.linspace(1.0, 0.5, 13) * v0(v))


def v0(v):
    return amat.SPEED[v.planetObj.ID][0] * 1e3


def st(v, g):
    """arguments of a prediction from inside the atmosphere"""
    p = v.planetObj
    return (0.5 * p.h_skip / 1e3, 10., 5., amat.SPEED[p.ID][0] * 0.8, g, 20., 100., 3e3, T, DT)


def mk_ops():
    o = []

    def add(name, f, last=False):
        o.append((name, f, last))
    for m in ('propogateEntry', 'propogateEntry2'):
        add(m + '-up', lambda v, m=m: (getattr(v, m)(T, DT, 0.), flight(v))[1])
        add(m + '-bank', lambda v, m=m: (getattr(v, m)(T, DT, -70.), flight(v))[1])
    add('isCaptured', lambda v: v.isCaptured(T, DT, 0.))
    for m in ('hitsTargetApoapsis', 'hitsTargetApoapsis2'):
        add(m, lambda v, m=m: getattr(v, m)(T, DT, 180., 1000.))
    for m in ('findOverShootLimit', 'findOverShootLimit2', 'findUnderShootLimit', 'findUnderShootLimit2', 'findOverShootLimitD', 'findOverShootLimitD2',
              'findUnderShootLimitD', 'findUnderShootLimitD2', 'findEFPALimitD', 'findEFPALimitD2'):
        add(m, lambda v, m=m: getattr(v, m)(T, DT, *BR[v.planetObj.ID], 1.5, 1000.))
        add(m + '-none', lambda v, m=m: getattr(v, m)(T, DT, BR[v.planetObj.ID][0], BR[v.planetObj.ID][0] * .97, 1.5, 1000.))
    for m in ('computeTCW', 'computeTCW2'):
        add(m, lambda v, m=m: getattr(v, m)(T, DT, *BR[v.planetObj.ID], *BR[v.planetObj.ID], 3., 3., 1000.))
    for m in ('computeTCWD', 'computeTCWD2'):
        add(m, lambda v, m=m: getattr(v, m)(T, DT, *BR[v.planetObj.ID], 3., 1000.))
    add('heatingRN', lambda v: v.computeHeatingForMultipleRN(*arrays(v), G([0.7, 3.0, 1.0, 0.2])))
    add('loads', lambda v: [v.computeAccelerationLoad(arrays(v)[0], arrays(v)[1], G(np.zeros(13)), G(np.zeros(13)), arrays(v)[2], 13, 0.7),
                            v.computeAccelerationDrag(arrays(v)[0], arrays(v)[1], G(np.zeros(13)), G(np.zeros(13)), arrays(v)[2], 13, 0.7),
                            v.computeDynPres(*arrays(v)[1:]), v.computeStagPres(*arrays(v)[1:])])
    add('mach', lambda v: [v.computeMach(*arrays(v)[1:]), v.computeStagTemp(*arrays(v)[1:]), v.computeMachScalar(arrays(v)[1][5], 4000.)])
    add('heating', lambda v: [v.qStagConvective(*arrays(v)[1:]), v.qStagRadiative(*arrays(v)[1:]), v.qStagTotal(*arrays(v)[1:])])
    for m in ('predictApoapsisAltitudeKm_withLiftUp', 'predictApoapsisAltitudeKm_withLiftUp2', 'predictApoapsisAltitudeKm_afterJettision', 'predictApoapsisAltitudeKm_afterJettision2'):
        add(m, lambda v, m=m: getattr(v, m)(*st(v, 3.0), 0., v.planetObj.density_int))
    for m in ('propogateEntry_util', 'propogateEntry_util2', 'propogateEntry_utilD', 'propogateEntry_utilD2'):
        add(m, lambda v, m=m: getattr(v, m)(*st(v, 2.0), 30., dens2(v)))
    add('queries', lambda v: [f(arrays(v)[1]) for f in (v.planetObj.rhovectorized, v.planetObj.pressurevectorized, v.planetObj.temperaturevectorized, v.planetObj.sonicvectorized)]
        + [f(G(np.linspace(0.9, 0.1, 9) * v.planetObj.h_skip)) for f in (v.planetObj.densityvectorized, v.planetObj.presvectorized, v.planetObj.tempvectorized, v.planetObj.avectorized)])
    add('energy', lambda v: [v.computeEnergy(*arrays(v)[1:]), v.computeEnergyScalar(v.planetObj.RP, 5e3)])
    add('measured-density', lambda v: v.createDensityMeasuredFunction(G(np.array([0., 90., 80., 70., 60.])), G(np.array([0., 1e-6, 1e-5, 6e-5, 4e-4])), 20., 11)[0](np.linspace(1e4, 1e5, 19)))
    add('orbit', lambda v: [v.compute_ApoapsisAltitudeKm(v.planetObj.RP + 1e5, v0(v) * .7, .1, 1., .5, .3), v.compute_PeriapsisAltitudeKm(v.planetObj.RP + 1e5, v0(v) * .7, .1, 1., .5, .3),
                            v.compute_periapsis_raise_DV(-200., 2000., 300.), v.compute_apoapsis_raise_DV(300., 2000., 2500.)])
    add('plots', lambda v: (v.propogateEntry(T, DT, 25.), v.makeBasicEntryPlots(), drawn())[2])
    add('qplot', lambda v: (v.createQPlot(T, DT, -15.), drawn())[1])
    add('atmplots', lambda v: (v.planetObj.checkAtmProfiles(2e3, 5e3), drawn())[1])
    for m in ('propogateEntry', 'propogateEntry2'):
        add('copy-' + m, lambda v, m=m: (lambda w: (getattr(w, m)(T, DT, 10.), flight(w))[1])(placed(v.dummyVehicle(dens2(v)))))
    add('companion', lambda v: (lambda w: (w.propogateEntry2(T, DT, 40.), flight(w))[1])(companion(v)))
    add('controller', lambda v: v.psuedoController(100., 20., 1.5))
    add('guidedD', lambda v: (v.propogateGuidedEntryD(1., 1., 1., 600.), guided(v, '_en'))[1], True)
    add('guided', lambda v: (v.propogateGuidedEntry(3., 1., 300.), guided(v, '_eg'))[1], True)
    add('guidedD2', lambda v: (v.propogateGuidedEntryD2(1., 1., 1., 600.), guided(v, '_en'))[1], True)
    add('guided2', lambda v: (v.propogateGuidedEntry2(3., 1., 300.), guided(v, '_eg'))[1], True)
    return o


def drawn():
    """what the open figures show: the data of every line"""
    import matplotlib.pyplot as plt
    out = [np.asarray(l.get_xydata(), float) for n in plt.get_fignums() for a in plt.figure(n).axes for l in a.lines]
    plt.close('all')
    return out


def placed(w):
    p = w.planetObj
    w.setInitialState(.99 * p.h_skip / 1e3, 10., 5., amat.SPEED[p.ID][0], 40., sum(BR[p.ID]) / 2, 50., 2e3)
    w.setSolverParams(1e-6)
    return w


def companion(v):
    """another vehicle flying at the same planet"""
    from AMAT.vehicle import Vehicle
    w = placed(Vehicle('Companion', 900., 90., .1, 4., .05, 0.6, v.planetObj))
    w.setMaxRollRate(5.)
    w.setDragModulationVehicleParams(25., 8.)
    w.setTargetOrbitParams(150., 900., 10.)
    return w


def dens2(v):
    p = v.planetObj
    h = np.linspace(0, 1.2 * p.h_skip, 40)
    return interp1d(h, 1.3 * np.asarray(p.density_int(h)), fill_value=(float(p.density_int(0.)) * 1.3, 0.), bounds_error=False)


BR = dict(EARTH=(-14., -3.), MARS=(-18., -6.), VENUS=(-14., -3.), NEPTUNE=(-20., -7.), URANUS=(-20., -6.), TITAN=(-50., -20.), JUPITER=(-14., -3.), SATURN=(-20., -5.))
OPS = mk_ops()


def configure(v, p, k, c):
    """put vehicle v with planet p into configuration number k (absolute)"""
    s = list(c['state'])
    v.setInitialState(*s)
    v.setSolverParams(1e-6)
    v.RN = c['RN']
    v.setDragModulationVehicleParams(c['beta1'], c['ratio'])
    v.setTargetOrbitParams(300., 2000., 50.)
    if k == 4:
        load(p, 'linear', 2)
    elif getattr(p, '_vk', None) != 1:
        load(p, 'linear', 1)
    p.h_skip = c['h_skip'] if k == 5 else c['h_skip0']
    v.LD, v.CL = c['LD'], c['CL']
    v.CD, v.beta = c['CD'], c['beta']
    v.userDefinedCDMach = k == 9
    v.setCDMachFunction(CDM)
    if k == 1:
        s[0] *= 0.95; s[5] *= 0.8; s[3] *= 1.03; s[7] += 500.
        v.setInitialState(*s)
    elif k == 2:
        v.RN = c['RN'] * 2
    elif k == 3:
        v.setSolverParams(1e-4)
    elif k == 6:
        v.setDragModulationVehicleParams(c['beta1'] * 1.3, c['ratio'] * .8)
    elif k == 7:
        v.LD, v.CL = c['LD'] * .5, c['CL'] * .5
    elif k == 8:          # coefficients that do not follow from one another
        v.CD, v.beta, v.CL = c['CD'] * 1.3, c['beta'] * 1.1, c['CL'] * .9


CDM = interp1d([0., 1., 5., 60.], [1.0, 1.6, 1.4, 1.2], bounds_error=False, fill_value=(1.0, 1.2))
NCFG = 10


def load(p, kind, n):
    f, h, t, pr, d, km = amat.ATM[p.ID]
    import os
    p.loadAtmosphereModel(os.path.join(amat.D, f), h, t, pr, d, intType='linear' if n == 1 else 'cubic', heightInKmFlag=km)
    p._vk = n


def make(c):
    p = amat.planet(c['planet'], kind='linear')
    c['h_skip0'] = p.h_skip
    c['h_skip'] = p.h_skip * 1.02
    v = amat.vehicle(c, p)
    c['CL'], c['CD'] = float(v.CL), float(v.CD)
    v.setTargetOrbitParams(300., 2000., 50.)
    v.setEquilibriumGlideParams(75., 3., amat.SPEED[c['planet']][0] * .6, 20., 101, -1500.)
    v.setDragEntryPhaseParams(amat.SPEED[c['planet']][0] * .75, 20., 101, -200.)
    v.setMaxRollRate(30.)
    return v, p


def fields(v):
    d = [fingerprint(v.__dict__.get(k)) for k in VCFG] + [fingerprint(v.planetObj.__dict__.get(k)) for k in PCFG]
    return d


def flat(x):
    out = []

    def go(y):
        if isinstance(y, (list, tuple)):
            for z in y:
                go(z)
        else:
            a = np.asarray(y, dtype=float).ravel()
            out.append(float(len(a)))
            out.extend(a.tolist())
    go(x)
    return out


def fresh(c):
    cc = dict(c['veh'])
    v, p = make(cc)
    configure(v, p, c['cfg'], cc)
    name, f, last = OPS[c['op']]
    del GIVEN[:]
    return [dict(ev='fresh', op=c['op'], cfg=c['cfg'], r=flat(f(v)))]


def history(c):
    cc = dict(c['veh'])
    v, p = make(cc)
    cur = c['cfg']
    configure(v, p, cur, cc)
    ev = [dict(ev='cfg', cfg=cur, fields=fields(v))]
    for s in c['h']:
        if s['k'] == 'cfg':
            cur = s['v']
            configure(v, p, cur, cc)
            ev.append(dict(ev='cfg', cfg=cur, fields=fields(v)))
        else:
            name, f, last = OPS[s['v']]
            b = fields(v)
            del GIVEN[:]
            r = flat(f(v))
            if last:                     # a guided flight leaves the vehicle where it ended: put it back to the start
                configure(v, p, cur, cc)
            ev.append(dict(ev='call', args=untouched(), op=s['v'], name=name, cfg=cur, before=b, after=fields(v), r=r))
    return ev


def any_case(c):
    return fresh(c) if c['what'] == 'fresh' else history(c)


def run(ctx):
    ctx.design('History', 'SPECIFICATION Spec\nCONSTANTS Vals={0,1} MaxCalls=%d\nINVARIANTS NoTrace FunctionOfConfig Depth\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\n' % (2 if ctx.thorough else 1), workers=8, timeout=700)
    gen = ctx.generate('HistoryGen', 'SPECIFICATION GSpec\nCONSTANTS NOps=%d NCfgs=%d\nCHECK_DEADLOCK FALSE\n' % (len(OPS), NCFG))
    r = ctx.rng('c03')
    lastops = [i for i, o in enumerate(OPS) if o[2]]
    planets = list(amat.PLANETS) if ctx.thorough else [r.choice(['EARTH', 'MARS', 'VENUS']), r.choice(['NEPTUNE', 'URANUS', 'TITAN', 'SATURN', 'JUPITER'])]
    by = {}
    for g in gen:
        if g['tour']:
            continue
        by.setdefault((g['a'], g['b']), []).append(g)
    nper = {True: len(by), False: 120}[ctx.thorough]
    tours = [g for g in gen if g['tour'] and g['a'] not in lastops]
    allc, allt = [], []
    cases = []
    for pl in planets:
        veh = amat.random_vehicle(r, pl, LD=r.choice([.2, .35]), beta1=r.uniform(40, 90), ratio=r.uniform(2, 6), tol=1e-6)
        veh['state'][0] = amat.Planet(pl).h_skip / 1e3 * .99
        veh['state'][5] = sum(BR[pl]) / 2
        hist = [dict(what='hist', planet=pl, veh=veh, cfg=g['cfg'], h=g['h'], a=g['a'], b=g['b'], d=g['d']) for g in (tours if ctx.thorough or pl == planets[0] else [])]
        keys = sorted(k for k in by if k[0] not in lastops)
        r.shuffle(keys)
        # guided flights after guided flights, and before other calls
        keys = [(a, b) for a in lastops for b in lastops if a == b or r.random() < (1 if ctx.thorough else .3)] + [(a, r.randrange(len(OPS))) for a in lastops for _ in range(8 if ctx.thorough else 2)] + keys
        # every call appears as first and as second; configuration switch in half of the histories
        for n, key in enumerate(keys[:nper]):
            opts = by[key]
            same = [g for g in opts if g['d'] == g['cfg']]
            oth = [g for g in opts if g['d'] != g['cfg']]
            g = r.choice(oth) if n % 2 else same[0]
            hist.append(dict(what='hist', planet=pl, veh=veh, cfg=g['cfg'], h=g['h'], a=g['a'], b=g['b'], d=g['d']))
        need = set()
        for h in hist:
            cur = h['cfg']
            for s in h['h']:
                if s['k'] == 'cfg':
                    cur = s['v']
                else:
                    need.add((s['v'], cur))
        cases += hist + [dict(what='fresh', planet=pl, veh=veh, cfg=k, op=i) for i, k in sorted(need)]
    traces = ctx.run_cases(any_case, cases, timeout=200)
    # tokens: results are equal if they agree to 1e-9; configuration fields are bit-exact
    reps, ftok = {}, {}

    def token(pl, op, cfg, res):
        lst = reps.setdefault((pl, op), [])
        a = np.array(res, dtype=float)
        for i, b in enumerate(lst):
            if a.shape == b.shape and (np.array_equal(a, b, equal_nan=True) or relres(np.nan_to_num(a, nan=-7e77), np.nan_to_num(b, nan=-7e77), 1e9, floor=1e-9) <= 1):
                return i
        lst.append(a)
        return len(lst) - 1
    freshev = {}
    hc, ht = [], []
    for c, t in zip(cases, traces):
        for e in t:
            for k in ('before', 'after', 'fields'):
                if k in e:
                    e[k] = [ftok.setdefault(x, len(ftok)) for x in e[k]]
            if 'r' in e:
                e['r'] = token(c['planet'], e['op'], e['cfg'], e['r'])
        if c['what'] == 'fresh':
            freshev[c['planet'], c['op'], c['cfg']] = t
    for c, t in zip(cases, traces):
        if c['what'] == 'hist':
            need = sorted({(e['op'], e['cfg']) for e in t if e['ev'] == 'call'})
            pre = []
            for o, k in need:
                pre += [dict(x) for x in freshev[c['planet'], o, k]]
            hc.append(dict(planet=c['planet'], h=[OPS[s['v']][0] if s['k'] == 'call' else 'cfg%d' % s['v'] for s in c['h']], veh=c['veh']))
            ht.append(pre + t)
            ctx.cases_replayed += 1
    # fresh calls that fault on their own
    for c, t in zip(cases, traces):
        if c['what'] == 'fresh' and any(e['ev'] in ('raise', 'hang') for e in t):
            hc.append(dict(planet=c['planet'], h=[OPS[c['op']][0]], cfg=c['cfg'], veh=c['veh']))
            ht.append(t)
    ctx.notes['calls'] = [o[0] for o in OPS]
    ctx.notes['configurations'] = NCFG
    # how many (call, configuration change) pairs are distinguishable at all
    ctx.notes['result_classes'] = sum(len(x) for x in reps.values())
    ctx.validate('HistoryTrace', hc, ht)
