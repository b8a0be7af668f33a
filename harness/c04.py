"""C04: on-board predictions (spec/Predict.tla)."""
import inspect
import math
import numpy as np
from scipy.interpolate import interp1d
import amat, orbit
from kit import q, relres, absres, res, fingerprint, Interner

SER = ['t_minc', 'h_kmc', 'v_kmsc', 'phi_degc', 'psi_degc', 'theta_degc', 'gamma_degc', 'drange_kmc', 'exitflag', 'acc_net_g',
       'dyn_pres_atm', 'stag_pres_atm', 'q_stag_total', 'heatload', 'acc_drag_g']
PRED = ['predictApoapsisAltitudeKm_withLiftUp', 'predictApoapsisAltitudeKm_withLiftUp2', 'predictApoapsisAltitudeKm_afterJettision', 'predictApoapsisAltitudeKm_afterJettision2']
UTIL = ['propogateEntry_util', 'propogateEntry_util2', 'propogateEntry_utilD', 'propogateEntry_utilD2']


def snapshot(v):
    """every attribute of the vehicle (configuration and trajectory being flown), by value"""
    import types
    return {k: fingerprint(x) for k, x in v.__dict__.items() if k not in ('planetObj', 'vehicleCopy') and k[0] != '_' and not isinstance(x, types.FunctionType)}


def psnap(p):
    return {k: fingerprint(x) for k, x in p.__dict__.items() if k[0] != '_'}


def toks(a, b):
    """tokens of attributes present before; attributes that did not exist before are not state"""
    t = Interner()
    ka = sorted(a)
    return [t(a[k]) for k in ka], [t(b.get(k)) for k in ka]


def fresh_flight(c, v, args, var, jett, density, jitter=0):
    """fly a newly built vehicle from the given state through the given atmosphere"""
    h0, th, ph, v0, ga, ps, dr, hl, t, dt, bank = args
    if jitter:
        h0, th, ph, v0, ga, ps, dr = amat.jittered([h0, th, ph, v0, ga, ps, dr], v.planetObj.RP, jitter)
        t *= 1 + jitter % 3 * 2.3e-16
    p = amat.planet(c['planet'], kind=c.get('kind', 'linear'), h_skip=c.get('h_skip'))
    for k in ('h_skip', 'h_trap', 'h_low', 'h_thres'):
        setattr(p, k, getattr(v.planetObj, k))
    p.density_int = density
    cc = dict(c, state=[h0, th, ph, v0, ps, ga, dr, hl], tol=v.tol * (SOLVER[jitter - 7] if jitter > 6 else 1))
    if jett:
        cc['beta'] = c['beta1'] * c['ratio']
    w = amat.vehicle(cc, p)
    if jett:
        # jettison changes drag only: the lift coefficient of the vehicle stays
        w.CL = v.CL
    w.RN = v.RN
    getattr(w, 'propogateEntry2' if var == 2 else 'propogateEntry')(t, dt, bank)
    return w


def apo(w):
    s = [x[-1] for x in (w.rc, w.thetac, w.phic, w.vc, w.psic, w.gammac)]
    R, V = orbit.state_vectors(*s, omega=w.planetObj.OMEGA)
    return (orbit.elements(R, V, w.planetObj.GM)['ra'] - w.planetObj.RP) / 1e3, orbit.elements(R, V, w.planetObj.GM)


TOL = 1000
SOLVER = [.5, .7]                    # flights 7 and 8: other step sizes, which show the integration error
GAIN = lambda j: 100 if j < 7 else 10


def compare(c, v, name, args, density, call):
    var = 2 if name.endswith('2') else 1
    jett = 'Jettision' in name or 'utilD' in name
    b, pb = snapshot(v), psnap(v.planetObj)
    out = call()
    a, pa = snapshot(v), psnap(v.planetObj)
    bt, at = toks(b, a)
    pbt, pat = toks(pb, pa)
    w = fresh_flight(c, v, args, var, jett, density)
    base = dict(name=name, before=bt, after=at, pbefore=pbt, pafter=pat)
    if name in UTIL:
        diff = 0
        for k, x in zip(SER, out):
            if k == 'exitflag':
                continue
            y = relres(x, getattr(w, k), 1e9, floor=1e-6)
            diff = y if y < 0 or diff < 0 else max(diff, y)
        e = dict(base, ev='series', diff=diff, flag=q(out[8]), wflag=q(w.exitflag), slack=0, edge=0)
        if not 0 <= diff <= TOL or e['flag'] != e['wflag']:
            # a flight that rounding alone changes this much decides nothing
            for j in range(1, 9):
                x = fresh_flight(c, v, args, var, jett, density, j)
                if len(x.tc) != len(w.tc) or x.exitflag != w.exitflag:
                    e['slack'], e['edge'] = 10 ** 9, 1
                    break
                e['slack'] = max([e['slack']] + [GAIN(j) * relres(getattr(x, k), getattr(w, k), 1e9, floor=1e-6) for k in SER if k != 'exitflag'])
        e['slack'] = min(e['slack'], 10 ** 9)
        return out, e
    want, el = apo(w)
    d = relres([out], [want], 1e9, floor=1.0)
    if abs(el['e'] - 1) < 1e-4:
        d = 0                        # parabolic: apoapsis has no stable value
    slack = 0
    if not 0 <= d <= TOL:
        slack = min(10 ** 9, max(GAIN(j) * relres([apo(fresh_flight(c, v, args, var, jett, density, j))[0]], [want], 1e9, floor=1.0) for j in range(1, 9)))
    return out, dict(base, ev='predict', apo=d, slack=slack)


def pred_case(c):
    v = amat.vehicle(c)
    v.setDragModulationVehicleParams(c['beta1'], c['ratio'])
    v.setTargetOrbitParams(300., 2000., 50.)
    if c['flown']:
        v.propogateEntry(120., 2., 30.)
    p = v.planetObj
    h = np.linspace(0., 1.3 * p.h_skip, c['nodes'])
    dens = interp1d(h, c['dscale'] * np.asarray(amat.planet(c['planet'], kind='linear').density_int(h)), fill_value=(p.rho0, 0.), bounds_error=False)
    if c['own']:
        dens = p.density_int
    ev = []
    for name in PRED + UTIL:
        args = tuple(c['from']) + (c['t'], c['dt'], c['bank'])
        out, e = compare(c, v, name, args, dens, lambda: getattr(v, name)(*args, dens))
        ev.append(e)
    return ev


def density_case(c):
    v = amat.vehicle(c)
    p = v.planetObj
    hs = np.array([0.] + c['h'])
    pert = np.array([1.0] + c['pert'])
    ds = np.concatenate(([0.], np.asarray(p.density_int(hs[1:] * 1e3)) * pert[1:]))
    b = [fingerprint(hs), fingerprint(ds)]
    f, mn = v.createDensityMeasuredFunction(hs, ds, c['low'], c['n'])
    t = Interner()
    at = relres(f(hs[1:] * 1e3), ds[1:], 1e9)
    mh = min(c['h']) * 1e3
    k = int(np.argmin(c['h'])) + 1
    low = relres([mn], [mh], 1e9)
    hl = np.linspace(mh - 1000., c['low'] * 1e3, c['n'])
    hl = hl[hl < mh - 1e-3]            # the vehicle may have dived below the altitude down to which the estimate was to reach
    d = np.asarray(f(hl), float)
    slope = np.log(d / ds[k]) / (mh - hl)
    expo = relres(slope, np.full(len(slope), slope[0]), 1e6)
    if not np.all(slope > 0):
        expo = 10 ** 8
    # scale height: mass of the column above over the density there
    hh = np.linspace(mh, p.h_skip, 4000)
    rho = np.asarray(p.density_int(hh), float)
    if mh > p.h_skip - 3000.:          # next to nothing above: the decay of the density there
        a, b2 = np.asarray(p.density_int([p.h_skip - 4000., p.h_skip]), float)
        H = 4000. / math.log(a / b2)
        return [dict(ev='density', at=at, low=low, expo=expo, scale=res(abs(1 / slope[0] - H) / H, 300), before=[t(x) for x in b], after=[t(fingerprint(hs)), t(fingerprint(ds))])]
    H = np.sum(0.5 * (rho[1:] + rho[:-1]) * np.diff(hh)) / (rho[0] - rho[-1])
    return [dict(ev='density', at=at, low=low, expo=expo, scale=res(abs(1 / slope[0] - H) / H, 1e3), before=[t(x) for x in b], after=[t(fingerprint(hs)), t(fingerprint(ds))])]


def guided_case(c):
    """predictions made inside a guided flight"""
    v = amat.vehicle(c)
    v.setDragModulationVehicleParams(c['beta1'], c['ratio'])
    v.setTargetOrbitParams(*c['target'])
    if c['mode'].startswith('L'):
        v.setEquilibriumGlideParams(*c['eg'])
        v.setMaxRollRate(30.)
    else:
        v.setDragEntryPhaseParams(*c['dp'])
    ev = []
    n = [0]
    for name in PRED:
        def wrap(*args, _name=name, _orig=getattr(v, name), **kw):
            n[0] += 1
            name, orig = _name, _orig
            args = tuple(inspect.signature(orig).bind(*args, **kw).arguments.values())      # however the arguments are passed
            if n[0] % c['every']:
                return orig(*args)
            a, dens = args[:11], args[11]
            # the vehicle flies with the drag of its phase; the prediction is of this vehicle
            out, e = compare(dict(c, beta=v.beta), v, name, a, dens, lambda: orig(*args))
            ev.append(e)
            return out
        setattr(v, name, wrap)
    getattr(v, {'L1': 'propogateGuidedEntry', 'L2': 'propogateGuidedEntry2', 'D1': 'propogateGuidedEntryD', 'D2': 'propogateGuidedEntryD2'}[c['mode']])(*c['steps'])
    return ev


def any_case(c):
    return dict(pred=pred_case, dens=density_case, guided=guided_case)[c['what']](c)


def run(ctx):
    ctx.design('Predict', 'SPECIFICATION Spec\nCONSTANT MaxSteps=%d\nINVARIANTS Untouched TruthIsKept Faithful\nCHECK_DEADLOCK FALSE\n' % (6 if ctx.thorough else 4))
    r = ctx.rng('c04')
    cases = []
    # the real guided flights of the documentation, and variants
    for mode in ['L1', 'L2', 'D1', 'D2']:
        if mode[0] == 'L':
            c = dict(planet='NEPTUNE', mass=1000., beta=200., LD=.4, A=3.1416, RN=1., kind='linear', state=[1000., 0., 0., 28., 0., r.uniform(-13.7, -12.6), 0., 0.], tol=1e-6,
                     target=[4000., 400e3, 20e3], eg=[75., 3., 18.9, 120., 101, -500.], beta1=80., ratio=3., steps=[2., 1., 1200.])
        else:
            c = dict(planet='EARTH', h_skip=125e3, mass=25.97, beta=66.4, LD=0., A=math.pi * .25 ** 2, RN=.0563, kind='linear', state=[125., 0., 0., 9.8, 0., r.uniform(-5.1, -4.7), 0., 0.], tol=1e-6,
                     target=[180., 1760., 50.], dp=[5., 50., 101, -200.], beta1=66.4, ratio=4.72, steps=[1., 1., 1., 1200.])
        c.update(what='guided', mode=mode, every=1 if ctx.thorough else 3)
        cases.append(c)
    for rep in range(25 if ctx.thorough else 5):
        for pl in amat.PLANETS:
            c = amat.random_vehicle(r, pl)
            p = amat.Planet(pl)
            lo, hi = amat.SPEED[pl]
            c.update(what='pred', beta1=r.uniform(30, 150), ratio=r.uniform(1.5, 8), flown=r.random() < .5, nodes=r.choice([30, 300]), dscale=r.uniform(.5, 1.6), own=r.random() < .2,
                     t=r.choice([400., 1500.]), dt=r.choice([1.0, 4.0]), bank=r.choice([0., 0., 180., r.uniform(-180, 180)]))
            c['from'] = [p.h_skip / 1e3 * r.uniform(.3, .9), r.uniform(-180, 180), r.uniform(-60, 60), r.uniform(lo * .6, hi), r.uniform(-6, 4), r.uniform(-180, 180), r.uniform(0, 2000), r.uniform(0, 1e4)]
            cases.append(c)
            for _ in range(4):
                c = amat.random_vehicle(r, pl)
                n = r.randrange(2, 30)
                top, bot = p.h_skip / 1e3 * r.uniform(.6, .95), p.h_skip / 1e3 * r.uniform(.25, .5)
                h = sorted({round(r.uniform(bot, top), 6) for _ in range(n)}, reverse=True)
                if len(h) < 2:
                    h = [top, bot]
                if r.random() < .3:                # pulled up again at the end
                    h = h + [min(h) * (1 + 1e-3 * (k + 1)) + 1e-4 for k in range(3)]
                if r.random() < .2:                # the first measurements of an entry, at the top of the atmosphere
                    top = p.h_skip / 1e3
                    h = r.choice([[top], [top, top - r.uniform(.05, .9)], [top - r.uniform(.05, .9)], [top - .2, top - r.uniform(.5, 1.8)]])
                c.update(what='dens', h=h, pert=[r.uniform(.6, 1.5) for _ in h], low=min(h) * (r.uniform(.3, .8) if r.random() < .8 else r.uniform(.97, 1.1)), n=r.choice([2, 11, 101]))
                cases.append(c)
    traces = ctx.run_cases(any_case, cases, timeout=200)
    ctx.notes['predictions_in_guided_flights'] = sum(len(t) for c, t in zip(cases, traces) if c['what'] == 'guided')
    ctx.validate('PredictTrace', cases, traces)
