"""C02: corridor searches (spec/Corridor.tla)."""
import inspect
import numpy as np
import amat, orbit
from kit import q, relres, absres, res

FNS = {  # name: (bank, kind, variant)
    'findOverShootLimit': (180, 'L', 1), 'findOverShootLimit2': (180, 'L', 2),
    'findUnderShootLimit': (0, 'L', 1), 'findUnderShootLimit2': (0, 'L', 2),
    'findOverShootLimitD': (None, 'D1', 1), 'findOverShootLimitD2': (None, 'D1', 2),
    'findUnderShootLimitD': (None, 'D2', 1), 'findUnderShootLimitD2': (None, 'D2', 2)}


def lift_drag(v, p):
    r = p.RP + 0.3 * p.h_skip
    return [float(v.L(r, 0., 0., 5000.)), float(v.D(r, 0., 0., 5000.))]


def want_vehicle(c, kind, p):
    """a fresh vehicle configured as the search has to fly it"""
    if kind == 'L':
        w = amat.vehicle(c, p)
    else:
        beta = c['beta1'] * (c['ratio'] if kind == 'D2' else 1.0)
        w = amat.vehicle(dict(c, beta=beta, LD=0.0), p)
    return w


def stub_batch(c):
    """TLC-enumerated side functions replayed through the real searches, the flight itself replaced"""
    p = amat.planet(c['planet'], kind='linear')
    out = []
    called = 0
    for g in c['cases']:
        bank, kind, var = FNS[c['fn']]
        v = amat.vehicle(c['veh'], p)
        v.setDragModulationVehicleParams(c['veh']['beta1'], c['veh']['ratio'])
        v.__class__ = type('Stub', (amat.Vehicle,), {})         # the flight is replaced in the class: also on a copy of the vehicle
        want = lift_drag(want_vehicle(c['veh'], kind, p), p)
        seen = []
        cfgres = [0]

        def test(self, *a, sig=inspect.signature(amat.Vehicle.hitsTargetApoapsis), **k):
            asked = list(sig.bind(self, *a, **k).arguments.values())
            delta_deg = asked[3]
            x = self.gamma0_deg + 20.0
            cell = int(min(8, max(0, np.floor(x + 0.5))))
            seen.append(q(delta_deg % 360, 1000))
            got = lift_drag(self, self.planetObj)
            if kind != 'L':
                seen[-1] = -1
            # the same configuration, flight time, step and target every time
            cfgres[0] = max(cfgres[0], relres(got, want, 1e9, floor=1e-3), relres([asked[1], asked[2], asked[4]], [600., 5., 1000.], 1e9))
            return float(g['side'][cell])
        type(v).hitsTargetApoapsis = type(v).hitsTargetApoapsis2 = test
        ang, flag = getattr(v, c['fn'])(600., 5., -20.0 + g['lo'], -20.0 + g['hi'], 0.5 * g['tol'], 1000.0)
        if not seen:
            continue         # the search does not go through the target test: nothing learnt here
        called += 1
        out.append(dict(ev='stub', fn=c['fn'], side=g['side'], lo=g['lo'], hi=g['hi'], tol=g['tol'], found=q(flag), x=q((float(ang) + 20.0) * 1024),
                        banks=sorted(set(seen)), wantbank=-1 if bank is None else bank * 1000, cfg=cfgres[0]))
    return out


def end_state(w, t, dt, bank, var):
    """fly a fresh vehicle, return what its end state says (independent orbit)"""
    getattr(w, 'propogateEntry' if var == 1 else 'propogateEntry2')(t, dt, bank)
    p = w.planetObj
    s = [x[-1] for x in (w.rc, w.thetac, w.phic, w.vc, w.psic, w.gammac)]
    R, V = orbit.state_vectors(*s, omega=0.0 if var == 1 else p.OMEGA)
    el = orbit.elements(R, V, p.GM)
    return s[0] - p.RP, el, p


def facts(w, t, dt, bank, var, target):
    h, el, p = end_state(w, t, dt, bank, var)
    apo = (el['ra'] - p.RP) / 1e3
    vs = 0 if apo == target else (1 if apo > target else -1)
    amb = abs(apo - target) < 1e-6 * max(1., abs(target)) or abs(h - p.h_low) < 1e-6 or abs(el['E']) < 1e-9 * p.GM / p.RP
    return dict(lost=int(h < p.h_low), esc=int(el['a'] < 0), vs=vs), amb


def search_case(c):
    fn = c['fn']
    bank, kind, var = FNS[fn]
    fb = 0. if bank is None else float(bank)
    p = lambda: amat.planet(c['planet'], kind=c['kind'])
    v = amat.vehicle(c, p())
    v.setDragModulationVehicleParams(c['beta1'], c['ratio'])
    ang, flag = getattr(v, fn)(c['t'], c['dt'], c['lo'], c['hi'], c['gtol'], c['target'])
    ang = float(ang)

    def at(g):
        w = want_vehicle(c, kind, p())
        w.gamma0_deg = g
        return facts(w, c['t'], c['dt'], fb, var, c['target'])
    low, a1 = at(c['lo'])
    high, a2 = at(c['hi'])
    if a1 or a2:
        return []
    e = dict(ev='search', fn=fn, found=q(flag), low=low, high=high, at=low, near=[], inside=1)
    if flag == 1.0:
        e['at'], a3 = at(ang)
        if a3:
            return []
        w = abs(c['hi'] - c['lo'])
        while w > c['gtol']:
            w /= 2
        sgn = 1 if c['lo'] > c['hi'] else -1       # towards the low end
        offs = [sgn * w, sgn * c['gtol'], -sgn * c['gtol'], sgn * c['gtol'] / 2, -sgn * w]
        near = []
        for o in offs:
            f, a = at(ang + o)
            near.append(f)
            if f != e['at']:
                break
        e['near'] = near
        e['inside'] = int(min(c['lo'], c['hi']) - 1e-12 <= ang <= max(c['lo'], c['hi']) + 1e-12)
    return [e]


def width_case(c):
    fn = c['fn']
    v = amat.vehicle(c)
    v.setDragModulationVehicleParams(c['beta1'], c['ratio'])
    if 'D' in fn:
        w = v.__getattribute__(fn)(c['t'], c['dt'], c['lo'], c['hi'], c['gtol'], c['target'])
        a = (c['t'], c['dt'], c['lo'], c['hi'], c['gtol'], c['target'])
        b = a
        names = ('findOverShootLimitD', 'findUnderShootLimitD')
    else:
        w = v.__getattribute__(fn)(c['t'], c['dt'], c['lo'], c['hi'], c['lo2'], c['hi2'], c['gtol'], c['gtol2'], c['target'])
        a = (c['t'], c['dt'], c['lo'], c['hi'], c['gtol'], c['target'])
        b = (c['t'], c['dt'], c['lo2'], c['hi2'], c['gtol2'], c['target'])
        names = ('findOverShootLimit', 'findUnderShootLimit')
    sfx = '2' if fn.endswith('2') else ''
    lims = []
    for n, args in zip(names, (a, b)):
        u = amat.vehicle(c)
        u.setDragModulationVehicleParams(c['beta1'], c['ratio'])
        lims.append(float(getattr(u, n + sfx)(*args)[0]))
    return [dict(ev='width', fn=fn, diff=absres([w], [lims[0] - lims[1]], 1e9))]


def verdict_case(c):
    p = lambda: amat.planet(c['planet'], kind=c['kind'])
    out = []
    for var, fn in ((1, 'hitsTargetApoapsis'), (2, 'hitsTargetApoapsis2')):
        h, el, pl = end_state(amat.vehicle(c, p()), c['t'], c['dt'], c['bank'], var)
        apo = (el['ra'] - pl.RP) / 1e3
        # also the targets just short of and just beyond where this flight goes
        for target in [c['target']] + ([apo - .01 * k, apo + .01 * k] if 0 < apo < 1e7 and (k := max(1., 1e-3 * apo)) else []):
            f, amb = facts(amat.vehicle(c, p()), c['t'], c['dt'], c['bank'], var, target)
            got = getattr(amat.vehicle(c, p()), fn)(c['t'], c['dt'], c['bank'], target)
            if not amb:
                out.append(dict(ev='verdict', kind='target', fn=fn, f=f, got=q(got)))
    h, el, pl = end_state(amat.vehicle(c, p()), c['t'], c['dt'], c['bank'], 1)
    got = amat.vehicle(c, p()).isCaptured(c['t'], c['dt'], c['bank'])
    if abs(el['E']) > 1e-9 * pl.GM / pl.RP:
        out.append(dict(ev='verdict', kind='capture', esign=-1 if el['E'] < 0 else 1, got=q(got)))
    return out


def any_case(c):
    return dict(stub=stub_batch, search=search_case, width=width_case, verdict=verdict_case)[c['what']](c)


def corridor_config(r, pl):
    """a configuration whose corridor lies inside the bracket"""
    c = amat.random_vehicle(r, pl)
    s = c['state']
    h = amat.Planet(pl).h_skip / 1e3
    c['state'] = [h, r.uniform(-180, 180), r.choice([0., r.uniform(-60, 60)]), r.uniform(*amat.SPEED[pl]), r.choice([0., r.uniform(-180, 180)]), -10.0, 0., 0.]
    c['LD'] = r.choice([0.2, 0.4, 0.7])
    c['beta1'] = r.uniform(30, 120)
    c['ratio'] = r.uniform(2., 10.)
    c['target'] = r.choice([r.uniform(300, 5000), r.uniform(1e4, 5e5)])
    g = amat.GAMMA[pl]
    lo, hi = g[0] * r.uniform(1.0, 1.3), g[1] * r.uniform(0.2, 0.6)
    c['lo'], c['hi'] = max(lo, -85.), hi
    c['lo2'], c['hi2'] = max(lo * 1.1, -85.), hi * 0.9
    c['t'], c['dt'] = r.choice([1200., 2400.]), r.choice([2.0, 5.0])
    c['gtol'] = r.choice([0.1, 0.02, 0.5])
    c['gtol2'] = r.choice([0.1, 0.3])
    return c


def run(ctx):
    n = 8 if ctx.thorough else 6
    ctx.design('Corridor', '''SPECIFICATION Spec
CONSTANTS N=%d Tols={1,2,3} Brackets <- AllBrackets
INVARIANTS Bracketing SuccessExactly ResultInside ResultOnHighEndSide BoundaryWithinTol
PROPERTY Terminates
CHECK_DEADLOCK FALSE
''' % n, workers=8)
    gen = ctx.generate('CorridorGen', 'SPECIFICATION GSpec\nCONSTANTS N=8 Tols={1,2,5} Brackets <- GenBrackets\nCHECK_DEADLOCK FALSE\n')
    r = ctx.rng('c02')
    r.shuffle(gen)
    per = len(gen) if ctx.thorough else 700
    cases = []
    for i, fn in enumerate(FNS):
        part = (gen[i * per:] + gen)[:per]
        for k in range(0, len(part), 175):
            pl = r.choice(amat.PLANETS)
            veh = amat.random_vehicle(r, pl, LD=0.35, beta1=r.uniform(30, 100), ratio=r.uniform(2, 8))
            cases.append(dict(what='stub', fn=fn, planet=pl, veh=veh, cases=part[k:k + 175]))
    nstub = len(cases)
    for rep in range(12 if ctx.thorough else 1):
        for j, pl in enumerate(amat.PLANETS):
            fns = list(FNS) if ctx.thorough else r.sample(list(FNS), 4)
            for fn in fns:
                c = corridor_config(r, pl)
                u = r.random()
                if u < 0.2:
                    c['lo'], c['hi'] = c['hi'], c['lo']
                elif u < 0.3:
                    c['hi'] = c['lo'] * 0.95
                c.update(what='search', fn=fn)
                cases.append(c)
            c = corridor_config(r, pl)
            c.update(what='width', fn=['computeTCW', 'computeTCW2', 'computeTCWD', 'computeTCWD2'][(j + ctx.seed + rep) % 4], gtol=0.3)
            cases.append(c)
    for rep in range(60 if ctx.thorough else 12):
        for pl in amat.PLANETS:
            c = amat.random_vehicle(r, pl)
            if r.random() < .7:
                c['state'][5] = amat.GAMMA[pl][1] * r.uniform(.6, 1.3)
            c.update(what='verdict', t=r.choice([300., 1200., 2400.]), dt=2.0, bank=r.choice([0., 180., 60., -117.5, 242.]), target=r.choice([300., 2000., 5e4, 4e5]))
            cases.append(c)
    order = sorted(range(len(cases)), key=lambda i: {'width': 0, 'search': 1, 'stub': 2, 'verdict': 3}[cases[i]['what']])
    cases = [cases[i] for i in order]
    traces = ctx.run_cases(any_case, cases, timeout=300)
    for c, t in zip(cases, traces):
        if c['what'] == 'stub':
            ctx.cases_replayed += len(c['cases'])
            c['cases'] = c['cases'][:3]
    ctx.notes['searches_found'] = sum(1 for t in traces for e in t if e['ev'] == 'search' and e['found'] == 1)
    ctx.notes['searches_not_found'] = sum(1 for t in traces for e in t if e['ev'] == 'search' and e['found'] == 0)
    ctx.notes['stub_replays'] = sum(1 for t in traces for e in t if e['ev'] == 'stub')
    ctx.validate('CorridorTrace', cases, traces)
