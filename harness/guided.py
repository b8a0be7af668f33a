"""Recorder of guided flights: everything is reconstructed from the flight's reported series and records,
and every guidance cycle is flown again by a freshly built vehicle."""
import math
import numpy as np
import amat, orbit
from kit import q, res, relres, absres, NAN

SERIES = ['t_min', 'h_km', 'v_kms', 'theta_deg', 'phi_deg', 'psi_deg', 'gamma_deg', 'drange_km', 'acc_net_g', 'dyn_pres_atm', 'stag_pres_atm', 'q_stag_total', 'heatload']
OWN = dict(t_min='t_minc', h_km='h_kmc', v_kms='v_kmsc', theta_deg='theta_degc', phi_deg='phi_degc', psi_deg='psi_degc', gamma_deg='gamma_degc', drange_km='drange_kmc',
           acc_net_g='acc_net_g', dyn_pres_atm='dyn_pres_atm', stag_pres_atm='stag_pres_atm', q_stag_total='q_stag_total', heatload='heatload')
FLOOR = dict(t_min=1., h_km=10., v_kms=1., theta_deg=1., phi_deg=1., psi_deg=1., gamma_deg=1., drange_km=10., acc_net_g=1e-3, dyn_pres_atm=1e-6, stag_pres_atm=1e-6, q_stag_total=1e-3, heatload=1.)
STATE = ['h_km', 'theta_deg', 'phi_deg', 'v_kms', 'psi_deg', 'gamma_deg', 'drange_km', 'heatload']
METHOD = {'L1': 'propogateGuidedEntry', 'L2': 'propogateGuidedEntry2', 'D1': 'propogateGuidedEntryD', 'D2': 'propogateGuidedEntryD2'}


def worst(xs):
    xs = list(xs)
    return -1 if any(x < 0 for x in xs) else max(xs or [0])


def other_periapsis(r, target):
    """the wanted periapsis only enters the correction speeds: also below the one the flight ends with, and above its apoapsis"""
    p = target[0]
    return [r.choice([p, p * r.uniform(.01, .3), -r.uniform(1., 400.), -r.uniform(1., 400.), p * r.uniform(3., 60.)])] + list(target[1:])


def lift_case(r, pl, **over):
    """a lift modulation flight on planet pl"""
    base = dict(NEPTUNE=dict(mass=1000., beta=200., LD=.4, A=3.1416, RN=1., g=(-14.4, -13.4), v=28., target=[4000., 400e3, 20e3], eg=[75., 3., 18.9, 120., 101, -500.], T=2400., h=1000., h_low=120.),
                VENUS=dict(mass=1000., beta=150., LD=.3, A=4., RN=1., g=(-7.6, -6.9), v=11., target=[400., 10000., 500.], eg=[60., 2., 7.2, 80., 51, -200.], T=1500., h=180.),
                EARTH=dict(mass=1000., beta=150., LD=.3, A=4., RN=1., g=(-6.8, -5.6), v=12., target=[400., 30000., 1500.], eg=[60., 2., 8.0, 50., 51, -200.], T=1500., h=120.),
                MARS=dict(mass=1000., beta=120., LD=.25, A=6., RN=1.5, g=(-11.8, -10.4), v=6., target=[300., 5000., 300.], eg=[50., 2., 3.6, 30., 51, -150.], T=1500., h=120.),
                TITAN=dict(mass=1500., beta=90., LD=.25, A=10., RN=1.5, g=(-37.4, -35.8), v=6., target=[1500., 15000., 1000.], eg=[40., 2., 1.8, 200., 51, -300.], T=3000., h=1000.),
                URANUS=dict(mass=1500., beta=200., LD=.4, A=5., RN=1., g=(-10.8, -9.7), v=23., target=[4000., 500e3, 30e3], eg=[75., 3., 15., 100., 101, -500.], T=3000., h=1500.))[pl]
    c = dict(planet=pl, mode=r.choice(['L1', 'L2']), kind=r.choice(['linear', 'cubic']), tol=1e-6, roll=r.choice([5., 15., 30., 200.]), beta1=80., ratio=3.,
             mass=base['mass'], beta=base['beta'] * r.uniform(.9, 1.1), LD=base['LD'], A=base['A'], RN=base['RN'], target=base['target'], eg=base['eg'])
    c['alpha'] = r.choice([0., 0., .2, -.3])
    if r.random() < .25:
        c['cdm'] = [r.uniform(.8, 1.25) for _ in range(4)]           # drag coefficient by Mach number
    lat, psi = (0., 0.) if r.random() < .4 else (r.uniform(-50, 50), r.uniform(-180, 180))
    lon = 0. if r.random() < .4 else r.uniform(-170, 170)
    c['state'] = [base['h'], lon, lat, base['v'] * r.uniform(.99, 1.01), psi, r.uniform(*base['g']), r.choice([0., r.uniform(0, 3000)]), r.choice([0., r.uniform(0, 5e4)])]
    c['steps'] = [r.choice([1., 2., 1.5, 4.]), r.choice([1., .5, 1., .3, 3.]), base['T']]
    c['target'] = list(c['target']) if over.pop('plain', 0) else other_periapsis(r, c['target'])
    c.update(over)
    return c


def drag_case(r, pl, **over):
    base = dict(EARTH=dict(mass=25.97, beta=66.4, A=math.pi * .25 ** 2, RN=.0563, g=(-5.03, -4.8), v=9.8, target=[180., 1760., 50.], dp=[5., 50., 101, -200.], ratio=4.72, h=125., T=2400.),
                MARS=dict(mass=25.97, beta=66.4, A=math.pi * .25 ** 2, RN=.0563, g=(-10., -9.65), v=5.5, target=[200., 2000., 60.], dp=[2., 40., 101, -100.], ratio=4.72, h=120., T=1500.),
                VENUS=dict(mass=72., beta=38., A=1.77, RN=.1, g=(-7.05, -6.85), v=11., target=[200., 2000., 100.], dp=[6., 80., 101, -300.], ratio=7., h=180., T=1500.),
                TITAN=dict(mass=1500., beta=20., A=30., RN=1., g=(-34.5, -33.5), v=6., target=[1500., 1e4, 500.], dp=[1.5, 200., 51, -300.], ratio=5., h=1000., T=3000.))[pl]
    c = dict(planet=pl, mode=r.choice(['D1', 'D2']), kind=r.choice(['linear', 'cubic']), tol=1e-6, h_skip=125e3 if pl == 'EARTH' else None,
             mass=base['mass'], beta=base['beta'] * r.choice([1., 1., 1.7]), LD=r.choice([0., 0., .1]), A=base['A'], RN=base['RN'], target=base['target'], dp=base['dp'], beta1=base['beta'] * r.uniform(.9, 1.1), ratio=base['ratio'])
    c['alpha'] = r.choice([0., 0., .2, -.3])
    lat, psi = (0., 0.) if r.random() < .4 else (r.uniform(-50, 50), r.uniform(-180, 180))
    c['state'] = [base['h'], r.choice([0., r.uniform(-170, 170)]), lat, base['v'] * r.uniform(.995, 1.005), psi, r.uniform(*base['g']), r.choice([0., r.uniform(0, 3000)]), r.choice([0., r.uniform(0, 5e4)])]
    c['steps'] = [r.choice([1., 2.]), r.choice([1., 3.]), r.choice([1., .5, .25, 2.]), base['T']]
    c['target'] = list(c['target']) if over.pop('plain', 0) else other_periapsis(r, c['target'])
    c.update(over)
    return c


def build(c, beta=None):
    v = amat.vehicle(dict(c))
    if beta is not None:
        v.beta = beta
        v.CD = v.mass / (beta * v.A)         # the ballistic coefficient fixes the drag; lift stays
    return v


def fly(c, v=None):
    v = v or build(c)
    v.setTargetOrbitParams(*c['target'])
    v.setDragModulationVehicleParams(c['beta1'], c['ratio'])
    if c['mode'][0] == 'L':
        v.setEquilibriumGlideParams(*c['eg'])
        v.setMaxRollRate(c['roll'])
    else:
        v.setDragEntryPhaseParams(*c['dp'])
    getattr(v, METHOD[c['mode']])(*c['steps'])
    return v


ODD = ['up', 'uplate', 'vertical', 'onestep', 'coarse', 'long', 'skip', 'steep', 'shallow', 'slow', 'rim']


def odd_case(r, c, what):
    """an unusual flight: started climbing, started in the middle of the atmosphere and slow, near-vertical, solver step equal to
    or above the guidance cycle, very long cycles (alone or skipping straight out), trapped, skipping out, no entry phase"""
    L, s = c['mode'][0] == 'L', c['state']
    T = c['steps'][-1]
    if what in ('up', 'uplate'):
        s[5] = r.uniform(.5, 8.)
        s[0] *= r.uniform(.4, .9)
        if what == 'uplate':
            s[3] *= .6
    elif what == 'vertical':
        s[5] = r.uniform(-89., -86.)
    elif what == 'onestep':
        d = r.choice([1., 2., 4.])
        c['steps'] = [d, d, T] if L else r.choice([[d, d, d, T], [2 * d, d, d, T], [d, 2 * d, d, T]])
    elif what == 'coarse':
        c['steps'] = [1., r.choice([1.5, 2., 3.]), T] if L else [1., 1., r.choice([1.5, 2., 3.]), T]
        c['roll'] = r.choice([5., 15., 30.])
    elif what in ('long', 'skip'):
        c['steps'] = [r.choice([40., 60., 100.]), 1., T] if L else [r.choice([40., 100.]), r.choice([30., 50.]), 1., T]
        if what == 'skip':
            s[5] *= r.uniform(.3, .6)
    elif what == 'steep':
        s[5] *= r.uniform(1.5, 3.)
    elif what == 'rim':                              # entry exactly at the top of the atmosphere as the user set it
        s[0] = round(s[0] * r.uniform(.75, 1.), 3)
        c['h_skip'] = s[0] * 1e3
    elif what == 'shallow':
        s[5] *= r.uniform(.2, .6)
    else:
        k = 2 if L else 0
        p = list(c['eg' if L else 'dp'])
        p[k] = s[3] + 1.
        c['eg' if L else 'dp'] = p
    c['what'] = what
    return c


class Flight:
    """a flown guided flight, cut into its guidance cycles"""
    def __init__(self, c, v):
        self.c, self.v = c, v
        self.D = c['mode'][0] == 'D'
        self.var = c['mode'][1]
        suf = '_en' if self.D else '_eg'
        self.full = {k: np.asarray(getattr(v, k + '_full'), float) for k in SERIES}
        self.entry = {k: np.asarray(getattr(v, k + suf), float) for k in SERIES}
        self.lens = [len(self.full[k]) for k in SERIES]
        self.elens = [len(self.entry[k]) for k in SERIES]
        t = self.full['t_min']
        self.bounds = [i for i in range(1, len(t)) if t[i] == t[i - 1]]
        self.ts = np.asarray(v.t_step_array, float)[1:]
        self.bank = np.asarray(v.delta_deg_array, float)[1:]
        self.dens = np.asarray(v.density_mes_array, float)[1:]
        self.n = min(len(self.bounds), len(self.bank), len(self.ts))
        self.nentry = sum(1 for b in self.bounds if b < len(self.entry['t_min']))
        if self.D:
            self.step = dict(entry=c['steps'][0], exit=c['steps'][1])
            self.dt, self.T = c['steps'][2], c['steps'][3]
        else:
            self.step = dict(entry=c['steps'][0], exit=c['steps'][0])
            self.dt, self.T = c['steps'][1], c['steps'][2]
        self.skirt = build(c, c['beta1'] if self.D else None)
        self.bare = build(c, c['beta1'] * c['ratio']) if self.D else self.skirt
        self.p = self.skirt.planetObj

    def refly(self, w, state, secs, bank):
        w.setInitialState(*state)
        getattr(w, 'propogateEntry2' if self.var == '2' else 'propogateEntry')(secs, self.dt, bank)
        return w

    def compare(self, w, a, b, t0):
        """residual of samples a..b-1 of the flight against the flight just flown by w; -1 if lengths differ is left to wn"""
        n = len(w.tc)
        if n != b - a:
            return 10 ** 9
        return worst(relres(self.full[k][a:b], np.asarray(getattr(w, OWN[k]), float) + (t0 if k == 't_min' else 0.), 1e9, floor=FLOOR[k]) for k in SERIES)

    def flight_event(self):
        v, f = self.v, self.full
        t = f['t_min']
        m = len(self.entry['t_min'])
        w = self.refly(self.skirt, self.c['state'], 1.0, 0.0)
        b0 = self.bounds[0] if self.bounds else len(t)
        sw = worst([relres([v.t_switch, v.h_switch, v.v_switch], [self.entry[k][-1] for k in ('t_min', 'h_km', 'v_kms')], 1e9),
                    relres([v.p_switch], [self.bank[self.nentry - 1] if self.nentry else 0.], 1e9)])
        rec = [len(np.asarray(getattr(v, k))) - 1 for k in ('delta_deg_array', 'hdot_array', 'hddot_array')]
        rate = [f['v_kms'][b - 1] * 1e3 * math.sin(math.radians(f['gamma_deg'][b - 1])) for b in self.bounds[:self.n]]
        hd, hdd = np.asarray(v.hdot_array, float)[1:], np.asarray(v.hddot_array, float)[1:]
        rates = 0
        if len(hd) == len(hdd) == len(rate) == len(self.ts):
            rates = relres(hd, rate, 1e9, floor=10.)
            if len(rate) > 1:
                dt = np.diff(self.ts) * 60
                ok = dt > 1e-3        # no time passed: there is no rate of change to compare
                rates = worst([rates, relres(hdd[1:][ok], np.diff(rate)[ok] / dt[ok], 1e9, floor=1.)])
        return dict(ev='flight', rates=rates, lens=self.lens, elens=self.elens, prefix=worst(relres(f[k][:m], self.entry[k], 1e9) for k in SERIES),
                    back=int(np.sum(~(np.diff(t) >= 0))), cycles=len(self.bounds), recorded=len(self.ts), rec=rec, first=self.compare(w, 0, b0, 0.), switch=sw)

    def cycles(self, both=False):
        """one record per guidance cycle"""
        f = self.full
        out = []
        N = len(f['t_min'])
        hs, low = self.p.h_skip, 20e3
        for k in range(self.n):
            a = self.bounds[k]
            b = self.bounds[k + 1] if k + 1 < len(self.bounds) else N
            ph = 'entry' if k < self.nentry else 'exit'
            s0 = [f[x][a - 1] for x in STATE]
            w = self.refly(self.skirt if ph == 'entry' else self.bare, s0, self.step[ph], self.bank[k])
            e = dict(k=k, phase=ph, a=a, b=b, s0=s0, start=worst(relres(f[x][a], f[x][a - 1], 1e9, floor=FLOOR[x]) for x in SERIES if x in STATE or x == 't_min'),
                     tstart=res(60 * (self.ts[k] - f['t_min'][a - 1]), 1e9), fly=self.compare(w, a, b, f['t_min'][a - 1]), n=b - a, wn=len(w.tc), flag=int(w.exitflag))
            if both and self.D:
                x = self.refly(self.bare if ph == 'entry' else self.skirt, s0, self.step[ph], self.bank[k])
                e['other'] = self.compare(x, a, b, f['t_min'][a - 1])
            hi, he = s0[0] * 1e3, f['h_km'][b - 1] * 1e3
            # outcome of the cycle: must / may / no  (the flight may stop a little before the edge of the atmosphere)
            if w.exitflag != 0 or he >= hs or len(w.tc) < 2:       # left the window, or cannot be flown on (vertical)
                e['stop'] = 'must'
            elif ph == 'entry':
                e['stop'] = 'may' if he > hs - 2.01e3 else 'no'
            elif hi > hs - (1e3 if self.D else 10e3) - 10. or (self.D and hi < low + 10.):
                e['stop'] = 'may'
            else:
                e['stop'] = 'no'
            e['hdot'] = s0[3] * 1e3 * math.sin(math.radians(s0[5]))
            e['vend'] = f['v_kms'][b - 1]
            out.append(e)
        return out

    def end_event(self):
        v, f, p = self.v, self.full, self.p
        s = [p.RP + f['h_km'][-1] * 1e3] + [math.radians(f[k][-1]) for k in ('theta_deg', 'phi_deg')] + [f['v_kms'][-1] * 1e3] + [math.radians(f[k][-1]) for k in ('psi_deg', 'gamma_deg')]
        R, V = orbit.state_vectors(*s, omega=p.OMEGA)
        el = orbit.elements(R, V, p.GM)
        apo, peri = (el['ra'] - p.RP) / 1e3, (el['rp'] - p.RP) / 1e3
        e = dict(ev='end', apo=relres([v.terminal_apoapsis], [apo], 1e9, floor=1.), peri=relres([v.terminal_periapsis], [peri], 1e9, floor=1.),
                 perc=relres([v.apoapsis_perc_error], [(apo - self.c['target'][1]) * 100 / self.c['target'][1]], 1e9, floor=.1), pdv=0, adv=0)
        if abs(el['e'] - 1) < 1e-4:
            e.update(apo=0, perc=0)
        elif el['e'] < 1:
            va = lambda a, b: math.sqrt(2 * p.GM / a - 2 * p.GM / (a + b))          # speed at apsis a of the orbit with apses a, b
            tp, ta = p.RP + self.c['target'][0] * 1e3, p.RP + self.c['target'][1] * 1e3
            e['pdv'] = absres([v.periapsis_raise_DV], [va(el['ra'], tp) - va(el['ra'], el['rp'])], 1e6)
            e['adv'] = absres([v.apoapsis_raise_DV], [va(tp, ta) - va(tp, el['ra'])], 1e6)
        tot = self.c['state'][7]
        edges = [0] + self.bounds + [len(f['t_min'])]
        for a, b in zip(edges, edges[1:]):
            x, y = f['t_min'][a:b] * 60, f['q_stag_total'][a:b]
            tot += float(np.sum(.5 * (y[1:] + y[:-1]) * np.diff(x)))
        e['heat'] = relres([f['heatload'][-1]], [tot], 1e9, floor=1.)
        return e

    def predict(self, st, dens, m):
        w = self.bare
        keep = w.planetObj.density_int
        w.planetObj.density_int = dens
        try:
            w.setInitialState(*st)
            getattr(w, 'propogateEntry' + m)(self.T, self.dt, 0.0)
        finally:
            w.planetObj.density_int = keep
        s = [x[-1] for x in (w.rc, w.thetac, w.phic, w.vc, w.psic, w.gammac)]
        el = orbit.elements(*orbit.state_vectors(*s, omega=self.p.OMEGA), self.p.GM)
        return (el['ra'] - self.p.RP) / 1e3, el['e']

    @staticmethod
    def category(apo, tgt, tol):
        return 'escape' if apo <= 0 else 'near' if abs(apo - tgt) < tol else 'low' if apo < tgt else 'high'

    def facts(self, cyc, every=10, tail=12):
        """per entry cycle: what the on-board prediction and the switch criteria say"""
        c, v = self.c, self.v
        par = c['dp'] if self.D else c['eg'][2:]
        vsw, low, npts, thr = par
        tgt, tol = c['target'][1], c['target'][2]
        dens = None
        ent = [e for e in cyc if e['phase'] == 'entry']
        for e in ent:
            e['slow'] = int(e['vend'] <= vsw)
            edge = abs(e['vend'] - vsw) < 1e-9 * vsw
            e['lastentry'] = int(e is ent[-1])
            hd = e['hdot']
            e['pred'] = 'none'
            if abs(hd - thr) < 1e-9 * abs(thr):
                edge = True
            if hd > thr:
                k = e['k']
                if dens is None:
                    dens, _ = self.skirt.createDensityMeasuredFunction(np.asarray(v.h_step_array, float)[:k + 2], np.asarray(v.density_mes_array, float)[:k + 2], low, npts)
                if len(ent) - 1 - k < tail or k % every == 0:
                    a, b = e['a'], e['b']
                    st = [self.full[x][b - 1] for x in STATE]
                    # the on-board prediction may use either integrator; where they disagree the cycle decides nothing
                    got = [self.predict(st, dens, m) for m in ('', '2')]
                    cat = [self.category(apo, tgt, tol) for apo, _ in got]
                    e['apo'] = got[0][0]
                    e['pred'] = cat[0]
                    if len({x in ('near', 'low') for x in cat}) > 1 or any(abs(apo - tgt - tol) < 1e-6 * (tgt + tol) or abs(ecc - 1) < 1e-6 for apo, ecc in got):
                        edge = True
                else:
                    e['pred'] = 'skip'
            e['edge'] = edge
            # measured density
            CD = v.mass / ((c['beta1'] if self.D else c['beta']) * v.A)
            a, b = e['a'], e['b']
            vm = .5 * (e['s0'][3] + self.full['v_kms'][b - 1]) * 1e3
            he, ve = self.full['h_km'][b - 1] * 1e3, self.full['v_kms'][b - 1] * 1e3
            flown = CD                     # the estimate assumes the nominal drag coefficient, the flight may have one by Mach number
            if c.get('cdm'):
                flown = CD * float(np.interp(ve / float(self.p.sonic_int(he)), amat.CDM, c['cdm']))
            drag = .5 * float(self.p.density_int(he)) * ve ** 2 * flown * v.A / v.mass
            want = 2 * v.mass * drag / (CD * v.A * vm ** 2)
            e['densres'] = relres([self.dens[e['k']]], [want], 1e9, floor=1e-15)
        return ent

    def outcome(self, e):
        return dict(must=(1, 1), may=(1, 0), no=(0, 0))[e['stop']]


def reasons(traces):
    out = {}
    for t in traces:
        for e in t:
            if e.get('ev') == 'cycle' and e['lastentry']:
                k = 'window' if e['left'] else 'slow' if e['slow'] else e['pred']
                out[k] = out.get(k, 0) + 1
    return out
