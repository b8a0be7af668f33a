"""C06: bank angle commands, roll rate and phase switch (spec/Guidance.tla, RollGen.tla, BankTrace.tla)."""
import math
import numpy as np
import amat, guided
from kit import q
from c05 import DESIGN


def law(f, e):
    """cosine of the equilibrium-glide command at the start of the cycle"""
    c, p = f.c, f.p
    h, v, gam = e['s0'][0] * 1e3, e['s0'][3] * 1e3, math.radians(e['s0'][5])
    CD = c['mass'] / (c['beta'] * c['A'])
    CL = CD * c['LD']
    g0 = p.GM / p.RP ** 2
    rho = float(p.density_int(h)) if h <= p.h_thres else 0.0
    qd = .5 * rho * v * v
    bal = 1 - v * v / (g0 * (p.RP + h))
    qref = -c['mass'] * g0 / (.75 * CL * c['A']) * bal
    Gh, Gq = c['eg'][0], c['eg'][1]
    return c['mass'] * g0 / (CL * qd * c['A']) * bal - Gh * v * math.sin(gam) / qd + Gq * (qd - qref) / qd


def flight_case(c):
    f = guided.Flight(c, guided.fly(c))
    cyc = f.cycles()
    f.facts(cyc, every=c['every'])
    ev = []
    if not any(e['phase'] == 'entry' for e in cyc):
        b0 = f.bounds[0] if f.bounds else len(f.full['t_min'])
        ev.append(dict(ev='noentry', slow=int(f.full['v_kms'][b0 - 1] <= c['eg'][2])))
    prev = 0.0
    for e in cyc:
        k = e['k']
        d = dict(ev='cycle', phase=e['phase'], prev=q(prev, 1e6), bank=q(f.bank[k], 1e6), most=q(c['roll'] * f.step[e['phase']], 1e6), cosv=0, one=10 ** 8, law=0,
                 pred=e.get('pred', 'none'), slow=e.get('slow', 0), top=0, left=int(e['stop'] == 'must'), lastentry=e.get('lastentry', 0), edge=bool(e.get('edge', False)) or e['stop'] == 'may', dens=e.get('densres', 0))
        if e['phase'] == 'entry':
            x = law(f, e)
            d['cosv'] = q(max(-9., min(9., x)), 1e8)
            d['law'] = q(math.degrees(math.acos(max(-1., min(1., x)))), 1e6)
            d['near'] = abs(abs(x) - 1) < 1e-9
        prev = f.bank[k]
        ev.append(d)
    return ev


def roll_case(c):
    v = amat.vehicle(dict(planet='MARS', mass=1000., beta=100., LD=.2, A=5., RN=1., state=[120., 0., 0., 6., 0., -10., 0., 0.]))
    ev = []
    for g in c['batch']:
        v.setMaxRollRate(float(g['rate']))
        b, m = v.psuedoController(float(g['cmd']) + g['off'], float(g['prev']), g['halves'] / 2.)
        ev.append(dict(ev='roll', prev=q(g['prev'], 1e6), cmd=q(g['cmd'] + g['off'], 1e6), bank=q(b, 1e6), mem=q(m, 1e6), most=q(g['rate'] * g['halves'] / 2., 1e6), next2=g['next2'], exact=int(g['off'] == 0)))
    return ev


def any_case(c):
    return roll_case(c) if 'batch' in c else flight_case(c)


def run(ctx):
    ctx.design('Guidance', DESIGN % (4 if ctx.thorough else 3))
    gen = ctx.generate('RollGen', 'SPECIFICATION GSpec\nCONSTANT Step=%d\nCHECK_DEADLOCK FALSE\n' % (20 if ctx.thorough else 45))
    r = ctx.rng('c06')
    for g in gen:
        g['off'] = 0
    extra = [dict(r.choice(gen), off=r.uniform(-.4, .4)) for _ in range(len(gen) // 3)]
    ctx.cases_replayed = len(gen)
    allg = gen + extra
    cs = [dict(batch=allg[i:i + 400]) for i in range(0, len(allg), 400)]
    L = ['NEPTUNE', 'VENUS', 'EARTH', 'MARS', 'TITAN', 'URANUS']
    fl = []
    for rep in range(4 if ctx.thorough else 1):
        for m in '12':
            for pl in (L if ctx.thorough else ['NEPTUNE', r.choice(L[1:]), r.choice(L[1:])]):
                c = guided.lift_case(r, pl, mode='L' + m)
                # gains from timid to violent, so that the law is unlimited on some cycles
                if r.random() < .7:
                    k = r.choice([.05, .2, .5, 2.])
                    c['eg'] = [c['eg'][0] * k, c['eg'][1] * k] + c['eg'][2:]
                fl.append(c)
            c = guided.lift_case(r, r.choice(L[:4]), mode='L' + m)
            c['eg'] = c['eg'][:2] + [c['state'][3] * r.choice([.85, .95, 1.05])] + c['eg'][3:]
            fl.append(c)
            for what in guided.ODD if ctx.thorough else ['coarse', 'coarse'] + r.sample(guided.ODD, 4):
                pl = r.choice(L[:2] if what == 'coarse' else L[:4])     # flights that roll
                fl.append(guided.odd_case(r, guided.lift_case(r, pl, mode='L' + m), what))
    for m in '12':                           # within tolerance while still above the target
        for k in range(6 if ctx.thorough else 2):
            c = guided.lift_case(r, ['NEPTUNE', 'VENUS', 'MARS', 'EARTH'][(k + int(m)) % 4], mode='L' + m)
            c['target'][2] = c['target'][1] * r.uniform(.3, .9)
            fl.append(c)
    for c in fl:
        c['every'] = 5 if ctx.thorough else 10
    cs = fl + cs
    traces = ctx.run_cases(any_case, cs, timeout=300)
    ctx.validate('BankTrace', cs, traces)
    ctx.notes['entry_phase_ended_by'] = guided.reasons(traces)
