"""C07: drag modulation jettison (spec/Guidance.tla, JettisonTrace.tla)."""
import numpy as np
import guided
from kit import q, relres
from c05 import DESIGN


def flight_case(c):
    v = guided.fly(c)
    f = guided.Flight(c, v)
    cyc = f.cycles(both=True)
    f.facts(cyc, every=c['every'])
    ev = []
    if not any(e['phase'] == 'entry' for e in cyc):
        b0 = f.bounds[0] if f.bounds else len(f.full['t_min'])
        ev.append(dict(ev='noentry', slow=int(f.full['v_kms'][b0 - 1] <= c['dp'][0])))
    for e in cyc:
        ent = e['phase'] == 'entry'
        ev.append(dict(ev='cycle', phase=e['phase'], skirt=e['fly'] if ent else e['other'], bare=e['other'] if ent else e['fly'], bank=q(f.bank[e['k']], 1e6),
                       pred=e.get('pred', 'none'), slow=e.get('slow', 0), top=0, left=int(e['stop'] == 'must'), lastentry=e.get('lastentry', 0),
                       edge=bool(e.get('edge', False)) or e['stop'] == 'may', dens=e.get('densres', 0)))
    first = {k: x.copy() for k, x in f.full.items()}
    v.setInitialState(*c['state'])
    getattr(v, guided.METHOD[c['mode']])(*c['steps'])
    g = guided.Flight(c, v)
    ev.append(dict(ev='again', n=g.n, wn=f.n, diff=guided.worst(relres(g.full[k], first[k], 1e9, floor=guided.FLOOR[k]) for k in guided.SERIES)))
    return ev


def run(ctx):
    ctx.design('Guidance', DESIGN % (4 if ctx.thorough else 3))
    r = ctx.rng('c07')
    D = ['EARTH', 'MARS', 'VENUS', 'TITAN']
    cs = []
    for rep in range(5 if ctx.thorough else 1):
        for m in '12':
            for pl in (D if ctx.thorough else ['EARTH', 'MARS', 'VENUS']):
                cs.append(guided.drag_case(r, pl, mode='D' + m))
            for what in ('slow', 'steep', 'shallow', 'fast'):
                c = guided.drag_case(r, r.choice(D[:3]), mode='D' + m)
                if what == 'slow':
                    c['dp'] = [c['state'][3] + .5] + c['dp'][1:]
                elif what == 'fast':          # the speed criterion comes first
                    c['dp'] = [c['state'][3] * r.uniform(.9, .97)] + c['dp'][1:]
                elif what == 'steep':
                    c['state'][5] *= r.uniform(1.5, 3)
                else:
                    c['state'][5] *= r.uniform(.3, .6)
                cs.append(c)
            for what in (guided.ODD[:7] + ["rim"]) if ctx.thorough else ['coarse'] + r.sample(guided.ODD[:7] + ["rim"], 3):
                cs.append(guided.odd_case(r, guided.drag_case(r, r.choice(D[:3]), mode='D' + m), what))
            c = guided.drag_case(r, 'EARTH', mode='D' + m)      # prediction allowed only late
            c['dp'] = c['dp'][:3] + [r.choice([-20., 50., 300.])]
            cs.append(c)
    for m in '12':                           # within tolerance while still above the target
        for k in range(6 if ctx.thorough else 2):
            c = guided.drag_case(r, D[(k + int(m)) % 3], mode='D' + m)
            c['target'][2] = c['target'][1] * r.uniform(.3, .9)
            cs.append(c)
    for c in cs:
        c['every'] = 3 if ctx.thorough else 10
    traces = ctx.run_cases(flight_case, cs, timeout=300)
    ctx.validate('JettisonTrace', cs, traces)
    ctx.notes['entry_phase_ended_by'] = guided.reasons(traces)
