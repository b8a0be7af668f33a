"""C05: guided flights are chains of guidance cycles (spec/Guidance.tla, GuidanceTrace.tla)."""
import guided

DESIGN = 'SPECIFICATION Spec\nCONSTANTS MaxCycles=%d Commands={0,2,4} MaxRoll=1 Banks={0,1,2,3,4}\nINVARIANTS NoGapNoOverlap EntryThenExit RollLimited BankBounded ExitCommandsLiftUp JettisonOnce SwitchAtFirst NothingAfterTheEnd\nCHECK_DEADLOCK FALSE\n'


def flight_case(c):
    f = guided.Flight(c, guided.fly(c))
    ev = [f.flight_event()]
    for e in f.cycles():
        ev.append(dict(ev='cycle', start=e['start'], tstart=e['tstart'], fly=e['fly'], n=e['n'], wn=e['wn'], phase=e['phase'], stop=e['stop'], left=int(e['flag'] != 0)))
    ev.append(f.end_event())
    return ev


def cases(ctx):
    r = ctx.rng('c05')
    out = []
    L, D = ['NEPTUNE', 'VENUS', 'EARTH', 'MARS', 'TITAN', 'URANUS'], ['EARTH', 'MARS', 'VENUS', 'TITAN']
    for rep in range(6 if ctx.thorough else 1):
        for m in '12':
            for pl in (L if ctx.thorough else ['NEPTUNE', r.choice(L[1:]), r.choice(L[1:])]):
                out.append(guided.lift_case(r, pl, mode='L' + m))
            for _ in range(2):                       # a wanted periapsis below the one the flight ends with
                c = guided.lift_case(r, r.choice(['NEPTUNE', 'MARS', 'TITAN', 'VENUS']), mode='L' + m)
                c['target'] = [-r.uniform(1., 400.)] + list(c['target'][1:])
                out.append(c)
            for pl in (D if ctx.thorough else ['EARTH', r.choice(D[1:])]):
                out.append(guided.drag_case(r, pl, mode='D' + m))
            for i, what in enumerate(guided.ODD):
                for kind in 'LD':
                    if not ctx.thorough and (i + (kind == 'L') + (m == '1')) % 2:
                        continue
                    c = guided.lift_case(r, r.choice(L[:4]), mode='L' + m) if kind == 'L' else guided.drag_case(r, r.choice(D[:3]), mode='D' + m)
                    out.append(guided.odd_case(r, c, what))
    return out


def run(ctx):
    ctx.design('Guidance', DESIGN % (4 if ctx.thorough else 3))
    cs = cases(ctx)
    traces = ctx.run_cases(flight_case, cs, timeout=300)
    ctx.validate('GuidanceTrace', cs, traces)
