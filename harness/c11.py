"""C11: atmosphere queries and unit conversions (spec/Atmosphere.tla, QueryGen.tla, QueryTrace.tla)."""
import math, os, random, shutil, tempfile
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from scipy.interpolate import interp1d
import amat
from AMAT.planet import Planet
from kit import q, relres, absres, res


def write(t, d, r, km):
    cols = dict(h=np.array(t['h'], float) / 4 * (1 if km else 1e3), d=np.array(t['d'], float), t=np.array(t['t'], float), p=np.array(t['p'], float), junk=np.arange(len(t['h'])) + 7.)
    names = list(cols)
    r.shuffle(names)
    path = os.path.join(d, 'tab%d.dat' % t['id'])
    np.savetxt(path, np.column_stack([cols[k] for k in names]), fmt='%.8f')
    return path, {k: names.index(k) for k in names}


QUERY = dict(densv='densityvectorized', tempv='tempvectorized', presv='presvectorized', rhov='rhovectorized', tempr='temperaturevectorized', presr='pressurevectorized')


def whole(p, x, want):
    """number of queries that answer differently when asked in whole metres"""
    return sum(relres(getattr(p, QUERY[k])(x), y, 1e9, floor=1e-30) not in range(100) for k, y in want.items())


def ask(p, t):
    """all entry points at quarter-km altitudes below, inside and above the atmosphere"""
    qs = list(range(-5, max(t['h']) + 12))
    h = np.array(qs) * 250.0
    r = h + p.RP
    S = 1000.
    back = np.rint(r - p.RP)                     # altitudes are whole metres: no rounding of the radius may move a query over a boundary
    assert np.array_equal(back, h)
    vec = dict(densv=p.densityvectorized(h), tempv=p.tempvectorized(h), presv=p.presvectorized(h))
    rad = dict(rhov=p.rhovectorized(r), tempr=p.temperaturevectorized(r), presr=p.pressurevectorized(r))
    e = dict(ev='query', qs=qs, dens=[q(p.density(x), S) for x in h], rho=[q(p.rho(x, .3, -.2), S) for x in r])
    # radius divided and multiplied by the reference may be off by a rounding error: ask 0.1 mm to the inner side at the boundaries
    def near(x):
        y = x
        if x in (0.0, min(t['h']) * 250.0):
            y = x + 1e-4
        elif x in (p.h_thres, max(t['h']) * 250.0):
            y = x - 1e-4
        return (p.RP + y) / p.RP
    e['rho2'] = [q(p.rho2(near(x), .3, -.2), S) for x in h]
    e['rhobar'] = [q(p.rhobar(near(x), .3, -.2) * p.rho0, S) for x in h]
    for k, y in list(vec.items()) + list(rad.items()):
        e[k] = [q(x, S) for x in y]
    e['rho0'] = q(p.rho0, S)
    one = p.densityvectorized(h[3:4])
    e['same'] = int(sum([len(one) != 1 or one[0] != vec['densv'][3], len(p.densityvectorized(h[:0])) != 0,
                         any(len(y) != len(h) for y in list(vec.values()) + list(rad.values())),
                         whole(p, h.astype(int), vec), whole(p, r.astype(int), rad) if p.RP == int(p.RP) else 0,
                         any(np.asarray(h) != np.array(qs) * 250.0) or any(np.asarray(r) != h + p.RP)]))
    return e


def sonic(p, t):
    o = np.argsort(t['h'])
    h = np.array(t['h'], float)[o] * 250.
    d, pr = np.array(t['d'], float)[o], np.array(t['p'], float)[o]
    a = np.sqrt(p.CPCV * pr / d)
    hm = (h[:-1] + h[1:]) / 2
    return dict(ev='sonic', node=relres(p.avectorized(h), a, 1e9), mid=relres(p.avectorized(hm), (a[:-1] + a[1:]) / 2, 1e9),
                rad=max(relres(p.sonicvectorized(p.RP + h[1:-1]), p.avectorized(h[1:-1]), 1e9), relres(p.sonicvectorized(p.RP + hm), p.avectorized(hm), 1e9),
                        relres(p.sonicvectorized(p.RP + h[-1:] + [5., 1e4]), p.avectorized(h[-1:] + [5., 1e4]), 1e9)))


def history(c):
    d = tempfile.mkdtemp(prefix='atm-')
    try:
        r = random.Random(c['n'])
        p = Planet(c['planet'])
        p.h_thres = 5000.
        ev = [dict(ev='thres', thr=20)]
        cur = None
        for op in c['hist']:
            if op.startswith('load'):
                cur = c['tabs'][int(op[4:]) - 1]
                km = r.random() < .5
                path, ix = write(cur, d, r, km)
                p.loadAtmosphereModel(path, ix['h'], ix['t'], ix['p'], ix['d'], intType='linear', heightInKmFlag=km)
                ev.append(dict(ev='table', h=cur['h'], d=cur['d'], t=cur['t'], p=cur['p']))
            elif op in ('lower', 'raise'):
                p.h_thres = p.h_thres - 1250. if op == 'lower' else p.h_thres + 2500.
                ev.append(dict(ev='thres', thr=int(p.h_thres / 250)))
            else:
                ev += [ask(p, cur), sonic(p, cur)]
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def kinds(c):
    """the atmospheres that come with the code, with every interpolation"""
    if 'air' in c:
        return [amat.air(c['air'])]
    p = amat.planet(c['planet'], kind=c['kind'])
    f, ch, ct, cp, cd, km = amat.ATM[c['planet']]
    T = np.loadtxt(os.path.join(amat.D, f))
    h = T[:, ch] * (1e3 if km else 1.)
    d, t, pr = T[:, cd], T[:, ct], T[:, cp]
    a = np.sqrt(p.CPCV * pr / d)
    r = random.Random(c['n'])
    hm = np.array([r.uniform(h.min(), h.max()) for _ in range(60)])
    fx = dict(densityvectorized=d, tempvectorized=t, presvectorized=pr, avectorized=a)
    gx = dict(rhovectorized=d, temperaturevectorized=t, pressurevectorized=pr, sonicvectorized=a)
    node, mid, agree = [], [], []
    for name, y in fx.items():
        node.append(relres(getattr(p, name)(h), y, 1e9))
        want = interp1d(h, y, kind=c['kind'])(hm)
        mid.append(relres(getattr(p, name)(hm), want, 1e9))
    for name, y in gx.items():
        # a radius carries the altitude to about a micrometre
        node.append(relres(getattr(p, name)((p.RP + h)[1:-1]), y[1:-1], 1e9, floor=0) if c['kind'] == 'linear' else 0)
        want = interp1d(h, y, kind=c['kind'])(hm)
        mid.append(relres(getattr(p, name)(p.RP + hm), want, 1e9))
    hw = np.rint(hm).astype(int)
    agree.append(10 ** 9 * sum(relres(getattr(p, k)(hw), getattr(p, k)(hw.astype(float)), 1e9) not in range(100) for k in fx))
    rw = hw + int(p.RP)
    agree.append(10 ** 9 * sum(relres(getattr(p, k)(rw), getattr(p, k)(rw.astype(float)), 1e9) not in range(100) for k in gx))
    hin = hm[(hm >= 0) & (hm <= p.h_thres)]
    agree.append(relres([p.density(x) for x in hin], p.densityvectorized(hin), 1e9))
    up = [p.h_thres + x for x in (1e-3, 1., 1e3, 1e6)]
    dn = [-x for x in (1e-3, 1., 1e3)]
    zone = sum(p.density(x) != 0 for x in up) + sum(p.density(x) != p.rho0 for x in dn) + sum(p.rho(p.RP + x, 0, 0) != 0 for x in up) + sum(p.rho(p.RP + x, 0, 0) != p.rho0 for x in dn)
    worst = lambda v: -1 if min(v) < 0 else max(v)
    plt.close('all')
    lo, dh = r.choice([0., 2e3, 1e4]), r.choice([1e3, 5e3])
    p.checkAtmProfiles(lo, dh) if lo or dh != 1e3 else p.checkAtmProfiles()
    lines = [np.asarray(l.get_xydata(), float).T for n in plt.get_fignums() for a in plt.figure(n).axes for l in a.lines]
    plt.close('all')
    shown = 0
    for y, u in ((t, 1.), (pr, 1e-3), (d, 1.), (a, 1.)):
        g = interp1d(h, y, kind=c['kind'], bounds_error=False)
        shown += not any(len(x) > 1 and abs(hk.min() * 1e3 - lo) < 1e-6 and abs(hk.max() * 1e3 - p.h_thres) < 1e-5 and relres(x, g(hk * 1e3) * u, 1e9) in range(1000) for x, hk in lines)
    ev = [dict(ev='kind', shown=shown, node=worst(node), mid=worst(mid), agree=worst(agree), zone=int(zone))]
    # conversions
    hs = np.array([0., 1., 123456.789, -50., p.h_skip, 1e9])
    n = lambda: r.uniform(.9, 30)
    alt = max(absres(p.computeH(p.computeR(hs)), hs, 1e6 / max(1., 1e-3 * p.RP / 1e3)), relres([p.computeR(p.computeH(x)) for x in p.RP + hs], p.RP + hs, 1e12))
    st, sc, ang = [], [], 0
    V = math.sqrt(p.GM / p.RP)
    for _ in range(6):
        x = (p.RP * n(), r.uniform(-3, 3), r.uniform(-1.5, 1.5), 1e4 * n(), r.uniform(-3, 3), r.uniform(-1.5, 1.5), 1e6 * r.uniform(-1, 5))
        y = p.nonDimState(*x)
        z = p.dimensionalize(2.5, *y)
        st.append(relres(z[1:], x, 1e12))
        st.append(relres([z[0]], [2.5 * p.RP / V], 1e12))
        sc.append(relres([y[0], y[3], y[6]], [x[0] / p.RP, x[3] / V, x[6] / p.RP], 1e12))
        ang += int(any(y[k] != x[k] or z[k + 1] != x[k] for k in (1, 2, 4, 5)))
        arr = [np.array([w, w * 1.5]) for w in x]
        ya = p.nonDimState(*arr)
        za = p.dimensionalize(np.array([0., 2.5]), *ya)
        st.append(relres(np.array(za[1:]), np.array(arr), 1e12))
    ref = relres([p.Vref, p.tau, p.OMEGAbar, p.rbar(p.RP * 1.7)], [V, p.RP / V, p.OMEGA * p.RP / V, 1.7], 1e12)
    ev.append(dict(ev='convert', alt=alt, r=relres(p.computeR(hs), p.RP + hs, 1e12), state=worst(st), scaled=worst(sc), ang=ang, ref=ref))
    return ev


def run(ctx):
    ctx.design('Atmosphere', 'SPECIFICATION Spec\nCONSTANTS Vals={1,2} Steps=%d\nINVARIANTS OwnProfileOnly OneAnswer Zones Chord\nPROPERTIES DrawChangesNothing\nCHECK_DEADLOCK FALSE\n' % (4 if ctx.thorough else 3), workers=8)
    g = ctx.generate('QueryGen', 'SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS Seed=%d Len1=%d\n' % (ctx.seed % 1000, 5 if ctx.thorough else 4))
    r = ctx.rng('c11')
    cases = [dict(tabs=g['tabs'], hist=h, n=r.randrange(10 ** 9), planet=amat.PLANETS[k % 8]) for k, h in enumerate(g['hist'])]
    if not ctx.thorough and len(cases) > 160:
        cases = r.sample(cases, 160)
    ctx.cases_replayed += len(cases)
    traces = ctx.run_cases(history, cases, timeout=60)
    ctx.validate('QueryTrace', cases, traces)
    ks = [dict(planet=p, kind=k, n=r.randrange(10 ** 9)) for p in amat.PLANETS for k in ('linear', 'cubic', 'quadratic', 'nearest') for _ in range(4 if ctx.thorough else 1)]
    ks += [dict(air=p) for p in amat.PLANETS]
    traces = ctx.run_cases(kinds, ks, timeout=60)
    ctx.validate('QueryTrace', ks, traces)
