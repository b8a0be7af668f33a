"""C13: launch capability and trajectory catalogues (spec/Launch.tla, LaunchGen.tla, LaunchTrace.tla).

The sandbox has no Excel reader: pandas.read_excel is replaced by a stand-in that returns the
catalogue stored under the given file and sheet name."""
import glob, os, random, shutil, tempfile
import numpy as np
import pandas as pd
from scipy.interpolate import interp1d
from kit import q, relres, REPO

STORE = {}


def read_excel(io, sheet_name=0, *a, **kw):
    return STORE[(str(io), sheet_name)].copy()


pd.read_excel = read_excel
from AMAT.launcher import Launcher
from AMAT.interplanetary import Interplanetary


def launcher(tab, d, name='L', unit=.25):
    f = os.path.join(d, 'l.csv')
    np.savetxt(f, np.array([[t['e'] * unit, t['m']] for t in tab], float), delimiter=',', fmt='%.17g')
    return Launcher(name, f)


def table(c):
    d = tempfile.mkdtemp(prefix='lau-')
    try:
        unit = c.get('unit', .25)
        # two launchers live side by side, their tables written to the same file one after the other
        W = launcher(c['was'], d, unit=unit)
        L = launcher(c['tab'], d, unit=unit)
        return ask(W, c['was'], c['n'], unit) + ask(L, c['tab'], c['n'], unit)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ask(L, tab, n, unit):
    es = [t['e'] for t in tab]
    qs = list(range(min(es) - 9, max(es) + 10))
    x = np.array(qs) * unit
    one = [q(L.launchMass(float(v)), 1000.) for v in x]
    arr = [q(v, 1000.) for v in np.asarray(L.launchMass(x), float)]
    forms = 0
    for v in (list(x), tuple(x), pd.Series(x), pd.Series(x, index=range(100, 100 + len(x))), x.reshape(1, -1), x[::-1][::-1]):
        forms += int([q(z, 1000.) for z in np.asarray(L.launchMass(v), float).ravel()] != arr)
    forms += int(q(L.launchMass(np.float64(x[3])), 1000.) != arr[3]) + int(any(x != np.array(qs) * unit))
    # whole numbers as integers among the others, the first one whole
    mix = [int(v) if v == int(v) else float(v) for v in x]
    k0 = [k for k, v in enumerate(mix) if isinstance(v, int)][:1] or [0]
    k0 = k0 + [k for k in range(len(x)) if k != k0[0]]
    forms += int([q(z, 1000.) for z in np.asarray(L.launchMass([mix[k] for k in k0]), float).ravel()] != [arr[k] for k in k0])
    r = random.Random(n)
    p = list(range(len(x)))
    r.shuffle(p)
    forms += int([q(z, 1000.) for z in np.asarray(L.launchMass(x[p]), float)] != [arr[k] for k in p])
    forms += int([q(L.launchMass(int(v)), 1000.) for v in x if v == int(v)] != [a for a, v in zip(arr, x) if v == int(v)])
    return [dict(ev='table', h=es, m=[t['m'] for t in tab]), dict(ev='ask', qs=qs, one=one, arr=arr, forms=forms)]


def real(c):
    ev = []
    for kind in ('linear', 'cubic', 'quadratic'):
        L = Launcher('x', c['path'], kind=kind) if kind != 'linear' else Launcher('x', c['path'])
        T = np.loadtxt(c['path'], delimiter=',')
        x, y = T[:, 0], T[:, 1]
        r = random.Random(c['n'])
        m = np.array([r.uniform(x.min(), x.max()) for _ in range(50)])
        out = [x.min() - 1e-6, x.min() - 5, x.max() + 1e-6, x.max() + 5, x.max() + 500, -1e3]
        o = np.asarray(L.launchMass(np.array(out)), float)
        ev.append(dict(ev='real', node=relres(L.launchMass(x), y, 1e9), mid=relres(L.launchMass(m), interp1d(x, y, kind=kind)(m), 1e9, floor=1.), out=int(np.sum(o != 0)) + sum(float(L.launchMass(v)) != 0 for v in out),
                       same=int(sum(float(L.launchMass(v)) != float(w) for v, w in zip(m, np.asarray(L.launchMass(m), float))))))
    return ev


def decode(vals, wanted):
    """identity of each value (0: belongs to no row)"""
    out = []
    for v in vals:
        ids = [k for k, w in enumerate(wanted) if abs(float(v) - float(w)) <= 1e-6 * max(1., abs(float(w)))]
        out.append(ids[0] + 1 if ids else 0)
    return out


def catalogue(c):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import matplotlib.dates as md
    d = tempfile.mkdtemp(prefix='lau-')
    here = os.getcwd()
    try:
        r = random.Random(c['n'])
        unit = c.get('unit', .25)
        L = launcher(c['tab'], d, unit=unit)
        es = sorted(t['e'] for t in c['tab'])
        lo, hi = es[0], es[-1]
        zone = [lambda: lo - r.randint(1, 20), lambda: lo, lambda: r.randint(lo + 1, hi - 1), lambda: hi, lambda: hi + r.randint(1, 20)]
        n = len(c['cat'])
        c3 = [zone[z]() for z in c['cat']]
        days = r.sample(range(3000), n)
        if n > 1 and not c['plot'] and r.random() < .4:          # the same launch, day and energy alike, to two arrivals
            i, j = r.sample(range(n), 2)
            days[j], c3[j] = days[i], c3[i]
        fmt = c['fmt']
        base = pd.Timestamp('2031-01-01')
        stamps = [base + pd.Timedelta(days=x) for x in days]
        if fmt:
            dates = [int(s.strftime(fmt)) if fmt == '%Y%m%d' else s.strftime(fmt) for s in stamps]
        else:
            dates = [s.strftime('%Y-%m-%d') for s in stamps]
        tof = [round(3 + .01 * k, 4) for k in r.sample(range(900), n)]
        vin = [round(5 + .01 * k, 4) for k in r.sample(range(900), n)]
        cols = [('Lcdate', dates), ('LC3', [e * unit for e in c3]), ('TOF', tof), ('Avinf', vin), ('Ldec', [1. * k for k in range(n)])]
        r.shuffle(cols)
        path = os.path.join(d, 'cat.xlsx')
        STORE.clear()
        STORE[(path, 'good')] = pd.DataFrame(dict(cols))
        STORE[(path, 'other')] = pd.DataFrame({k: list(reversed(v)) for k, v in cols})
        STORE[(path, 0)] = STORE[(path, 'other')]
        # an older catalogue was read from the same sheet before it was edited
        now, STORE[(path, 'good')] = STORE[(path, 'good')], STORE[(path, 'other')]
        J = Interplanetary('T', path, 'good', fmt)
        look = lambda I: [list(map(float, I.C3)), list(map(float, I.TOF)), list(map(float, I.Avinf)), [str(x) for x in I.Lcdate]]
        old = look(J), [q(x, 1000.) for x in np.asarray(J.compute_launch_capability(L), float).ravel()]
        STORE[(path, 'good')] = now
        I = Interplanetary('T', path, 'good', fmt)
        snap = lambda: look(I) + [old == (look(J), [q(x, 1000.) for x in np.asarray(J.compute_launch_capability(L), float).ravel()])]
        before = snap()
        m = I.compute_launch_capability(L)
        m2 = I.compute_launch_capability(L)
        mass = [q(x, 1000.) for x in np.asarray(m, float).ravel()]
        ids = list(range(1, n + 1))
        # equal energies: identity is that of the row itself if the value fits
        fix = lambda got, vals, want: [k + 1 if k < len(want) and abs(float(v) - float(want[k])) < 1e-9 else g for k, (g, v) in enumerate(zip(got, vals))]
        C = list(map(float, I.C3))
        ev = [dict(ev='table', h=[t['e'] for t in c['tab']], m=[t['m'] for t in c['tab']]),
              dict(ev='cat', n=n, id=ids, c3=c3, mass=mass, c3id=fix(decode(C, [e * unit for e in c3]), C, [e * unit for e in c3]),
                   date=[i + 1 if i < n and stamps[i] == x else ([k for k, s in enumerate(stamps) if s == x] or [-1])[0] + 1 for i, x in enumerate(I.Lcdate)], tof=decode(I.TOF, tof), vinf=decode(I.Avinf, vin),
                   kept=int(before[-1] and before == snap() and [q(x, 1000.) for x in np.asarray(m2, float).ravel()] == mass))]
        want = np.asarray([0. if not lo <= e <= hi else float(interp1d([t['e'] for t in c['tab']], [t['m'] for t in c['tab']])(e)) for e in c3])
        if c['plot'] and len(set(want)) > 1:
            os.makedirs(os.path.join(d, 'plots'))
            os.makedirs(os.path.join(d, 'run'))
            os.chdir(os.path.join(d, 'run'))
            dn = [md.date2num(s.to_pydatetime()) for s in stamps]
            seen = {}

            def show(*a, **k):
                ax = plt.gcf().axes[0]
                if ax.collections:
                    o = np.asarray(ax.collections[0].get_offsets(), float)
                    seen['xyc'] = (o[:, 0], o[:, 1], np.asarray(ax.collections[0].get_array(), float))
                else:
                    l = ax.lines[0]
                    x = l.get_xdata(orig=False)
                    seen['xyc'] = (np.asarray(x, float), np.asarray(l.get_ydata(orig=False), float), [])
            keep = plt.show, plt.savefig
            plt.show, plt.savefig = show, lambda *a, **k: None
            try:
                for name, args, xw, yw, cw in (('plot_launch_mass_vs_launch_date', (L,), dn, want, None), ('plot_TOF_vs_launch_date', (), dn, tof, None), ('plot_Avinf_vs_launch_date', (), dn, vin, None),
                                               ('plot_Avinf_vs_launch_date_with_launch_mass_colorbar', (L,), dn, vin, want), ('plot_launch_mass_vs_TOF', (L,), tof, want, None),
                                               ('plot_launch_mass_vs_TOF_with_vinf_colorbar', (L,), tof, want, vin)):
                    seen.clear()
                    getattr(I, name)(*args)
                    x, y, cc = seen['xyc']
                    plt.close('all')
                    xi = decode(x, xw)
                    # the other axes: do they carry the values of the same trajectory?
                    ok = lambda got, w: [k if 0 < k <= n and abs(float(g) - float(w[k - 1])) <= 1e-6 * max(1., abs(float(w[k - 1]))) else -1 for k, g in zip(xi, got)]
                    ev.append(dict(ev='plot', n=n, what=name, x=xi, y=ok(y, yw) if len(y) == len(x) else [], c=ok(cc, cw) if cw is not None and len(cc) == len(x) else ([] if cw is None else [0])))
            finally:
                plt.show, plt.savefig = keep
        return ev
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    ctx.design('Launch', 'SPECIFICATION Spec\nCONSTANTS Energies={%s} Masses={%s} MaxRows=%d MaxAsk=%d\nINVARIANTS ZeroOutside TableAtTable NeverExtrapolates OneAnswer Aligned\nCHECK_DEADLOCK FALSE\n' % (('0,1,2,4,7', '0,3,8', 2, 2) if ctx.thorough else ('0,1,4,7', '3,8', 2, 1)), workers=8)
    g = ctx.generate('LaunchGen', 'SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS Seed=%d NPts=%d\n' % (ctx.seed % 997, 5 if ctx.thorough else 4))
    r = ctx.rng('c13')
    unit = lambda: r.choice([.25, .25, 1., round(r.uniform(.1, 3.), 4), r.uniform(.1, 3.)])
    tabs = [dict(tab=t, unit=unit(), was=r.choice(g['tables']), n=r.randrange(10 ** 9)) for t in g['tables']]
    ctx.cases_replayed += len(tabs)
    ctx.validate('LaunchTrace', tabs, ctx.run_cases(table, tabs, timeout=60))
    cats = [dict(cat=k, unit=unit(), tab=r.choice(g['tables']), n=r.randrange(10 ** 9), fmt=r.choice(['%Y%m%d', None, '%Y%m%d', '%d.%m.%Y']), plot=int(j % (6 if ctx.thorough else 40) == 0)) for j, k in enumerate(g['cats'])]
    ctx.cases_replayed += len(cats)
    ctx.validate('LaunchTrace', cats, ctx.run_cases(catalogue, cats, timeout=60))
    rl = [dict(path=f, n=r.randrange(10 ** 9)) for f in sorted(glob.glob(os.path.join(REPO, 'launcher-data', '*.csv')))]
    ctx.validate('LaunchTrace', rl, ctx.run_cases(real, rl, timeout=60))
    ctx.assumptions.append('pandas.read_excel is a stand-in: no Excel reader is installed')
