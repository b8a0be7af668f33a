"""C10: sampled atmospheres (spec/Atmosphere.tla, AtmosphereGen.tla, SampleTrace.tla)."""
import glob, os, random, shutil, tempfile
import numpy as np
import amat
from kit import q, relres, fingerprint, REPO


def build(c, d):
    """the file on disk, with its columns in an order of their own and a decoy column"""
    r = random.Random(c['n'])
    f = c['file']
    z = c['z']            # the same sample with half-widths z times as narrow and a factor z times as large
    av = np.array(f['av'], float)
    if c['kind'] == 2:
        low, up = np.array(f['low'], float), np.array(f['up'], float)
        lo, hi = av - low / z, av + up / z
        cols = dict(h=None, lo=lo, av=av, hi=hi, tot=av + np.array(f['per']), junk=av * 3 + 1)
    else:
        pct = np.array(f['pct'], float)
        low = up = av * pct / 100
        cols = dict(h=None, av=av, pct=pct / z, tot=av + np.array(f['per']), junk=av * 3 + 1)
    cols['h'] = np.array(f['h'], float) / 4 * (1 if c['km'] else 1e3)
    names = list(cols)
    r.shuffle(names)
    path = os.path.join(d, 'f.txt')
    np.savetxt(path, np.column_stack([cols[k] for k in names]), fmt='%.10f', header='a b c' if r.random() < .5 else '')
    ix = {k: names.index(k) for k in names}
    ev = dict(ev='file', npos=c['npos'], h=f['h'], av=f['av'], lo=[int(round(x)) for x in av - low], hi=[int(round(x)) for x in av + up], tot=[int(a) + int(b) for a, b in zip(f['av'], f['per'])])
    return path, ix, ev


def load(p, c, path, ix):
    km = bool(c['km'])
    if c['kind'] == 2:
        return p.loadMonteCarloDensityFile2(path, ix['h'], ix['lo'], ix['av'], ix['hi'], ix['tot'], heightInKmFlag=km)
    return p.loadMonteCarloDensityFile3(path, ix['h'], ix['av'], ix['pct'], ix['tot'], heightInKmFlag=km)


def synthetic(c):
    d = tempfile.mkdtemp(prefix='atm-')
    try:
        p = amat.planet(c['planet'], kind='linear')
        # the file may hold other profiles first, and be written again
        parts = [draw(p, dict(x, n=c['n'] + k), d) for k, x in enumerate([c['was'], c] if 'was' in c else [c])]
        # every sample is asked after all of them were drawn
        return [e for part in parts for e in part()]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def draw(p, c, d):
    path, ix, first = build(c, d)
    H, lo, av, hi, pert = load(p, c, path, ix)
    look = lambda: fingerprint([H, lo, av, hi, pert, p.density_int, p.ATM, p.h_thres, p.h_skip])
    before = look()
    r = random.Random(c['n'] + 7)
    fns = []
    for dr in c['draws']:
        i = r.choice([int, float, np.int64, np.float64])(dr['i'])
        npos = r.choice([int, float])(c['npos'])
        s = r.choice([float, np.float64])(dr['sig'] / 4 * c['z'])
        fns.append(p.loadAtmosphereModel5(H, lo, av, hi, pert, s, npos, i) if dr['model'] == 5 else p.loadAtmosphereModel6(H, lo, av, hi, s, npos, i))

    def ask():
        ev = [first]
        top = max(c['file']['h']) + 9
        for dr, fn in zip(c['draws'], fns):
            qs = list(range(-6, top))
            y = np.asarray(fn(np.array(qs) * 250.0), float)
            k = r.randrange(len(qs))
            y[k] = float(fn(qs[k] * 250.0))
            ev.append(dict(ev='sample', i=dr['i'], sig=dr['sig'], pert=dr['model'] == 5, qs=qs, obs=[q(x, 4000.) for x in y]))
        return ev + [dict(ev='kept', changed=int(before != look()))]
    return ask


def real(c):
    """draws from the files that come with the code"""
    T = np.loadtxt(c['path'])
    p = amat.planet(c['planet'], kind='linear')
    H, lo, av, hi, pert = p.loadMonteCarloDensityFile2(c['path'], 0, 1, 2, 3, 4, heightInKmFlag=True)
    ev = []
    n = c['npos']
    for i, s, m in c['draws']:
        fn = p.loadAtmosphereModel5(H, lo, av, hi, pert, s, n, i) if m == 5 else p.loadAtmosphereModel6(H, lo, av, hi, s, n, i)
        S = T[(i - 1) * n:i * n]
        w = S[:, 3] - S[:, 2] if s >= 0 else S[:, 2] - S[:, 1]
        x = S[:, 2] + s * w + (S[:, 4] - S[:, 2] if m == 5 else 0)
        h = S[:, 0] * 1e3
        o = np.argsort(h)
        h, x, w = h[o], x[o], w[o]
        t = np.array([.1, .5, .73])
        hm = (h[:-1, None] + np.diff(h)[:, None] * t).ravel()
        xm = (x[:-1, None] + np.diff(x)[:, None] * t).ravel()
        y = np.asarray(fn(h), float)
        out = np.asarray(fn(np.array([h[0] - 1, h[0] - 1e5, h[-1] + 1, h[-1] + 1e6])), float)
        d = y - (S[:, 2] + (S[:, 4] - S[:, 2] if m == 5 else 0))[o]
        eps = 1e-9 * np.abs(S[:, 2])[o]
        ev.append(dict(ev='real', own=relres(y, x, 1e9), mid=relres(fn(hm), xm, 1e9), out=int(np.sum(out != 0)), side=int(np.sum((d < -eps) if s >= 0 else (d > eps)))))
    return ev


def run(ctx):
    ctx.design('Atmosphere', 'SPECIFICATION Spec\nCONSTANTS Vals={1,2%s} Steps=3\nINVARIANTS OwnProfileOnly ZeroIsMean PertIsAdded RightSide ReachesBound Monotone OneAnswer Zones Chord\nPROPERTIES DrawChangesNothing\nCHECK_DEADLOCK FALSE\n' % (',3' if ctx.thorough else ''), workers=8)
    g = ctx.generate('AtmosphereGen', 'SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS Seed=%d MaxProf=3 MaxPos=4 SigMax=11 NDraw=%d\n' % (ctx.seed % 1000, 8 if ctx.thorough else 2))
    r = ctx.rng('c10')
    cases = []
    for n, c in enumerate(g):
        c['n'] = r.randrange(10 ** 9)
        c['z'] = [1., 1., 2. ** -8, 16.][(n + n // 8) % 4]
        c['planet'] = amat.PLANETS[n % 8]
        cases.append(c)
    small = [dict(c) for c in cases]
    for c in cases:
        if r.random() < (.5 if ctx.thorough else .25):
            c['was'] = r.choice(small)
    ctx.cases_replayed += sum(len(c['draws']) for c in cases)
    traces = ctx.run_cases(synthetic, cases, timeout=60)
    ctx.validate('SampleTrace', cases, traces)
    files = []
    for pl, npos in (('Mars', None), ('Titan', None), ('Venus', None)):
        fs = sorted(glob.glob(os.path.join(REPO, 'atmdata', pl, 'LAT*.txt'))) + sorted(glob.glob(os.path.join(REPO, 'atmdata', pl, 'FMINMAX*.txt')))
        files += [(pl.upper(), f) for f in (fs if ctx.thorough else r.sample(fs, min(3, len(fs))))]
    rc = []
    for pl, f in files:
        with open(f) as fh:
            hs = [float(l.split()[0]) for l in fh if l.strip() and l.split()[0].replace('.', '', 1).replace('-', '', 1).isdigit()]
        npos = next((k for k in range(1, len(hs)) if hs[k] == hs[0]), len(hs))
        nm = len(hs) // npos
        dr = [[r.choice([1, nm, r.randint(1, nm)]), r.choice([0., r.gauss(0, 1), r.gauss(0, 1), 1., -1., .004, -.004, .05, 3.9, -3.1]), r.choice([5, 6])] for _ in range(12)]
        rc.append(dict(planet=pl, path=f, npos=npos, draws=dr))
    ctx.notes['real_files'] = [[os.path.relpath(x['path'], REPO), x['npos']] for x in rc]
    traces = ctx.run_cases(real, rc, timeout=120)
    ctx.validate('SampleTrace', rc, traces)
