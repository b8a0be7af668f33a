"""C09: Monte Carlo campaigns, interrupted at every file operation (spec/Campaign.tla, CampaignTrace.tla)."""
import math, os, random, shutil, sys, tempfile
import numpy as np
from scipy.interpolate import interp1d
import amat
from kit import relres, res

REC = ['atmfile', 'profile', 'efpa', 'atmSigma', 'LD', 'terminal_apoapsis', 'apoapsis_error', 'terminal_periapsis', 'periapsis_raise_DV', 'apoapsis_raise_DV']
SUM = ['terminal_apoapsis', 'terminal_periapsis', 'periapsis_raise_DV', 'apoapsis_raise_DV', 'acc_net_g_max', 'q_stag_max', 'heatload_max']
MODES = ['L1', 'L2', 'D1', 'D2', 'E1']
RUN = dict(L1='runMonteCarlo', L2='runMonteCarlo2', D1='runMonteCarloD', D2='runMonteCarloD2', E1='runMonteCarloD_Earth')


class Cut(BaseException):
    """the interruption"""


# ------------------------------------------------------------ file operations, seen by the interpreter itself
_HOOK = dict(root=None, n=0, at=None, log=[], installed=False)


def _hook(name, args):
    if _HOOK['root'] is None:
        return
    if name == 'open':
        path, mode, flags = args
        w = (isinstance(mode, str) and any(x in mode for x in 'wax+')) or (mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if not w:
            return
    elif name in ('os.mkdir', 'os.rename', 'os.remove', 'os.rmdir', 'os.truncate'):
        path = args[1] if name == 'os.rename' else args[0]
        if name == 'os.rename':
            _op('delete', args[0])
    else:
        return
    _op('delete' if name in ('os.remove', 'os.rmdir') else 'mkdir' if name == 'os.mkdir' else 'write', path)


def _op(kind, path):
    try:
        p = os.path.abspath(os.fsdecode(path))
    except Exception:
        return
    if not p.startswith(_HOOK['root']):
        return
    _HOOK['n'] += 1
    _HOOK['log'].append((kind, os.path.relpath(p, _HOOK['root']), os.path.isfile(p) and os.path.getsize(p) > 0))
    if _HOOK['at'] is not None and _HOOK['n'] == _HOOK['at']:
        raise Cut()


def watch(root, at=None):
    if not _HOOK['installed']:
        sys.addaudithook(_hook)
        _HOOK['installed'] = True
    _HOOK.update(root=os.path.abspath(root), n=0, at=at, log=[])


def unwatch():
    _HOOK['root'] = None
    return _HOOK['log']


# ------------------------------------------------------------ configuration
def tables(c, d):
    """two density files, several profiles each, every profile with its own altitudes and numbers"""
    r = random.Random(c['tseed'])
    out = []
    for k in range(2):
        rows = []
        for i in range(c['nmonte']):
            top = 130. if c['planet'] != 'TITAN' else 1100.
            hs = sorted({round(top * j / (c['npos'] - 1) + (r.uniform(-.2, .2) if 0 < j < c['npos'] - 1 else 0), 5) for j in range(c['npos'])})
            if r.random() < .5:
                hs = hs[::-1]
            base = 10 ** r.uniform(-2.6, -2.2)
            for h in hs:
                av = base * math.exp(-h / 25.)
                lo, hi, tot = av * r.uniform(.8, .95), av * r.uniform(1.05, 1.3), av * r.uniform(.9, 1.1)
                rows.append([i, h * (1 if c['km'] else 1e3), lo, av, hi, tot, r.uniform(3, 12)])
        f = os.path.join(d, 'atm%d.txt' % k)
        np.savetxt(f, np.array(rows))
        out.append(f)
    return out


def make(c, LD=None):
    p = amat.planet(c['planet'], kind='linear')
    p.h_skip = c['h_skip']
    v = amat.Vehicle('V', c['mass'], c['beta'], c['LD'] if LD is None else LD, c['A'], 0.0, c['RN'], p)
    v.setInitialState(*c['state'])
    v.setSolverParams(1e-6)
    v.setTargetOrbitParams(*c['target'])
    v.setDragModulationVehicleParams(c['beta1'], c['ratio'])
    if c['mode'][0] == 'L':
        v.setMaxRollRate(20.)
        v.setEquilibriumGlideParams(*c['eg'])
    else:
        v.setDragEntryPhaseParams(*c['dp'])
    return v


def setup(c, v, files):
    if c['mode'][0] == 'L':
        v.setupMonteCarloSimulation(c['npos'], c['nmonte'], files, 1, 2, 3, 4, 5, bool(c['km']), c['efpa'], c['defpa'], c['LD'], c['dLD'], c['steps'][0], c['steps'][2], c['steps'][3], atmSigmaFactor=c['sig'])
    elif c['mode'] == 'E1':
        v.setupMonteCarloSimulationD_Earth(c['npos'], c['nmonte'], files, 1, 3, 6, 5, bool(c['km']), c['efpa'], c['defpa'], c['beta1'], 0.0, *c['steps'])
    else:
        v.setupMonteCarloSimulationD(c['npos'], c['nmonte'], files, 1, 2, 3, 4, 5, bool(c['km']), c['efpa'], c['defpa'], c['beta1'], 0.0, *c['steps'])


def atmosphere(c, atmfile, profile, sigma):
    T = np.loadtxt(atmfile)
    T = T[T[:, 0] == profile - 1]
    h = T[:, 1] * (1e3 if c['km'] else 1.)
    lo, av, hi, tot = T[:, 2], T[:, 3], T[:, 4], T[:, 5]
    if c['mode'] == 'E1':
        lo, hi = av * (1 - T[:, 6] / 100), av * (1 + T[:, 6] / 100)
    d = av + sigma * np.where(sigma >= 0, hi - av, av - lo) + (tot - av)
    k = np.argsort(h)
    return interp1d(h[k], d[k], kind='linear', fill_value=0., bounds_error=False)


def oracle(c, rec):
    """fly, with a freshly built vehicle, the sample a record states"""
    v = make(c, LD=rec['LD'])
    v.planetObj.density_int = atmosphere(c, rec['atmfile'], int(rec['profile']), rec['atmSigma'])
    s = list(c['state'])
    s[5] = rec['efpa']
    v.setInitialState(*s)
    if c['mode'][0] == 'L':
        getattr(v, 'propogateGuidedEntry' + ('2' if c['mode'] == 'L2' else ''))(c['steps'][0], c['steps'][2], c['steps'][3])
    else:
        getattr(v, 'propogateGuidedEntryD' + ('2' if c['mode'] == 'D2' else ''))(*c['steps'])
    # campaigns with the second integrator summarise the growth of the heat load, in kJ
    heat = (np.max(v.heatload_full) - c['state'][7]) / 1e3 if c['mode'][1] == '2' else np.max(v.heatload_full)
    return dict(terminal_apoapsis=v.terminal_apoapsis, apoapsis_error=v.apoapsis_perc_error, terminal_periapsis=v.terminal_periapsis, periapsis_raise_DV=v.periapsis_raise_DV,
                apoapsis_raise_DV=v.apoapsis_raise_DV, acc_net_g_max=np.max(v.acc_net_g_full), q_stag_max=np.max(v.q_stag_total_full), heatload_max=heat)


def read(path):
    try:
        with open(path) as f:
            s = f.read().split()
        return s
    except FileNotFoundError:
        return None


def number(x):
    try:
        return float(x)
    except Exception:
        return float('nan')


def same(a, b):
    """residual; two values that are not numbers (no transfer orbit) agree"""
    if math.isnan(a) and math.isnan(b):
        return 0
    return relres([a], [b], 1e9, floor=1e-3)


_MEMO = {}


def judge(c, folder, files, log, crash, at, swallowed, torn=None):
    """what the campaign left on disk, run by run; torn: the file that was being rewritten when it was cut off"""
    ev = []
    N = c['N']
    dirs = sorted(int(x[1:]) for x in os.listdir(folder) if x.startswith('#') and x[1:].isdigit()) if os.path.isdir(folder) else []
    sums = {}
    whole = len(SUM)
    for k in SUM:
        s = read(os.path.join(folder, k + '_arr.txt'))
        if s is not None and torn == k + '_arr.txt':
            whole = whole - 1
        elif s is not None:
            sums[k] = [number(x) for x in s]
    samples = []
    for i in dirs:
        rec = {}
        for k in REC:
            s = read(os.path.join(folder, '#%d' % i, k + '.txt'))
            if s:
                rec[k] = s[0] if k == 'atmfile' else number(s[0])
        base = dict(ev='run', run=i, crash=crash, at=at, nrec=len(rec), nsum=len(sums), want=whole, rec=[], sum=[], empty=[], range=1)
        full = all(k in rec for k in REC[:5])
        if full:
            samples.append(tuple(rec[k] for k in REC[:5]))
            ok = rec['atmfile'] in files and rec['profile'] == int(rec['profile']) and 1 <= rec['profile'] <= c['nmonte'] and abs(rec['efpa'] - c['efpa']) <= 8 * c['defpa'] + 1e-12
            ok = ok and (abs(rec['LD'] - c['LD']) <= 8 * (c['dLD'] if c['mode'][0] == 'L' else 0) + 1e-12) and abs(rec['atmSigma']) <= 8 * (c['sig'] if c['mode'][0] == 'L' else 1) + 1e-12
            base['range'] = int(ok)
            if ok:
                key = (c['id'],) + samples[-1]
                if key not in _MEMO:
                    _MEMO[key] = oracle(c, rec)
                want = _MEMO[key]
                base['rec'] = [same(rec[k], float(want[k])) for k in REC[5:] if k in rec]
                for k in SUM:
                    if k in sums:
                        x = sums[k][i - 1] if len(sums[k]) >= i else float('nan')
                        base['sum'].append(same(x, float(want[k])))
                        base['empty'].append(int(x == 0.0 or len(sums[k]) < i))
        ev.append(base)
    rew = dele = 0
    closed, prev = set(), None
    for kind, path, filled in log:
        if prev is not None and path != prev:
            closed.add(prev)
        name = os.path.basename(path)
        if kind == 'delete':
            dele += int(name.endswith('_arr.txt') or name[:-4] in REC or name.startswith('#'))
        elif kind == 'write' and path.split(os.sep)[0].startswith('#'):
            # consecutive operations on one file are one write
            rew += int(path in closed or (filled and path != prev))
        prev = path
    ev.append(dict(ev='end', crash=crash, asked=N, found=len(dirs), dense=int(dirs == list(range(1, len(dirs) + 1))), lens=[len(x) for x in sums.values()], rewritten=rew, deleted=dele, swallowed=swallowed,
                   same=int(len(samples) > 2 and len(set(samples)) == 1 and c['defpa'] > 0)))
    return ev


def campaign(c, v, folder, seed, cut):
    random.seed(seed)
    np.random.seed(seed)
    watch(folder, cut)
    swallowed = 0
    done = False
    try:
        getattr(v, RUN[c['mode']])(c['N'], folder)
        done = True
    except Cut:
        pass
    finally:
        log = list(unwatch())
    crash, at, torn = 'none', 0, None
    if cut is not None and len(log) >= cut:
        swallowed = int(done)
        kind, path, _ = log[cut - 1]
        top = path.split(os.sep)[0]
        started = [int(p.split(os.sep)[0][1:]) for _, p, _ in log[:cut] if p.split(os.sep)[0][1:].isdigit() and p.startswith('#')]
        at = max(started or [0])
        crash = 'record' if top.startswith('#') else ('start' if path == '.' else 'summary')
        if crash == 'summary' and len(log) >= 2 and log[cut - 2][1] == path:
            torn = path
        log = log[:cut - 1]
    return log, crash, at, swallowed, torn


def case(c):
    d = tempfile.mkdtemp(prefix='mc-')
    try:
        files = tables(c, d)
        ev = []
        if c['what'] == 'cuts':
            n = None
            k = 0
            while True:
                folder = os.path.join(d, 'out%d' % k)
                v = make(c)
                setup(c, v, files)
                cut = None if k == 0 else c['cuts'][k - 1]
                log, crash, at, sw, torn = campaign(c, v, folder, c['rseed'], cut)
                ev += judge(c, folder, files, log, crash, at, sw, torn)
                shutil.rmtree(folder, ignore_errors=True)
                k += 1
                if k > len(c['cuts']):
                    break
        elif c['what'] == 'again':
            # several campaigns with one vehicle, with flights in between; then one on an existing folder
            v = make(c)
            setup(c, v, files)
            for k in range(2):
                folder = os.path.join(d, 'out%d' % k)
                log, crash, at, sw, torn = campaign(c, v, folder, c['rseed'] + k, c['cuts'][0] if k == 0 and c['cuts'] else None)
                ev += judge(c, folder, files, log, crash, at, sw, torn)
            # the same vehicle set up anew: other entry state, target and distributions, other profiles in the same files
            r = random.Random(c['rseed'])
            b = dict(c, id=(c['id'], 'b'), tseed=r.randrange(10 ** 6), npos=r.choice([8, 11, 15]), nmonte=r.choice([2, 3, 5]), km=r.choice([0, 1]), efpa=-r.uniform(.4, 1.2), defpa=r.choice([.05, .1]), sig=r.choice([1, .5, 2.]),
                     state=list(c['state']), target=[r.uniform(200., 400.), r.uniform(1500., 3000.), 100.], dLD=r.choice([.01, .03]))
            b['state'][1:5] = [r.uniform(-100, 100), r.uniform(-40, 40), c['state'][3] * r.uniform(.97, 1.), r.uniform(-90, 90)]
            b['state'][5] = b['efpa']
            files = tables(b, d)
            v.setInitialState(*b['state'])
            v.setTargetOrbitParams(*b['target'])
            setup(b, v, files)
            folder = os.path.join(d, 'out2')
            log, crash, at, sw, torn = campaign(b, v, folder, c['rseed'] + 2, None)
            ev += judge(b, folder, files, log, crash, at, sw, torn)
            old = os.path.join(d, 'old')
            os.makedirs(os.path.join(old, '#1'))
            keep = {'#1/efpa.txt': 'mine', 'terminal_apoapsis_arr.txt': 'also mine', 'note.txt': 'n'}
            if c['empty']:
                shutil.rmtree(old)
                os.makedirs(old)
                keep = {}
            for k, t in keep.items():
                with open(os.path.join(old, k), 'w') as f:
                    f.write(t)
            refused = 0
            try:
                getattr(v, RUN[c['mode']])(1, old)
            except Exception:
                refused = 1
            now = {}
            for b, _, fs in os.walk(old):
                for f in fs:
                    with open(os.path.join(b, f)) as g:
                        now[os.path.relpath(os.path.join(b, f), old)] = g.read()
            ev.append(dict(ev='folder', refused=refused, changed=int(now != keep)))
        elif c['what'] == 'draws':
            # a long campaign of the shortest flights: what is sampled, run after run
            v = make(c)
            setup(c, v, files)
            folder = os.path.join(d, 'out')
            random.seed(c['rseed'])
            np.random.seed(c['rseed'])
            getattr(v, RUN[c['mode']])(c['N'], folder)
            rec = {k: [(read(os.path.join(folder, '#%d' % (i + 1), k + '.txt')) or ['nan'])[0] for i in range(c['N'])] for k in REC[:5]}
            lift = c['mode'][0] == 'L'
            z = lambda k, m, s: [max(-800, min(800, int(round(100 * (number(x) - m) / s)))) if not math.isnan(number(x)) else 800 for x in rec[k]]
            # another campaign with the same vehicle, the random numbers going on where they are
            more = os.path.join(d, 'more')
            getattr(v, RUN[c['mode']])(24, more)
            nxt = {k: [(read(os.path.join(more, '#%d' % (i + 1), k + '.txt')) or ['nan'])[0] for i in range(24)] for k in REC[:5]}
            repeat = sum(a == b for k in ('efpa', 'atmSigma') for a, b in zip(nxt[k], rec[k])) + int(all(nxt[k] == rec[k][:24] for k in ('atmfile', 'profile')))
            ev.append(dict(ev='draws', repeat=repeat, n=c['N'], efpa=z('efpa', c['efpa'], c['defpa']), sigma=z('atmSigma', 0., c['sig'] if lift else 1.), ld=z('LD', c['LD'], c['dLD']) if lift else [],
                           files=len(files), profiles=c['nmonte'], cell=[files.index(f) * c['nmonte'] + int(number(p)) if f in files and 1 <= number(p) <= c['nmonte'] else 0 for f, p in zip(rec['atmfile'], rec['profile'])]))
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def config(r, mode, n):
    """flights of one or two guidance cycles, so that whole campaigns are cheap, or full guided flights"""
    pl = 'EARTH' if mode == 'E1' else r.choice(['EARTH', 'MARS', 'VENUS'])
    hs = r.uniform(60, 75)
    v0 = dict(EARTH=9.5, MARS=5.0, VENUS=9.0)[pl]
    c = dict(id=n, mode=mode, planet=pl, h_skip=hs * 1e3, mass=r.choice([50., 500.]), beta=r.uniform(40, 120), LD=r.choice([.2, .35]) if mode[0] == 'L' else r.choice([0., 0., .12]), A=r.uniform(.3, 5), RN=r.uniform(.1, 1.),
             state=[hs - .4, r.uniform(-100, 100), r.uniform(-40, 40), v0, r.uniform(-90, 90), -3.0, r.choice([0., 500.]), r.choice([0., 700.])], target=[300., 2000., 100.], beta1=r.uniform(40, 90), ratio=r.uniform(2, 5),
             eg=[50., 2., v0 + 1, 20., 21, -100.], dp=[v0 + 1, 20., 21, -100.], efpa=-r.uniform(.4, 1.2), defpa=r.choice([.05, .1]), dLD=.03, sig=r.choice([1, .5]), steps=[2., 2., 1., 300.], npos=r.choice([8, 15]), nmonte=r.choice([2, 3, 5]),
             km=r.choice([0, 1]), tseed=r.randrange(10 ** 6), rseed=r.randrange(10 ** 6), N=3, what='cuts', cuts=[], empty=0)
    c['state'][5] = c['efpa']
    return c


def operations(c):
    """number of file operations of an undisturbed campaign"""
    d = tempfile.mkdtemp(prefix='mc-')
    out = sys.stdout
    try:
        v = make(c)
        setup(c, v, tables(c, d))
        sys.stdout = open(os.devnull, 'w')
        return len(campaign(c, v, os.path.join(d, 'out'), c['rseed'], None)[0])
    except Exception:
        return 1 + c['N'] * 35
    finally:
        sys.stdout = out
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    ctx.design('Campaign', 'SPECIFICATION Spec\nCONSTANTS Runs=2 Names={"a","b"} Summaries={"s"%s} Folders={"f","g"} Samples={1,2} MaxCampaigns=%d\nINVARIANTS RecordsBelongToTheirRun RecordsAreTrue SummariesAreTrue SummariesCover RecordsComplete\nPROPERTIES NothingDisappears\nCHECK_DEADLOCK FALSE\n' % ((',"t"', 3) if ctx.thorough else ('', 2)))
    r = ctx.rng('c09')
    cases = []
    n = 0
    points = 0
    for mode in MODES:
        for rep in range(3 if ctx.thorough else 1):
            c = config(r, mode, n)
            total = operations(c)
            # every interruption point, a few more than the campaign has operations
            cuts = list(range(1, total + 3))
            for part in range(8):
                n += 1
                cases.append(dict(c, id=n, cuts=cuts[part::8]))
                points += len(cuts[part::8])
        for rep in range(6 if ctx.thorough else 2):
            c = config(r, mode, n)
            n += 1
            cases.append(dict(c, id=n, what='again', N=r.choice([2, 4]), empty=rep % 2, cuts=[r.randrange(3, 60)] if r.random() < .5 else []))
        # a long campaign, cut off near its end
        c = config(r, mode, n)
        n += 1
        N = r.choice([11, 13, 26])
        cases.append(dict(c, id=n, N=N, cuts=[r.randrange(N * 15, N * 40)]))
        # the distributions of what is sampled
        for rep in range(2 if ctx.thorough else 1):
            c = config(r, mode, n)
            n += 1
            cases.append(dict(c, id=n, what='draws', N=1200 if ctx.thorough else 400, steps=[2., 2., 1., 3.]))
        # a campaign of full guided flights
        for rep in range(3 if ctx.thorough else 1):
            c = config(r, mode, n)
            n += 1
            c.update(id=n, N=2 if not ctx.thorough else 4, h_skip=120e3)
            c['state'][0], c['state'][5] = 118., -6. if c['planet'] != 'MARS' else -9.
            c['efpa'] = c['state'][5]
            c['eg'] = [50., 2., c['state'][3] * .7, 20., 21, -100.]
            c['dp'] = [c['state'][3] * .6, 20., 21, -100.]
            c['steps'] = [2., 4., 2., 400.]
            cases.append(c)
    ctx.notes['interruption_points'] = points
    traces = ctx.run_cases(case, cases, timeout=300)
    ctx.validate('CampaignTrace', cases, traces, consts='CONSTANTS NRecords=10\n')
