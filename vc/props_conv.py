"""C01 - C08: contracts of the conversion itself."""
import random, subprocess, concurrent.futures as cf, threading, struct
import multiprocessing as mp
from core import *
import conv, contracts, ghost, wrap
from conv import MODES, CRS, PROVIDERS, SPEC, Fmt

NEAR = PROVIDERS[:8]
LC, RC = PROVIDERS[8], PROVIDERS[9]
TIES = CRS[1:]
KIND_ORDER = ['normal', 'sub', 'pow2', 'tiny']


# ---------------------------------------------------------------- units
class J:
    """one symbolic execution of one function in one regime (or part of it)"""

    def __init__(self, fmt, prov, crs, posts, regime, rs=True, config='x64', Es=None, entry=None, sign=None):
        self.fmt, self.prov, self.crs, self.posts, self.regime = fmt, prov, crs, frozenset(posts), regime
        self.rs, self.config, self.Es = rs, config, Es
        self.entry, self.sign = entry, sign

    @property
    def mod(self):
        return (self.fmt, self.rs, self.crs, self.config)

    def name(self):
        r = self.regime if self.Es is None else '%s E=%d..%d' % (self.regime, self.Es[0], self.Es[-1])
        return '%s %s %s %s%s %s' % (self.fmt, self.entry or self.prov, self.crs, self.config, '' if self.rs else ' unsigned', r)

    def cost(self):
        """rough seconds, for scheduling only"""
        if self.regime != 'normal':
            return 8 if self.regime == 'sub' else 2
        d = self.fmt == 'double'
        if self.prov == LC:
            if self.crs != 'do_not_care':
                n = len(self.Es) if self.Es else 0
                return (120 if d else 15) if n > 1 else (50 if d else 8)
            return 90 if d else 14
        if self.prov == RC:
            return 15 if d else 3
        w = {'nearest_toward_zero': .35, 'detail::nearest_always_closed': .5, 'detail::nearest_always_open': .7}.get(self.prov, 1)
        c = 110 if self.crs != 'do_not_care' else 50
        return (c if d else c / 10) * w / (1 if not self.Es else 1.5 if 1023 <= self.Es[0] <= 1200 else 3)


_sig = {}


def es_chunks(fmtname, size):
    """exponent fields in runs of at most `size`; those whose sigma is an integer alone"""
    if fmtname not in _sig:
        fmt = Fmt(fmtname)
        A = Atoms()
        Es = conv.regimes(fmt)[0].Es
        _sig[fmtname] = ghost.Ghost(fmt, A, A.var('F', 1, 1 << 20), Es, 'normal', 1, 1 << 20)
    g = _sig[fmtname]
    out, cur = [], []
    n = len(g.Es)
    mid = [i for i in range(n) if g.sigma[i].denominator == 1][0]
    for i, e in enumerate(g.Es):
        if g.sigma[i].denominator == 1:
            out.append([e])
            continue
        sz = max(8, size // 4) if abs(i - mid) < 2 * size else size
        if cur and (len(cur) >= sz or cur[-1] != e - 1):
            out.append(cur)
            cur = []
        cur.append(e)
    out.append(cur)
    return out


def units(fmt, prov, crs, posts, **kw):
    out = []
    for reg in KIND_ORDER:
        Es = [None]
        if reg == 'normal' and prov == LC:
            if crs != 'do_not_care':
                Es = es_chunks(fmt, 16 if fmt == 'float' else 128)
            elif fmt == 'double':
                n = Fmt(fmt).emax_field
                Es = [list(range(1 + k * n // 4, 1 + (k + 1) * n // 4)) for k in range(4)]
        elif reg == 'normal' and fmt == 'double' and prov != RC and crs != 'do_not_care':
            cuts = [1, 1090, 1140, Fmt(fmt).emax_field + 1]
            Es = [list(range(a, b)) for a, b in zip(cuts, cuts[1:])]
        for e in Es:
            out.append(J(fmt, prov, crs, posts, reg, Es=e, **kw))
    return out


MODS = {}
_lock = threading.Lock()


def load_mods(keys):
    """compile (in parallel) the needed translation units; -> {key: error}"""
    bad = {}

    def one(k):
        try:
            m = conv.load(k[0], k[1], k[2], k[3])
            with _lock:
                MODS[k] = m
        except build.CompileError as e:
            bad[k] = str(e)
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, [k for k in keys if k not in MODS]))
    return bad


BADMUL = {}


def verify_muls(ck, keys):
    """discharge the contracts of the multiplication helpers each module uses;
    those that fail are inlined instead"""
    done = {}
    for k in keys:
        m = MODS.get(k)
        if m is None:
            continue
        for f, c in contracts.mul_contracts(m).items():
            body = (k[3], c.name, '\n'.join(map(str, m.funcs[f].body)))
            if body not in done:
                try:
                    ok, ex = c.verify()
                    done[body] = ok
                    if ok:
                        ck.add_exec(ex, c.name, k[3])
                except Exception as e:
                    done[body] = False
                if not done[body]:
                    ck.notes.append('contract of %s [%s] not discharged: inlined at its call sites' % (c.name, k[3]))
            if not done[body]:
                BADMUL.setdefault(k, set()).add(f)


def run_job(j, limit):
    t = time.time()
    solver.STATS.update({'checks': 0, 'time': 0, 'unknown': 0, 'fresh': 0})
    r = {'name': j.name(), 'failed': [], 'by': {}, 'paths': 0, 'time': 0, 'inlined': [], 'cands': [], 'cover': None, 'error': None}
    u = None
    try:
        fmt = Fmt(j.fmt)
        m = MODS[j.mod]
        rg = {x.name: x for x in conv.regimes(fmt)}[j.regime]
        if j.Es is not None:
            rg.Es = j.Es
        if j.entry:
            fname, spec = '@m_' + j.entry, wrap.mode_spec(j.entry, j.sign)
        else:
            fname = {v: k for k, v in conv.find_compute(m).items()}[(j.prov, j.crs)]
            spec = SPEC[j.prov]
        mc = {f: c for f, c in contracts.mul_contracts(m).items() if f not in BADMUL.get(j.mod, ())}
        u = conv.Unit(fmt, j.rs, j.crs, j.config, fname, spec, rg, set(j.posts), sign=j.sign)
        u.deadline = t + limit
        ex = u.run(m, mc)
        if u.signdep:
            # not syntactically independent of the sign: determine the result completely
            u = conv.Unit(fmt, j.rs, j.crs, j.config, fname, spec, rg, DET | {'sign'}, sign=j.sign)
            u.deadline = t + limit
            ex = u.run(m, mc)
            r['redone'] = True
        r['cover'] = int(u.cover.min())
    except (Unsupported, Undecided) as e:
        r['error'] = 'outside the verifier\'s reach: ' + repr(e)[:1500]
    except Exception:
        r['error'] = 'verifier error: ' + traceback.format_exc()[-1800:]
    ex = getattr(u, 'ex', None)
    if ex is not None:
        r['by'] = dict(ex.oblcount)
        r['paths'] = ex.paths
        r['inlined'] = sorted(ex.dname(x) for x in ex.inlined)
        r['used'] = sorted(ex.dname(x) for x in ex.used_contracts)
        for o in ex.failed:
            r['failed'].append((o.name, str(o.info)[:1200]))
            r['cands'] += candidates(u, o)
            r['by'][o.how] = r['by'].get(o.how, 1) - 1
        r['lemmas'] = u.g.nlemmas
        for k, v in list(getattr(u.g, 'lemma_failures', {}).items())[:4]:
            r['lemfail'] = r.get('lemfail', []) + [str(k)[:200]]
            try:
                r['cands'] += [(u.g.Es[i], None, None) for i in v[:3]] if isinstance(v, (list, tuple)) else []
            except Exception:
                pass
        if r['error'] is not None and not r['cands']:
            try:
                r['cands'] += [(u.regime.Es[0], None, None), (u.regime.Es[-1], None, None)]
            except Exception:
                pass
    r['time'] = time.time() - t
    r['stats'] = dict(solver.STATS)
    return r


def candidates(u, o):
    """(E, F or None, s or None) suggested by a failed obligation"""
    out = []
    try:
        info = o.info
        if isinstance(info, dict):
            return [(info['E'], info['F'], info['s'])]
        mask, m = info
        E = u.g.Es[int(mask[0])]
        if u.regime.Fs is not None:
            return [(E, u.regime.Fs[int(i)], None) for i in mask[:8]]
        F = None
        if isinstance(m, dict) and u.g.F is not None:
            v = m.get('a%d' % u.g.F)
            if v is not None:
                F = int(v)
        out.append((E, F, None))
        for i in mask[1:6]:
            out.append((u.g.Es[int(i)], F, None))
    except Exception:
        pass
    return out


def worker(args):
    sys.setrecursionlimit(20000)
    j, limit = args
    return run_job(j, limit)


def run_units(ck, jobs, budget=None, limit=None):
    """execute the units on all cores; stops early once something failed"""
    t0 = time.time()
    budget = budget or (720 if ck.tier == 'quick' else 5 * 3600)
    limit = limit or (400 if ck.tier == 'quick' else 3600)
    keys = sorted({j.mod for j in jobs})
    bad = load_mods(keys)
    for k, e in bad.items():
        ck.fact('%s: compiles' % (k,), False, detail=e)
    jobs = [j for j in jobs if j.mod not in bad]
    if not jobs:
        return []
    verify_muls(ck, [k for k in keys if k not in bad])
    jobs.sort(key=lambda j: -j.cost())
    failed, results, skipped = [], [], 0
    ctx = mp.get_context('fork')
    pool = ctx.Pool(min(8, os.cpu_count() or 4), maxtasksperchild=12)
    try:
        pend = [(j, pool.apply_async(worker, ((j, limit),))) for j in jobs]
        grace = None
        while pend:
            rest = []
            for j, a in pend:
                if a.ready():
                    try:
                        r = a.get()
                    except Exception as e:
                        r = {'name': j.name(), 'failed': [], 'by': {}, 'paths': 0, 'time': 0, 'inlined': [], 'cands': [],
                             'cover': None, 'error': 'worker: ' + repr(e), 'stats': {}}
                    r['job'] = j
                    results.append(r)
                    if r['error'] or r['failed']:
                        failed.append(r)
                else:
                    rest.append((j, a))
            pend = rest
            now = time.time()
            if failed and grace is None:
                grace = now + 20
            if (grace is not None and now > grace) or now - t0 > budget:
                skipped = len(pend)
                if not failed:
                    for j, a in pend:
                        ck.fails.append(Failure('not decided within the time budget: ' + j.name(), '', []))
                        ck.total += 1
                break
            if pend:
                time.sleep(0.05)
    finally:
        pool.terminate()
        pool.join()
    agg = {}
    for r in results:
        j = r['job']
        for how, k in r['by'].items():
            ck.by[how] = ck.by.get(how, 0) + k
        n = sum(r['by'].values()) + len(r['failed'])
        ck.total += n
        ck.ok += n - len(r['failed'])
        st = r.get('stats') or {}
        ck.solver_time += st.get('time', 0)
        ck.solver_checks += st.get('checks', 0)
        key = ('%s grisu_exact_impl<%s>::compute<%s, %s, %s>' % ('', j.fmt, str(j.rs).lower(), j.prov, j.crs) if not j.entry else
               'grisu_exact<%s>(%s, %s, %s)' % (str(j.rs).lower(), j.fmt, j.entry, j.crs), j.config)
        a = agg.setdefault(key, {'function': key[0].strip(), 'configuration': key[1], 'obligations': 0, 'failed': 0, 'paths': 0,
                                 'seconds': 0, 'input_regions': [], 'posts': sorted(j.posts), 'inlined': set()})
        a['obligations'] += n
        a['failed'] += len(r['failed'])
        a['paths'] += r['paths']
        a['seconds'] = round(a['seconds'] + r['time'], 1)
        a['input_regions'].append(j.regime if j.Es is None else '%s E=%d..%d' % (j.regime, j.Es[0], j.Es[-1]))
        a['inlined'] |= set(r['inlined'])
        cands = [(j, c) for c in r['cands']]
        for nm, info in r['failed'][:10]:
            ck.fails.append(Failure('[%s] %s' % (r['name'], nm), info, cands))
        if r['error']:
            ck.total += 1
            ck.fails.append(Failure('[%s] %s' % (r['name'], r['error'].split('\n')[0][:200]), r['error'], cands))
        elif r['cover'] == 0 and not r['failed']:
            ck.total += 1
            ck.fails.append(Failure('[%s] vacuous: some case has no path' % r['name'], '', cands))
        if r.get('lemfail'):
            ck.notes.append('[%s] quotient lemmas that fail: %s' % (r['name'], '; '.join(r['lemfail'])))
    inl = set()
    for a in agg.values():
        inl |= a.pop('inlined')
        if len(a['input_regions']) > 12:
            a['input_regions'] = a['input_regions'][:3] + ['... %d regions' % len(a['input_regions'])]
    ck.funcs += list(agg.values())
    ck.extra['inlined_into_their_callers'] = sorted(set(ck.extra.get('inlined_into_their_callers', [])) | inl)
    ck.extra['slowest_units'] = sorted([[round(r['time'], 1), r['name']] for r in results], reverse=True)[:8]
    if skipped:
        ck.extra['units_not_run'] = skipped
    return failed


# ---------------------------------------------------------------- replay
def modes_of(prov, crs):
    """(mode index) that can reach the provider"""
    out = []
    for i, m in enumerate(MODES):
        if wrap.reaches(m, prov):
            out.append(i)
    return out


def bits_of(fmt, E, F, s):
    return s << (fmt.N - 1) | E << fmt.P | F


def decimals(fmt, rnd, n):
    """inputs near short decimals, and ties between them"""
    out = []
    for _ in range(n):
        nd = rnd.randrange(1, fmt.maxdig + 1)
        d = rnd.randrange(10 ** (nd - 1), 10 ** nd)
        e = rnd.randrange(-50, 38) if fmt.name == 'float' else rnd.choice([rnd.randrange(-330, 308), rnd.randrange(-30, 30)])
        try:
            x = float('%de%d' % (d, e - nd + 1))
        except OverflowError:
            continue
        if fmt.name == 'float':
            try:
                b = struct.unpack('<I', struct.pack('<f', x))[0]
            except OverflowError:
                continue
        else:
            b = struct.unpack('<Q', struct.pack('<d', x))[0]
        out += [b - 1, b, b + 1]
    return [b for b in out if 0 < b < (1 << (fmt.N - 1))]


def replay(ck, accept, extra=(), opt='-O1'):
    """run the real code on the suggested inputs; accept(fields) -> bool"""
    t0 = time.time()
    rnd = random.Random(ck.seed * 7919 + 11)
    found = []
    cands, seen = [], set()
    for f in ck.fails:
        for j, c in f.cands:
            k = (j.fmt, j.config, j.prov, j.crs, j.entry) + tuple(c)
            if k not in seen:
                seen.add(k)
                cands.append((j, c))
    fmts = sorted({(j.fmt, j.config) for j, c in cands} or {('float', 'x64'), ('double', 'x64')})
    exes = {}
    for fc in fmts:
        defs = ['-DFLT'] if fc[0] == 'float' else []
        exes[fc] = native_build('conv_main.cpp', fc[1], defs, list(extra), opt)
    for stage in range(4):
        for fc, exe in exes.items():
            if exe is None:
                continue
            fmt = Fmt(fc[0])
            cmds = []
            mine = [(j, c) for j, c in cands if (j.fmt, j.config) == fc]
            if stage == 0:
                for j, (E, F, s) in mine[:200]:
                    for d in (0, 1, -1, 2, -2):
                        if F is not None and 0 <= F + d < 1 << fmt.P:
                            for sg in (0, 1):
                                cmds.append('b -1 -1 %x' % bits_of(fmt, E, F + d, sg))
            elif stage == 1:
                for b in decimals(fmt, rnd, 4000):
                    cmds.append('b -1 -1 %x' % (b | rnd.getrandbits(1) << (fmt.N - 1)))
                cmds.append('n -1 -1 %x %d' % (ck.seed, 60000))
            else:
                for j, (E, F, s) in mine[:12 if stage == 2 else 4]:
                    ms = [MODES.index(j.entry)] if j.entry else modes_of(j.prov, j.crs)[:3]
                    for mi in ms:
                        for sg in (0, 1):
                            lo, hi = bits_of(fmt, E, 0, sg), bits_of(fmt, E, (1 << fmt.P) - 1, sg) + 1
                            n = 200000 if stage == 2 else 1 << 23
                            step = max(1, (hi - lo) // n) | 1
                            cmds.append('r %d %d %x %x %x' % (mi, CRS.index(j.crs), lo + (rnd.randrange(step) if step > 1 else 0), hi, step))
            if not cmds:
                continue
            try:
                r = subprocess.run([exe], input='\n'.join(cmds) + '\n', capture_output=True, text=True,
                                   timeout=max(5, min(60, 150 - (time.time() - t0))))
                out = r.stdout
            except subprocess.TimeoutExpired as e:
                out = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
            for l in out.split('\n'):
                w = l.split()
                if len(w) == 9 and w[0] == 'FAIL':
                    d = {'rm': w[1], 'cr': w[2], 'rs': w[3], 'bits': int(w[4], 16), 'what': w[5].split(','), 's': int(w[6]),
                         'e': int(w[7]), 'neg': int(w[8]), 'fmt': fc[0], 'config': fc[1]}
                    if accept(d):
                        found.append('%s (%s build): input bits 0x%s, mode %s, policy %s, %s: %s; returned %d * 10^%d' %
                                     (fc[0], fc[1], w[4], w[1], w[2], 'signed' if w[3] == '1' else 'unsigned', w[5], d['s'], d['e']))
        if found:
            return found[:20]
        if time.time() - t0 > 140:
            break
    return found


def replay_forms(ck, whats):
    """compare the equivalent forms of the real code's results with each other"""
    rnd = random.Random(ck.seed * 7919 + 13)
    found, hashes = [], {}
    for fname in ('float', 'double'):
        fmt = Fmt(fname)
        cmds = []
        seen = set()
        for f in ck.fails:
            for j, (E, F, s) in f.cands:
                if j.fmt != fname or (E, F) in seen or len(seen) > 300:
                    continue
                seen.add((E, F))
                Fs = [F + d for d in range(-2, 3) if 0 <= F + d < 1 << fmt.P] if F is not None else []
                for x in Fs + [rnd.getrandbits(fmt.P) for _ in range(40)] + [1 << fmt.P >> 1, 1, 2, 3, (1 << fmt.P) - 1]:
                    cmds.append('F 0 0 %x' % bits_of(fmt, E, x, rnd.getrandbits(1)))
        for b in decimals(fmt, rnd, 1500):
            cmds.append('F 0 0 %x' % (b | rnd.getrandbits(1) << (fmt.N - 1)))
        cmds += ['F 0 0 %x' % bits_of(fmt, E, 0, 0) for E in range(1, fmt.emax_field + 1)]
        cmds.append('G 0 0 %x 20000' % ck.seed)
        for cfg in ('x64', 'i686') if 'build' in whats else ('x64',):
            exe = native_build('conv_main.cpp', cfg, ['-DFLT'] if fname == 'float' else [], [], '-O1')
            if exe is None:
                continue
            try:
                out = subprocess.run([exe], input='\n'.join(cmds) + '\n', capture_output=True, text=True, timeout=60).stdout
            except subprocess.TimeoutExpired as e:
                out = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
            for l in out.split('\n'):
                w = l.split()
                if len(w) == 9 and w[0] == 'FAIL' and w[5] in whats:
                    found.append('%s (%s build): input bits 0x%s, mode %s, policy %s: %s form differs; signed form returned %s * 10^%s' %
                                 (fname, cfg, w[4], w[1], w[2], w[5], w[6], w[7]))
                elif len(w) == 3 and w[0] == 'H':
                    o = hashes.setdefault((fname, w[1]), (cfg, w[2]))
                    if o[1] != w[2]:
                        found.append('%s: input bits 0x%s: the %s and %s builds return different results' % (fname, w[1], o[0], cfg))
    return found[:20]


def by_what(*names):
    return lambda d: any(n in d['what'] for n in names)


# ---------------------------------------------------------------- wrappers
def wrappers(ck, keys):
    """contracts of the public entry points; -> set of (mod key, mode) that
    could not be handled modularly"""
    bad = load_mods(keys)
    inline = set()
    for k in keys:
        if k in bad:
            ck.fact('%s: compiles' % (k,), False, detail=bad[k])
            continue
        for mode in MODES:
            try:
                ok, ex = wrap.check_mode(MODS[k], Fmt(k[0]), k[1], k[2], mode)
            except Exception as e:
                ok, ex = False, None
                ck.notes.append('entry %s %s: %s' % (k, mode, repr(e)[:200]))
            if ok:
                ck.add_exec(ex, 'grisu_exact<%s>(%s, %s, %s)' % (str(k[1]).lower(), k[0], mode, k[2]), k[3])
            else:
                inline.add((k, mode))
    return inline


def entry_units(k, mode, posts):
    out = []
    for sign in (0, 1) if wrap.signed_kind(mode) else (None,):
        for reg in KIND_ORDER:
            out.append(J(k[0], None, k[2], posts, reg, rs=k[1], config=k[3], entry=mode, sign=sign))
    return out


ASSUME = ['x87 excess precision and non-default floating point environments are outside the model (the code uses integers only)',
          'decimal value of a result is significand*10^exponent in exact arithmetic; meta-lemmas (DESIGN.md) that turn the '
          'verified conditions into the property are argued on paper',
          'MSVC-only branches are not compiled here']


def conv_check(pid, title, plan, accept, sanit=(), replayer=None):
    """plan(tier) -> [(fmt, prov, crs, posts, rs, config)]"""
    ck = Check(pid, title)
    ck.assumptions += ASSUME
    tuples = plan(ck.tier)
    keys = sorted({(t[0], t[4], t[2], t[5]) for t in tuples})

    def go():
        inline = wrappers(ck, keys)
        jobs = []
        modes_bad = {}
        for k, mode in inline:
            modes_bad.setdefault(k, []).append(mode)
        for fmt, prov, crs, posts, rs, config in tuples:
            k = (fmt, rs, crs, config)
            if k not in MODS:
                continue
            fc = {v: f for f, v in conv.find_compute(MODS[k]).items()}
            if (prov, crs) not in fc:
                if k not in modes_bad:
                    continue            # not instantiated: no entry needs it
                continue
            jobs += units(fmt, prov, crs, posts, rs=rs, config=config)
        seen = set()
        for fmt, prov, crs, posts, rs, config in tuples:
            k = (fmt, rs, crs, config)
            for mode in modes_bad.get(k, []):
                if wrap.reaches(mode, prov) and (k, mode) not in seen:
                    seen.add((k, mode))
                    jobs += entry_units(k, mode, posts)
        if not jobs:
            ck.fact('no unit to verify', False)
        run_units(ck, jobs)
    ck.guard(pid, go)
    ck.replayers.append(replayer or (lambda c: replay(c, accept, sanit)))
    ck.extra['tier_scope'] = 'thorough: every provider x policy x format; quick: the selection listed in functions_under_contract'
    return ck.finish()


def T(fmts, provs, crss, posts, rs=True, config='x64'):
    return [(f, p, c, posts, rs, config) for f in fmts for c in crss for p in provs]


def full(posts, crss=CRS):
    return T(['float', 'double'], PROVIDERS, crss, posts)


def quick_mix(posts):
    """every provider and every policy at least once per format"""
    r = T(['float'], PROVIDERS, ['do_not_care', 'tie_to_even'], posts)
    r += T(['float'], ['nearest_to_even'], CRS[2:], posts)
    r += T(['double'], ['nearest_to_even', LC, RC, 'detail::nearest_always_open'], ['do_not_care'], posts)
    r += T(['double'], ['nearest_to_even', RC], ['tie_to_even'], posts)
    r += T(['double'], ['nearest_toward_zero'], ['tie_to_down'], posts)
    r += T(['double'], ['detail::nearest_always_closed'], ['tie_to_up'], posts)
    r += T(['double'], ['detail::nearest_always_open'], ['tie_to_odd'], posts)
    return r


def quick_ties(posts):
    r = T(['float'], PROVIDERS, ['tie_to_even'], posts)
    r += T(['float'], ['nearest_to_even', 'nearest_away_from_zero'], CRS[2:], posts)
    r += T(['double'], ['nearest_to_even'], TIES, posts)
    r += T(['double'], ['nearest_toward_zero', 'detail::nearest_always_closed', RC], ['tie_to_even'], posts)
    r += T(['double'], ['detail::nearest_always_open'], ['tie_to_odd'], posts)
    return r


def near_only(r):
    return [t for t in r if t[1] not in (LC, RC)]


def c01():
    return conv_check('C01', 'rounding interval', lambda t: quick_mix({'interval'}) if t == 'quick' else full({'interval'}),
                      by_what('interval', 'zero'))


def c02():
    return conv_check('C02', 'shortest', lambda t: quick_mix({'shortest'}) if t == 'quick' else full({'shortest'}),
                      by_what('shortest'))


def c03():
    return conv_check('C03', 'closest', lambda t: quick_ties({'closest'}) if t == 'quick' else full({'closest'}, TIES),
                      by_what('closest'))


def c04():
    return conv_check('C04', 'ties', lambda t: near_only(list(dict.fromkeys((a, b, c, frozenset(d), e, f) for a, b, c, d, e, f in quick_ties({'tie'}) + T(['float'], NEAR, TIES, {'tie'}))) if t == 'quick' else full({'tie'}, TIES)),
                      by_what('tie'))


DET = {'interval', 'shortest', 'closest', 'tie', 'largest'}


def c05():
    def plan(t):
        if t != 'quick':
            r = full(DET)
            for rs, cfg in ((False, 'x64'), (True, 'i686'), (False, 'i686'), (True, 'x64g')):
                r += T(['float', 'double'], PROVIDERS, CRS, DET, rs, cfg)
            return r
        r = T(['float'], PROVIDERS, ['do_not_care', 'tie_to_even'], DET, False, 'i686')
        r = [x for x in r if not (x[1] == LC and x[2] != 'do_not_care')]
        r += T(['float'], ['nearest_to_even', 'detail::nearest_always_closed', RC], ['do_not_care', 'tie_to_even'], DET, True, 'i686')
        r += T(['float'], ['nearest_to_even', 'detail::nearest_always_open', LC], ['do_not_care'], DET, False, 'x64')
        r += T(['double'], ['nearest_to_even', 'nearest_toward_zero'], ['do_not_care'], DET, True, 'i686')
        r += T(['double'], ['detail::nearest_always_closed', 'detail::nearest_always_open'], ['tie_to_even'], DET, False, 'x64')
        return r
    return conv_check('C05', 'equivalent forms', plan, None,
                      replayer=lambda c: replay_forms(c, ('static', 'signed', 'build')))


def c06():
    def plan(t):
        S = {'sign', 'nosign'}
        if t != 'quick':
            r = full(S) + T(['float', 'double'], PROVIDERS, CRS, S, True, 'i686')
        else:
            r = T(['float'], PROVIDERS, ['do_not_care', 'tie_to_even'], S)
            r += T(['float'], NEAR[4:], CRS[2:], S)
            r += T(['double'], NEAR[:2] + NEAR[4:] + [LC, RC], ['do_not_care'], S)
            r += T(['double'], NEAR[4:6], ['tie_to_even'], S)
            r += T(['float', 'double'], ['nearest_to_even'], ['do_not_care'], S, True, 'i686')
        out = []
        for x in r:
            if x[1] in ('nearest_toward_plus_infinity', 'nearest_toward_minus_infinity'):
                # the interval depends on the sign: full determination
                x = x[:3] + (DET | {'sign'},) + x[4:]
            out.append(x)
        return out
    return conv_check('C06', 'sign', plan, None, replayer=lambda c: replay_forms(c, ('sign', 'negate')))


def more(posts):
    r = quick_mix(posts)
    r += T(['float'], [p for p in PROVIDERS if p != LC], CRS[2:], posts)
    r += T(['double'], PROVIDERS, ['do_not_care'], posts)
    r += T(['double'], ['detail::nearest_always_closed'], CRS[1:], posts)
    return list(dict.fromkeys((a, b, c, frozenset(d), e, f) for a, b, c, d, e, f in r))


def c07():
    P = {'range'}

    def acc(d):
        if 'crash' in d['what'] or 'hang' in d['what']:
            return False
        n = len(str(d['s']))
        lo, hi, md = (-45, 38, 9) if d['fmt'] == 'float' else (-324, 308, 17)
        return d['s'] < 1 or n > md or d['s'] % 10 == 0 or not lo <= d['e'] + n - 1 <= hi
    return conv_check('C07', 'ranges', lambda t: more(P) if t == 'quick' else full(P), acc)


def c08():
    P = {'safe'}
    return conv_check('C08', 'safety', lambda t: more(P) + T(['float'], PROVIDERS, ['do_not_care', 'tie_to_even'], P, False, 'i686') +
                      T(['double'], ['nearest_to_even'], ['do_not_care'], P, True, 'i686') if t == 'quick' else
                      full(P) + T(['float', 'double'], PROVIDERS, CRS, P, False, 'i686') + T(['float', 'double'], PROVIDERS, CRS, P, True, 'x64g'),
                      by_what('crash', 'hang'), ('-fsanitize=undefined', '-fsanitize-undefined-trap-on-error'))


PROPS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08}
