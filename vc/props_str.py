"""C09 - C12: contracts of the text writers."""
import subprocess, struct, random, concurrent.futures as cf, threading
import multiprocessing as mp
from core import *
import conv, wrap, contracts
from conv import MODES, CRS, SPEC, Fmt, close_cond
import props_conv as pc

BUF = 31                                  # the documented buffer size
SCI = {'float': (-45, 38), 'double': (-324, 308)}
MAXW = {'float': 14, 'double': 23}        # longest text without the sign
CRE = conv.re.compile(r'grisu_exact_impl<(float|double)>::compute<(true|false), jkj::grisu_exact_rounding_modes::([a-z_:]+), '
                      r'jkj::grisu_exact_correct_rounding::([a-z_]+)>\(')
WRE = conv.re.compile(r'fp_to_chars_detail::(float|double)_to_chars\(')


# ---------------------------------------------------------------- the digit writer
class Writer:
    """float_to_chars / double_to_chars for an n-digit significand; the cases
    are all scientific exponents of the contract's precondition"""

    def __init__(self, mod, fmtname, n):
        self.mod, self.fmt, self.n = mod, Fmt(fmtname), n

    def verify(self):
        fmt, n = self.fmt, self.n
        A = Atoms()
        lo, hi = SCI[fmt.name]
        X = list(range(lo, hi + 1))
        S = self.S = patom(A.var('S', 10 ** (n - 1), 10 ** n - 1))
        ex = self.ex = Exec(self.mod, A, len(X))
        ex.demangle = self.mod.demangle
        st = ex.init_state()
        buf = ex.new_obj(st, BUF, 'buffer')
        src = ex.new_obj(st, 16, 'v')
        ex.store(st, Ptr(src, {}), fmt.N // 8, IntV(S, fmt.N))
        e = pconst(vecmap(lambda x: x - n + 1, range(len(X)), mkvec(X)))
        ex.store(st, Ptr(src, pconst(fmt.N // 8)), 4, IntV(e, 32))
        fn = self.mod.funcs['@w_' + fmt.name].parse()
        args, off = [], 0
        for ty, nm, at in fn.params[:-1]:
            if ty[0] == 'ptr':
                args.append(Ptr(src, {}))
                continue
            sz = self.mod.size(ty)
            off = -(-off // min(sz, 8)) * min(sz, 8)
            args.append(ex.load_typed(st, ty, Ptr(src, pconst(off))))
            off += sz
        args.append(Ptr(buf, {}))
        ex.call_entry(st, '@w_' + fmt.name, args)
        self.cover = np.zeros(len(X), dtype=int)
        for r in ex.run(st):
            groups = {}
            for i in r.mask:
                groups.setdefault((X[i] < 0, len(str(abs(X[i])))), []).append(i)
            for (neg, k), idx in groups.items():
                s = r if len(groups) == 1 else ex.with_mask(r, np.array(idx, dtype=int))
                self.cover[s.mask] += 1
                self.post(s, buf, X, neg, k, r.ret)
            if len(ex.failed) > 6:
                break
        return not ex.failed and self.cover.min() > 0

    def post(self, st, buf, X, neg, k, ret):
        ex, n, S = self.ex, self.n, self.S
        want = []
        dig = lambda i: psub(ex.mkdiv(st, S, 10 ** i), pscale(ex.mkdiv(st, S, 10 ** (i + 1)), 10))
        for i in range(n - 1, -1, -1):
            want.append((padd(dig(i), pconst(48)), 'digit %d of the significand' % (n - i)))
            if i == n - 1 and n > 1:
                want.append((pconst(ord('.')), 'decimal point'))
        want.append((pconst(ord('E')), 'E'))
        if neg:
            want.append((pconst(ord('-')), 'sign of the exponent'))
        for j in range(k):
            v = vecmap(lambda x: ord(str(abs(x))[j]) if len(str(abs(x))) == k else 0, st.mask, mkvec(X))
            want.append((pconst(v), 'digit %d of the exponent' % (j + 1)))
        L = len(want)
        cells = st.mem[buf]
        self.frame(ex, st, cells, 0, L)
        ok = isinstance(ret, Ptr) and ret.obj == buf
        ex.obl(st, 'post', ('eq', psub(ret.off, pconst(L))) if ok else FALSE, 'returned pointer is the end of the text')
        for j, (w, note) in enumerate(want):
            v = ex.load_cells(st, cells, j, 1)
            if isinstance(v, UndefV):
                ex.obl(st, 'post', FALSE, note + ': byte not written')
                continue
            ex.obl(st, 'post', ('eq', psub(ex.canon_u(st, v), w)), note)

    @staticmethod
    def frame(ex, st, cells, lo, hi, also=()):
        out = [o for o, (s, v) in cells.items() for o in range(o, o + s) if not (lo <= o < hi) and o not in also]
        ex.obl(st, 'frame', FALSE if out else TRUE, 'no byte written outside the text' + (' (offset %s)' % out[:4] if out else ''))


# ---------------------------------------------------------------- entries
class Conv:
    def __init__(self, u, fname, fmt, rs, prov, crs):
        self.u, self.fname, self.rs, self.prov, self.crs, self.fmt = u, fname, rs, prov, crs, fmt

    def __call__(self, ex, st, avals, args, rty):
        u = self.u
        ex.obl(st, 'requires', TRUE if u.kind in ('normal', 'sub') else FALSE, 'converted value is finite and nonzero')
        st.ghost['crs'] = self.crs if self.fmt == u.fmt.name else '?'
        u.rs = self.rs
        return wrap.ComputeContract.__call__(self, ex, st, avals, args, rty)


class WriterContract:
    def __init__(self, u, fname, fmt):
        self.u, self.fname, self.fmt = u, fname, fmt

    def __call__(self, ex, st, avals, args, rty):
        u, N = self.u, self.u.fmt.N
        fn_args = [(a[0], v) for a, v in zip(args, avals)]
        buf = fn_args[-1][1]
        a0 = fn_args[:-1]
        if len(a0) == 1 and isinstance(a0[0][1], Ptr):
            src = a0[0][1]
        else:
            o, off = ex.new_obj(st, 16, 'v'), 0
            for ty, v in a0:
                sz = ex.mod.size(ty)
                off = -(-off // min(sz, 8)) * min(sz, 8)
                ex.store_typed(st, ty, Ptr(o, pconst(off)), v)
                off += sz
            src = Ptr(o, {})
        S = ex.canon_u(st, ex.load(st, src, N // 8))
        e = ex.canon_s(st, ex.load(st, Ptr(src.obj, padd(src.off, pconst(N // 8))), 4))
        ob = lambda c, n: ex.obl(st, 'requires', c, n)
        ob(TRUE if self.fmt == u.fmt.name else FALSE, 'writer of the right format')
        ob(('eq', psub(S, u.S)), 'significand handed on')
        ob(('eq', psub(e, u.e)), 'exponent handed on')
        ok = isinstance(buf, Ptr) and buf.obj == u.buf
        ob(TRUE if ok else FALSE, 'writes to the buffer')
        if not ok:
            raise PathAbort()
        st.ghost['text'] = st.ghost.get('text', ()) + ((tuple(sorted(buf.off.items())),),)
        st.ghost['textoff'] = buf.off
        return Ptr(buf.obj, padd(buf.off, u.L))


class Entry:
    """n_<mode> / z_<mode> on one class of inputs"""
    KINDS = ['normal', 'sub', 'zero', 'inf', 'nan']

    def __init__(self, mod, fmtname, crs, mode, nul, kind):
        self.mod, self.fmt, self.crs, self.mode, self.nul, self.kind = mod, Fmt(fmtname), crs, mode, nul, kind
        self.rs = False

    def verify(self):
        fmt, A = self.fmt, Atoms()
        P, top, m = fmt.P, (1 << fmt.P) - 1, fmt.emax_field
        E, F = {'normal': ((1, m), (0, top)), 'sub': ((0, 0), (1, top)), 'zero': ((0, 0), (0, 0)),
                'inf': ((m + 1, m + 1), (0, 0)), 'nan': ((m + 1, m + 1), (1, top))}[self.kind]
        mk = lambda n, r: pconst(r[0]) if r[0] == r[1] else patom(A.var(n, *r))
        sa = A.var('s', 0, 1)
        E, F, s = mk('E', E), mk('F', F), patom(sa)
        self.bits = padd(padd(F, pscale(E, 1 << P)), pscale(s, 1 << (fmt.N - 1)))
        self.S = patom(A.var('S', 1, 10 ** fmt.maxdig - 1))
        self.e = psub(patom(A.var('e', 0, 2000)), pconst(1000))
        self.neg = patom(A.var('neg', 0, 1))
        self.L = patom(A.var('L', 3, MAXW[fmt.name]))
        con = {}
        for f, d in self.mod.demangle.items():
            x = CRE.search(d)
            if x:
                con[f] = Conv(self, f, x.group(1), x.group(2) == 'true', x.group(3), x.group(4))
            x = WRE.search(d)
            if x:
                con[f] = WriterContract(self, f, x.group(1))
        # declared but not defined here
        for f, d in build.declared(self.mod).items():
            x = WRE.search(d)
            if x:
                con[f] = WriterContract(self, f, x.group(1))
        ex = self.ex = Exec(self.mod, A, 1, contracts=con)
        ex.demangle = self.mod.demangle
        st = ex.init_state()
        self.buf = ex.new_obj(st, BUF, 'buffer')
        fname = '@%s_%s' % ('z' if self.nul else 'n', self.mode)
        fn = self.mod.funcs[fname].parse()
        args = []
        for ty, nm, at in fn.params[:-1]:
            if ty[0] in ('i', 'f') and ty[1] == fmt.N:
                args.append(IntV(self.bits, fmt.N))
            else:
                raise Unsupported('parameter list of ' + fname)
        args.append(Ptr(self.buf, {}))
        ex.call_entry(st, fname, args)
        n = 0
        isneg = ('eq', psub(s, pconst(1)))
        for r in ex.run(st):
            n += 1
            for neg in (0, 1):
                t = ex.with_cond(r, ('eq', psub(s, pconst(neg))))
                if ex.feasible(t):
                    self.post(t, r.ret, neg, sa, F)
        return n > 0 and not ex.failed

    def post(self, st, ret, neg, sa, F):
        ex = self.ex
        ob = lambda c, note: ex.obl(st, 'post', c, note)
        cells = st.mem[self.buf]
        if not (isinstance(ret, Ptr) and ret.obj == self.buf):
            ob(FALSE, 'returns a pointer into the buffer')
            return
        if self.kind in ('normal', 'sub'):
            head = '-' if neg else ''
            provs = st.ghost.get('prov', ())
            texts = st.ghost.get('text', ())
            ob(TRUE if len(provs) == 1 else FALSE, 'exactly one conversion')
            ob(TRUE if len(texts) == 1 else FALSE, 'exactly one text written')
            if len(provs) != 1 or len(texts) != 1:
                return
            crs = 'tie_to_even' if self.mode == 'default' else self.crs
            mode = 'nearest_to_even' if self.mode == 'default' else self.mode
            ob(TRUE if st.ghost['crs'] == crs else FALSE, 'conversion uses the policy given')
            ms, sp = wrap.mode_spec(mode, neg), SPEC[provs[0]]
            ob(TRUE if ms[0] == sp[0] else FALSE, 'conversion uses the mode given (kind of interval)')
            iff = lambda a, b: cor(cand(a, b), cand(cnot(a), cnot(b)))
            for a, b in zip(ms[1:], sp[1:]):
                ob(iff(close_cond(a, sa, F), close_cond(b, sa, F)), 'conversion uses the mode given (closedness)')
            ob(('eq', psub(st.ghost['textoff'], pconst(neg))), 'text starts right after the sign')
            end = padd(pconst(neg), self.L)
        else:
            text = {'zero': ('0E0', '-0E0'), 'inf': ('Infinity', '-Infinity'), 'nan': ('NaN', 'NaN')}[self.kind][neg]
            head = text
            end = pconst(len(text))
        ob(('eq', psub(ret.off, end)), 'returned pointer is the end of the text')
        for j, ch in enumerate(head):
            v = ex.load_cells(st, cells, j, 1)
            if isinstance(v, UndefV):
                ob(FALSE, 'byte %d not written' % j)
            else:
                ob(('eq', psub(ex.canon_u(st, v), pconst(ord(ch)))), 'byte %d is %r' % (j, ch))
        also = []
        for o, (sz, v) in sorted(cells.items()):
            if o < len(head):
                continue
            if self.nul and sz == 1:
                # the one byte behind the text, and it is NUL
                ob(('eq', psub(pconst(o), end)), 'byte written behind the text is at the returned pointer')
                ob(('eq', ex.canon_u(st, v)), 'and is NUL')
                also.append(o)
        if self.nul:
            ob(TRUE if len(also) == 1 else FALSE, 'exactly one NUL behind the text')
        Writer.frame(ex, st, cells, 0, len(head), also)


# ---------------------------------------------------------------- running
MODS = {}
_lock = threading.Lock()


def writer_mod(config):
    return build.compile_ir('text.cpp', config, ('-DWRITER',))


def entry_mod(fmt, crs, config):
    return build.compile_ir('text.cpp', config, (('-DFLT',) if fmt == 'float' else ()) + ('-DCR=' + crs,))


def load_all(keys):
    bad = {}

    def one(k):
        try:
            m = writer_mod(k[1]) if k[0] == 'w' else entry_mod(*k[1:])
            with _lock:
                MODS[k] = m
        except build.CompileError as e:
            bad[k] = str(e)
    with cf.ThreadPoolExecutor(8) as p:
        list(p.map(one, [k for k in keys if k not in MODS]))
    return bad


def job(a):
    sys.setrecursionlimit(20000)
    solver.STATS.update({'checks': 0, 'time': 0, 'unknown': 0})
    t = time.time()
    key, what = a
    r = {'by': {}, 'failed': [], 'error': None, 'paths': 0, 'inlined': []}
    exs = []
    try:
        if key[0] == 'w':
            w = Writer(MODS[key], what[0], what[1])
            ok = w.verify()
            r['name'] = '%s_to_chars, %d digits [%s]' % (what[0], what[1], key[1])
            r['fn'] = '%s_to_chars' % what[0]
            exs.append(w.ex)
            if not ok and not w.ex.failed:
                r['error'] = 'vacuous: some exponent has no path'
        else:
            mode, kinds, nuls = what
            r['fn'] = 'fp_to_chars%s(%s, %s, %s)' % ('' if nuls == (1,) else '_n', key[1], mode, key[2])
            r['name'] = r['fn'] + ' [%s]' % key[3]
            for nul in nuls:
                for kind in kinds:
                    e = Entry(MODS[key], key[1], key[2], mode, nul, kind)
                    try:
                        ok = e.verify()
                    finally:
                        if getattr(e, 'ex', None) is not None:
                            exs.append(e.ex)
                    if not ok and not e.ex.failed:
                        r['error'] = 'vacuous: no path'
    except (Unsupported, Undecided) as e:
        r['error'] = 'outside the verifier\'s reach: ' + repr(e)[:800]
    except Exception:
        r['error'] = 'verifier error: ' + traceback.format_exc()[-1500:]
    r.setdefault('name', str(a))
    r.setdefault('fn', str(a))
    for ex in exs:
        for h, k in ex.oblcount.items():
            r['by'][h] = r['by'].get(h, 0) + k
        for o in ex.failed:
            r['by'][o.how] = r['by'].get(o.how, 1) - 1
            r['failed'].append((o.name, str(o.info)[:800]))
        r['paths'] += ex.paths
        r['inlined'] += [ex.dname(x) for x in ex.inlined]
    r['time'] = time.time() - t
    r['stats'] = dict(solver.STATS)
    return r


def run(ck, jobs):
    bad = load_all(sorted({k for k, w in jobs}))
    for k, e in bad.items():
        ck.fact('%s: compiles' % (k,), False, detail=e)
    jobs = [j for j in jobs if j[0] not in bad]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 4)) as p:
        res = p.map(job, jobs, chunksize=4)
    agg = {}
    inl = set()
    for r in res:
        for h, k in r['by'].items():
            ck.by[h] = ck.by.get(h, 0) + k
        n = sum(r['by'].values()) + len(r['failed'])
        ck.total += n
        ck.ok += n - len(r['failed'])
        ck.solver_time += r['stats'].get('time', 0)
        ck.solver_checks += r['stats'].get('checks', 0)
        inl |= set(r['inlined'])
        a = agg.setdefault(r['fn'], {'function': r['fn'], 'obligations': 0, 'failed': 0, 'paths': 0})
        a['obligations'] += n
        a['failed'] += len(r['failed'])
        a['paths'] += r['paths']
        for nm, info in r['failed'][:8]:
            ck.fails.append(Failure('[%s] %s' % (r['name'], nm), info))
        if r['error'] or n == 0:
            ck.total += 1
            ck.fails.append(Failure('[%s] %s' % (r['name'], (r['error'] or 'no obligation').split('\n')[0][:200]), r['error'] or ''))
    ck.funcs += list(agg.values())
    ck.extra['inlined_into_their_callers'] = sorted(set(ck.extra.get('inlined_into_their_callers', [])) | {x for x in inl})[:80]


def writer_jobs(configs):
    return [(('w', c), (f, n)) for c in configs for f in ('float', 'double') for n in range(1, Fmt(f).maxdig + 1)]


def entry_jobs(kinds, nuls, configs, crss=CRS, modes=None):
    return [(('e', f, c, g), (m, kinds, nuls)) for g in configs for f in ('float', 'double') for c in crss
            for m in (modes or MODES + (['default'] if c == crss[0] else []))]


FINITE = ('normal', 'sub')
SPECIAL = ('zero', 'inf', 'nan')


def replay(whats):
    def f(ck):
        rnd = random.Random(ck.seed * 104729 + 5)
        found = []
        for fname in ('float', 'double'):
            fmt = Fmt(fname)
            bits = pc.decimals(fmt, rnd, 6000)
            if fname == 'double':
                for n in range(1, 18):
                    for _ in range(60):
                        v = rnd.randrange(10 ** (n - 1), 10 ** n)
                        bits.append(struct.unpack('<Q', struct.pack('<d', float('%de%d' % (v, rnd.randrange(-320, 290)))))[0])
            bits += [b for e in range(fmt.emax_field + 1) for b in (e << fmt.P, e << fmt.P | 1)]
            bits += [rnd.getrandbits(fmt.N) for _ in range(4000)]
            inf = (fmt.emax_field + 1) << fmt.P
            bits += [0, inf] + [inf | (1 << k) for k in range(fmt.P)] + [inf | rnd.getrandbits(fmt.P) for _ in range(50)] + list(range(1, 200))
            bits = [b & ((1 << (fmt.N - 1)) - 1) for b in bits]
            bits += [b | 1 << (fmt.N - 1) for b in bits]
            for cfg in ('x64', 'i686'):
                exe = native_build('text_main.cpp', cfg, ['-DFLT'] if fname == 'float' else [],
                                   [os.path.join(build.REPO, 'fp_to_chars/fp_to_chars.cpp')], '-O1')
                if exe is None:
                    continue
                try:
                    out = subprocess.run([exe], input=''.join('%x\n' % b for b in bits), capture_output=True, text=True, timeout=100).stdout
                except subprocess.TimeoutExpired as e:
                    out = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
                for l in out.split('\n'):
                    w = l.split(None, 5)
                    if len(w) >= 5 and w[0] == 'FAIL' and w[4] in whats:
                        found.append('%s (%s build): input bits 0x%s, mode %s, policy %s: %s; text %s' %
                                     (fname, cfg, w[1], w[2], w[3], w[4], w[5] if len(w) > 5 else ''))
        return found[:20]
    return f


def text_check(pid, title, plan, whats, pre=None):
    ck = Check(pid, title)
    ck.assumptions += ['conversion results are within the ranges of C07 (its postcondition is the precondition of the digit writers)',
                       'memcpy and string literals have their C++ meaning', 'MSVC-only branches are not compiled here']
    ck.guard(pid, lambda: run(ck, plan(ck.tier)))
    if pre:
        ck.guard(pid, lambda: pre(ck))
    ck.replayers.append(replay(whats))
    return ck.finish()


def cfgs(t):
    return ['x64', 'x64g', 'i686'] + (['i686g'] if t != 'quick' else [])


def c09():
    return text_check('C09', 'text denotes the converted decimal',
                      lambda t: writer_jobs(cfgs(t)) + entry_jobs(FINITE, (0, 1), ['x64'] + (['i686'] if t != 'quick' else [])), ('text',))


def c10():
    return text_check('C10', 'fixed texts', lambda t: entry_jobs(SPECIAL, (0, 1), ['x64', 'i686']), ('special',))


def c11():
    return text_check('C11', 'frame of the text writers',
                      lambda t: writer_jobs(cfgs(t)) + entry_jobs(FINITE + SPECIAL, (0, 1), ['x64'] + (['i686'] if t != 'quick' else [])),
                      ('frame',))


def c12():
    def pre(ck):
        posts = {'interval', 'shortest', 'closest', 'tie', 'range'}
        keys = [(f, False, 'tie_to_even', 'x64') for f in ('float', 'double')]
        jobs = []
        for k in keys:
            jobs += pc.units(k[0], 'nearest_to_even', k[2], posts, rs=k[1], config=k[3])
        pc.run_units(ck, jobs)
    return text_check('C12', 'default printing', lambda t: writer_jobs(['x64', 'x64g']) + entry_jobs(FINITE, (0, 1), ['x64', 'i686'], ['tie_to_even'], ['default']),
                      ('default', 'text'), pre)


PROPS = {'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12}
