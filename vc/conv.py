"""Contracts of the conversion: units, regimes, postconditions."""
import re, time
import numpy as np, z3
from fractions import Fraction as Fr
import math
import build
from execu import *
from llparse import Unsupported
import ghost as gh
from ghost import Ghost, Fmt, q, pow10, pow2

MODES = ['nearest_to_even', 'nearest_to_odd', 'nearest_toward_plus_infinity', 'nearest_toward_minus_infinity',
         'nearest_toward_zero', 'nearest_away_from_zero', 'nearest_to_even_static_boundary',
         'nearest_to_odd_static_boundary', 'nearest_toward_plus_infinity_static_boundary',
         'nearest_toward_minus_infinity_static_boundary', 'toward_plus_infinity', 'toward_minus_infinity',
         'toward_zero', 'away_from_zero']
CRS = ['do_not_care', 'tie_to_even', 'tie_to_odd', 'tie_to_up', 'tie_to_down']
PROVIDERS = ['nearest_to_even', 'nearest_to_odd', 'nearest_toward_plus_infinity', 'nearest_toward_minus_infinity',
             'nearest_toward_zero', 'nearest_away_from_zero', 'detail::nearest_always_closed',
             'detail::nearest_always_open', 'detail::left_closed_directed', 'detail::right_closed_directed']

# kind of interval: ('near', left closed?, right closed?) / 'left' / 'right';
# closedness: True/False or a symbolic key 'even','odd','neg','pos'
SPEC = {
    'nearest_to_even': ('near', 'even', 'even'),
    'nearest_to_odd': ('near', 'odd', 'odd'),
    'nearest_toward_plus_infinity': ('near', 'pos', 'neg'),
    'nearest_toward_minus_infinity': ('near', 'neg', 'pos'),
    'nearest_toward_zero': ('near', False, True),
    'nearest_away_from_zero': ('near', True, False),
    'detail::nearest_always_closed': ('near', True, True),
    'detail::nearest_always_open': ('near', False, False),
    'detail::left_closed_directed': ('left', True, False),
    'detail::right_closed_directed': ('right', False, True),
}

CRE = re.compile(r'grisu_exact_impl<(float|double)>::compute<(true|false), jkj::grisu_exact_rounding_modes::([a-z_:]+), '
                 r'jkj::grisu_exact_correct_rounding::([a-z_]+)>\(')


def load(fmt, rs, crs, config='x64'):
    return build.compile_ir('conv.cpp', config, (('-DFLT',) if fmt == 'float' else ()) +
                            ('-DRS=' + ('true' if rs else 'false'), '-DCR=' + crs))


def find_compute(mod):
    """mangled -> (provider, crs)"""
    out = {}
    for f, d in mod.demangle.items():
        m = CRE.search(d)
        if m:
            out[f] = (m.group(3), m.group(4))
    return out


class Regime:
    """cases: exponent fields Es; fraction F in [flo,fhi], or (Fs) one per case"""

    def __init__(self, name, fmt, Es, flo, fhi, Fs=None):
        self.name, self.fmt, self.Es, self.flo, self.fhi = name, fmt, Es, flo, fhi
        self.Fs = Fs

    def ground(self):
        return self.Fs is not None


def regimes(fmt):
    n = fmt.emax_field
    top = (1 << fmt.P) - 1
    return [Regime('normal', fmt, list(range(1, n + 1)), 1, top),
            Regime('pow2', fmt, list(range(1, n + 1)), 0, 0, [0] * n),
            Regime('tiny', fmt, [0] * SMALL, 1, SMALL, list(range(1, SMALL + 1))),
            Regime('sub', fmt, [0], SMALL + 1, top)]


SMALL = 64


# ---- calling -------------------------------------------------------------------
def start_call(ex, st, fname, bits, N):
    """enter fname(bits) following its parameter list; returns the sret object or None"""
    fn = ex.mod.funcs[fname].parse()
    args, out = [], None
    used = False
    for ty, nm, at in fn.params:
        if 'sret' in at:
            out = ex.new_obj(st, ex.mod.size(at['sret']), 'ret')
            args.append(Ptr(out, {}))
        elif ty[0] == 'ptr' and 'byval' in at and not used:
            o = ex.new_obj(st, ex.mod.size(at['byval']), 'arg')
            ex.store(st, Ptr(o, {}), N // 8, IntV(bits, N))
            args.append(Ptr(o, {}))
            used = True
        elif ty[0] in ('i', 'f') and ty[1] == N and not used:
            args.append(IntV(bits, N))
            used = True
        else:
            raise Unsupported('parameter list of ' + ex.dname(fname))
    if not used:
        raise Unsupported('parameter list of ' + ex.dname(fname))
    ex.call_entry(st, fname, args)
    return out


def forking(ex, st, f):
    """(state, f(state)) for the states st splits into while f runs"""
    work = [st]
    while work:
        s = work.pop()
        if not len(s.mask):
            continue
        try:
            v = f(s)
        except Fork as k:
            work.extend(reversed(k.states))
            continue
        except PathAbort:
            continue
        yield s, v


def accessors(ex, st, fname, out):
    """(significand, exponent, negative) polys of the object just returned on st
    (yields states: the accessors run symbolically)"""
    fn = ex.mod.funcs[fname].parse()
    s = st.copy()
    if out is None:
        out = ex.new_obj(s, max(ex.mod.size(fn.rettype), 16), 'ret')
        ex.store_typed(s, fn.rettype, Ptr(out, {}), st.ret)
    vals = []

    def conv(r, name):
        v = r.ret
        if name == '@get_exponent':
            return ex.canon_s(r, v)
        if name == '@get_negative':
            return ex.tocond(r, v)
        return ex.canon_u(r, v)

    def go(s, names, acc):
        if not names:
            yield s, acc
            return
        ex.call_entry(s, names[0], [Ptr(out, {})])
        p0 = ex.paths
        for r in ex.run(s):
            for r1, x in forking(ex, r, lambda r1: conv(r1, names[0])):
                yield from go(r1.copy(), names[1:], acc + [x])
        ex.paths = p0
    yield from go(s, ['@get_significand', '@get_exponent', '@get_negative'], vals)


# ---- postconditions --------------------------------------------------------------
def close_cond(key, sbit, Fp):
    """symbolic closedness -> cond"""
    if key is True or key is False:
        return TRUE if key else FALSE
    if key == 'even':
        return ('dvd', Fp, 2)
    if key == 'odd':
        return cnot(('dvd', Fp, 2))
    neg = ('eq', psub(patom(sbit), pconst(1)))
    return neg if key == 'neg' else cnot(neg)


class Unit:
    """one function under contract in one regime"""

    def __init__(self, fmt, rs, crs, config, fname, spec, regime, posts, sign=None, deadline=None):
        self.sign, self.deadline, self.signdep = sign, deadline, False
        self.fmt, self.rs, self.crs, self.config, self.fname = fmt, rs, crs, config, fname
        self.spec, self.regime, self.posts = spec, regime, posts

    def run(self, mod, mulc, cb=None):
        fmt, rg = self.fmt, self.regime
        A = Atoms()
        self.A = A
        self.sbit = A.var('s', *((0, 1) if self.sign is None else (self.sign,) * 2))
        E = vecmap(lambda x: x, range(len(rg.Es)), mkvec(rg.Es))
        if not rg.ground():
            F = A.var('F', rg.flo, rg.fhi)
            self.Fp = patom(F)
        else:
            F = None
            self.Fp = pconst(vecmap(lambda x: x, range(len(rg.Fs)), mkvec(rg.Fs)))
        self.g = Ghost(fmt, A, F, rg.Es, 'sub' if rg.Es[0] == 0 else 'normal', rg.flo, rg.fhi)
        ex = self.ex = Exec(mod, A, len(rg.Es), ghost=self.g, contracts=mulc, timeout=600 if self.spec[0] == 'left' else 4000)
        ex.deadline = self.deadline
        ex.demangle = mod.demangle
        st = ex.init_state()
        bits = padd(padd(self.Fp, pconst(E * (1 << fmt.P))), pscale(patom(self.sbit), 1 << (fmt.N - 1)))
        self.bits = bits
        out = start_call(ex, st, self.fname, bits, fmt.N)
        self.cover = np.zeros(len(rg.Es), dtype=int)
        for r in ex.run(st):
            for s, (S, e, neg) in accessors(ex, r, self.fname, out):
                self.cover[s.mask] += 1
                if 'nosign' in self.posts and self.mentions_sign(s, S, e):
                    self.signdep = True
                    return ex
                self.post(s, S, e, neg)
            if len(ex.failed) >= 4:
                break
        return ex

    def mentions_sign(self, st, S, e):
        """does the path or its result depend on the sign bit?"""
        A, seen = self.A, {}

        def atom(a):
            if a == self.sbit:
                return True
            if a not in seen:
                seen[a] = False
                k = A.kind[a]
                seen[a] = any(thing(x) for x in k[1:])
            return seen[a]

        def thing(x):
            if isinstance(x, dict):
                return any(atom(a) for m in x for a in m)
            if isinstance(x, (tuple, list)):
                return any(thing(y) for y in x)
            return False
        for x in [S, e] + [c for t, c in st.path if t == 'cond']:
            if thing(x):
                return True
        return False

    # -- the contract ----------------------------------------------------------------
    def post(self, st, S, e, neg):
        ex, fmt = self.ex, self.fmt
        if 'sign' in self.posts and self.rs:
            ex.obl(st, 'post', self.iff(neg, ('eq', psub(patom(self.sbit), pconst(1)))), 'sign: is_negative equals the sign bit')
        if self.posts <= {'sign', 'nosign', 'safe'}:
            if 'nosign' in self.posts:
                ex.count('non-interference')
            return
        kv = mkvec(self.g.k) if len(self.g.k) > 1 else self.g.k[0]
        kap = padd(e, pconst(kv))
        if not is_const(kap):
            raise Unsupported('exponent is not a function of the exponent field on a path')
        kap = const_of(kap)
        groups = {}
        for i in st.mask:
            groups.setdefault(kap[i] if isvec(kap) else kap, []).append(i)
        for kappa, idx in groups.items():
            s = st if len(groups) == 1 else ex.with_mask(st, np.array(idx, dtype=int))
            if self.g.F is None:
                self.ground(s, S, int(kappa))
            else:
                self.symbolic(s, S, int(kappa))

    def iff(self, a, b):
        return cor(cand(a, b), cand(cnot(a), cnot(b)))

    def ends(self, i):
        """interval ends relative to y in units of sigma: (lo, hi)"""
        kind = self.spec[0]
        edge = self.regime.name == 'pow2' and self.g.Es[i] > 1
        if kind == 'near':
            return (Fr(-1, 4) if edge else Fr(-1, 2)), Fr(1, 2)
        if kind == 'left':
            return Fr(0), Fr(1)
        return (Fr(-1, 2) if edge else Fr(-1)), Fr(0)

    def symbolic(self, st, S, kappa):
        g, ex = self.g, self.ex
        posts = self.posts
        lo, hi = self.ends(st.mask[0])
        lc, rc = (close_cond(k, self.sbit, self.Fp) for k in self.spec[1:])
        Q = lambda x: gh.q(x)

        class Ctx:
            pass

        def ctx(sol):
            c = Ctx()
            c.G = g.root()
            c.lS = sol.poly(S)
            # everything as a difference to G, so that large words cancel
            c.den = 10 ** -kappa if kappa < 0 else 1
            c.M = 10 ** kappa if kappa >= 0 else 1
            t0 = g.t0
            # y = G + phi - t0*sigma
            c.dS = c.lS.scale(c.M).add(c.G, -c.den)       # den*(S*10^kappa - G)
            c.zdS = z3.ToReal(sol.z(c.dS))
            c.phi = g.phi
            c.yo = c.phi - Q(t0) * g.s                      # y - G
            c.lc, c.rc = sol.cond(lc), sol.cond(rc)
            return c

        def inside(c, d):
            """d: den*(x - G) as a real; x in the interval?"""
            L = c.den * (c.yo + Q(lo) * g.s)
            R = c.den * (c.yo + Q(hi) * g.s)
            return z3.And(z3.Or(L < d, z3.And(c.lc, L == d)), z3.Or(d < R, z3.And(c.rc, d == R)))

        def P1L(sol):
            c = ctx(sol)
            L = c.den * (c.yo + Q(lo) * g.s)
            return z3.Or(L < c.zdS, z3.And(c.lc, L == c.zdS))

        def P1R(sol):
            c = ctx(sol)
            R = c.den * (c.yo + Q(hi) * g.s)
            return z3.Or(c.zdS < R, z3.And(c.rc, c.zdS == R))

        def P2(sol):
            c = ctx(sol)
            # T * 10^(kappa+1) in I for some integer T.  Write G = M1*H + low.
            M1 = 10 ** (kappa + 1)
            if kappa + 1 < 0:
                raise Undecided('kappa')
            Hq, low = sol.divmod(c.G, M1)
            n = int(max(g.sigma[i] for i in sol.mask) / M1) + 3
            dlt = z3.FreshInt('T')
            x = z3.ToReal(dlt * M1 - sol.z(low))
            return z3.Not(z3.And(dlt >= -n, dlt <= n, inside2(c, x)))

        def inside2(c, d):
            L = c.yo + Q(lo) * g.s
            R = c.yo + Q(hi) * g.s
            return z3.And(z3.Or(L < d, z3.And(c.lc, L == d)), z3.Or(d < R, z3.And(c.rc, d == R)))

        def nb(sol, sg):
            c = ctx(sol)
            d1 = c.zdS + sg * c.M
            # den*(2y - S*10^k - T*10^k) relative to G
            mid = 2 * c.den * c.yo - c.zdS - d1
            return c, inside(c, d1), mid

        def P3(sg):
            def f(sol):
                c, ins, mid = nb(sol, sg)
                return z3.Not(z3.And(ins, mid > 0 if sg > 0 else mid < 0))
            return f

        def P4(sg):
            def f(sol):
                c, ins, mid = nb(sol, sg)
                if self.crs == 'tie_to_up':
                    pol = sg < 0
                elif self.crs == 'tie_to_down':
                    pol = sg > 0
                else:
                    r = sol.z(sol.divmod(c.lS, 2)[1])
                    pol = r == (0 if self.crs == 'tie_to_even' else 1)
                if pol is True:
                    return z3.BoolVal(True)
                if pol is False:
                    pol = z3.BoolVal(False)
                return z3.Or(z3.Not(z3.And(ins, mid == 0)), pol)
            return f

        def S1(strict):
            """S = 1: 9*10^(kappa-1) would have as many digits"""
            def f(sol):
                c = ctx(sol)
                d9 = (10 * c.zdS - c.M) / 10
                mid = 2 * c.den * c.yo - c.zdS - d9
                bad = mid < 0 if strict else mid == 0
                return z3.Not(z3.And(sol.z(c.lS) == 1, inside(c, d9), bad))
            return f

        def ob(name, f):
            ex.obl(st, 'post', ('z', f), name)
        def interval():
            ob('interval: significand*10^exponent against the left end', P1L)
            ob('interval: significand*10^exponent against the right end', P1R)
        if 'interval' in posts:
            interval()
        if 'shortest' in posts:
            ob('shortest: no multiple of 10^(exponent+1) in the rounding interval', P2)
        if self.crs != 'do_not_care' and self.spec[0] != 'near':
            # y is an end of the interval: given 'interval', every candidate lies on
            # the same side, so closer means between, and no tie can arise
            sg = -1 if self.spec[0] == 'left' else 1

            def PD(sol):
                c, ins, mid = nb(sol, sg)
                return z3.Not(ins)

            def PD9(sol):
                c = ctx(sol)
                return z3.Not(z3.And(sol.z(c.lS) == 1, inside(c, (10 * c.zdS - c.M) / 10)))
            if 'interval' not in posts:
                interval()
            ob('closest: significand%+d is outside the interval' % sg, PD)
            if sg < 0:
                ob('closest: significand 1 versus 9 one decade below', PD9)
        elif self.crs != 'do_not_care':
            if 'closest' in posts:
                ob('closest: significand+1 is not strictly closer', P3(1))
                ob('closest: significand-1 is not strictly closer', P3(-1))
                ob('closest: significand 1 versus 9 one decade below', S1(True))
            if 'tie' in posts:
                ob('tie: significand+1', P4(1))
                ob('tie: significand-1', P4(-1))
                if self.crs in ('tie_to_even', 'tie_to_down'):
                    ob('tie: significand 1 versus 9 one decade below', S1(False))
        if 'range' in posts:
            self.rng(st, S, kappa)

            def NT(sol):
                return sol.z(sol.divmod(sol.poly(S), 10)[1]) != 0
            nm = 'range: significand is not a multiple of ten'
            if ex.prove(st, ('z', NT))[0]:
                ex.count('z3')
            else:
                # it follows from these two (a multiple would be a shorter candidate)
                n0 = len(ex.failed)
                if 'interval' not in posts:
                    interval()
                if 'shortest' not in posts:
                    ob('shortest: no multiple of 10^(exponent+1) in the rounding interval', P2)
                if len(ex.failed) > n0:
                    del ex.failed[n0:]
                    ob(nm, NT)
        if 'largest' in posts and self.crs == 'do_not_care':
            def PL(sol):
                c, ins, mid = nb(sol, 1)
                return z3.Not(ins)
            ob('determinate: significand+1 is outside the interval', PL)

    def rng(self, st, S, kappa):
        ex, fmt = self.ex, self.fmt
        ex.obl(st, 'post', ('ge', psub(S, pconst(1))), 'range: significand >= 1')
        ex.obl(st, 'post', ('ge', psub(pconst(10 ** fmt.maxdig - 1), S)), 'range: at most %d digits' % fmt.maxdig)
        # scientific exponent: value in [10^lo, 10^(hi+1))
        lo, hi = (-45, 38) if fmt.name == 'float' else (-324, 308)
        for i in [st.mask[0], st.mask[-1]]:
            pass
        b = []
        for i in st.mask:
            e = kappa - self.g.k[i]
            # S >= 10^(lo-e), S < 10^(hi+1-e)
            b.append((max(0, lo - e), hi + 1 - e))
        mlo = max(x[0] for x in b)
        mhi = min(x[1] for x in b)
        for nm, sel in (('lower', 0), ('upper', 1)):
            vals = {i: x[sel] for i, x in zip(st.mask, b)}
            if nm == 'lower':
                need = [i for i in st.mask if vals[i] > 0]
                if need:
                    s = ex.with_mask(st, np.array(need, dtype=int))
                    V = mkvec([10 ** min(vals.get(i, 0), 40) for i in range(ex.n)]) if ex.n > 1 else 10 ** vals[need[0]]
                    ex.obl(s, 'post', ('ge', psub(S, pconst(V))), 'range: scientific exponent >= %d' % lo)
            else:
                need = [i for i in st.mask if vals[i] < fmt.maxdig]
                if need:
                    s = ex.with_mask(st, np.array(need, dtype=int))
                    V = mkvec([10 ** max(vals.get(i, 0), 0) for i in range(ex.n)]) if ex.n > 1 else 10 ** max(vals[need[0]], 0)
                    ex.obl(s, 'post', ('ge', psub(psub(pconst(V), S), pconst(1))), 'range: scientific exponent <= %d' % hi)

    # -- F = 0: everything is ground -----------------------------------------------------
    def ground(self, st, S, kappa):
        ex, g = self.ex, self.g
        if not is_const(S):
            raise Unsupported('significand not ground for F = 0')
        Sv = const_of(S)
        for sv in (0, 1):
            # is this sign possible on the path?
            s = ex.with_cond(st, ('eq', psub(patom(self.sbit), pconst(sv))))
            if not ex.feasible(s):
                continue
            for i in st.mask:
                self.ground1(s, i, int(Sv[i] if isvec(Sv) else Sv), kappa, sv)

    def fact(self, st, name, ok, i, S, kappa, sv):
        ex = self.ex
        ex.oblcount['ground'] = ex.oblcount.get('ground', 0) + 1
        if not ok:
            e = kappa - self.g.k[i]
            ex.failed.append(Obl('%s:post:%s' % (self.fname, name), False, 'ground',
                                 {'E': self.g.Es[i], 'F': self.regime.Fs[i], 's': sv, 'significand': S, 'exponent': e}))

    def ground1(self, st, i, S, kappa, sv):
        g, posts, crs = self.g, self.posts, self.crs
        sig = g.sigma[i]
        F = self.regime.Fs[i]
        y = (g.off + F) * sig
        lo, hi = self.ends(i)
        L, R = y + lo * sig, y + hi * sig

        def closed(k):
            if k in (True, False):
                return k
            return {'even': F % 2 == 0, 'odd': F % 2 == 1, 'neg': sv == 1, 'pos': sv == 0}[k]
        lc, rc = closed(self.spec[1]), closed(self.spec[2])
        ins = lambda x: (L < x or (lc and L == x)) and (x < R or (rc and x == R))
        u = gh.pow10(kappa)
        f = lambda n, ok: self.fact(st, n, ok, i, S, kappa, sv)
        if 'interval' in posts:
            f('interval', ins(S * u))
        if 'shortest' in posts:
            M = u * 10
            a = math.ceil(L / M)
            if a * M == L and not lc:
                a += 1
            f('shortest', not ins(a * M))
        d = abs(S * u - y)
        if crs != 'do_not_care':
            cands = [(S + 1) * u, (S - 1) * u] + ([u * Fr(9, 10)] if S == 1 else [])
            for j, x in enumerate(cands):
                if 'closest' in posts:
                    f('closest', not (ins(x) and abs(x - y) < d))
                if 'tie' in posts and ins(x) and abs(x - y) == d:
                    ok = {'tie_to_up': S * u > x, 'tie_to_down': S * u < x, 'tie_to_even': S % 2 == 0, 'tie_to_odd': S % 2 == 1}[crs]
                    f('tie', ok)
        elif 'largest' in posts:
            f('determinate', not ins((S + 1) * u))
        if 'range' in posts:
            e = kappa - g.k[i]
            lo, hi = (-45, 38) if self.fmt.name == 'float' else (-324, 308)
            n = len(str(S))
            f('range', S >= 1 and n <= self.fmt.maxdig and lo <= e + n - 1 <= hi and S % 10 != 0)
