"""Ghost context of the conversion proofs.

For a case (one exponent field E of one format) the specification fixes
    ev      binary exponent of the unit in the last place
    k       the decimal scaling exponent  k = -floor(log10(2^(q-range))) (see spec_k)
    sigma   = 2^ev * 10^k      one ulp, in units of 10^-k   (exact rational)
    y       = f * sigma        the value, in the same units
where f is the integer significand (2^P+F for normals, F for subnormals).

The solver sees y and sigma as reals.  A quotient atom floor((A*F+B)/m) of the
code is linked to them by the floor lemma: for rationals c, t
    floor((A*F+B)/m) = floor(c*(y + t*sigma))      for every F of the case,
decided exactly for each case with integer floor sums (floor_equal).
"""
from fractions import Fraction as Fr
import math
import numpy as np
import z3
from sym import *
from solver import LF


def floor_sum(n, m, a, b):
    """sum_{i=0}^{n-1} floor((a*i+b)/m), m > 0"""
    s = 0
    if a < 0:
        q = -((-a) // m) - 1 if (-a) % m else -((-a) // m)
        s += n * (n - 1) // 2 * q
        a -= q * m
    if b < 0:
        q = b // m
        s += n * q
        b -= q * m
    while True:
        if a >= m:
            s += n * (n - 1) // 2 * (a // m)
            a %= m
        if b >= m:
            s += n * (b // m)
            b %= m
        ymax = a * n + b
        if ymax < m:
            return s
        n, b = divmod(ymax, m)
        m, a = a, m


def floor_equal(lo, hi, a1, b1, m1, a2, b2, m2):
    """is floor((a1 F+b1)/m1) == floor((a2 F+b2)/m2) for all F in [lo,hi]?
    -> None or a witness F"""
    def d(F):
        return (a1 * F + b1) * m2 - (a2 * F + b2) * m1
    s, e = d(lo), d(hi)
    if (s < 0 < e) or (e < 0 < s):
        # sign change of the difference: split at the crossing
        a, b = lo, hi
        while b - a > 1:
            c = (a + b) // 2
            if (d(c) < 0) == (s < 0):
                a = c
            else:
                b = c
        w = floor_equal(lo, a, a1, b1, m1, a2, b2, m2)
        return w if w is not None else floor_equal(b, hi, a1, b1, m1, a2, b2, m2)

    def diff(x, y):
        n = y - x + 1
        return floor_sum(n, m1, a1, b1 + a1 * x) - floor_sum(n, m2, a2, b2 + a2 * x)
    if diff(lo, hi) == 0:
        return None
    while lo < hi:
        mid = (lo + hi) // 2
        if diff(lo, mid) != 0:
            hi = mid
        else:
            lo = mid + 1
    return lo


class Fmt:
    def __init__(self, name):
        self.name = name
        if name == 'float':
            self.P, self.EB, self.N, self.Q = 23, 8, 32, 32
            self.maxdig = 9
        else:
            self.P, self.EB, self.N, self.Q = 52, 11, 64, 64
            self.maxdig = 17
        self.bias = (1 << (self.EB - 1)) - 1
        self.emax_field = (1 << self.EB) - 2

    def ev(self, E):
        return (E if E else 1) - self.bias - self.P


def floor_log10_pow2(e):
    if e >= 0:
        return len(str(1 << e)) - 1
    x = 1 << -e
    d = len(str(x)) - 1
    return -d if x == 10 ** d else -d - 1


def spec_k(fmt, E):
    """the scaling used by the ghost units; any choice is sound, this one
    matches the order of magnitude the algorithm works in"""
    e = fmt.ev(E) - (fmt.Q - fmt.P - 1)
    return -floor_log10_pow2(e + 1 + 5)


def pow10(k):
    return Fr(10 ** k) if k >= 0 else Fr(1, 10 ** -k)


def pow2(k):
    return Fr(1 << k) if k >= 0 else Fr(1, 1 << -k)

import os
LINKW = int(os.environ.get('LW', '6'))


class Ghost:
    """regime: 'normal' (f = 2^P + F) or 'sub' (f = F), F in [flo, fhi].

    Solver variables: the root real z = y + t0*sigma is written G + phi with
    integer G (decimal digits d0, d1, ...) and 0 <= phi < 1."""
    FORMS = (Fr(1), Fr(2), Fr(1, 2), Fr(1, 4), Fr(3, 4), Fr(3, 2), Fr(4))

    def __init__(self, fmt, A, F, Es, regime, flo, fhi, lemma_cache=None):
        self.fmt, self.A, self.F, self.Es = fmt, A, F, Es
        self.regime, self.flo, self.fhi = regime, flo, fhi
        self.off = (1 << fmt.P) if regime == 'normal' else 0
        self.k = [spec_k(fmt, E) for E in Es]
        self.sigma = [pow2(fmt.ev(E)) * pow10(k) for E, k in zip(Es, self.k)]
        self.s = z3.Real('sigma')
        self.phi = z3.Real('phi')
        self.t0 = None
        self.forms = {}
        self.lemma = {} if lemma_cache is None else lemma_cache
        self.lemma_failures = {}
        self.amatch = {}
        self.nl = 0
        self.clsc = {}
        self.bases = {c: [math.floor(c * s) for s in self.sigma] for c in self.FORMS}
        top = max(self.sigma) * (self.off + self.fhi + 2)
        self.ndig = len(str(int(top))) + 1

    @property
    def nlemmas(self):
        return self.nl

    def attach(self, sol):
        self.sol = sol
        self.yb = z3.Bool('ybounds')
        sol.extra = [self.yb]

        def emit(mask):
            ss = [self.sigma[i] for i in mask]
            return [self.s >= q(rlow(min(ss))), self.s <= q(rhigh(max(ss)))]
        s = sol.s
        s.add(self.s > 0, self.phi >= 0, self.phi < 1)
        sol.levels[0]['reg'].append(emit)

    # -- the root ----------------------------------------------------------------
    def root(self, t=None):
        """LF of G (registers its digits)"""
        first = self.t0 is None
        if first:
            self.t0 = t if t is not None else Fr(0)
        f = LF()
        for i in range(self.ndig):
            f = f.add(self.sol.ivar('d%d' % i, 0, 9), 10 ** i)
        if not self.sol.registered('ybounds'):
            y = self.yreal(f)

            def emit(mask):
                lo, hi = self.off + self.flo, self.off + self.fhi
                fs = [z3.And(y >= lo * self.s, y <= hi * self.s)]
                if self.F is not None:
                    fs += [z3.If(zF == self.flo, y == lo * self.s, y >= (lo + 1) * self.s),
                           z3.If(zF == self.fhi, y == hi * self.s, y <= (hi - 1) * self.s)]
                return [z3.Implies(self.yb, z3.And(fs))]
            if self.F is not None:
                zF = self.sol.z(self.sol.poly({(self.F,): 1}))
            self.sol.register('ybounds', emit)
            if self.F is not None:

                def link(mask):
                    sg = self.sigma[mask[0]]
                    w = 24 if len(mask) > 1 else LINKW
                    if sg.numerator < 1 << w and sg.denominator < (1 << w if w > LINKW else 2) and all(self.sigma[i] == sg for i in mask):
                        return [y == q(sg) * (self.off + z3.ToReal(zF))]
                    return []
                self.sol.register('ylink', link)

                def link2(mask):
                    # only used on demand (assumption literal), for a single case
                    if len(mask) != 1:
                        return []
                    b = self.linkbool(mask[0])
                    sg = self.sigma[mask[0]]
                    return [z3.Implies(b, y == q(sg) * (self.off + z3.ToReal(zF)))]
                self.sol.register('ylink2', link2)
        return f

    def linkbool(self, i):
        return z3.Bool('ylink%d' % i)

    def yreal(self, f=None):
        f = f or self.root()
        return z3.ToReal(self.sol.z(f)) + self.phi - q(self.t0) * self.s

    def expand(self, f, m):
        """split low digits of G into halves where m is even"""
        if m % 2 == 0 and m % 10:
            t = dict(f.t)
            for v, x in f.t.items():
                if v[0] == 'd' and v[1:].isdigit() and x % m and 2 * x % m == 0:
                    h, b = 'h' + v[1:], 'p' + v[1:]
                    lh, lb = self.sol.ivar(h, 0, 4), self.sol.ivar(b, 0, 1)
                    zd, zh, zb = self.sol.vars[v], self.sol.vars[h], self.sol.vars[b]
                    self.sol.register(('half', v), lambda mask, zd=zd, zh=zh, zb=zb: [zd == 2 * zh + zb], True)
                    del t[v]
                    t[h] = t.get(h, 0) + 2 * x
                    t[b] = t.get(b, 0) + x
            return LF(f.c, t)
        return f

    # -- forms -----------------------------------------------------------------
    def form(self, c, t):
        """(LF g, z3 Bool J): g = floor(c*(y+t*sigma)), J = exactly integral"""
        sol = self.sol
        G = self.root(t if c == 1 else None)
        if c < 1:
            # floor(floor(x)/n)
            g1, J1 = self.form(Fr(1), t)
            qf, r = sol.divmod(g1, c.denominator)
            zr = sol.z(r)
            return qf, z3.And(J1, zr == 0)
        n = int(c)
        key = (c, t)
        if key not in self.forms:
            i = len(self.forms)
            self.forms[key] = ('e%d' % i, z3.Bool('J%d' % i))
        name, J = self.forms[key]
        dt = t - self.t0
        if n == 1 and dt == 0:
            def emit0(mask):
                return [J == (self.phi == 0)] + self.stfacts(c, t, J, mask, G)
            sol.register(('form', key), emit0)
            return G, J
        smax = max(self.sigma)
        b = abs(dt) * smax * n
        e = sol.ivar(name, int(-b) - 1 if dt < 0 else 0, int(b) + n + 1)
        z = sol.vars[name]
        real = n * self.phi + q(n * dt) * self.s

        def emit(mask):
            return [z3.ToReal(z) <= real, real < z3.ToReal(z) + 1, J == (real == z3.ToReal(z))] + self.stfacts(c, t, J, mask, G.scale(n).add(e))
        sol.register(('form', key), emit)
        return G.scale(n).add(e), J

    def stfacts(self, c, t, J, mask, g):
        sts = {self.status(c, t, i) for i in mask}
        if sts == {'never'}:
            return [z3.Not(J)]
        if sts == {'always'}:
            return [J]
        if sts == {'class'} and len(mask) == 1:
            # J pins the form to the values at F = r + M*k
            i = mask[0]
            r, M = self.cls(c, t, i)
            cs = c * self.sigma[i]
            zg = self.sol.z(g)
            n0 = cs * (self.off + r + t)
            assert n0.denominator == 1
            if M < 0:
                return [z3.Implies(z3.And(J, self.linkbool(i)), zg == int(n0))]
            n1 = cs * M
            r0 = self.flo + (r - self.flo) % M
            n0 = cs * (self.off + r0 + t)
            kmax = (self.fhi - r0) // M
            if kmax < 1 << 12:
                k = self.sol.ivar('k%d_%s' % (i, str(J)), 0, kmax)
                return [z3.Implies(z3.And(J, self.linkbool(i)), zg == int(n0) + int(n1) * self.sol.z(k))]
        return []

    def cls(self, c, t, i):
        """residue class (r, M) of F for which c*(f+t)*sigma is an integer;
        M=0: no F in range, M=1: every F"""
        key = (c, t, i)
        if key in self.clsc:
            return self.clsc[key]
        a = c * self.sigma[i]                # (F + off + t)*a integer
        b = (self.off + t) * a
        # F*a + b in Z, common denominator
        D = a.denominator * b.denominator // math.gcd(a.denominator, b.denominator)
        r = self.norm(int(a * D), int(b * D), D)
        self.clsc[key] = r
        return r

    def norm(self, a, b, m):
        """class of F with a*F + b = 0 (mod m), restricted to the range of F"""
        a %= m
        b %= m
        g = math.gcd(a, m)
        if b % g:
            return (0, 0)
        M = m // g
        if M == 1:
            return (0, 1)
        r = (-(b // g)) * pow(a // g, -1, M) % M
        # any F = r mod M within [flo,fhi]?
        first = self.flo + (r - self.flo) % M
        if first > self.fhi:
            return (0, 0)
        if M > self.fhi - self.flo:
            return (first, -1)               # exactly one F
        return (r, M)

    def status(self, c, t, i):
        r, M = self.cls(c, t, i)
        return 'never' if M == 0 else 'always' if M == 1 else 'class'

    # -- code atoms ---------------------------------------------------------------
    def linear(self, p):
        """p = A*F + B ? -> (A, B)"""
        a = b = 0
        for m, c in p.items():
            if not m:
                b = c
            elif m == (self.F,):
                a = c
            else:
                return None
        if iszero(a):
            return None
        return a, b

    TGRID = [Fr(x, 4) for x in (2, 0, -2, 4, -4, -1, 1, 3, -3, 6, -6, 8, -8)]

    def cands(self, a, b, m, i):
        """approximate candidates (c, t, j): floor((a F + b)/m) ~ floor(c*(y+t*sigma) - j),
        4j integral; exactness is decided by exact()"""
        key = ('c', a, b, m, i)
        if key in self.lemma:
            return self.lemma[key]
        res = []
        if a > 0:
            ratio = Fr(a, m) / self.sigma[i]
            n, d = ratio.numerator, ratio.denominator
            e0 = n.bit_length() - d.bit_length()
            for e in (e0 - 1, e0, e0 + 1):
                c = pow2(e)
                if abs(ratio / c - 1) < Fr(1, 1 << 30) and abs(e) < 8:
                    for t in self.TGRID:
                        x4 = 4 * ((self.off + t) * a - b)
                        j4 = (2 * x4.numerator + m * x4.denominator) // (2 * m * x4.denominator)
                        if abs(x4 - j4 * m) * (1 << 14) < 4 * a:
                            res.append((c, t, Fr(j4, 4)))
                    t = Fr(b, a) - self.off
                    if abs(t) <= 16 and not res:
                        res.append((c, Fr(round(t * 4), 4), Fr(0)))
                    break
        # whole j first, then halves, then quarters
        res.sort(key=lambda r: r[2].denominator)
        self.lemma[key] = res
        return res

    def exact(self, a, b, m, i, cand):
        """None or a witness F"""
        key = (a, b, m, i, cand)
        if key in self.lemma:
            return self.lemma[key]
        c, t, j = cand
        cs = c * self.sigma[i]
        n2 = cs * (self.off + t) - j
        D = cs.denominator * n2.denominator // math.gcd(cs.denominator, n2.denominator)
        w = floor_equal(self.flo, self.fhi, a, b, m, int(cs * D), int(n2 * D), D)
        self.lemma[key] = w
        self.nl += 1
        if w is not None:
            self.lemma_failures[(self.Es[i], str(c), str(t), str(j))] = w
        return w

    def atom_lf(self, a, mask):
        kind = self.A.kind[a]
        if kind[0] != 'div':
            return None
        key = (a, mask.tobytes())
        if key in self.amatch:
            ct = self.amatch[key]
        else:
            ct = self.amatch[key] = self.match(kind, mask)
        if ct is None:
            return None
        c, t, j = ct
        n = j.denominator
        if n == 1:
            return self.form(c, t)[0].add(LF(-int(j)))
        # floor(c*(y+t sigma) - p/n) = floor((floor(n c (y + t sigma)) - p)/n)
        g = self.form(n * c, t)[0].add(LF(-j.numerator))
        return self.sol.divmod(g, n)[0]

    def match(self, kind, mask):
        lin = self.linear(kind[1])
        if lin is None:
            return None
        pa, pb = lin
        m = kind[2]
        i0 = mask[0]
        for cand in self.cands(at(pa, i0), at(pb, i0), at(m, i0), i0):
            if all(cand in self.cands(at(pa, i), at(pb, i), at(m, i), i) for i in mask) and \
                    all(self.exact(at(pa, i), at(pb, i), at(m, i), i, cand) is None for i in mask):
                return cand
        return None

    def base(self, c):
        """LF of floor(c*sigma)"""
        vals = self.bases[c]
        mask = self.sol.mask
        name = 'w%d_%d' % (c.numerator, c.denominator)
        vs = [vals[i] for i in mask]
        f = self.sol.ivar(name, min(vs), max(vs))
        zb = self.sol.vars[name]

        def emit(mask):
            fs = [z3.ToReal(zb) <= q(c) * self.s, q(c) * self.s < z3.ToReal(zb) + 1]
            it = {(c * self.sigma[i]).denominator == 1 for i in mask}
            if it == {True}:
                fs.append(z3.ToReal(zb) == q(c) * self.s)
            elif it == {False}:
                fs.append(z3.ToReal(zb) < q(c) * self.s)
            vs = [vals[i] for i in mask]
            fs += [zb >= min(vs), zb <= max(vs)]
            return fs
        self.sol.register(('base', c), emit)
        return f

    def vec_lf(self, V, mask):
        i0 = mask[0]
        for c in self.FORMS:
            vals = self.bases[c]
            for sg in (1, -1):
                d = V[i0] - sg * vals[i0]
                if all(V[i] - sg * vals[i] == d for i in mask):
                    return self.base(c).scale(sg).add(LF(int(d)))
        for c in self.FORMS:
            for c2 in self.FORMS:
                if c2 >= c:
                    continue
                v1, v2 = self.bases[c], self.bases[c2]
                for s1, s2 in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                    d = V[i0] - s1 * v1[i0] - s2 * v2[i0]
                    if all(V[i] - s1 * v1[i] - s2 * v2[i] == d for i in mask):
                        return self.base(c).scale(s1).add(self.base(c2), s2).add(LF(int(d)))
        return None

    def dvd_facts(self, c, zb, mask):
        lin = self.linear(c[1])
        if lin is None:
            return []
        pa, pb = lin
        m = c[2]
        cl = {i: self.norm(at(pa, i), at(pb, i), at(m, i)) for i in mask}
        vals = set(cl.values())
        if vals == {(0, 0)}:
            return [z3.Not(zb)]
        if vals == {(0, 1)}:
            return [zb]
        out = []
        for key in list(self.forms) + [(c, t) for c in (Fr(1), Fr(2)) for t in self.TS if (c, t) not in self.forms]:
            if all(self.cls(key[0], key[1], i) == cl[i] for i in mask):
                g, J = self.form(*key)
                out.append(zb == J)
        if not out:
            # c*(y+t*sigma) always an integer: divisibility of it by a power of ten
            for c1, t1 in [x for x in self.forms if x[0] >= 1] + [(Fr(1), t) for t in self.TS if (Fr(1), t) not in self.forms]:
                if all(self.status(c1, t1, i) == 'always' for i in mask):
                    for j in range(1, self.ndig):
                        if all(self.norm(int(c1 * self.sigma[i]), int(c1 * self.sigma[i] * (self.off + t1)), 10 ** j) == cl[i]
                               if (c1 * self.sigma[i]).denominator == 1 else False for i in mask):
                            g, J = self.form(c1, t1)
                            out.append(zb == (self.sol.z(self.sol.divmod(g, 10 ** j)[1]) == 0))
                            break
        return out

    TS = [Fr(0), Fr(1, 2), Fr(-1, 2), Fr(1), Fr(-1)]


def rlow(x, bits=200):
    """rational <= x of moderate size"""
    if x.denominator.bit_length() <= bits:
        return x
    return Fr(math.floor(x * (1 << bits)), 1 << bits)


def rhigh(x, bits=200):
    if x.denominator.bit_length() <= bits:
        return x
    return Fr(-math.floor(-x * (1 << bits)), 1 << bits)


def at(c, i):
    return c[i] if isvec(c) else c


def q(f):
    return z3.RealVal(str(f))
