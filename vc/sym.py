"""Symbolic values of the verifier.

A machine integer of width N is a polynomial over the mathematical integers,
understood modulo 2^N ("raw" form); canon_u / canon_s in exec.py produce the
representative in the unsigned / signed range.

Coefficients are Python ints or numpy object arrays ("Vec"): one exact integer
per *case* (a case is one exponent field, one table index, ...).  A Vec is not
a sample: every case of the finite case space is present, and operations are
carried out exactly in each of them.

Atoms:
  ('var', name)            free integer variable with declared bounds
  ('div', poly, m)         floor(poly / m), m > 0 int or Vec
  ('bool', cond)           1 if cond else 0
  ('undef', n)             value of uninitialised storage
  ('op', name, args)       uninterpreted result (bounded)
"""
import numpy as np


class Undecided(Exception):
    """the engine cannot represent something"""


def isvec(c):
    return isinstance(c, np.ndarray)


def mkvec(vals):
    a = np.empty(len(vals), dtype=object)
    a[:] = vals
    return a


def vecmap(f, idx, *args):
    """elementwise f over alive indices; result is int if uniform"""
    n = None
    for a in args:
        if isvec(a):
            n = len(a)
    if n is None:
        return f(*args)
    out = np.zeros(n, dtype=object)
    uni = True
    first = None
    for i in idx:
        v = f(*[a[i] if isvec(a) else a for a in args])
        out[i] = v
        if first is None:
            first = v
        elif uni and v != first:
            uni = False
    if uni:
        return first if first is not None else 0
    return out


def iszero(c):
    return (not isvec(c)) and c == 0


def vec_uniform(c, idx):
    """int value if c is the same over idx, else None"""
    if not isvec(c):
        return c
    v = c[idx[0]]
    for i in idx:
        if c[i] != v:
            return None
    return v


class Atoms:
    def __init__(self):
        self.tab = {}
        self.kind = []
        self.lo = []
        self.hi = []
        self.vecids = {}

    def ckey(self, c):
        if isvec(c):
            return ('v', tuple(c))
        return c

    def pkey(self, p):
        return tuple(sorted(((m, self.ckey(c)) for m, c in p.items()), key=lambda x: x[0]))

    def get(self, key, kind, lo, hi):
        i = self.tab.get(key)
        if i is None:
            i = len(self.kind)
            self.tab[key] = i
            self.kind.append(kind)
            self.lo.append(lo)
            self.hi.append(hi)
        return i

    def var(self, name, lo, hi):
        return self.get(('var', name), ('var', name), lo, hi)


# ---- polynomials: dict monomial(tuple of atom ids) -> coef ---------------------
def pconst(c):
    if iszero(c):
        return {}
    return {(): c}


def patom(a):
    return {(a,): 1}


def padd(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            s = o + c
            if isvec(s):
                if not s.any():
                    del r[m]
                    continue
            elif s == 0:
                del r[m]
                continue
            r[m] = s
    return r


def pscale(p, k):
    if iszero(k):
        return {}
    if not isvec(k) and k == 1:
        return p
    return {m: c * k for m, c in p.items()}


def psub(p, q):
    return padd(p, pscale(q, -1))


def pmul(p, q):
    if len(p) == 1 and () in p:
        return pscale(q, p[()])
    if len(q) == 1 and () in q:
        return pscale(p, q[()])
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            mn = tuple(sorted(m + n))
            s = c * d
            if mn in r:
                s = r[mn] + s
            r[mn] = s
    return {m: c for m, c in r.items() if not (iszero(c) or (isvec(c) and not c.any()))}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def const_of(p):
    return p.get((), 0)


def vmin(a, b):
    if isvec(a) or isvec(b):
        return np.minimum(a, b)
    return a if a < b else b


def vmax(a, b):
    if isvec(a) or isvec(b):
        return np.maximum(a, b)
    return a if a > b else b


def pbounds(A, p):
    """(lo, hi), ints or Vecs (per case)"""
    lo = hi = 0
    for m, c in p.items():
        if not m:
            lo = lo + c
            hi = hi + c
            continue
        l, h = A.lo[m[0]], A.hi[m[0]]
        for a in m[1:]:
            l2, h2 = A.lo[a], A.hi[a]
            if not isvec(l) and not isvec(l2) and l >= 0 and l2 >= 0:
                l, h = l * l2, h * h2
            else:
                c1, c2, c3, c4 = l * l2, l * h2, h * l2, h * h2
                l = vmin(vmin(c1, c2), vmin(c3, c4))
                h = vmax(vmax(c1, c2), vmax(c3, c4))
        if not isvec(c):
            if c >= 0:
                lo = lo + l * c
                hi = hi + h * c
            else:
                lo = lo + h * c
                hi = hi + l * c
        else:
            a, b = l * c, h * c
            lo = lo + vmin(a, b)
            hi = hi + vmax(a, b)
    return lo, hi


def amin(c, idx):
    if isvec(c):
        return min(c[i] for i in idx)
    return c


def amax(c, idx):
    if isvec(c):
        return max(c[i] for i in idx)
    return c


# ---- conditions ---------------------------------------------------------------
TRUE = ('c', True)
FALSE = ('c', False)


def cnot(c):
    if c[0] == 'c':
        return FALSE if c[1] else TRUE
    if c[0] == 'not':
        return c[1]
    if c[0] == 'ge':
        # not p>=0  <=>  -p-1>=0
        return ('ge', psub(pscale(c[1], -1), pconst(1)))
    if c[0] == 'vc':
        return ('vc', ~c[1])
    return ('not', c)


def cand(a, b):
    if a[0] == 'c':
        return b if a[1] else FALSE
    if b[0] == 'c':
        return a if b[1] else FALSE
    return ('and', a, b)


def cor(a, b):
    if a[0] == 'c':
        return TRUE if a[1] else b
    if b[0] == 'c':
        return TRUE if b[1] else a
    return ('or', a, b)


def cxor(a, b):
    if a[0] == 'c':
        return cnot(b) if a[1] else b
    if b[0] == 'c':
        return cnot(a) if b[1] else a
    return cor(cand(a, cnot(b)), cand(cnot(a), b))


def ckey(A, c):
    k = c[0]
    if k == 'c':
        return c
    if k in ('ge', 'eq'):
        return (k, A.pkey(c[1]))
    if k == 'dvd':
        return (k, A.pkey(c[1]), A.ckey(c[2]))
    if k == 'vc':
        return (k, c[1].tobytes())
    if k == 'not':
        return (k, ckey(A, c[1]))
    return (k, ckey(A, c[1]), ckey(A, c[2]))


def pbounds_tight(A, p, mask):
    """bounds using r - m*floor(r/m) in [0, m-1]; ints (over all of mask)"""
    lo, hi = pbounds_tv(A, p)
    return amin(lo, mask), amax(hi, mask)


def pbounds_tv(A, p):
    """the same per case"""
    best = pbounds(A, p)
    cand = sorted({mon[0] for mon in p if len(mon) == 1 and A.kind[mon[0]][0] == 'div'}, reverse=True)
    cur, addlo, addhi = p, 0, 0
    progress = True
    done = set()
    while progress:
        progress = False
        cand = sorted({mon[0] for mon in cur if len(mon) == 1 and A.kind[mon[0]][0] == 'div'} - done, reverse=True)
        for a in cand:
            k = cur.get((a,))
            if k is None:
                continue
            _, r, m = A.kind[a]
            if not isvec(m) and not isvec(k):
                # floor(r/m) = floor(floor(r/m2)/(m/m2)) for another atom at hand
                for a2 in cand:
                    _, r2, m2 = A.kind[a2]
                    if a2 != a and not isvec(m2) and 1 < m2 < m and m % m2 == 0 and k % (m // m2) == 0 and (r2 is r or A.pkey(r2) == A.pkey(r)):
                        r, m = {(a2,): 1}, m // m2
                        break
            # floor(r/m) in [(r-m+1)/m, r/m]: substitute when k*r/m is integral
            if isvec(m) or isvec(k):
                N = range(len(m) if isvec(m) else len(k))
                m = vecmap(lambda x: max(x, 1), N, m)
                if vecmap(lambda x, y: x % y != 0, N, k, m) is not False:
                    continue
                t = vecmap(lambda x, y: -(x // y), N, k, m)
            else:
                if k % m:
                    continue
                t = -(k // m)
            new = dict(cur)
            del new[(a,)]
            new = padd(new, pscale(r, -t))
            nl, nh = addlo, addhi
            if isvec(t):
                N = range(len(t))
                nh = nh + vecmap(lambda x, y: max(x, 0) * (y - 1), N, t, m)
                nl = nl + vecmap(lambda x, y: min(x, 0) * (y - 1), N, t, m)
            elif isvec(m):
                nh = nh + max(t, 0) * (m - 1)
                nl = nl + min(t, 0) * (m - 1)
            elif t >= 0:
                nh = nh + t * (m - 1)
            else:
                nl = nl + t * (m - 1)
            l, h = pbounds(A, new)
            l, h = l + nl, h + nh
            done.add(a)
            best = (vmax(best[0], l), vmin(best[1], h))
            if len(new) <= len(cur) + 1:
                cur, addlo, addhi = new, nl, nh
                progress = True
                break
    return best
