"""Path solver: z3 over linear integer/real arithmetic, kept in step with the
path condition of the state being executed.

Terms are translated through linear forms (LF) over bounded integer variables.
Quotients are taken on linear forms: floor((m*X + s)/m) = X + floor(s/m), so
that the solver only sees small remainders of the large machine words."""
import os, time
import numpy as np
import z3
from sym import *

DUMP = os.environ.get('VERIF_DUMP')
STATS = {'checks': 0, 'time': 0.0, 'unknown': 0}


_check_orig = z3.z3core.Elementaries.Check
z3.z3core.Elementaries.Check = lambda self, ctx: None      # errors are looked at after each check
_CTX = z3.main_ctx()
_nums = {}


def num(x):
    r = _nums.get(x)
    if r is None:
        r = _nums[x] = z3.IntVal(x, _CTX)
    return r


def zge(a, b):
    return z3.BoolRef(z3.Z3_mk_ge(_CTX.ref(), a.ast, b.ast), _CTX)


def zle(a, b):
    return z3.BoolRef(z3.Z3_mk_le(_CTX.ref(), a.ast, b.ast), _CTX)


def zeq(a, b):
    return z3.BoolRef(z3.Z3_mk_eq(_CTX.ref(), a.ast, b.ast), _CTX)


def zsum(ts):
    n = len(ts)
    arr = (z3.Ast * n)(*[t.ast for t in ts])
    return z3.ArithRef(z3.Z3_mk_add(_CTX.ref(), n, arr), _CTX)


def zmul(a, b):
    arr = (z3.Ast * 2)(a.ast, b.ast)
    return z3.ArithRef(z3.Z3_mk_mul(_CTX.ref(), 2, arr), _CTX)


class LF:
    __slots__ = ('c', 't')      # constant, {var name: int coef}

    def __init__(self, c=0, t=None):
        self.c, self.t = c, t or {}

    def add(self, o, k=1):
        t = dict(self.t)
        for v, x in o.t.items():
            s = t.get(v, 0) + k * x
            if s:
                t[v] = s
            else:
                t.pop(v, None)
        return LF(self.c + k * o.c, t)

    def scale(self, k):
        if k == 0:
            return LF()
        return LF(self.c * k, {v: x * k for v, x in self.t.items()})

    def key(self):
        return (self.c, tuple(sorted(self.t.items())))


class PathSolver:
    """entries: list of ('cond', c) / ('mask', idxarray).  sync(entries) makes
    the z3 stack equal to the list."""

    def __init__(self, A, ghost=None, timeout=2000):
        self.A = A
        self.ghost = ghost
        self.s = z3.SimpleSolver()
        self.timeout = timeout
        self.s.set('timeout', timeout)
        self.entries = []
        self.levels = [dict(reg=[], regset=[], mask=None)]
        self.regs = set()       # keys registered on any level
        self.zmemo = {}
        self.mmemo = {}
        self.bmemo = {}
        self.vars = {}          # name -> z3 Int
        self.lo = {}
        self.hi = {}
        self.bvar = {}
        self.vvar = {}
        self.vlist = []
        self.idents = {}
        self.avar = {}
        self.mask = None
        self.extra = []         # assumption literals for the second stage
        if ghost is not None:
            ghost.attach(self)

    # -- stack ----------------------------------------------------------------
    def push(self):
        self.s.push()
        self.levels.append(dict(reg=[], regset=[], mask=self.mask))

    def pop(self):
        self.s.pop()
        self.regs.difference_update(self.levels.pop()['regset'])
        self.mask = self.levels[-1]['mask']

    def registered(self, key):
        return key in self.regs

    def register(self, key, emit, static=False):
        """emit(mask) -> z3 facts about this item valid for all cases of mask;
        static: the facts do not depend on the mask"""
        if key in self.regs:
            return
        l = self.levels[-1]
        l['regset'].append(key)
        self.regs.add(key)
        if not static:
            l['reg'].append(emit)
        for f in emit(self.mask):
            self.add(f)

    def add(self, f):
        z3.Z3_solver_assert(_CTX.ref(), self.s.solver, f.ast)

    def set_mask(self, mask):
        self.mask = mask
        self.levels[-1]['mask'] = mask
        for l in list(self.levels):
            for emit in list(l['reg']):
                for f in emit(mask):
                    self.add(f)

    def sync(self, entries):
        k = 0
        n = min(len(entries), len(self.entries))
        while k < n and entries[k] is self.entries[k]:
            k += 1
        while len(self.entries) > k:
            self.pop()
            self.entries.pop()
        for e in entries[k:]:
            self.push()
            self.entries.append(e)
            if e[0] == 'mask':
                self.set_mask(e[1])
            else:
                self.add(self.cond(e[1]))

    hard = True

    def check(self, *extra):
        r = self.check1(*extra)
        if r != z3.unsat and self.extra:
            r = self.check1(*(list(extra) + self.extra))
        return r

    def check1(self, *extra):
        t = time.time()
        STATS['checks'] += 1
        r = self.s.check(*extra)
        if z3.Z3_get_error_code(_CTX.ref()) != z3.Z3_OK:
            raise Undecided('z3 error')
        dt = time.time() - t
        STATS['time'] += dt
        if DUMP and dt > 0.3:
            s2 = z3.Solver()
            for x in self.s.assertions():
                s2.add(x)
            for x in extra:
                s2.add(x)
            open('%s/q%d_%.1f_%s.smt2' % (DUMP, STATS['checks'], dt, r), 'w').write(s2.to_smt2())
        if r == z3.unknown and self.hard:
            # incremental mode gave up: a fresh solver may use preprocessing
            s2 = z3.Solver(ctx=self.s.ctx)
            s2.set('timeout', 4000)
            s2.add(*self.s.assertions())
            s2.add(*extra)
            r = s2.check()
            STATS['fresh'] = STATS.get('fresh', 0) + 1
            STATS['time'] += time.time() - t - dt
            self.last = s2
        else:
            self.last = self.s
        if r == z3.unknown:
            STATS['unknown'] += 1
        return r

    def ident(self, pre, key):
        k = (pre, key)
        if k not in self.idents:
            self.idents[k] = '%s%d' % (pre, len(self.idents))
        return self.idents[k]

    # -- integer variables -----------------------------------------------------
    def ivar(self, name, lo, hi):
        """LF of variable `name`; bounds as of the current mask"""
        if name not in self.vars:
            self.vars[name] = z3.Int(name)
        self.lo[name], self.hi[name] = lo, hi
        key = ('b', name, lo, hi)
        if key not in self.regs:
            self.register(key, lambda mask: self.between(name, lo, hi), True)
        return LF(0, {name: 1})

    def between(self, name, lo, hi):
        k = (name, lo, hi)
        r = self.bmemo.get(k)
        if r is None:
            z = self.vars[name]
            r = self.bmemo[k] = [zge(z, num(lo)), zle(z, num(hi))]
        return r

    def bounds(self, f):
        lo = hi = f.c
        for v, x in f.t.items():
            a, b = self.lo[v], self.hi[v]
            if x >= 0:
                lo += x * a
                hi += x * b
            else:
                lo += x * b
                hi += x * a
        return lo, hi

    def z(self, f):
        key = f.key()
        r = self.zmemo.get(key)
        if r is None:
            t = []
            for v, x in f.t.items():
                y = self.mmemo.get((v, x))
                if y is None:
                    y = self.vars[v] if x == 1 else zmul(num(x), self.vars[v])
                    self.mmemo[(v, x)] = y
                t.append(y)
            if f.c or not t:
                t.append(num(f.c))
            r = t[0] if len(t) == 1 else zsum(t)
            self.zmemo[key] = r
        return r

    def divmod(self, f, m):
        """(q, r): LFs with f = m*q + r, 0 <= r < m"""
        if self.ghost is not None:
            f = self.ghost.expand(f, m)
        q = LF(f.c // m, {v: x // m for v, x in f.t.items() if x % m == 0})
        s = LF(f.c % m, {v: x for v, x in f.t.items() if x % m})
        # balanced coefficients keep the remainder small
        for v, x in list(s.t.items()):
            k = (x + m // 2) // m
            if k:
                s.t[v] = x - k * m
                q = q.add(LF(0, {v: 1}), k)
        lo, hi = self.bounds(s)
        if lo // m == hi // m:
            k = lo // m
            return q.add(LF(k)), s.add(LF(-k * m))
        name = self.ident('q', (s.key(), m))
        qv = self.ivar(name, lo // m, hi // m)
        r = s.add(qv, -m)
        key = ('div', name)
        if not self.registered(key):
            zr = self.z(r)
            self.register(key, lambda mask: [zge(zr, num(0)), zle(zr, num(m - 1))], True)
        return q.add(qv), r

    # -- translation ------------------------------------------------------------
    def vec(self, V):
        """LF of a per-case constant.  Constants that differ only by sign and
        offset over the current cases share one variable."""
        mask = self.mask
        if self.ghost is not None:
            f = self.ghost.vec_lf(V, mask)
            if f is not None:
                return f
        W = V[mask]
        W = W - W[0]
        key = self.A.ckey(V)
        name = self.vvar.get(key)
        if name is None:
            for nm, V0 in self.vlist:
                W0 = V0[mask]
                W0 = W0 - W0[0]
                if (W == W0).all():
                    return self.vreg(nm, V0).add(LF(int(V[mask[0]] - V0[mask[0]])))
                if (W == -W0).all():
                    return self.vreg(nm, V0).scale(-1).add(LF(int(V[mask[0]] + V0[mask[0]])))
            name = 'v%d' % len(self.vvar)
            self.vvar[key] = name
            self.vlist.append((name, V))
        return self.vreg(name, V)

    def vreg(self, name, V):
        f = self.ivar(name, amin(V, self.mask), amax(V, self.mask))
        z = self.vars[name]
        self.register(('vb', name), lambda mask: self.between(name, amin(V, mask), amax(V, mask)))
        return f

    def atom(self, a):
        A = self.A
        kind = A.kind[a]
        mask = self.mask
        if self.ghost is not None:
            f = self.ghost.atom_lf(a, mask)
            if f is not None:
                return f
        if kind[0] == 'div' and not isvec(kind[2]) and self.translatable(kind[1]):
            f = self.divmod(self.poly(kind[1]), kind[2])[0]
            lo, hi = self.bounds(f)
            if lo < amin(A.lo[a], mask) or hi > amax(A.hi[a], mask):
                zf = self.z(f)
                self.register(('bd', a), lambda mask: [zge(zf, num(amin(A.lo[a], mask))), zle(zf, num(amax(A.hi[a], mask)))])
            return f
        f = self.ivar('a%d' % a, amin(A.lo[a], mask), amax(A.hi[a], mask))
        if isvec(A.lo[a]) or isvec(A.hi[a]):
            zv = self.vars['a%d' % a]
            self.register(('ab', a), lambda mask: self.between('a%d' % a, amin(A.lo[a], mask), amax(A.hi[a], mask)))
        if kind[0] == 'bool':
            z = self.vars['a%d' % a]
            self.register(('ad', a), lambda mask: [(z == 1) == self.cond(kind[1])])
        elif self.ghost is not None:
            z = self.vars['a%d' % a]

            def emit(mask):
                g = self.ghost.atom_lf(a, mask)
                return [] if g is None else [z == self.z(g)]
            self.register(('ag', a), emit)
        return f

    def translatable(self, p):
        for m, c in p.items():
            if m and isvec(c) and vec_uniform(c, self.mask) is None:
                return False
            if len(m) > 1:
                return False
        return True

    def poly(self, p):
        f = LF()
        for m, c in p.items():
            if isvec(c):
                u = vec_uniform(c, self.mask)
                if u is not None:
                    c = int(u)
            if not m:
                f = f.add(self.vec(c) if isvec(c) else LF(int(c)))
            elif len(m) == 1 and not isvec(c):
                f = f.add(self.atom(m[0]), int(c))
            else:
                # nonlinear / case-scaled monomial: opaque with bounds
                lo, hi = pbounds(self.A, {m: c})
                name = self.ident('m', (m, self.A.ckey(c)))
                f = f.add(self.ivar(name, amin(lo, self.mask), amax(hi, self.mask)))
        return f

    def zpoly(self, p):
        return self.z(self.poly(p))

    def bool(self, key):
        if key not in self.bvar:
            self.bvar[key] = z3.Bool('b%d' % len(self.bvar))
        return self.bvar[key]

    def cond(self, c):
        k = c[0]
        if k == 'c':
            return z3.BoolVal(c[1])
        if k == 'ge':
            return zge(self.zpoly(c[1]), num(0))
        if k == 'eq':
            return zeq(self.zpoly(c[1]), num(0))
        if k == 'not':
            return z3.Not(self.cond(c[1]))
        if k == 'and':
            return z3.And(self.cond(c[1]), self.cond(c[2]))
        if k == 'or':
            return z3.Or(self.cond(c[1]), self.cond(c[2]))
        if k == 'z':
            return c[1](self)
        if k == 'vc':
            u = vec_uniform(c[1], self.mask)
            if u is not None:
                return z3.BoolVal(bool(u))
            return self.bool(c[1].tobytes())
        if k == 'dvd':
            p, m = c[1], c[2]
            um = vec_uniform(m, self.mask)
            if self.ghost is not None and self.ghost.linear(p) is not None:
                zb = self.bool(ckey(self.A, c))

                def emit(mask):
                    return self.ghost.dvd_facts(c, zb, mask)
                self.register(('dg', str(zb)), emit)
                return zb
            if um is not None and self.translatable(p):
                q, r = self.divmod(self.poly(p), int(um))
                return zeq(self.z(r), num(0))
            return self.bool(ckey(self.A, c))
        raise Undecided('cond ' + str(k))
