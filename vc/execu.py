"""Symbolic execution of LLVM IR into verification conditions."""
import re, sys, time
from math import gcd
import numpy as np
import z3
from llparse import Unsupported
from sym import *
from solver import PathSolver

sys.setrecursionlimit(10000)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off      # off: poly

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class IntV:
    __slots__ = ('p', 'n', 'mul', 'rng')

    def __init__(self, p, n, mul=None, rng=None):
        self.p, self.n, self.mul = p, n, mul     # mul=(X, c): value is X*c mod 2^n
        self.rng = rng                           # proven bounds of the polynomial p itself


class CondV:
    __slots__ = ('c',)
    n = 1

    def __init__(self, c):
        self.c = c


class UndefV:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


class Concat:
    """byte pieces: list of (offset, size, value)"""
    __slots__ = ('pieces', 'n')

    def __init__(self, pieces, n):
        self.pieces, self.n = pieces, n


class Agg:
    __slots__ = ('el',)

    def __init__(self, el):
        self.el = el


LOOPG = 20
import os
DECHARD = True
NULL = Ptr('null', {})


class Frame:
    __slots__ = ('fn', 'block', 'ip', 'prev', 'regs', 'dest', 'rty', 'cont', 'allocas', 'onret', 'visits')

    def __init__(self):
        self.visits = {}

    def copy(self):
        f = Frame()
        f.fn, f.block, f.ip, f.prev, f.dest, f.rty, f.cont = self.fn, self.block, self.ip, self.prev, self.dest, self.rty, self.cont
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.onret = self.onret
        f.visits = dict(self.visits)
        return f


class State:
    __slots__ = ('frames', 'mem', 'path', 'mask', 'nobj', 'steps', 'ret', 'objsize', 'trace', 'ghost')

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.objsize = dict(self.objsize)
        s.path = list(self.path)
        s.mask = self.mask
        s.nobj = self.nobj
        s.steps = self.steps
        s.ret = None
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        return s


class Fork(Exception):
    """raised inside an instruction: re-execute the instruction in each of the
    given refined states"""

    def __init__(self, states):
        self.states = states


class PathAbort(Exception):
    """the path ended in a failed obligation (already recorded)"""


class Obl:
    __slots__ = ('name', 'ok', 'how', 'info')

    def __init__(self, name, ok, how, info=None):
        self.name, self.ok, self.how, self.info = name, ok, how, info


class Exec:
    def __init__(self, mod, A, ncases, contracts=None, ghost=None, timeout=600, max_steps=200000, max_paths=20000):
        self.mod, self.A, self.n = mod, A, ncases
        self.contracts = contracts or {}
        self.ghost = ghost
        self.sol = PathSolver(A, ghost, timeout)
        self.obls = []
        self.oblcount = {}
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.failed = []
        self.inlined = set()
        self.used_contracts = {}
        self.gcache = {}
        self.full = np.arange(ncases)
        self.demangle = {}
        self.paths = 0
        self.readonly_check = True
        self.prove_hook = None
        self.modinfo = {}
        self.forklog = None
        self.deadline = None

    # ---- obligations --------------------------------------------------------
    def obl(self, st, kind, cond, note=''):
        """record obligation cond (must hold on st's path)"""
        name = self.where(st) + ':' + kind + (':' + note if note else '')
        ok, how, info = self.prove(st, cond)
        self.oblcount[how] = self.oblcount.get(how, 0) + 1
        self.obls.append((name, ok, how))
        if not ok:
            self.failed.append(Obl(name, False, how, info))
        return ok

    def count(self, how, k=1):
        self.oblcount[how] = self.oblcount.get(how, 0) + k

    def where(self, st):
        f = st.frames[-1] if st.frames else None
        if f is None:
            return 'ret'
        ins = None
        b = f.fn.blocks[f.block]
        if f.ip < len(b):
            ins = b[f.ip]
        return '%s:%s' % (self.dname(f.fn.name), ins.line if ins is not None else '?')

    def dname(self, n):
        return self.demangle.get(n, n)

    def prove(self, st, cond):
        """-> (ok, how, info)"""
        c = self.simp(cond, st.mask)
        leaf = self.vc_leaf(c) if c[0] != 'vc' else None
        if leaf is not None:
            # case-dependent condition: prove it for each kind of case
            how = 'arith'
            for m in self.submask(st, leaf[1]):
                r = self.prove(self.with_mask(st, m), c)
                if not r[0]:
                    return r
                how = r[1] if r[1] != 'arith' else how
            return True, how, None
        if c == TRUE:
            return True, 'arith', None
        if c == FALSE:
            # path may be infeasible
            self.sol.sync(st.path)
            r = self.sol.check()
            if r != z3.unsat and self.ghost is not None and len(st.mask) == 1:
                r = self.sol.check1(self.ghost.yb, self.ghost.linkbool(st.mask[0]))
            if r == z3.unsat:
                return True, 'z3', None
            if self.prove_hook is not None:
                return self.prove_hook(self, st, c)
            if len(st.mask) > 1:
                return self.halves(st, c)
            return False, 'z3', (st.mask, self.model(r))
        self.sol.sync(st.path)
        self.sol.push()
        try:
            self.sol.s.add(z3.Not(self.sol.cond(c)))
            r = self.sol.check()
            if r != z3.unsat and self.ghost is not None and len(st.mask) == 1:
                r = self.sol.check1(self.ghost.yb, self.ghost.linkbool(st.mask[0]))
            m = self.model(r) if r != z3.unsat and len(st.mask) == 1 else None
        finally:
            self.sol.pop()
        if r == z3.unsat:
            return True, 'z3', None
        if self.prove_hook is not None:
            return self.prove_hook(self, st, c)
        if len(st.mask) > 1:
            return self.halves(st, cond)
        return False, 'z3', (st.mask, m)

    def halves(self, st, cond):
        """case by case (halving)"""
        h = len(st.mask) // 2
        for m in (st.mask[:h], st.mask[h:]):
            r = self.prove(self.with_mask(st, m), cond)
            if not r[0]:
                return r
        return True, 'z3', None

    def model(self, r):
        if r != z3.sat:
            return 'solver: ' + str(r)
        m = self.sol.last.model()
        out = {}
        for d in m.decls():
            if d.arity() == 0 and not str(d.name()).startswith(('q', 'm', 'b')):
                out[str(d.name())] = str(m[d])[:130]
        return out

    # ---- cond simplification --------------------------------------------------
    def simp(self, c, mask):
        k = c[0]
        if k == 'c':
            return c
        if k == 'ge':
            p = c[1]
            lo, hi = pbounds(self.A, p)
            if amin(lo, mask) >= 0:
                return TRUE
            if amax(hi, mask) < 0:
                return FALSE
            if is_const(p):
                v = const_of(p)
                return self.simp(('vc', self.boolvec(v, mask, lambda x: x >= 0)), mask)
            r = self.ge_rules(p, mask)
            return c if r is None else self.simp(r, mask)
        if k == 'eq':
            p = c[1]
            lo, hi = pbounds(self.A, p)
            if amin(lo, mask) > 0 or amax(hi, mask) < 0:
                return FALSE
            if not p:
                return TRUE
            if is_const(p):
                v = const_of(p)
                u = vec_uniform(v, mask)
                if u is not None:
                    return TRUE if u == 0 else FALSE
                return self.simp(('vc', self.boolvec(v, mask, lambda x: x == 0)), mask)
            if isvec(lo) or isvec(hi):
                # per case impossible?
                if all((lo[i] if isvec(lo) else lo) > 0 or (hi[i] if isvec(hi) else hi) < 0 for i in mask):
                    return FALSE
            r = self.mod0_rule(p, mask)
            if r is not None:
                return self.simp(r, mask)
            import math
            g = 0
            ok = True
            for m, cc in p.items():
                if m:
                    if isvec(cc):
                        cc = vec_uniform(cc, mask)
                        if cc is None:
                            ok = False
                            break
                    g = math.gcd(g, cc)
            if ok and g > 1:
                c0 = p.get((), 0)
                r = vecmap(lambda x: x % g, mask, c0)
                if not isvec(r):
                    if r != 0:
                        return FALSE
                else:
                    if all(r[i] != 0 for i in mask):
                        return FALSE
            return c
        if k == 'vc':
            v = c[1]
            t = [bool(v[i]) for i in mask]
            if all(t):
                return TRUE
            if not any(t):
                return FALSE
            return c
        if k == 'not':
            return cnot(self.simp(c[1], mask))
        if k == 'and':
            a = self.simp(c[1], mask)
            if a == FALSE:
                return FALSE
            return cand(a, self.simp(c[2], mask))
        if k == 'or':
            a = self.simp(c[1], mask)
            if a == TRUE:
                return TRUE
            return cor(a, self.simp(c[2], mask))
        if k == 'dvd':
            p, m = c[1], c[2]
            if is_const(p):
                v = vecmap(lambda x, y: int(x % y == 0), mask, const_of(p), m)
                if isvec(v):
                    return self.simp(('vc', v.astype(bool)), mask)
                return TRUE if v else FALSE
            um = vec_uniform(m, mask)
            if um == 1:
                return TRUE
            lo, hi = pbounds(self.A, p)
            if all((lo[i] if isvec(lo) else lo) > 0 and (hi[i] if isvec(hi) else hi) < (m[i] if isvec(m) else m) for i in mask):
                return FALSE
            if um is not None and not isvec(lo) and not isvec(hi) and hi // um == -(-lo // um):
                # exactly one multiple in reach
                return self.simp(('eq', psub(p, pconst(hi // um * um))), mask)
            if all(vec_uniform(vecmap(lambda x, y: x % y, mask, cc, m), mask) == 0 for cc in p.values()):
                return TRUE
            return c
        return c

    def same(self, c, d, mask):
        return vec_uniform(vecmap(lambda a, b: a - b, mask, c, d), mask) == 0

    def mod0_rule(self, p, mask):
        """r - m*floor(r/m) == 0  <=>  m | r"""
        for sgn in (1, -1):
            for mon, c in p.items():
                if len(mon) == 1 and self.A.kind[mon[0]][0] == 'div':
                    _, r, m = self.A.kind[mon[0]]
                    if self.same(c * sgn, -1 * m, mask):
                        rest = dict(p)
                        del rest[mon]
                        d = psub(pscale(rest, sgn), r)
                        if self.pzero(d, mask):
                            return ('dvd', r, m)
        return None

    def pzero(self, d, mask):
        return all(vec_uniform(c, mask) == 0 for c in d.values())

    def ge_rules(self, p, mask):
        A = self.A
        if len(p) <= 2:
            # comparisons of a trailing-zero count with a constant
            for mon, c in p.items():
                if len(mon) == 1 and A.kind[mon[0]][0] == 'cttz' and not isvec(c) and c in (1, -1):
                    X, N = A.kind[mon[0]][1], A.hi[mon[0]]
                    k = p.get((), 0)
                    if len(p) == 2 and () not in p:
                        continue
                    if c == 1:      # tz >= -k
                        k = 0 - k
                        neg = False
                    else:           # tz <= k  <=> not tz >= k+1
                        k = k + 1
                        neg = True
                    # tz >= k
                    v = vecmap(lambda x: int(x <= 0), mask, k)
                    big = vecmap(lambda x: int(x > N), mask, k)
                    m = vecmap(lambda x: 1 << min(max(x, 0), N), mask, k)
                    r = ('dvd', X, m)
                    r = cor(self.vcond(v), cand(cnot(self.vcond(big)), r))
                    return cnot(r) if neg else r
        # (c*X mod 2^N) <= M   (Granlund-Montgomery)
        for mon, cf in p.items():
            if len(mon) == 1 and mon[0] in self.modinfo and A.kind[mon[0]][0] == 'div':
                X, c, M2 = self.modinfo[mon[0]]
                _, r, m = A.kind[mon[0]]
                for sgn in (1, -1):
                    if not self.same(cf * sgn, M2, mask):
                        continue
                    rest = dict(p)
                    del rest[mon]
                    lo, hi = pbounds(A, X)
                    if amin(lo, mask) < 0 or amax(hi, mask) > M2:
                        continue
                    # w = r - M2*atom is the value X*c mod 2^N; p = K - sgn*w
                    K = padd(rest, pscale(r, sgn))
                    if not is_const(K):
                        continue
                    K = const_of(K)
                    d = vecmap(lambda x: pow(x, -1, M2), mask, c)
                    if sgn == 1:    # w <= K
                        bound = K
                        neg = False
                    else:           # K + w >= 0 <=> not (w <= -K-1)
                        bound = vecmap(lambda x: -x - 1, mask, K)
                        neg = True
                    if any((bound[i] if isvec(bound) else bound) < 0 for i in mask):
                        continue
                    ok = vecmap(lambda dd, b: int(dd * b < M2), mask, d, bound)
                    if vec_uniform(ok, mask) != 1:
                        continue
                    top = vecmap(lambda dd, b: dd * (b + 1) - 1, mask, d, bound)
                    res = cand(('dvd', X, d), ('ge', psub(pconst(top), X)))
                    if amax(hi, mask) == M2:
                        res = cor(('eq', psub(X, pconst(M2))), res)
                    return cnot(res) if neg else res
        return None

    def vcond(self, v):
        if isvec(v):
            return ('vc', v.astype(bool))
        return TRUE if v else FALSE

    def boolvec(self, v, mask, f):
        out = np.zeros(self.n, dtype=bool)
        for i in mask:
            out[i] = f(v[i] if isvec(v) else v)
        return out

    def vc_leaf(self, c):
        if c[0] == 'vc':
            return c
        if c[0] in ('and', 'or'):
            return self.vc_leaf(c[1]) or self.vc_leaf(c[2])
        if c[0] == 'not':
            return self.vc_leaf(c[1])
        return None

    def submask(self, st, boolarr):
        t = np.array([i for i in st.mask if boolarr[i]], dtype=int)
        f = np.array([i for i in st.mask if not boolarr[i]], dtype=int)
        return t, f

    def with_mask(self, st, mask):
        s = st.copy()
        s.mask = mask
        s.path.append(('mask', mask))
        return s

    def with_cond(self, st, c, prune=False):
        s = st.copy()
        if prune and c[0] == 'ge':
            # cases in which c cannot hold
            lo, hi = pbounds_tv(self.A, c[1])
            if isvec(hi):
                m = np.array([i for i in st.mask if hi[i] >= 0], dtype=int)
                if len(m) < len(st.mask):
                    s.mask = m
                    s.path.append(('mask', m))
                    if not len(m):
                        return s
        s.path.append(('cond', c))
        return s

    def split_cases(self, st, fn):
        """fork st by the value of fn(case)"""
        groups = {}
        for i in st.mask:
            groups.setdefault(fn(i), []).append(i)
        if len(groups) == 1:
            return next(iter(groups))
        raise Fork([self.with_mask(st, np.array(g, dtype=int)) for g in groups.values()])

    def decide(self, st, c):
        """Decide condition c on st: returns True/False, or raises Fork."""
        c = self.simp(c, st.mask)
        if c[0] == 'c':
            return c[1]
        leaf = self.vc_leaf(c)
        if leaf is not None:
            t, f = self.submask(st, leaf[1])
            assert len(t) and len(f)
            raise Fork([self.with_mask(st, t), self.with_mask(st, f)])
        self.sol.sync(st.path)
        zc = self.sol.cond(c)
        self.sol.hard = DECHARD
        rt = self.sol.check(zc)
        rf = self.sol.check(z3.Not(zc))
        self.sol.hard = True
        if rt == z3.unsat and rf == z3.unsat:
            raise Fork([])
        if rt == z3.unsat:
            return False
        if rf == z3.unsat:
            return True
        raise Fork([self.with_cond(st, c, True), self.with_cond(st, cnot(c), True)])

    def feasible(self, st):
        self.sol.sync(st.path)
        return self.sol.check() != z3.unsat

    # ---- canonical representatives -----------------------------------------
    def reduce(self, p, N, mask):
        """drop terms that are 0 mod 2^N"""
        M = 1 << N
        r = {}
        for m, c in p.items():
            if isvec(c):
                if all(c[i] % M == 0 for i in mask):
                    continue
                if not m:
                    c = vecmap(lambda x: x % M, mask, c)
            else:
                if c % M == 0:
                    continue
                if not m:
                    c = c % M
                elif abs(c) >= M:
                    c = c % M
                    if c >= M // 2:
                        c -= M
            r[m] = c
        return r

    def canon_u(self, st, v, N=None):
        if isinstance(v, IntV):
            if v.rng is not None and v.rng[0] >= 0 and v.rng[1] < (1 << v.n):
                return v.p
            return self.canon(st, v.p, v.n, v.mul, v.rng)
        elif isinstance(v, CondV):
            return self.boolpoly(st, v.c)
        else:
            p = self.toint(st, v).p
            N = N or v.n
        return self.canon(st, p, N)

    def canon(self, st, p, N, mul=None, rng=None):
        M = 1 << N
        mask = st.mask
        lo, hi = pbounds(self.A, p)
        if not isvec(lo) and not isvec(hi) and lo >= 0 and hi < M:
            return p
        if amin(lo, mask) >= 0 and amax(hi, mask) < M:
            return p
        p0 = p
        p = self.reduce(p, N, mask)
        if is_const(p):
            return p
        if p.keys() == p0.keys() and not any(isvec(c) for c in p.values()) and not any(isvec(c) for c in p0.values()) and p == p0:
            p = p0
        lo, hi = pbounds(self.A, p)
        wl = vecmap(lambda a: a // M, mask, lo)
        wh = vecmap(lambda a: a // M, mask, hi)
        d = vecmap(lambda a, b: b - a, mask, wl, wh)
        if isvec(wl) and isvec(d) is False and d == 0:
            wl = self.split_windows(st, wl)
        if not isvec(d) and d == 0:
            return psub(p, pconst(wl * M))
        tl, th = pbounds_tight(self.A, p, mask)
        if rng is not None and p is p0:
            tl, th = max(tl, rng[0]), min(th, rng[1])
        if tl // M == th // M:
            return psub(p, pconst(tl // M * M))
        # ask the solver
        self.sol.sync(st.path)
        ul, uh = tl // M, th // M
        if uh - ul <= 6 and self.sol.translatable(p):
            zp = self.sol.zpoly(p)
            feas = []
            for w in range(ul, uh + 1):
                if self.sol.check(zp >= w * M, zp < (w + 1) * M) != z3.unsat:
                    feas.append(w)
                    if len(feas) > 1:
                        break
            if len(feas) == 1:
                return psub(p, pconst(feas[0] * M))
            if not feas:
                raise Fork([])
        d = self.mkdiv(st, p, M, rng if p is p0 else None)
        if mul is not None:
            for mon in d:
                if len(mon) == 1:
                    k = self.A.kind[mon[0]]
                    if k[0] == 'div':
                        self.modinfo[mon[0]] = mul + (M,)
        return psub(p, pscale(d, M))

    def split_windows(self, st, w):
        """cases whose value wraps differently are separated (most are infeasible)"""
        return self.split_cases(st, lambda i: w[i] if isvec(w) else w)

    def canon_s(self, st, v):
        N = v.n
        if isinstance(v, IntV):
            p = v.p
        else:
            p = self.toint(st, v).p
        H = 1 << (N - 1)
        if isinstance(v, IntV) and v.rng is not None and v.rng[0] >= -H and v.rng[1] < H:
            return p
        return psub(self.canon(st, padd(p, pconst(H)), N), pconst(H))

    def rng(self, st, v):
        lo, hi = pbounds(self.A, v.p)
        lo, hi = amin(lo, st.mask), amax(hi, st.mask)
        if v.rng is not None:
            lo, hi = max(lo, v.rng[0]), min(hi, v.rng[1])
        return lo, hi

    def urange(self, st, v):
        """bounds of canon_u(v)"""
        if isinstance(v, IntV):
            lo, hi = self.rng(st, v)
            if lo >= 0 and hi < (1 << v.n):
                return lo, hi
        return 0, (1 << v.n) - 1

    def boolpoly(self, st, c):
        c = self.simp(c, st.mask)
        if c[0] == 'c':
            return pconst(1 if c[1] else 0)
        if c[0] == 'vc':
            return pconst(mkvec([int(x) for x in c[1]]))
        if c[0] == 'ge':
            p = c[1]
            for mon, k in p.items():
                if len(mon) == 1 and self.A.lo[mon[0]] is not None:
                    a = mon[0]
                    al, ah = self.A.lo[a], self.A.hi[a]
                    if isvec(al) or isvec(ah) or al != 0 or ah != 1:
                        continue
                    rest = dict(p)
                    del rest[mon]
                    l0, h0 = pbounds_tight(self.A, rest, st.mask)
                    l1, h1 = l0 + amin(k, st.mask), h0 + amax(k, st.mask)
                    if h0 < 0 and l1 >= 0:
                        return patom(a)
                    if l0 >= 0 and h1 < 0:
                        return psub(pconst(1), patom(a))
            r = self.carry_rule(st, p)
            if r is not None:
                return r
        a = self.A.get(('bool', ckey(self.A, c)), ('bool', c), 0, 1)
        return patom(a)

    def carry_rule(self, st, p):
        """[p >= 0] = a - b for quotient atoms a, b with a - b in {0,1}"""
        A = self.A
        for mon, k in p.items():
            if len(mon) != 1 or A.kind[mon[0]][0] != 'div' or isvec(k):
                continue
            a = mon[0]
            ra, ma = A.kind[a][1:]
            if isvec(ma):
                continue
            for b in range(len(A.kind)):
                kb = A.kind[b]
                if b == a or kb[0] != 'div' or isvec(kb[2]) or ma % kb[2] or not (set(kb[1]) & set(ra) - {()}):
                    continue
                d = {(a,): ma, (b,): -ma}
                lo, hi = pbounds_tight(A, d, st.mask)
                if -(-lo // ma) < 0 or hi // ma > 1:
                    continue
                rest = dict(p)
                del rest[mon]
                rest = padd(rest, {(b,): k})
                l, h = pbounds_tight(A, rest, st.mask)
                if h < 0 and l + k >= 0:
                    return {(a,): 1, (b,): -1}
                if l >= 0 and h + k < 0:
                    return {(): 1, (a,): -1, (b,): 1}
        return None

    def toint(self, st, v):
        if isinstance(v, IntV):
            return v
        if isinstance(v, CondV):
            return IntV(self.boolpoly(st, v.c), 1)
        if isinstance(v, Concat):
            p = {}
            for off, size, x in v.pieces:
                if isinstance(x, Ptr):
                    raise Unsupported('pointer bytes used as integer')
                q = self.canon_u(st, x)
                p = padd(p, pscale(q, 1 << (8 * off)))
            return IntV(p, v.n)
        if isinstance(v, UndefV):
            self.obl(st, 'use-of-uninitialised-value', FALSE)
            raise PathAbort()
        raise Unsupported('integer expected, got %r' % (v,))

    def tocond(self, st, v):
        if isinstance(v, CondV):
            return v.c
        if isinstance(v, UndefV):
            self.obl(st, 'use-of-uninitialised-value', FALSE)
            raise PathAbort()
        p = self.canon_u(st, v)
        return self.ne0(st, p)

    def ne0(self, st, p):
        """condition p != 0 for p known in {0,1}"""
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and not isvec(c) and c == 1 and self.A.kind[m[0]][0] == 'bool':
                return self.A.kind[m[0]][1]
        if len(p) == 2 and () in p and not isvec(p[()]) and p[()] == 1:
            for m, c in p.items():
                if len(m) == 1 and not isvec(c) and c == -1 and self.A.kind[m[0]][0] == 'bool':
                    return cnot(self.A.kind[m[0]][1])
        return cnot(('eq', p))

    # ---- division -------------------------------------------------------------
    def mkdiv(self, st, p, m, rng=None):
        """floor(p/m) as a poly, m positive int or Vec"""
        mask = st.mask
        if not isvec(m) and m == 1:
            return p
        q = {}
        r = {}
        for mon, c in p.items():
            rem = vecmap(lambda a, b: a % b, mask, c, m)
            if not isvec(rem) and rem == 0:
                q[mon] = vecmap(lambda a, b: a // b, mask, c, m)
            else:
                r[mon] = c
        if is_const(r):
            c = vecmap(lambda a, b: a // b, mask, const_of(r), m)
            return padd(q, pconst(c))
        # reduce the constant term
        if () in r and not isvec(m) and not isvec(r[()]) and not (0 <= r[()] < m):
            k = r[()] // m
            q = padd(q, pconst(k))
            r = dict(r)
            r[()] -= k * m
            if r[()] == 0:
                del r[()]
        lo, hi = pbounds(self.A, r)
        wl = vecmap(lambda a, b: a // b, mask, lo, m)
        wh = vecmap(lambda a, b: a // b, mask, hi, m)
        d = vecmap(lambda a, b: b - a, mask, wl, wh)
        if not isvec(d) and d == 0:
            return padd(q, pconst(wl))
        if not isvec(m):
            tl, th = pbounds_tight(self.A, r, mask)
            if tl // m == th // m:
                return padd(q, pconst(tl // m))
        else:
            tl, th = pbounds_tv(self.A, r)
            m1 = vecmap(lambda x: max(x, 1), range(self.n), m)
            d = vecmap(lambda a, b, c: b // c - a // c, mask, tl, th, m1)
            if not isvec(d) and d == 0:
                return padd(q, pconst(vecmap(lambda a, c: a // c, mask, tl, m1)))
            lo, hi = vmax(lo, tl), vmin(hi, th)
        # nested powers of two: floor((a + floor(b/n))/m) = floor((a n + b)/(m n))
        if self.ispow2(m, mask):
            divs = [(mon[0], c) for mon, c in r.items() if len(mon) == 1 and self.A.kind[mon[0]][0] == 'div'
                    and not isvec(c) and c == 1 and self.ispow2(self.A.kind[mon[0]][2], mask)]
            if len(divs) == 1 and (is_const({k: v for k, v in r.items() if k != (divs[0][0],)})
                                   or not (isvec(m) or isvec(self.A.kind[divs[0][0]][2]))):
                a = divs[0][0]
                b, n = self.A.kind[a][1], self.A.kind[a][2]
                rest = dict(r)
                del rest[(a,)]
                num = padd(pscale(rest, n), b)
                res = self.mkdiv(st, num, m * n)
                # what is known about the inner quotient survives
                ats = [mon for mon in res if mon]
                if len(ats) == 1 and len(ats[0]) == 1 and not isvec(res[ats[0]]) and res[ats[0]] == 1:
                    n_ = range(self.n)
                    k = res.get((), 0)
                    m1 = vecmap(lambda x: max(x, 1), n_, m)
                    a = ats[0][0]
                    self.A.lo[a] = vmax(self.A.lo[a], vecmap(lambda x, y, z: x // y - z, n_, lo, m1, k))
                    self.A.hi[a] = vmin(self.A.hi[a], vecmap(lambda x, y, z: x // y - z, n_, hi, m1, k))
                return padd(q, res)
        # bounds of the atom: facts about floor(r/m) in every case, whatever the path
        if isvec(wl) or isvec(wh) or isvec(m) or isvec(lo) or isvec(hi):
            n = self.n
            m1 = vecmap(lambda x: max(x, 1), range(n), m)
            wl = vecmap(lambda a, b: a // b, range(n), lo, m1)
            wh = vecmap(lambda a, b: a // b, range(n), hi, m1)
        if not isvec(m):
            fl, fh = pbounds_tight(self.A, r, self.full)
            wl = vmax(wl, fl // m)
            wh = vmin(wh, fh // m)
        key = ('div', self.A.pkey(r), self.A.ckey(m))
        if rng is not None and not q and not isvec(m):
            # path-dependent bounds belong to an atom of their own
            w2l, w2h = rng[0] // m, rng[1] // m
            if w2l > amin(wl, st.mask) or w2h < amax(wh, st.mask):
                wl, wh = vmax(wl, w2l), vmin(wh, w2h)
                key += (w2l, w2h)
        a = self.A.get(key, ('div', r, m), wl, wh)
        return padd(q, patom(a))

    def ispow2(self, m, mask):
        if isvec(m):
            return all(m[i] & (m[i] - 1) == 0 for i in mask)
        return m & (m - 1) == 0

    # ---- bit operations ----------------------------------------------------------
    def band_const(self, st, p, c, N):
        """canonical p & c for constant int c"""
        res = {}
        b = 0
        c &= (1 << N) - 1
        while c >> b:
            if not (c >> b) & 1:
                b += 1
                continue
            e = b
            while (c >> e) & 1:
                e += 1
            lowq = self.mkdiv(st, p, 1 << b)
            if e >= N:
                part = lowq
            else:
                part = psub(lowq, pscale(self.mkdiv(st, p, 1 << e), 1 << (e - b)))
            res = padd(res, pscale(part, 1 << b))
            b = e
        return res

    def binop_bits(self, st, op, va, vb, N):
        if isinstance(va, CondV) or isinstance(vb, CondV) or N == 1:
            a, b = self.tocond(st, va), self.tocond(st, vb)
            return CondV({'and': cand, 'or': cor, 'xor': cxor}[op](a, b))
        pa, pb = self.canon_u(st, va), self.canon_u(st, vb)
        if is_const(pa) and not is_const(pb):
            pa, pb = pb, pa
        if is_const(pa) and is_const(pb):
            f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y}[op]
            return IntV(pconst(vecmap(f, st.mask, const_of(pa), const_of(pb))), N)
        if is_const(pb):
            c = const_of(pb)
            u = vec_uniform(c, st.mask)
            if u is None and op == 'and' and all((c[i] & (c[i] + 1)) == 0 for i in st.mask):
                m = vecmap(lambda x: x + 1, st.mask, c)
                return IntV(psub(pa, pscale(self.mkdiv(st, pa, m), m)), N)
            if u is None:
                # bits that can be set at all in pa?
                self.split_cases(st, lambda i: c[i])
            c = u
            x = self.band_const(st, pa, c, N)
        else:
            # disjoint supports?  or single-bit operands
            ba, bb = pbounds(self.A, pa), pbounds(self.A, pb)
            if amin(ba[0], st.mask) >= 0 and amax(ba[1], st.mask) <= 1 and amin(bb[0], st.mask) >= 0 and amax(bb[1], st.mask) <= 1:
                a, b = self.ne0(st, pa), self.ne0(st, pb)
                return IntV(self.boolpoly(st, {'and': cand, 'or': cor, 'xor': cxor}[op](a, b)), N)
            x = None
            for u, v in ((pa, pb), (pb, pa)):
                # u multiple of 2^t, v < 2^t
                vm = amax(pbounds(self.A, v)[1], st.mask)
                t = vm.bit_length()
                if all(all((cc[i] if isvec(cc) else cc) % (1 << t) == 0 for i in (st.mask if isvec(cc) else [0])) for cc in u.values()):
                    x = {}
                    break
            if x is None:
                raise Unsupported('bitwise %s of two symbolic values' % op)
            if op == 'and':
                return IntV({}, N)
            return IntV(padd(pa, pb), N)
        if op == 'and':
            return IntV(x, N)
        if op == 'or':
            return IntV(psub(padd(pa, pconst(c)), x), N)
        return IntV(psub(padd(pa, pconst(c)), pscale(x, 2)), N)

    def concretize(self, st, p, limit=80):
        """int value of p, forking over all feasible values"""
        if is_const(p):
            u = vec_uniform(const_of(p), st.mask)
            if u is not None:
                return u
            return self.split_cases(st, lambda i: const_of(p)[i])
        self.sol.sync(st.path)
        zp = self.sol.zpoly(p)
        vals = []
        self.sol.push()
        try:
            while True:
                r = self.sol.check()
                if r == z3.unsat:
                    break
                if r == z3.unknown or len(vals) >= limit:
                    raise Unsupported('cannot enumerate values')
                v = self.sol.s.model().eval(zp, model_completion=True).as_long()
                vals.append(v)
                self.sol.s.add(zp != v)
        finally:
            self.sol.pop()
        if len(vals) == 1:
            return vals[0]
        raise Fork([self.with_cond(st, ('eq', psub(p, pconst(v)))) for v in vals])

    # ---- memory -----------------------------------------------------------------
    def new_obj(self, st, size, name='a'):
        o = '%s%d' % (name, st.nobj)
        st.nobj += 1
        st.mem[o] = {}
        st.objsize[o] = size
        return o

    def global_cells(self, g):
        if g not in self.gcache:
            ty, cells, const = self.mod.global_init(g)
            cells = {o: (s, v) for o, (s, v) in cells.items()}
            self.gcache[g] = (self.mod.size(ty), cells, const)
        return self.gcache[g]

    def conv_global(self, size, v):
        if isinstance(v, tuple):
            return Ptr(('g', v[1]), pconst(v[2]))
        return IntV(pconst(v), 8 * size)

    def off_int(self, st, p):
        if is_const(p):
            return vec_uniform(const_of(p), st.mask)
        return None

    def check_bounds(self, st, ptr, size, what):
        if ptr.obj == 'null':
            self.obl(st, what + '-null-pointer', FALSE)
            raise PathAbort()
        if isinstance(ptr.obj, tuple):
            osz = self.global_cells(ptr.obj[1])[0]
        else:
            if ptr.obj not in st.objsize:
                raise Unsupported('dangling object')
            osz = st.objsize[ptr.obj]
        if osz is None:
            return
        c = cand(('ge', ptr.off), ('ge', psub(pconst(osz - size), ptr.off)))
        c = self.simp(c, st.mask)
        if c == TRUE:
            self.count('arith')
            return
        if not self.obl(st, what + '-out-of-bounds', c):
            raise PathAbort()

    def load(self, st, ptr, size):
        """value of `size` bytes"""
        self.check_bounds(st, ptr, size, 'read')
        o = self.off_int(st, ptr.off)
        if isinstance(ptr.obj, tuple):
            osz, cells, const = self.global_cells(ptr.obj[1])
            if not const and ptr.obj in st.mem:
                cells = st.mem[ptr.obj]
                return self.load_cells(st, cells, o, size)
            if o is not None:
                if o in cells and cells[o][0] == size:
                    return self.conv_global(*cells[o])
                return self.load_cells(st, {k: (s, self.conv_global(s, v)) for k, (s, v) in cells.items() if o - 16 < k < o + size}, o, size)
            if is_const(ptr.off):
                return self.load_vec(st, cells, const_of(ptr.off), size)
            return self.load_table(st, ptr, cells, size)
        if o is None:
            if is_const(ptr.off):
                off = const_of(ptr.off)
                o = self.split_cases(st, lambda i: off[i])
            else:
                o = self.concretize(st, ptr.off)
        return self.load_cells(st, st.mem[ptr.obj], o, size)

    def load_vec(self, st, cells, off, size):
        """constant table, per-case offset"""
        # piece layout relative to offset must agree
        def layout(o):
            out = []
            k = 0
            while k < size:
                c = cells.get(o + k)
                if c is None or k + c[0] > size:
                    return None
                out.append((k, c[0]))
                k += c[0]
            return tuple(out)
        lays = {}
        for i in st.mask:
            lays.setdefault(layout(off[i]), []).append(i)
        if len(lays) > 1 or None in lays:
            raise Unsupported('table layout')
        lay = next(iter(lays))
        pieces = []
        for k, s in lay:
            v = vecmap(lambda o: cells[o + k][1], st.mask, off)
            pieces.append((k, s, IntV(pconst(v), 8 * s)))
        if len(pieces) == 1:
            return pieces[0][2]
        return Concat(pieces, 8 * size)

    def load_table(self, st, ptr, cells, size):
        """constant table at a symbolic offset over few small-range atoms"""
        r = self.digit_table(st, ptr, cells, size)
        if r is not None:
            return r
        atoms = sorted({a for m in ptr.off for a in m})
        rng = [(amin(self.A.lo[a], st.mask), amax(self.A.hi[a], st.mask)) for a in atoms]
        tot = 1
        for l, h in rng:
            tot *= h - l + 1
        if tot > 2000 or any(isvec(c) for c in ptr.off.values()):
            o = self.concretize(st, ptr.off, 2100)
            return self.load_cells(st, {k: (s, self.conv_global(s, v)) for k, (s, v) in cells.items()}, o, size)
        import itertools
        tab = {}
        for vals in itertools.product(*[range(l, h + 1) for l, h in rng]):
            env = dict(zip(atoms, vals))
            o = 0
            for m, c in ptr.off.items():
                t = c
                for a in m:
                    t *= env[a]
                o += t
            v = cells.get(o)
            tab[vals] = None if v is None or v[0] != size else v[1]
        # affine fit
        base = tuple(l for l, h in rng)
        b0 = tab[base]
        coef = []
        ok = b0 is not None
        if ok:
            for j, (l, h) in enumerate(rng):
                if h > l:
                    nb = list(base)
                    nb[j] += 1
                    x = tab[tuple(nb)]
                    if x is None:
                        ok = False
                        break
                    coef.append(x - b0)
                else:
                    coef.append(0)
        if ok:
            for vals, v in tab.items():
                if v != b0 + sum(k * (x - l) for k, x, l in zip(coef, vals, base)):
                    ok = False
                    break
        if ok:
            p = pconst(b0 - sum(k * l for k, l in zip(coef, base)))
            for k, a in zip(coef, atoms):
                p = padd(p, pscale(patom(a), k))
            return IntV(p, 8 * size)
        # not affine on the bounding box: fork on all atoms
        for a in atoms:
            self.concretize(st, patom(a), 2100)
        o = self.concretize(st, ptr.off, 2100)
        return self.load_cells(st, {k: (s, self.conv_global(s, v)) for k, (s, v) in cells.items()}, o, size)

    def digit_table(self, st, ptr, cells, size):
        """byte tables: offset g*c + r; every byte read, as a function of c over its
        whole range, is looked up in the initialiser and expressed as
        const + floor(c/m1) mod m2"""
        off = ptr.off
        if size > 8 or any(isvec(c) for c in off.values()):
            return None
        co = [abs(c) for m, c in off.items() if m]
        if not co:
            return None
        g = 0
        for c in co:
            g = gcd(g, c)
        r = off.get((), 0) % g
        c = {m: (x - (r if not m else 0)) // g for m, x in off.items()}
        c = {m: x for m, x in c.items() if x}
        b = pbounds_tight(self.A, c, st.mask)
        lo, hi = amin(b[0], st.mask), amax(b[1], st.mask)
        if hi - lo > 1100 or lo < 0:
            return None
        pieces = []
        for k in range(size):
            T = []
            for v in range(lo, hi + 1):
                x = cells.get(g * v + r + k)
                if x is None or x[0] != 1 or isinstance(x[1], tuple):
                    return None
                T.append(x[1] % 256)
            fit = None
            for m1 in (1, 10, 100, 1000):
                for m2 in (None, 10, 100):
                    f = lambda v: (v // m1) if m2 is None else (v // m1) % m2
                    d = T[0] - f(lo)
                    if all(t == d + f(v) for t, v in zip(T, range(lo, hi + 1))):
                        fit = (m1, m2, d)
                        break
                if fit:
                    break
            if fit is None:
                if len(set(T)) == 1:
                    p = pconst(T[0])
                else:
                    # no closed form: some byte of the table
                    key = ('tab', ptr.obj, self.A.pkey(off), k)
                    p = patom(self.A.get(key, ('var', 'table%d' % len(self.A.kind)), min(T), max(T)))
            else:
                m1, m2, d = fit
                p = self.mkdiv(st, c, m1) if m1 > 1 else c
                if m2:
                    p = psub(p, pscale(self.mkdiv(st, c, m1 * m2), m2))
                p = padd(p, pconst(d))
            self.count('arith')
            pieces.append((k, 1, IntV(p, 8, None, (min(T), max(T)))))
        return pieces[0][2] if size == 1 else Concat(pieces, 8 * size)

    def load_cells(self, st, cells, o, size):
        c = cells.get(o)
        if c is not None and c[0] == size:
            return c[1]
        pieces = []
        k = o
        while k < o + size:
            c = cells.get(k)
            if c is not None and k + c[0] <= o + size:
                pieces.append((k - o, c[0], c[1]))
                k += c[0]
                continue
            # overlapping piece?
            hit = None
            for k2, (s2, v2) in cells.items():
                if k2 < o + size and k2 + s2 > k and k2 <= k:
                    hit = (k2, s2, v2)
                    break
            if hit is None:
                pieces.append((k - o, 1, UndefV(8)))
                k += 1
                continue
            k2, s2, v2 = hit
            e = min(o + size, k2 + s2)
            pieces.append((k - o, e - k, self.subval(st, v2, k - k2, e - k)))
            k = e
        # flatten
        if len(pieces) == 1 and pieces[0][0] == 0 and pieces[0][1] == size:
            return pieces[0][2]
        if all(isinstance(x[2], UndefV) for x in pieces):
            return UndefV(8 * size)
        return Concat(pieces, 8 * size)

    def subval(self, st, v, off, size):
        if isinstance(v, UndefV):
            return UndefV(8 * size)
        if isinstance(v, Concat):
            cells = {o: (s, x) for o, s, x in v.pieces}
            return self.load_cells(st, cells, off, size)
        if isinstance(v, Ptr):
            raise Unsupported('partial pointer')
        p = self.canon_u(st, v)
        q = self.mkdiv(st, p, 1 << (8 * off))
        if off * 8 + size * 8 < v.n:
            q = psub(q, pscale(self.mkdiv(st, p, 1 << (8 * (off + size))), 1 << (8 * size)))
        return IntV(q, 8 * size)

    def store(self, st, ptr, size, v):
        self.check_bounds(st, ptr, size, 'write')
        o = self.off_int(st, ptr.off)
        if o is None:
            if is_const(ptr.off):
                off = const_of(ptr.off)
                o = self.split_cases(st, lambda i: off[i])
            else:
                o = self.concretize(st, ptr.off)
        if isinstance(ptr.obj, tuple):
            if self.global_cells(ptr.obj[1])[2]:
                self.obl(st, 'write-to-constant', FALSE)
                raise PathAbort()
            raise Unsupported('write to global')
        cells = dict(st.mem[ptr.obj])
        self.clear(st, cells, o, size)
        if isinstance(v, Concat):
            for k, s, x in v.pieces:
                cells[o + k] = (s, x)
        elif not isinstance(v, UndefV):
            cells[o] = (size, v)
        st.mem[ptr.obj] = cells
        return o

    def clear(self, st, cells, o, size):
        for k2 in list(cells):
            s2, v2 = cells[k2]
            if k2 < o + size and k2 + s2 > o:
                del cells[k2]
                if k2 < o:
                    cells[k2] = (o - k2, self.subval(st, v2, 0, o - k2))
                if k2 + s2 > o + size:
                    cells[o + size] = (k2 + s2 - o - size, self.subval(st, v2, o + size - k2, k2 + s2 - o - size))

    def memcpy(self, st, dst, src, size):
        if size == 0:
            return
        v = self.load(st, src, size)
        self.store(st, dst, size, v)

    # ---- operands -------------------------------------------------------------------
    def val(self, st, ty, o):
        k = o[0]
        if k == 'l':
            try:
                return st.frames[-1].regs[o[1]]
            except KeyError:
                raise Unsupported('undefined register ' + o[1])
        if k == 'c':
            if ty[0] == 'i':
                if ty[1] == 1:
                    return CondV(TRUE if o[1] & 1 else FALSE)
                return IntV(pconst(o[1] % (1 << ty[1])), ty[1])
            if ty[0] == 'f':
                return IntV(pconst(o[1]), ty[1])
            raise Unsupported('const of type %s' % (ty,))
        if k == 'g':
            return Ptr(('g', o[1]), {})
        if k == 'undef':
            if ty[0] == 'struct':
                return Agg([self.val(st, e, o) for e in ty[1]])
            if ty[0] == 'arr':
                return Agg([self.val(st, ty[2], o) for _ in range(ty[1])])
            return UndefV(8 * self.mod.size(ty) if ty[0] != 'i' else ty[1])
        if k == 'zero':
            if ty[0] == 'ptr':
                return NULL
            if ty[0] == 'struct':
                return Agg([self.val(st, e, o) for e in ty[1]])
            if ty[0] == 'arr':
                return Agg([self.val(st, ty[2], o) for _ in range(ty[1])])
            if ty == ('i', 1):
                return CondV(FALSE)
            return IntV({}, ty[1])
        if k == 'cgep':
            base = self.val(st, ('ptr',), o[2])
            return self.gep(st, o[1], base, [(t, self.val(st, t, x)) for t, x in o[3]])
        if k == 'agg':
            return Agg([self.val(st, t, x) for t, x in o[1]])
        raise Unsupported('operand ' + str(o))

    def gep(self, st, bty, base, idx):
        if not isinstance(base, Ptr):
            if isinstance(base, UndefV):
                self.obl(st, 'use-of-uninitialised-value', FALSE)
                raise PathAbort()
            raise Unsupported('gep base')
        off = base.off
        ty = bty
        first = True
        for ity, v in idx:
            p = self.canon_s(st, v)
            if first:
                off = padd(off, pscale(p, self.mod.size(ty)))
                first = False
                continue
            if ty[0] == 'struct':
                j = const_of(p)
                off = padd(off, pconst(self.mod.field_off(ty, j)))
                ty = ty[1][j]
            elif ty[0] == 'arr':
                ty = ty[2]
                off = padd(off, pscale(p, self.mod.size(ty)))
            else:
                raise Unsupported('gep type')
        return Ptr(base.obj, off)

    def icmp(self, st, pred, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and pred in ('eq', 'ne'):
                if a.obj != b.obj:
                    r = FALSE
                else:
                    r = ('eq', psub(a.off, b.off))
                return r if pred == 'eq' else cnot(r)
            raise Unsupported('pointer comparison')
        if isinstance(a, CondV) and isinstance(b, CondV) and pred in ('eq', 'ne'):
            x = cxor(a.c, b.c)
            return x if pred == 'ne' else cnot(x)
        if pred in ('eq', 'ne'):
            N = a.n
            pa, pb = self.toint(st, a).p, self.toint(st, b).p
            d = psub(pa, pb)
            # equal mod 2^N
            lo, hi = pbounds(self.A, d)
            if not (amin(lo, st.mask) > -(1 << N) and amax(hi, st.mask) < (1 << N)):
                d = psub(self.canon_u(st, a), self.canon_u(st, b))
            r = ('eq', d)
            return r if pred == 'eq' else cnot(r)
        if pred[0] == 'u':
            pa, pb = self.canon_u(st, a), self.canon_u(st, b)
        else:
            pa, pb = self.canon_s(st, a), self.canon_s(st, b)
        k = pred[1:]
        if k == 'ge':
            return ('ge', psub(pa, pb))
        if k == 'le':
            return ('ge', psub(pb, pa))
        if k == 'gt':
            return ('ge', psub(psub(pa, pb), pconst(1)))
        if k == 'lt':
            return ('ge', psub(psub(pb, pa), pconst(1)))
        raise Unsupported(pred)

    def arith(self, st, ins):
        ty, oa, ob, flags = ins.a
        op = ins.op
        if ty[0] != 'i':
            raise Unsupported('vector arithmetic')
        N = ty[1]
        va, vb = self.val(st, ty, oa), self.val(st, ty, ob)
        if op in ('and', 'or', 'xor'):
            if isinstance(va, UndefV) or isinstance(vb, UndefV):
                self.toint(st, va)
                self.toint(st, vb)
            return self.binop_bits(st, op, va, vb, N)
        va, vb = self.toint(st, va), self.toint(st, vb)
        if op in ('add', 'sub', 'mul'):
            f = {'add': padd, 'sub': psub, 'mul': pmul}[op]
            if 'nsw' in flags:
                r = f(self.canon_s(st, va), self.canon_s(st, vb))
                H = 1 << (N - 1)
                if not self.obl(st, 'signed-overflow', cand(('ge', padd(r, pconst(H))), ('ge', psub(pconst(H - 1), r)))):
                    raise PathAbort()
                return IntV(r, N)
            (al, ah), (bl, bh) = self.rng(st, va), self.rng(st, vb)
            if op == 'add':
                rg = (al + bl, ah + bh)
            elif op == 'sub':
                rg = (al - bh, ah - bl)
            else:
                z = (al * bl, al * bh, ah * bl, ah * bh)
                rg = (min(z), max(z))
            if op == 'mul':
                mul = None
                for u, w in ((va, vb), (vb, va)):
                    if is_const(u.p) and not is_const(w.p):
                        c = const_of(u.p)
                        if all((c[i] if isvec(c) else c) % 2 for i in (st.mask if isvec(c) else [0])):
                            mul = (self.canon_u(st, w), c)
                return IntV(f(va.p, vb.p), N, mul, rg)
            return IntV(f(va.p, vb.p), N, None, rg)
        if op == 'shl':
            k = self.shamt(st, vb, N)
            if 'nsw' in flags or 'nuw' in flags:
                raise Unsupported('shl flags')
            return IntV(pscale(va.p, vecmap(lambda x: 1 << x, st.mask, k)), N)
        if op == 'lshr':
            k = self.shamt(st, vb, N)
            m = vecmap(lambda x: 1 << x, st.mask, k)
            ur = self.urange(st, va)
            rg = (0, ur[1] // amin(m, st.mask))
            return IntV(self.mkdiv(st, self.canon_u(st, va), m, ur), N, None, rg)
        if op == 'ashr':
            k = self.shamt(st, vb, N)
            return IntV(self.mkdiv(st, self.canon_s(st, va), vecmap(lambda x: 1 << x, st.mask, k)), N)
        if op in ('udiv', 'urem'):
            pa, pb = self.canon_u(st, va), self.canon_u(st, vb)
            m = self.divisor(st, pb)
            ur = self.urange(st, va)
            q = self.mkdiv(st, pa, m, ur)
            if op == 'udiv':
                return IntV(q, N, None, (0, ur[1] // amin(m, st.mask)))
            return IntV(psub(pa, pscale(q, m)), N, None, (0, min(ur[1], amax(m, st.mask) - 1)))
        if op in ('sdiv', 'srem'):
            pa, pb = self.canon_s(st, va), self.canon_s(st, vb)
            if is_const(pa) and is_const(pb):
                mb = const_of(pb)
                if not self.obl(st, 'division', cand(cnot(('eq', pb)), cnot(cand(('eq', padd(pb, pconst(1))), ('eq', padd(pa, pconst(1 << (N - 1)))))))):
                    raise PathAbort()

                def tdiv(x, y):
                    q = abs(x) // abs(y)
                    return q if (x < 0) == (y < 0) else -q
                q = vecmap(tdiv, st.mask, const_of(pa), mb)
                q = pconst(q)
                return IntV(q if op == 'sdiv' else psub(pa, pmul(q, pb)), N)
            m = self.divisor(st, pb)
            if self.decide(st, ('ge', pa)):
                q = self.mkdiv(st, pa, m)
            else:
                q = pscale(self.mkdiv(st, pscale(pa, -1), m), -1)
            return IntV(q if op == 'sdiv' else psub(pa, pscale(q, m)), N)
        raise Unsupported(op)

    def divisor(self, st, pb):
        if not is_const(pb):
            return self.concretize(st, pb)
        m = const_of(pb)
        if not self.obl(st, 'division-by-zero', cnot(('eq', pb))):
            raise PathAbort()
        if any((m[i] if isvec(m) else m) < 0 for i in (st.mask if isvec(m) else [0])):
            raise Unsupported('negative divisor')
        return m

    def shamt(self, st, vb, N):
        p = self.canon_u(st, vb)
        if not self.obl(st, 'shift-amount', ('ge', psub(pconst(N - 1), p))):
            raise PathAbort()
        if is_const(p):
            return const_of(p)
        return self.concretize(st, p)

    # ---- main loop ------------------------------------------------------------------
    def call_entry(self, st, fname, args):
        fn = self.mod.funcs[fname].parse()
        f = Frame()
        f.fn, f.block, f.ip, f.prev, f.dest, f.rty, f.cont, f.allocas, f.onret = fn, fn.entry, 0, None, None, None, None, [], None
        f.regs = {}
        for (ty, nm, at), v in zip(fn.params, args):
            f.regs[nm] = v
        st.frames.append(f)

    def init_state(self, mask=None):
        st = State()
        st.frames = []
        st.mem = {}
        st.objsize = {}
        st.mask = self.full if mask is None else mask
        st.path = [('mask', st.mask)]
        st.nobj = 0
        st.steps = 0
        st.ret = None
        st.trace = ()
        st.ghost = {}
        return st

    def run(self, st):
        """generator of final states (entry function returned)"""
        work = [st]
        while work:
            st = work.pop()
            if len(st.mask) == 0:
                continue
            try:
                done = self.step_until(st)
            except Fork as f:
                if self.forklog is not None:
                    self.forklog[(self.where(st), 'mask' if f.states and f.states[0].path[-1][0] == 'mask' else 'cond', len(f.states))] += 1
                for s in reversed(f.states):
                    if len(s.mask):
                        work.append(s)
                continue
            except PathAbort:
                self.paths += 1
                continue
            except Unsupported as e:
                e.args = (str(e) + ' at ' + self.where(st),)
                raise
            if done:
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Unsupported('too many paths')
                yield st

    def step_until(self, st):
        while True:
            f = st.frames[-1]
            ins = f.fn.blocks[f.block][f.ip]
            st.steps += 1
            if self.deadline is not None and st.steps % 16 == 0 and time.time() > self.deadline:
                raise Unsupported('time limit')
            if st.steps > self.max_steps:
                self.obl(st, 'termination', FALSE, 'step bound')
                raise PathAbort()
            op = ins.op
            if op == 'br':
                c, t, e = ins.a
                if c is not None:
                    cv = self.val(st, ('i', 1), c)
                    t = t if self.decide(st, self.tocond(st, cv)) else e
                self.jump(st, t)
                continue
            if op == 'switch':
                ty, o, dflt, cases = ins.a
                p = self.canon_u(st, self.val(st, ty, o))
                tgt = None
                for cv, lab in cases:
                    if self.decide(st, ('eq', psub(p, pconst(cv % (1 << ty[1]))))):
                        tgt = lab
                        break
                self.jump(st, tgt or dflt)
                continue
            if op == 'ret':
                ty, o = ins.a
                v = None if ty[0] == 'void' else self.val(st, ty, o)
                f = st.frames.pop()
                for a in f.allocas:
                    st.mem.pop(a, None)
                    st.objsize.pop(a, None)
                if not st.frames:
                    st.ret = v
                    return True
                g = st.frames[-1]
                if f.dest is not None:
                    g.regs[f.dest] = v
                if f.cont is not None:
                    self.jump(st, f.cont)
                else:
                    g.ip += 1
                if f.onret is not None:
                    f.onret(self, st, v)
                continue
            if op == 'unreachable':
                self.obl(st, 'unreachable-code-reached', FALSE)
                raise PathAbort()
            if op == 'call':
                self.docall(st, ins)
                continue
            r = self.simple(st, ins)
            if ins.dest is not None:
                f.regs[ins.dest] = r
            f.ip += 1

    def loop_guard(self, st, label):
        """a block entered again and again: is the path still feasible, case by case?
        (the path conditions only approximate the input's digits)"""
        if self.ghost is None:
            return
        f = st.frames[-1]
        n = f.visits[label] = f.visits.get(label, 0) + 1
        if n < LOOPG or n % 6:
            return
        f.visits[label] = n + 1
        if len(st.mask) > 1:
            raise Fork([self.with_mask(st, np.array([i], dtype=int)) for i in st.mask])
        self.sol.sync(st.path)
        if self.sol.check1(self.ghost.yb, self.ghost.linkbool(st.mask[0])) == z3.unsat:
            self.count('z3')
            raise PathAbort()

    def jump(self, st, label):
        self.loop_guard(st, label)
        f = st.frames[-1]
        prev = f.block
        blk = f.fn.blocks[label]
        # evaluate phis simultaneously
        vals = []
        ip = 0
        while ip < len(blk) and blk[ip].op == 'phi':
            ty, inc = blk[ip].a
            for v, lab in inc:
                if lab == prev:
                    vals.append((blk[ip].dest, self.val(st, ty, v)))
                    break
            else:
                raise Unsupported('phi')
            ip += 1
        f.prev = prev
        f.block = label
        for d, v in vals:
            f.regs[d] = v
        f.ip = ip

    def simple(self, st, ins):
        op = ins.op
        f = st.frames[-1]
        if op == 'load':
            ty, o = ins.a
            ptr = self.val(st, ('ptr',), o)
            return self.load_typed(st, ty, ptr)
        if op == 'store':
            ty, v, o = ins.a
            ptr = self.val(st, ('ptr',), o)
            self.store_typed(st, ty, ptr, self.val(st, ty, v))
            return None
        if op == 'alloca':
            o = self.new_obj(st, self.mod.size(ins.a[0]))
            f.allocas.append(o)
            return Ptr(o, {})
        if op == 'getelementptr':
            bty, base, idx, inb = ins.a
            return self.gep(st, bty, self.val(st, ('ptr',), base), [(t, self.val(st, t, x)) for t, x in idx])
        if op == 'icmp':
            pred, ty, a, b = ins.a
            va, vb = self.val(st, ty, a), self.val(st, ty, b)
            for v in (va, vb):
                if isinstance(v, UndefV):
                    self.toint(st, v)
            return CondV(self.icmp(st, pred, va, vb))
        if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            return self.arith(st, ins)
        if op == 'zext':
            ty, o, ty2 = ins.a
            v = self.val(st, ty, o)
            ur = self.urange(st, v)
            return IntV(self.canon_u(st, v), ty2[1], None, ur)
        if op == 'sext':
            ty, o, ty2 = ins.a
            v = self.val(st, ty, o)
            if ty[1] == 1:
                return IntV(pscale(self.canon_u(st, v), -1), ty2[1])
            return IntV(self.canon_s(st, self.toint(st, v)), ty2[1])
        if op == 'trunc':
            ty, o, ty2 = ins.a
            v = self.val(st, ty, o)
            if isinstance(v, UndefV):
                return UndefV(ty2[1])
            if isinstance(v, Concat) and ty2[1] % 8 == 0:
                return self.subval(st, v, 0, ty2[1] // 8)
            v = self.toint(st, v)
            if ty2[1] == 1:
                p = self.canon_u(st, v)
                lo, hi = pbounds(self.A, p)
                if amin(lo, st.mask) >= 0 and amax(hi, st.mask) <= 1:
                    return CondV(self.ne0(st, p))
                b = psub(p, pscale(self.mkdiv(st, p, 2), 2))
                return CondV(self.ne0(st, b))
            return IntV(v.p, ty2[1])
        if op == 'bitcast':
            ty, o, ty2 = ins.a
            return self.val(st, ty, o)
        if op == 'freeze':
            ty, o, _ = ins.a
            return self.val(st, ty, o)
        if op == 'phi':
            raise Unsupported('phi order')
        if op == 'select':
            c, ty, a, b = ins.a
            cv = self.tocond(st, self.val(st, ('i', 1), c))
            return self.val(st, ty, a) if self.decide(st, cv) else self.val(st, ty, b)
        if op == 'extractvalue':
            ty, v, idx = ins.a
            x = self.val(st, ty, v)
            for i in idx:
                x = x.el[i]
            return x
        if op == 'insertvalue':
            ty, v, ety, e, idx = ins.a
            x = self.val(st, ty, v)
            y = self.val(st, ety, e)

            def ins_at(x, idx):
                el = list(x.el)
                el[idx[0]] = y if len(idx) == 1 else ins_at(el[idx[0]], idx[1:])
                return Agg(el)
            return ins_at(x, idx)
        if op == 'nop':
            return None
        raise Unsupported('instruction ' + ins.text.strip()[:100])

    def load_typed(self, st, ty, ptr):
        if not isinstance(ptr, Ptr):
            if isinstance(ptr, UndefV):
                self.obl(st, 'use-of-uninitialised-value', FALSE)
                raise PathAbort()
            raise Unsupported('load through non-pointer')
        if ty[0] == 'struct':
            return Agg([self.load_typed(st, e, Ptr(ptr.obj, padd(ptr.off, pconst(self.mod.field_off(ty, j)))))
                        for j, e in enumerate(ty[1])])
        if ty[0] == 'arr':
            s = self.mod.size(ty[2])
            return Agg([self.load_typed(st, ty[2], Ptr(ptr.obj, padd(ptr.off, pconst(j * s)))) for j in range(ty[1])])
        size = self.mod.size(ty)
        if ty == ('i', 1):
            v = self.load(st, ptr, 1)
            return CondV(self.tocond(st, v))
        v = self.load(st, ptr, size)
        if ty[0] == 'ptr' and not isinstance(v, (Ptr, UndefV)):
            raise Unsupported('integer loaded as pointer')
        if ty[0] in ('i', 'f') and isinstance(v, CondV):
            return IntV(self.boolpoly(st, v.c), ty[1])
        if ty[0] == 'i' and ty[1] % 8:
            raise Unsupported('odd width load')
        return v

    def store_typed(self, st, ty, ptr, v):
        if not isinstance(ptr, Ptr):
            raise Unsupported('store through non-pointer')
        if ty[0] == 'struct':
            for j, e in enumerate(ty[1]):
                self.store_typed(st, e, Ptr(ptr.obj, padd(ptr.off, pconst(self.mod.field_off(ty, j)))), v.el[j])
            return
        if ty[0] == 'arr':
            s = self.mod.size(ty[2])
            for j in range(ty[1]):
                self.store_typed(st, ty[2], Ptr(ptr.obj, padd(ptr.off, pconst(j * s))), v.el[j])
            return
        size = self.mod.size(ty)
        if isinstance(v, CondV):
            v = IntV(self.boolpoly(st, v.c), 8)
        self.store(st, ptr, size, v)

    # ---- calls ----------------------------------------------------------------------
    def advance(self, st, ins):
        rty, callee, args, normal = ins.a
        if normal is not None:
            self.jump(st, normal)
        else:
            st.frames[-1].ip += 1

    def docall(self, st, ins):
        rty, callee, args, normal = ins.a
        f = st.frames[-1]
        name = callee[1:]
        if name.startswith('llvm.'):
            r = self.intrinsic(st, name, args)
            if ins.dest is not None:
                f.regs[ins.dest] = r
            self.advance(st, ins)
            return
        if name in ('__assert_fail', 'abort', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_throw', 'exit', '__ubsan_handle_builtin_unreachable', '_ZSt17__throw_bad_allocv'):
            note = ''
            if name == '__assert_fail':
                try:
                    g = self.val(st, ('ptr',), args[0][1])
                    cells = self.global_cells(g.obj[1])[1]
                    note = bytes(cells[i][1] for i in sorted(cells)).split(b'\0')[0].decode()
                except Exception:
                    note = '?'
            self.obl(st, 'assert' if name == '__assert_fail' else name, FALSE, note)
            raise PathAbort()
        avals = [self.val(st, t, o) for t, o, _ in args]
        con = self.contracts.get(callee)
        if con is not None:
            r = con(self, st, avals, args, rty)
            if r is not NotImplemented:
                self.used_contracts[callee] = self.used_contracts.get(callee, 0) + 1
                if ins.dest is not None:
                    st.frames[-1].regs[ins.dest] = r
                self.advance(st, ins)
                return
        if callee not in self.mod.funcs:
            b = self.extern(st, name, args, avals)
            if b is NotImplemented:
                raise Unsupported('external function ' + name)
            if ins.dest is not None:
                f.regs[ins.dest] = b
            self.advance(st, ins)
            return
        fn = self.mod.funcs[callee].parse()
        self.inlined.add(callee)
        if len(st.frames) > 60:
            raise Unsupported('recursion')
        g = Frame()
        g.fn, g.block, g.ip, g.prev, g.dest, g.rty, g.cont, g.allocas, g.onret = fn, fn.entry, 0, None, ins.dest, rty, normal, [], None
        g.regs = {}
        for (ty, nm, at), v in zip(fn.params, avals):
            if 'byval' in at:
                sz = self.mod.size(at['byval'])
                o = self.new_obj(st, sz)
                g.allocas.append(o)
                self.memcpy(st, Ptr(o, {}), v, sz)
                v = Ptr(o, {})
            g.regs[nm] = v
        st.frames.append(g)

    def extern(self, st, name, args, avals):
        if name in ('memcpy', 'memmove'):
            n = self.concretize(st, self.canon_u(st, avals[2]))
            self.memcpy(st, avals[0], avals[1], n)
            return avals[0]
        return NotImplemented

    def intrinsic(self, st, name, args):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            d = self.val(st, ('ptr',), args[0][1])
            s = self.val(st, ('ptr',), args[1][1])
            n = self.concretize(st, self.canon_u(st, self.val(st, args[2][0], args[2][1])))
            self.memcpy(st, d, s, n)
            return None
        if name.startswith('llvm.memset'):
            d = self.val(st, ('ptr',), args[0][1])
            b = self.val(st, ('i', 8), args[1][1])
            n = self.concretize(st, self.canon_u(st, self.val(st, args[2][0], args[2][1])))
            for j in range(n):
                self.store(st, Ptr(d.obj, padd(d.off, pconst(j))), 1, b)
            return None
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.donothing')):
            return None
        ty = args[0][0] if args else None
        if name.startswith('llvm.expect'):
            return self.val(st, ty, args[0][1])
        if name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            a, b = self.val(st, ty, args[0][1]), self.val(st, ty, args[1][1])
            a, b = self.toint(st, a), self.toint(st, b)
            c = self.icmp(st, 'ugt' if name[5] == 'u' else 'sgt', a, b)
            big = self.decide(st, c)
            mx = name[6:9] == 'max'
            return a if big == mx else b
        if name.startswith('llvm.abs'):
            a = self.val(st, ty, args[0][1])
            p = self.canon_s(st, self.toint(st, a))
            if self.decide(st, ('ge', p)):
                return IntV(p, ty[1])
            if not self.obl(st, 'signed-overflow', cnot(('eq', padd(p, pconst(1 << (ty[1] - 1)))))):
                raise PathAbort()
            return IntV(pscale(p, -1), ty[1])
        if name.startswith('llvm.cttz'):
            a = self.val(st, ty, args[0][1])
            zp = args[1][1] == ('c', 1)
            p = self.canon_u(st, a)
            if zp:
                if not self.obl(st, 'ctz-of-zero', cnot(('eq', p))):
                    raise PathAbort()
            N = ty[1]
            if is_const(p):
                return IntV(pconst(vecmap(lambda x: N if x == 0 else (x & -x).bit_length() - 1, st.mask, const_of(p))), N)
            key = ('cttz', self.A.pkey(p))
            at = self.A.get(key, ('cttz', p), 0, N)
            self.cttz_facts(st, at, p, N)
            return IntV(patom(at), N)
        if name.startswith('llvm.ctlz') or name.startswith('llvm.ctpop'):
            p = self.canon_u(st, self.val(st, ty, args[0][1]))
            N = ty[1]
            if is_const(p):
                if 'ctlz' in name:
                    return IntV(pconst(vecmap(lambda x: N - x.bit_length(), st.mask, const_of(p))), N)
                return IntV(pconst(vecmap(lambda x: bin(x).count('1'), st.mask, const_of(p))), N)
            raise Unsupported(name)
        raise Unsupported('intrinsic ' + name)

    def cttz_facts(self, st, at, p, N):
        pass
