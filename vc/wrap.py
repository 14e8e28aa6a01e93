"""Contracts of the public entry points grisu_exact<rs>(x, mode, policy): the
entry hands the unchanged bit pattern to a compute<..., Provider, ...> whose
interval is the mode's interval for this input, and returns its result."""
from execu import *
import conv
from conv import SPEC, MODES, PROVIDERS, close_cond, start_call, accessors

BOUND = {'nearest_to_even': ('near', 'even', 'even'), 'nearest_to_odd': ('near', 'odd', 'odd'),
         'nearest_toward_plus_infinity': ('near', 'pos', 'neg'), 'nearest_toward_minus_infinity': ('near', 'neg', 'pos')}


def signed_kind(mode):
    """does the kind of interval depend on the sign?"""
    return mode in ('toward_plus_infinity', 'toward_minus_infinity')


def mode_spec(mode, sign=None):
    """the set of reals that rounding mode `mode` maps to x, around |x|:
    ('near' half an ulp each side | 'left' [x, x+ulp) | 'right' (x-ulp, x], closedness)"""
    m = mode.replace('_static_boundary', '')
    if m in BOUND:
        return BOUND[m]
    if m == 'nearest_toward_zero':
        # ties go to the neighbour of smaller magnitude: the right end is x's
        return ('near', False, True)
    if m == 'nearest_away_from_zero':
        return ('near', True, False)
    left, right = ('left', True, False), ('right', False, True)
    if m == 'toward_zero':
        return left
    if m == 'away_from_zero':
        return right
    if m == 'toward_plus_infinity':
        return left if sign == 1 else right
    if m == 'toward_minus_infinity':
        return right if sign == 1 else left
    raise KeyError(mode)


def reaches(mode, prov):
    """could the entry for `mode` use provider `prov`?"""
    sp = SPEC[prov]
    if signed_kind(mode):
        return sp[0] != 'near'
    ms = mode_spec(mode)
    if ms[0] != sp[0]:
        return False
    for a, b in zip(ms[1:], sp[1:]):
        if isinstance(a, bool) and isinstance(b, bool) and a != b:
            return False
    return True


class ComputeContract:
    """stands for compute<...>: any result; records what it was called with"""

    def __init__(self, unit, fname, prov):
        self.u, self.fname, self.prov = unit, fname, prov

    def __call__(self, ex, st, avals, args, rty):
        u = self.u
        fn = ex.mod.funcs[self.fname].parse()
        out = bits = None
        N = u.fmt.N
        for (ty, nm, at), v in zip(fn.params, avals):
            if 'sret' in at:
                out = v
            elif bits is None and isinstance(v, Ptr):
                bits = ex.load(st, v, N // 8)
            elif bits is None:
                bits = v
        if bits is None:
            raise Unsupported('argument list of ' + ex.dname(self.fname))
        b = ex.canon_u(st, bits)
        ex.obl(st, 'requires', ('eq', psub(b, u.bits)), 'the bit pattern handed on is the input')
        st.ghost['prov'] = st.ghost.get('prov', ()) + (self.prov,)
        byval = out is None
        if byval:
            out = Ptr(ex.new_obj(st, max(16, ex.mod.size(rty)), 'res'), {})
        at = lambda k: Ptr(out.obj, padd(out.off, pconst(k)))
        ex.store(st, at(0), N // 8, IntV(u.S, N))
        ex.store(st, at(N // 8), 4, IntV(u.e, 32))
        if u.rs:
            ex.store(st, at(N // 8 + 4), 1, IntV(u.neg, 8))
        if byval:
            return ex.load_typed(st, rty, out)
        return None


class Entry:
    def __init__(self, mod, fmt, rs, crs, mode):
        self.mod, self.fmt, self.rs, self.crs, self.mode = mod, fmt, rs, crs, mode

    def verify(self):
        fmt, A = self.fmt, Atoms()
        P = fmt.P
        F, E, s = A.var('F', 0, (1 << P) - 1), A.var('E', 0, fmt.emax_field), A.var('s', 0, 1)
        self.bits = padd(padd(patom(F), pscale(patom(E), 1 << P)), pscale(patom(s), 1 << (fmt.N - 1)))
        self.S = patom(A.var('S', 0, (1 << fmt.N) - 1))
        self.e = patom(A.var('e', 0, 1 << 20))
        self.neg = patom(A.var('neg', 0, 1))
        fname = '@m_' + self.mode
        con = {f: ComputeContract(self, f, pc[0]) for f, pc in conv.find_compute(self.mod).items()}
        ex = Exec(self.mod, A, 1, contracts=con)
        ex.demangle = self.mod.demangle
        st = ex.init_state()
        out = start_call(ex, st, fname, self.bits, fmt.N)
        n = 0
        iff = lambda a, b: cor(cand(a, b), cand(cnot(a), cnot(b)))
        isneg = ('eq', psub(patom(s), pconst(1)))
        for r in ex.run(st):
            provs = r.ghost.get('prov', ())
            for t, (S, e, neg) in accessors(ex, r, fname, out):
                n += 1
                ob = lambda c, note: ex.obl(t, 'post', c, note)
                ob(TRUE if len(provs) == 1 else FALSE, 'exactly one compute<...> is called')
                if len(provs) != 1:
                    continue
                ob(('eq', psub(S, self.S)), 'its significand is returned')
                ob(('eq', psub(e, self.e)), 'its exponent is returned')
                if self.rs:
                    ob(iff(neg, ('eq', psub(self.neg, pconst(1)))), 'its sign is returned')
                sp = SPEC[provs[0]]
                ok = [mode_spec(self.mode, sg)[0] == sp[0] for sg in (0, 1)]
                c = TRUE if all(ok) else isneg if ok[1] else cnot(isneg) if ok[0] else FALSE
                ob(c, 'kind of interval is that of the mode')
                for sg in (0, 1):
                    g = isneg if sg else cnot(isneg)
                    ms = mode_spec(self.mode, sg)
                    for side, a, b in (('left', ms[1], sp[1]), ('right', ms[2], sp[2])):
                        c = iff(close_cond(a, s, patom(F)), close_cond(b, s, patom(F)))
                        ob(cor(cnot(g), c), '%s end closed as the mode demands (sign %d)' % (side, sg))
        return n > 0 and not ex.failed, ex


def check_mode(mod, fmt, rs, crs, mode):
    return Entry(mod, fmt, rs, crs, mode).verify()
