"""Contracts of the helper functions, applied at call sites and verified
against the helper's own body (verify_*) in every run."""
import re
from execu import *

MUL = {
    # demangled pattern: (name, result width, spec(x, y) -> numerator, shift)
    r'::umul192_upper64\(unsigned (?:long long|long), jkj::grisu_exact_detail::uint128\)': ('umul192_upper64', (64, 128), 64, 128),
    r'::umul128_upper64\(unsigned (?:long long|long), unsigned (?:long long|long)\)': ('umul128_upper64', (64, 64), 64, 64),
    r'::umul96_upper32\(unsigned int, unsigned (?:long long|long)\)': ('umul96_upper32', (32, 64), 32, 64),
    r'::umul64\(unsigned int, unsigned int\)': ('umul64', (32, 32), 64, 0),
}


def identify(dname):
    for pat, c in MUL.items():
        if re.search(pat, dname):
            return c
    return None


def high_offset(mod):
    """byte offset of the high half inside uint128, read off the accessor"""
    f = [k for k, d in mod.demangle.items() if d.endswith('uint128::high() const')]
    if not f:
        return None
    ex = Exec(mod, Atoms(), 1)
    st = ex.init_state()
    o = ex.new_obj(st, 16)
    st.mem[o] = {0: (8, IntV(pconst(5), 64)), 8: (8, IntV(pconst(9), 64))}
    ex.call_entry(st, f[0], [Ptr(o, {})])
    for r in ex.run(st):
        v = const_of(ex.canon_u(r, r.ret))
        return {5: 0, 9: 8}.get(v)
    return None


def settle(ex, st, p):
    """fork on the value of the wrap-around quotients p contains, so that the
    product below stays linear in the input"""
    for mon in list(p):
        if len(mon) == 1 and ex.A.kind[mon[0]][0] == 'div':
            a = mon[0]
            lo, hi = amin(ex.A.lo[a], st.mask), amax(ex.A.hi[a], st.mask)
            if hi - lo > 2:
                continue
            for v in range(lo, hi + 1):
                if v == hi or ex.decide(st, ('eq', psub(patom(a), pconst(v)))):
                    c = p[mon]
                    p = {m: x for m, x in p.items() if m != mon}
                    p = padd(p, pconst(c * v))
                    break
    return p


class MulContract:
    def __init__(self, mod, fn, con):
        self.mod, self.fn = mod, fn
        self.name, self.widths, self.rw, self.shift = con
        self.hioff = high_offset(mod) if 128 in self.widths else None
        self.usable = not (128 in self.widths and self.hioff is None)

    def spec(self, ex, st, x, y):
        return ex.mkdiv(st, pmul(x, y), 1 << self.shift) if self.shift else pmul(x, y)

    def y128(self, ex, st, args):
        if len(args) == 2:      # first, second 8 bytes
            a, b = ex.canon_u(st, args[0]), ex.canon_u(st, args[1])
        else:
            v = [ex.load(st, Ptr(args[0].obj, padd(args[0].off, pconst(k))), 8) for k in (0, 8)]
            a, b = [ex.canon_u(st, x) for x in v]
        hi, lo = (a, b) if self.hioff == 0 else (b, a)
        return padd(pscale(hi, 1 << 64), lo)

    def __call__(self, ex, st, avals, args, rty):
        if not self.usable:
            return NotImplemented
        x = settle(ex, st, ex.canon_u(st, avals[0]))
        y = self.y128(ex, st, avals[1:]) if 128 in self.widths else ex.canon_u(st, avals[1])
        p = self.spec(ex, st, x, y)
        return IntV(p, self.rw, None, (0, (1 << self.rw) - 1))

    def verify(self):
        """-> (ok, [obligation records], detail)"""
        A = Atoms()
        ex = Exec(self.mod, A, 1)
        ex.demangle = self.mod.demangle
        st = ex.init_state()
        x = patom(A.var('x', 0, (1 << self.widths[0]) - 1))
        if 128 in self.widths:
            h, l = patom(A.var('yh', 0, (1 << 64) - 1)), patom(A.var('yl', 0, (1 << 64) - 1))
            y = padd(pscale(h, 1 << 64), l)
            a, b = (h, l) if self.hioff == 0 else (l, h)
            fn = self.mod.funcs[self.fn].parse()
            if len(fn.params) == 3:
                args = [IntV(x, 64), IntV(a, 64), IntV(b, 64)]
            else:
                o = ex.new_obj(st, 16)
                st.mem[o] = {0: (8, IntV(a, 64)), 8: (8, IntV(b, 64))}
                args = [IntV(x, 64), Ptr(o, {})]
        else:
            y = patom(A.var('y', 0, (1 << self.widths[1]) - 1))
            args = [IntV(x, self.widths[0]), IntV(y, self.widths[1])]
        ex.call_entry(st, self.fn, args)
        ok = True
        n = 0
        for r in ex.run(st):
            n += 1
            want = ex.canon(r, self.spec(ex, r, x, y), self.rw)
            got = ex.canon_u(r, r.ret)
            ex.obl(r, 'post', ('eq', psub(got, want)), 'exact product')
        return (n > 0 and not ex.failed), ex


def mul_contracts(mod):
    """{callee: MulContract}"""
    out = {}
    for f, d in mod.demangle.items():
        c = identify(d)
        if c:
            mc = MulContract(mod, f, c)
            if mc.usable:
                out[f] = mc
    return out
