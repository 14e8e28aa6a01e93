"""C13 - C17: contracts of the helper functions, tables and the bit view."""
import random, subprocess
from core import *
import contracts

M64 = (1 << 64) - 1


def load(which, config):
    return build.compile_ir('helpers.cpp', config, ('-DWHICH=%d' % which,))


def iff(a, b):
    return cor(cand(a, b), cand(cnot(a), cnot(b)))


def start(mod, n, **kw):
    A = Atoms()
    ex = Exec(mod, A, n, **kw)
    ex.demangle = mod.demangle
    return A, ex, ex.init_state()


def native_eval(which, config, calls):
    """calls: [(fn, a, b, c)] -> results (ints) or None per call"""
    exe = native_build('helpers_main.cpp', config, ['-DWHICH=%d' % which], ['-DNDEBUG'])
    if exe is None:
        return None
    inp = '\n'.join('%s %d %d %d' % (f, a & M64, b & M64, c & M64) for f, a, b, c in calls) + '\n'
    r = subprocess.run([exe], input=inp, capture_output=True, text=True, timeout=300)
    out = r.stdout.split('\n')
    return [int(x) for x in out if x]


def compare(ck, which, config, calls, expect, show):
    """replay helper: first few calls whose native result differs"""
    res = native_eval(which, config, calls)
    if res is None:
        return []
    out = []
    for c, v in zip(calls, res):
        e = expect(*c)
        if e is not None and e != v:
            out.append('%s: %s returns %d, expected %d' % (config, show(*c), v, e))
            if len(out) >= 5:
                break
    return out


# ------------------------------------------------------------------ C14
MULS = [  # which, function, operand widths, spec(numerator), shift, result width
    (1, 'umul64', (32, 32), lambda x, y: x * y, 0, 64),
    (2, 'umul128_hi', (64, 64), lambda x, y: x * y, 64, 64),
    (2, 'umul128_lo', (64, 64), lambda x, y: x * y, 0, 64),
    (3, 'umul128_upper64', (64, 64), lambda x, y: x * y, 64, 64),
    (4, 'umul192_upper64', (64, 64, 64), lambda x, h, l: x * (h << 64 | l), 128, 64),
    (5, 'umul96_upper32', (32, 64), lambda x, y: x * y, 64, 32),
]


def c14():
    ck = Check('C14', 'multi-word multiplications are exact')
    ck.assumptions.append('MSVC intrinsic branches (_umul128) are not compiled here and not verified')
    bad = []
    for cfg in ('x64', 'i686', 'x64g', 'i686g'):
        for which, fn, widths, spec, shift, rw in MULS:
            nf = len(ck.fails)

            def one():
                try:
                    m = load(which, cfg)
                except build.CompileError as e:
                    if 'no member named' in str(e) or 'undeclared' in str(e):
                        ck.notes.append('%s: helper not present (%s)' % (fn, cfg))
                        return
                    raise
                A, ex, st = start(m, 1)
                xs = [patom(A.var('x%d' % i, 0, (1 << n) - 1)) for i, n in enumerate(widths)]
                if len(xs) == 3:
                    num = pmul(xs[0], padd(pscale(xs[1], 1 << 64), xs[2]))
                else:
                    num = pmul(xs[0], xs[1])
                ex.call_entry(st, '@h_' + fn, [IntV(x, n) for x, n in zip(xs, widths)])
                for r in ex.run(st):
                    want = ex.canon(r, ex.mkdiv(r, num, 1 << shift), rw)
                    got = ex.canon_u(r, r.ret)
                    ex.obl(r, 'post', ('eq', psub(got, want)), 'result = floor(product / 2^%d) mod 2^%d' % (shift, rw))
                ck.add_exec(ex, fn, cfg)
            ck.guard('%s [%s]' % (fn, cfg), one)
            if len(ck.fails) > nf:
                bad.append((cfg, which, fn, widths, spec, shift, rw))

    def replay(ck):
        rnd = random.Random(ck.seed)

        def val(n):
            k = rnd.randrange(7)
            v = rnd.getrandbits(n)
            if k == 0:
                return v
            h = n // 2
            edge = [0, 1, 2, (1 << h) - 1, (1 << h) - 2, 1 << (h - 1), (1 << (h - 1)) - 1, rnd.getrandbits(h)]
            if k < 5:
                v = 0
                for i in range(0, n, 32):
                    v |= (rnd.choice([0, 1, 2, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, rnd.getrandbits(32), rnd.getrandbits(32)])) << i
                return v & ((1 << n) - 1)
            return rnd.choice([0, 1, (1 << n) - 1, (1 << n) - 2, 1 << (n - 1), (1 << h) - 1, 1 << h, (1 << h) + 1])
        out = []
        for cfg, which, fn, widths, spec, shift, rw in bad:
            calls = []
            for _ in range(200000):
                a = [val(n) for n in widths] + [0, 0]
                calls.append((fn, a[0], a[1], a[2]))
            # two-factor carries: solve for operands hitting a chosen low part
            out += compare(ck, which, cfg, calls,
                           lambda f, a, b, c: (spec(*[a, b, c][:len(widths)]) >> shift) & ((1 << rw) - 1),
                           lambda f, a, b, c: '%s(%s)' % (f, ', '.join(hex(v) for v in [a, b, c][:len(widths)])))
        return out
    ck.replayers.append(replay)
    return ck.finish()


# ------------------------------------------------------------------ C15
def flog10_2(e):
    """floor(log10 2^e)"""
    if e >= 0:
        return len(str(2 ** e)) - 1
    return -len(str(2 ** -e - 1)) if e else 0


def flog2_10(e):
    if e >= 0:
        return (10 ** e).bit_length() - 1
    return -(10 ** -e - 1).bit_length()


_l5 = {}


def flog5_2_all(top):
    """{e: floor(log5 2^e)} for |e| <= top, by exact comparison"""
    out = {}
    # largest g with 5^g <= 2^e ; walk e upward
    g, p5 = 0, 5
    x = 1
    for e in range(0, top + 1):
        while p5.bit_length() <= e + 1 and p5 <= (1 << e):
            g += 1
            p5 *= 5
        out[e] = g
        # 5^g <= 2^e < 5^(g+1);  -e: largest h with 5^h <= 2^-e: h = -ceil(log5 2^e)
        out[-e] = -g if (e == 0) else -(g + 1)
    return out


def c15():
    ck = Check('C15', 'integer logarithm helpers')
    bad = []
    jobs = [(11, 'log10_pow2', range(-1650, 1651), flog10_2), (12, 'log2_pow10', range(-642, 643), flog2_10),
            (13, 'log5_pow2', range(-65536, 65537), None)]
    l5 = flog5_2_all(65536)
    for cfg in ('x64', 'i686'):
        for which, fn, dom, spec in jobs:
            es = list(dom)
            want = mkvec([l5[e] if spec is None else spec(e) for e in es])
            nf = len(ck.fails)

            def one():
                try:
                    m = load(which, cfg)
                except build.CompileError as e:
                    if 'no member named' in str(e) or 'undeclared' in str(e):
                        ck.notes.append('%s: helper not present (%s)' % (fn, cfg))
                        return
                    raise
                A, ex, st = start(m, len(es))
                ex.call_entry(st, '@h_' + fn, [IntV(pconst(mkvec(es)), 32)])
                seen = 0
                for r in ex.run(st):
                    got = ex.canon_s(r, r.ret)
                    ex.obl(r, 'post', ('eq', psub(got, pconst(want))), 'exact floor of the logarithm')
                    seen += len(r.mask)
                ck.add_exec(ex, fn, cfg)
                ck.funcs[-1]['cases'] = seen
                if seen != len(es) and not ex.failed:
                    ck.fact('%s [%s]: every exponent reaches a return' % (fn, cfg), False, detail='%d of %d' % (seen, len(es)))
            ck.guard('%s [%s]' % (fn, cfg), one)
            if len(ck.fails) > nf:
                bad.append((cfg, which, fn, es, want))

    def replay(ck):
        out = []
        for cfg, which, fn, es, want in bad:
            w = dict(zip(es, want))

            def sg(v):
                return v - (1 << 64) if v >> 63 else v
            r = native_eval(which, cfg, [(fn, e, 0, 0) for e in es])
            for e, v in zip(es, r or []):
                if sg(v) != w[e] and len(out) < 5:
                    out.append('%s: floor_%s(%d) returns %d, expected %d' % (cfg, fn, e, sg(v), w[e]))
            if not out:
                # undefined behaviour (overflow) or assertion: run instrumented
                exe = native_build('helpers_main.cpp', cfg, ['-DWHICH=%d' % which],
                                   ['-fsanitize=undefined', '-fno-sanitize-recover=all'])
                if exe:
                    for e in ([es[0], es[-1], es[len(es) // 4]] + es[::max(1, len(es) // 200)]):
                        r = subprocess.run([exe], input='%s %d 0 0\n' % (fn, e & M64), capture_output=True, text=True)
                        if r.returncode:
                            out.append('%s: floor_%s(%d): %s' % (cfg, fn, e, r.stderr.strip()[:300]))
                            break
        return out
    ck.replayers.append(replay)
    return ck.finish()


# ------------------------------------------------------------------ C13
def exact_cache(k, bits):
    """10^k scaled so that its top bit is bit (bits-1); truncated / rounded up"""
    if k >= 0:
        v = 10 ** k
        s = bits - v.bit_length()
        return v << s if s >= 0 else v >> -s
    d = 10 ** -k
    # 2^s/d with top bit at bits-1: ceil
    s = bits - 1 + d.bit_length()
    n = -(-(1 << s) // d)
    if n.bit_length() > bits:
        s -= 1
        n = -(-(1 << s) // d)
    assert n.bit_length() == bits
    return n


def needed_k(fmt):
    """every k any finite input can request, from the algorithm's definition:
    minus_k = floor(log10 2^(e+1-alpha)) with e over all exponents, and both
    alpha range ends; read from the code's own constants would be circular, so
    the range is the documented one"""
    import ghost
    f = ghost.Fmt(fmt)
    ks = {ghost.spec_k(f, E) for E in range(0, f.emax_field + 1)}
    return min(ks), max(ks)


def c13():
    ck = Check('C13', 'power-of-ten tables')
    ck.assumptions.append('"every k a finite input can request" is k = -floor(log10 2^(e-alpha+1)), alpha = -5, over all '
                          'exponents e; that the code requests no other index is the in-bounds obligation of C08')
    bad = []

    def ground(ex, st, fn):
        ex.call_entry(st, fn, [])
        for r in ex.run(st):
            return const_of(ex.canon_s(r, r.ret))

    for cfg in ('x64', 'i686'):
        nf = len(ck.fails)

        def one():
            m = load(31, cfg)
            g = {}
            for f in ('min_k_f', 'max_k_f', 'min_k_d', 'max_k_d', 'count_f', 'count_d'):
                A, ex, st = start(m, 1)
                g[f] = ground(ex, st, '@h_' + f)
            for fmt, s, bits, parts in (('float', 'f', 64, ('cache_f',)), ('double', 'd', 128, ('cache_d_hi', 'cache_d_lo'))):
                lo, hi = g['min_k_' + s], g['max_k_' + s]
                nlo, nhi = needed_k(fmt)
                ck.fact('%s [%s]: table range [%d,%d] covers every requested k [%d,%d]' % (fmt, cfg, lo, hi, nlo, nhi), lo <= nlo and hi >= nhi)
                ck.fact('%s [%s]: table has one entry per k' % (fmt, cfg), g['count_' + s] == hi - lo + 1,
                        detail='%s entries for %d values of k' % (g['count_' + s], hi - lo + 1))
                ks = list(range(min(lo, nlo), max(hi, nhi) + 1))
                val = [0] * len(ks)
                okk = True
                for j, p in enumerate(parts):
                    A, ex, st = start(m, len(ks))
                    ex.call_entry(st, '@h_' + p, [IntV(pconst(mkvec(ks)), 32)])
                    seen = 0
                    for r in ex.run(st):
                        v = ex.canon_u(r, r.ret)
                        if not is_const(v):
                            raise Unsupported('table value not constant')
                        v = const_of(v)
                        for i in r.mask:
                            seen += 1
                            x = v[i] if isvec(v) else v
                            val[i] = val[i] << 64 | x
                    ck.add_exec(ex, 'get_cache<%s> (%s)' % (fmt, p), cfg)
                    okk &= seen == len(ks)
                for k, v in zip(ks, val):
                    want = exact_cache(k, bits)
                    if not ck.fact('cache<%s>[%d] [%s]' % (fmt, k, cfg), v == want, detail='stored %s, exact %s' % (hex(v), hex(want))):
                        bad.append('%s: get_cache<%s>(%d) = %s, exact value %s' % (cfg, fmt, k, hex(v), hex(want)))
        ck.guard('tables [%s]' % cfg, one)

    def replay(ck):
        # the real code's values, natively
        out = []
        for cfg in ('x64', 'i686'):
            calls = []
            for fmt, parts in (('float', ('cache_f',)), ('double', ('cache_d_hi', 'cache_d_lo'))):
                lo, hi = needed_k(fmt)
                for k in range(lo, hi + 1):
                    for p in parts:
                        calls.append((p, k, 0, 0))
            def sg(v):
                return v - (1 << 64) if v >> 63 else v
            def expect(f, a, b, c):
                if f == 'cache_f':
                    return exact_cache(a, 64)
                v = exact_cache(a, 128)
                return v >> 64 if f == 'cache_d_hi' else v & M64
            out += compare(ck, 31, cfg, calls, expect, lambda f, a, b, c: '%s(%d)' % (f, a))
        return out
    ck.replayers.append(replay)
    return ck.finish()


# ------------------------------------------------------------------ C16
def c16():
    ck = Check('C16', 'divisibility tests')
    bad = []
    for cfg in ('x64', 'i686'):
        for bits in (32, 64):
            for fn, which in (('div2', 21), ('div5', 22)):
                nf = len(ck.fails)
                top = 12 if bits == 32 else 24

                def one():
                    try:
                        m = load(which, cfg)
                    except build.CompileError as e:
                        if 'no member named' in str(e) or 'undeclared' in str(e):
                            ck.notes.append('%s: helper not present (%s)' % (fn, cfg))
                            return
                        raise
                    if fn == 'div2':
                        ns = list(range(1, bits + 1))
                        spec = mkvec([1 << n for n in ns])
                        lo = 1
                        units = [('n in [1,%d]' % bits, mkvec(ns), spec), ('n in [%d, 2^31-1]' % (bits + 1), None, None)]
                    else:
                        ns = list(range(top))
                        units = [('n in [0,%d)' % top, mkvec(ns), mkvec([5 ** n for n in ns]))]
                        lo = 0
                    for nm, nv, d in units:
                        A, ex, st = start(m, len(nv) if nv is not None else 1)
                        x = patom(A.var('x', lo, (1 << bits) - 1))
                        n = pconst(nv) if nv is not None else patom(A.var('n', bits + 1, (1 << 31) - 1))
                        ex.call_entry(st, '@h_%s_%d' % (fn, bits), [IntV(x, bits), IntV(n, 32)])
                        seen = 0
                        for r in ex.run(st):
                            got = ex.tocond(r, r.ret)
                            want = ('dvd', x, d) if d is not None else FALSE
                            ex.obl(r, 'post', iff(ex.simp(got, r.mask), ex.simp(want, r.mask)), 'true exactly when divisible')
                            seen += len(r.mask)
                        ck.add_exec(ex, '%s<%d>, %s' % (fn, bits, nm), cfg)
                ck.guard('%s<%d> [%s]' % (fn, bits, cfg), one)
                if len(ck.fails) > nf:
                    bad.append((cfg, which, fn, bits, top))

    def replay(ck):
        rnd = random.Random(ck.seed)
        out = []
        for cfg, which, fn, bits, top in bad:
            b = 2 if fn == 'div2' else 5
            calls = []
            for n in (range(1, bits + 2) if b == 2 else range(top)):
                d = b ** n
                mx = ((1 << bits) - 1) // d
                for j in range(400):
                    q = rnd.choice([1, 2, 3, mx, mx - 1, rnd.randrange(mx + 1)]) if mx else 0
                    x = (d * q + rnd.choice([0, 0, 1, -1, d // 2, d // b])) & ((1 << bits) - 1)
                    if x or b == 5:
                        calls.append(('%s_%d' % (fn, bits), x, n, 0))
            out += compare(ck, which, cfg, calls, lambda f, x, n, c: int(x % (b ** n) == 0),
                           lambda f, x, n, c: '%s(%d, %d)' % (f, x, n))
        return out
    ck.replayers.append(replay)
    return ck.finish()


# ------------------------------------------------------------------ C17
def c17():
    ck = Check('C17', 'bit-level view of floats')
    ck.assumptions.append('a float/double value is identified with its bit pattern when it is passed, stored or returned; '
                          'x87 register transfers that quiet signaling NaNs (i686 ABI) are outside the IR semantics')
    ck.assumptions.append('quiet NaN = most significant fraction bit set (IEEE-754-2008)')
    bad = []
    for cfg in ('x64', 'i686'):
        m = ck.guard('bit view [%s]' % cfg, load, 41, cfg)
        if m is None:
            bad.append(cfg)
            continue
        for s, P, EB, N in (('f_', 23, 8, 32), ('d_', 52, 11, 64)):
            top = (1 << EB) - 1
            fns = ['roundtrip', 'getbits', 'as_float', 'sigbits', 'expbits', 'is_finite', 'is_nonzero', 'is_subnormal',
                   'is_negative', 'is_positive', 'is_pos_inf', 'is_neg_inf', 'is_inf', 'is_nan', 'is_qnan', 'is_snan',
                   'payload', 'payload_len']
            for fn in fns:
                nf = len(ck.fails)

                def one():
                    E = mkvec(list(range(top + 1)))
                    for Fz in ('zero', 'quiet0', 'quiet1'):
                        A, ex, st = start(m, top + 1)
                        sg = patom(A.var('s', 0, 1))
                        if Fz == 'zero':
                            F = {}
                        elif Fz == 'quiet0':
                            F = patom(A.var('F', 1, (1 << (P - 1)) - 1))
                        else:
                            F = padd(pconst(1 << (P - 1)), patom(A.var('F', 0, (1 << (P - 1)) - 1)))
                        b = padd(padd(F, pconst(E * (1 << P))), pscale(sg, 1 << (N - 1)))
                        vc = lambda f: ('vc', np.array([f(e) for e in range(top + 1)], dtype=bool))
                        neg = ('eq', psub(sg, pconst(1)))
                        fz = Fz == 'zero'
                        T = lambda x: TRUE if x else FALSE
                        fin, inf = vc(lambda e: e != top), vc(lambda e: e == top)
                        spec = {
                            'is_finite': fin, 'is_nonzero': vc(lambda e: e != 0 or not fz), 'is_subnormal': vc(lambda e: e == 0),
                            'is_negative': neg, 'is_positive': cnot(neg),
                            'is_pos_inf': cand(inf, cand(T(fz), cnot(neg))), 'is_neg_inf': cand(inf, cand(T(fz), neg)),
                            'is_inf': cand(inf, T(fz)), 'is_nan': cand(inf, T(not fz)),
                            'is_qnan': cand(inf, T(Fz == 'quiet1')), 'is_snan': cand(inf, T(Fz == 'quiet0')),
                        }
                        isf = fn in ('getbits', 'as_float')
                        arg = IntV(b, N)
                        ex.call_entry(st, '@' + s + fn, [arg] if fn != 'payload_len' else [])
                        for r in ex.run(st):
                            if fn in spec:
                                got = ex.tocond(r, r.ret)
                                ex.obl(r, 'post', iff(ex.simp(got, r.mask), ex.simp(spec[fn], r.mask)), fn)
                            else:
                                got = ex.canon_u(r, r.ret)
                                want = {'roundtrip': b, 'getbits': b, 'as_float': b, 'sigbits': F, 'expbits': pconst(E),
                                        'payload': F if Fz != 'quiet1' else psub(F, pconst(1 << (P - 1))),
                                        'payload_len': pconst(P - 1)}[fn]
                                ex.obl(r, 'post', ('eq', psub(got, want)), fn)
                        ck.add_exec(ex, s + fn + ' (F: ' + Fz + ')', cfg)
                ck.guard('%s%s [%s]' % (s, fn, cfg), one)
                if len(ck.fails) > nf:
                    bad.append(cfg)

    def expect(f, b, *_):
        s, fn = f[:2], f[2:]
        P, EB, N = (23, 8, 32) if s == 'f_' else (52, 11, 64)
        F, E, sg = b & ((1 << P) - 1), (b >> P) & ((1 << EB) - 1), b >> (N - 1)
        top = (1 << EB) - 1
        h = F >> (P - 1)
        v = {'roundtrip': b, 'sigbits': F, 'expbits': E, 'is_finite': E != top, 'is_nonzero': E or F, 'is_subnormal': E == 0,
             'is_negative': sg, 'is_positive': not sg, 'is_pos_inf': E == top and not F and not sg,
             'is_neg_inf': E == top and not F and sg, 'is_inf': E == top and not F, 'is_nan': E == top and F,
             'is_qnan': E == top and h, 'is_snan': E == top and F and not h, 'payload': F & ((1 << (P - 1)) - 1),
             'payload_len': P - 1}[fn]
        return int(v) if fn in ('roundtrip', 'sigbits', 'expbits', 'payload', 'payload_len') else int(bool(v))

    def replay(ck):
        rnd = random.Random(ck.seed)
        out = []
        for cfg in sorted(set(bad)):
            calls = []
            for s, P, EB, N in (('f_', 23, 8, 32), ('d_', 52, 11, 64)):
                top = (1 << EB) - 1
                for fn in ('roundtrip', 'sigbits', 'expbits', 'is_finite', 'is_nonzero', 'is_subnormal', 'is_negative',
                           'is_positive', 'is_pos_inf', 'is_neg_inf', 'is_inf', 'is_nan', 'is_qnan', 'is_snan', 'payload',
                           'payload_len'):
                    for E in sorted({0, 1, 2, top - 1, top, top // 2, 1 << (EB - 1)} | set(rnd.randrange(top + 1) for _ in range(20))):
                        for F in [0] + [1 << i for i in range(P)] + [(1 << P) - 1, (1 << (P - 1)) - 1] + [rnd.getrandbits(P) for _ in range(5)]:
                            for sg in (0, 1):
                                if cfg[0] == 'i' and fn == 'roundtrip' and E == top:
                                    continue
                                calls.append((s + fn, sg << (N - 1) | E << P | F, 0, 0))
            out += compare(ck, 41, cfg, calls, expect, lambda f, a, b, c: '%s(%s)' % (f, hex(a)))
        return out
    ck.replayers.append(replay)
    return ck.finish()


PROPS = {'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17}
