"""Parser for the textual LLVM IR (clang 18, -O0, opaque pointers) that the
verifier takes as the program text.  Only the subset clang emits for this code
base is accepted; anything else raises Unsupported, which makes every
obligation of the function fail (it is never skipped)."""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
    c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"      # c-string
  | "(?:[^"])*"                          # string
  | %"[^"]+" | %[-A-Za-z$._0-9]+         # local
  | @"[^"]+" | @[-A-Za-z$._0-9]+         # global
  | \#[0-9]+ | ![-A-Za-z0-9._]* 
  | 0x[KMLH]?[0-9A-Fa-f]+
  | -?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?
  | [A-Za-z_][-A-Za-z0-9_.]*
  | \.\.\. | [\[\]{}()<>,=*:|]
''', re.X)


def lex(s):
    return TOK.findall(s)


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly',
               'returned', 'immarg', 'inreg', 'noreturn', 'nest', 'readnone', 'nofree', 'allocptr', 'dead_on_unwind', 'writable', 'noinline', 'nounwind'}


class Mod:
    def __init__(self, text):
        self.types = {}
        self.globals = {}      # name -> (type, init tokens, constant?)
        self.funcs = {}        # name -> Func (lazily parsed body)
        self.decls = set()
        self.dbg = {}          # !N -> line
        self.ptrbytes = 8
        self.i64align = 8
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('target datalayout'):
                if 'p:32:32' in l:
                    self.ptrbytes = 4
                    self.i64align = 4
            elif l.startswith('%') and ' = type ' in l:
                name, rhs = l.split(' = type ', 1)
                self.types[name.strip()] = rhs
            elif l.startswith('@'):
                name, rhs = l.split(' = ', 1)
                self.globals[name.strip()] = rhs
            elif l.startswith('declare'):
                m = re.search(r'(@"[^"]+"|@[-A-Za-z$._0-9]+)\(', l)
                self.decls.add(m.group(1))
            elif l.startswith('define'):
                m = re.search(r'(@"[^"]+"|@[-A-Za-z$._0-9]+)\(', l)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs[m.group(1)] = Func(self, m.group(1), l, lines[i + 1:j])
                i = j
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = .*DILocation\(line: (\d+)', l)
                if m:
                    self.dbg[m.group(1)] = int(m.group(2))
            i += 1
        self._tycache = {}

    # ---- types -------------------------------------------------------------
    def parse_type(self, t, p):
        """t: token list, p: position -> (type, newpos)"""
        k = t[p]
        if k == 'void':
            ty = ('void',)
            p += 1
        elif re.fullmatch(r'i\d+', k):
            ty = ('i', int(k[1:]))
            p += 1
        elif k == 'ptr':
            ty = ('ptr',)
            p += 1
        elif k == 'float':
            ty = ('f', 32)
            p += 1
        elif k == 'double':
            ty = ('f', 64)
            p += 1
        elif k == 'x86_fp80':
            ty = ('f', 80)
            p += 1
        elif k in ('label', 'metadata', 'token'):
            ty = (k,)
            p += 1
        elif k == '[':
            n = int(t[p + 1])
            assert t[p + 2] == 'x'
            e, p = self.parse_type(t, p + 3)
            assert t[p] == ']'
            p += 1
            ty = ('arr', n, e)
        elif k == '{':
            el = []
            p += 1
            while t[p] != '}':
                e, p = self.parse_type(t, p)
                el.append(e)
                if t[p] == ',':
                    p += 1
            p += 1
            ty = ('struct', tuple(el), False)
        elif k == '<' and t[p + 1] == '{':
            el = []
            p += 2
            while t[p] != '}':
                e, p = self.parse_type(t, p)
                el.append(e)
                if t[p] == ',':
                    p += 1
            p += 2
            ty = ('struct', tuple(el), True)
        elif k[0] == '%':
            ty = self.named(k)
            p += 1
        else:
            raise Unsupported('type ' + ' '.join(t[p:p + 6]))
        return ty, p

    def named(self, k):
        if k not in self._tycache:
            rhs = self.types[k]
            if rhs.strip() == 'opaque':
                self._tycache[k] = ('opaque',)
            else:
                self._tycache[k] = self.parse_type(lex(rhs), 0)[0]
        return self._tycache[k]

    def align(self, ty):
        k = ty[0]
        if k == 'i':
            b = (ty[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            if a == 8:
                return self.i64align
            if a >= 16:
                return 16
            return a
        if k == 'ptr':
            return self.ptrbytes
        if k == 'f':
            if ty[1] == 32:
                return 4
            return 8 if self.ptrbytes == 8 else 4
        if k == 'arr':
            return self.align(ty[2])
        if k == 'struct':
            if ty[2] or not ty[1]:
                return 1
            return max(self.align(e) for e in ty[1])
        raise Unsupported('align ' + str(ty))

    def size(self, ty):
        k = ty[0]
        if k == 'i':
            b = (ty[1] + 7) // 8
            a = self.align(ty)
            return (b + a - 1) // a * a
        if k == 'ptr':
            return self.ptrbytes
        if k == 'f':
            return {32: 4, 64: 8, 80: 16 if self.ptrbytes == 8 else 12}[ty[1]]
        if k == 'arr':
            return ty[1] * self.size(ty[2])
        if k == 'struct':
            off = 0
            for e in ty[1]:
                if not ty[2]:
                    a = self.align(e)
                    off = (off + a - 1) // a * a
                off += self.size(e)
            a = self.align(ty)
            return (off + a - 1) // a * a
        raise Unsupported('size ' + str(ty))

    def field_off(self, ty, idx):
        off = 0
        for j, e in enumerate(ty[1]):
            if not ty[2]:
                a = self.align(e)
                off = (off + a - 1) // a * a
            if j == idx:
                return off
            off += self.size(e)
        raise Unsupported('field')

    # ---- global initialisers ----------------------------------------------------
    def global_init(self, name):
        """-> (type, {offset: (size, value)}, is_constant) ; value int or ('gref', name, off)"""
        rhs = self.globals[name]
        t = lex(rhs.split(', comdat')[0])
        p = 0
        while t[p] not in ('constant', 'global'):
            p += 1
            if p >= len(t):
                raise Unsupported('global ' + name)
        const = t[p] == 'constant'
        ext = 'external' in t[:p]
        ty, p = self.parse_type(t, p + 1)
        cells = {}
        if not ext:
            self._init(ty, t, p, 0, cells)
        return ty, cells, const

    def _init(self, ty, t, p, off, cells):
        k = t[p]
        if k in ('zeroinitializer', 'undef', 'poison', 'null'):
            if k in ('undef', 'poison'):
                return p + 1
            self._zero(ty, off, cells)
            return p + 1
        if ty[0] == 'i':
            if k == 'true':
                v = 1
            elif k == 'false':
                v = 0
            else:
                v = int(k)
            cells[off] = (self.size(ty), v % (1 << ty[1]))
            return p + 1
        if ty[0] == 'f':
            cells[off] = (self.size(ty), parse_float(ty, k))
            return p + 1
        if ty[0] == 'ptr':
            if k[0] == '@':
                cells[off] = (self.size(ty), ('gref', k, 0))
                return p + 1
            raise Unsupported('ptr init ' + k)
        if ty[0] == 'arr' and k.startswith('c"'):
            b = cstr(k)
            for j, c in enumerate(b):
                cells[off + j] = (1, c)
            return p + 1
        if ty[0] in ('arr', 'struct'):
            close = {'[': ']', '{': '}', '<': '>'}[k]
            p += 1
            if k == '<':
                p += 1
            j = 0
            while t[p] not in (']', '}'):
                ety, p = self.parse_type(t, p)
                eoff = off + (j * self.size(ty[2]) if ty[0] == 'arr' else self.field_off(ty, j))
                p = self._init(ety, t, p, eoff, cells)
                j += 1
                if t[p] == ',':
                    p += 1
            p += 1
            if k == '<':
                p += 1
            return p
        raise Unsupported('init ' + k)

    def _zero(self, ty, off, cells):
        if ty[0] == 'arr':
            s = self.size(ty[2])
            for j in range(ty[1]):
                self._zero(ty[2], off + j * s, cells)
        elif ty[0] == 'struct':
            for j, e in enumerate(ty[1]):
                self._zero(e, off + self.field_off(ty, j), cells)
        else:
            cells[off] = (self.size(ty), 0)


def cstr(k):
    s = k[2:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def parse_float(ty, k):
    import struct
    if k.startswith('0x'):
        bits = int(k, 16)
        if ty[1] == 64:
            return bits
        # float constants are printed as double bit patterns
        s = bits >> 63
        e = (bits >> 52) & 0x7ff
        m = bits & ((1 << 52) - 1)
        if e == 0x7ff:
            return (s << 31) | (0xff << 23) | (m >> 29)
        return struct.unpack('<I', struct.pack('<f', struct.unpack('<d', struct.pack('<Q', bits))[0]))[0]
    v = float(k)
    if ty[1] == 64:
        return struct.unpack('<Q', struct.pack('<d', v))[0]
    return struct.unpack('<I', struct.pack('<f', v))[0]


class Instr:
    __slots__ = ('op', 'dest', 'a', 'line', 'text')

    def __init__(self, op, dest, a, line, text):
        self.op, self.dest, self.a, self.line, self.text = op, dest, a, line, text


class Func:
    def __init__(self, mod, name, header, body):
        self.mod, self.name, self.header, self.body = mod, name, header, body
        self._parsed = False

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        m = self.mod
        h = self.header
        t = lex(h)
        p = t.index(self.name)
        # return type: the type just before the name
        q = p
        # find by scanning forward over attributes
        j = 1
        rt = None
        while j < p:
            try:
                ty, nj = m.parse_type(t, j)
                if nj == p:
                    rt = ty
                    break
                j += 1
            except (Unsupported, KeyError, ValueError, AssertionError, IndexError):
                j += 1
        self.rettype = rt
        self.params = []
        p += 2
        while t[p] != ')':
            if t[p] == '...':
                p += 1
                continue
            ty, p = m.parse_type(t, p)
            attrs = {}
            while t[p] not in (',', ')') and not t[p].startswith('%'):
                a = t[p]
                p += 1
                if a in ('byval', 'sret', 'dereferenceable', 'dereferenceable_or_null', 'elementtype') and t[p] == '(':
                    if a in ('byval', 'sret', 'elementtype'):
                        aty, p = m.parse_type(t, p + 1)
                        attrs[a] = aty
                    else:
                        attrs[a] = int(t[p + 1])
                        p += 2
                    assert t[p] == ')'
                    p += 1
                elif a == 'align':
                    p += 1
                else:
                    attrs[a] = True
            nm = None
            if t[p].startswith('%'):
                nm = t[p]
                p += 1
            else:
                nm = '%' + str(len(self.params))
            self.params.append((ty, nm, attrs))
            if t[p] == ',':
                p += 1
        self.blocks = {}
        cur = None
        # join multi-line instructions (switch, landingpad clauses, invoke)
        lines = []
        acc = None
        for l in self.body:
            s = l.strip()
            if not s:
                continue
            if acc is not None:
                acc += ' ' + s
                if s.startswith(']'):
                    lines.append(acc)
                    acc = None
                continue
            if s.startswith('switch') and not s.rstrip().endswith(']') and '[' in s and ']' not in s:
                acc = s
                continue
            if s.startswith('to label') or s.startswith('catch ') or s.startswith('cleanup') or s.startswith('filter '):
                lines[-1] += ' ' + s
                continue
            lines.append(s)
        first = True
        for s in lines:
            mm = re.match(r'^("[^"]+"|[-A-Za-z$._0-9]+):(\s|$)', s)
            if mm and not s.startswith('%'):
                cur = '%' + mm.group(1)
                self.blocks[cur] = []
                if first:
                    self.entry = cur
                    first = False
                continue
            if cur is None:
                # unnamed entry block: number = count of params
                cur = '%entryblock'
                self.blocks[cur] = []
                self.entry = cur
                first = False
            s0 = s
            line = None
            mm = re.search(r', !dbg !(\d+)', s)
            if mm:
                line = m.dbg.get(mm.group(1))
                s = s[:mm.start()] + s[mm.end():]
            s = re.sub(r', !(srcloc|llvm\.loop|noundef|range|nonnull|prof) !\d+', '', s)
            self.blocks[cur].append(self._instr(s, line, s0))
        return self

    def _opnd(self, ty, t, p):
        """operand token(s) -> (('kind',...), p)"""
        k = t[p]
        if k[0] == '%':
            return ('l', k), p + 1
        if k[0] == '@':
            return ('g', k), p + 1
        if k in ('undef', 'poison'):
            return ('undef',), p + 1
        if k in ('null', 'zeroinitializer', 'none'):
            return ('zero',), p + 1
        if k == 'true':
            return ('c', 1), p + 1
        if k == 'false':
            return ('c', 0), p + 1
        if k == 'getelementptr':
            p += 1
            while t[p] != '(':
                p += 1
            p += 1
            bty, p = self.mod.parse_type(t, p)
            assert t[p] == ','
            pty, p = self.mod.parse_type(t, p + 1)
            base, p = self._opnd(pty, t, p)
            idx = []
            while t[p] == ',':
                p += 1
                if t[p] in ('inrange',):
                    p += 1
                ity, p = self.mod.parse_type(t, p)
                o, p = self._opnd(ity, t, p)
                idx.append((ity, o))
            assert t[p] == ')'
            return ('cgep', bty, base, idx), p + 1
        if k in ('{', '[', '<'):
            el = []
            close = {'{': '}', '[': ']', '<': '>'}[k]
            p += 1
            while t[p] != close:
                ety, p = self.mod.parse_type(t, p)
                o, p = self._opnd(ety, t, p)
                el.append((ety, o))
                if t[p] == ',':
                    p += 1
            return ('agg', el), p + 1
        if ty and ty[0] == 'f':
            return ('c', parse_float(ty, k)), p + 1
        if re.fullmatch(r'-?\d+', k):
            return ('c', int(k)), p + 1
        raise Unsupported('operand ' + ' '.join(t[p:p + 5]))

    def _typed(self, t, p):
        ty, p = self.mod.parse_type(t, p)
        attrs = {}
        while t[p] in PARAM_ATTRS or t[p] in ('align', 'dereferenceable', 'byval', 'sret', 'dereferenceable_or_null', 'elementtype'):
            a = t[p]
            p += 1
            if a == 'align':
                if t[p] == '(':
                    p += 3
                else:
                    p += 1
            elif p < len(t) and t[p] == '(':
                if a in ('byval', 'sret', 'elementtype'):
                    aty, p = self.mod.parse_type(t, p + 1)
                    attrs[a] = aty
                else:
                    p += 2
                p += 1
            else:
                attrs[a] = True
        o, p = self._opnd(ty, t, p)
        return (ty, o, attrs), p

    def _instr(self, s, line, text):
        m = self.mod
        t = lex(s)
        dest = None
        p = 0
        if t[0][0] == '%' and t[1] == '=':
            dest = t[0]
            p = 2
        while t[p] in ('tail', 'musttail', 'notail'):
            p += 1
        op = t[p]
        p += 1

        def I(*a):
            return Instr(op, dest, a, line, text)
        if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            flags = set()
            while t[p] in ('nsw', 'nuw', 'exact', 'disjoint'):
                flags.add(t[p])
                p += 1
            ty, p = m.parse_type(t, p)
            a, p = self._opnd(ty, t, p)
            b, p = self._opnd(ty, t, p + 1)
            return I(ty, a, b, flags)
        if op == 'icmp':
            pred = t[p]
            ty, p = m.parse_type(t, p + 1)
            a, p = self._opnd(ty, t, p)
            b, p = self._opnd(ty, t, p + 1)
            return I(pred, ty, a, b)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            while t[p] in ('nneg', 'nsw', 'nuw'):
                p += 1
            ty, p = m.parse_type(t, p)
            a, p = self._opnd(ty, t, p)
            ty2 = ty
            if op != 'freeze':
                assert t[p] == 'to'
                ty2, p = m.parse_type(t, p + 1)
            return I(ty, a, ty2)
        if op == 'load':
            while t[p] in ('volatile', 'atomic'):
                raise Unsupported('volatile load')
            ty, p = m.parse_type(t, p)
            (pty, ptr, _), p = self._typed(t, p + 1)
            return I(ty, ptr)
        if op == 'store':
            (ty, v, _), p = self._typed(t, p)
            (pty, ptr, _), p = self._typed(t, p + 1)
            return I(ty, v, ptr)
        if op == 'alloca':
            if t[p] == 'inalloca':
                raise Unsupported('inalloca')
            ty, p = m.parse_type(t, p)
            return I(ty)
        if op == 'getelementptr':
            inb = False
            while t[p] in ('inbounds', 'nusw', 'nuw'):
                inb = True
                p += 1
            bty, p = m.parse_type(t, p)
            (pty, base, _), p = self._typed(t, p + 1)
            idx = []
            while p < len(t) and t[p] == ',':
                (ity, o, _), p = self._typed(t, p + 1)
                idx.append((ity, o))
            return I(bty, base, idx, inb)
        if op in ('call', 'invoke'):
            while t[p] in PARAM_ATTRS or t[p] in ('fastcc', 'ccc', 'align', 'dereferenceable', 'range'):
                a = t[p]
                p += 1
                if a == 'align':
                    p += 1
                elif t[p] == '(':
                    while t[p] != ')':
                        p += 1
                    p += 1
            rty, p = m.parse_type(t, p)
            if t[p] == '(':      # function type
                d = 0
                while True:
                    if t[p] == '(':
                        d += 1
                    if t[p] == ')':
                        d -= 1
                    p += 1
                    if d == 0:
                        break
            callee = t[p]
            if callee[0] != '@':
                raise Unsupported('indirect call')
            p += 2
            args = []
            while t[p] != ')':
                if t[p] == 'metadata':
                    return Instr('nop', None, (), line, text)
                x, p = self._typed(t, p)
                args.append(x)
                if t[p] == ',':
                    p += 1
            p += 1
            normal = None
            if op == 'invoke':
                while t[p] != 'label':
                    p += 1
                normal = t[p + 1]
            return Instr('call', dest, (rty, callee, args, normal), line, text)
        if op == 'br':
            if t[p] == 'label':
                return I(None, t[p + 1], None)
            ty, p = m.parse_type(t, p)
            c, p = self._opnd(ty, t, p)
            # , label %a , label %b
            return I(c, t[p + 2], t[p + 5])
        if op == 'switch':
            ty, p = m.parse_type(t, p)
            v, p = self._opnd(ty, t, p)
            deflt = t[p + 2]
            p += 4
            cases = []
            while t[p] != ']':
                cty, p = m.parse_type(t, p)
                cases.append((int(t[p]), t[p + 3]))
                p += 4
            return I(ty, v, deflt, cases)
        if op == 'ret':
            if t[p] == 'void':
                return I(('void',), None)
            ty, p = m.parse_type(t, p)
            v, p = self._opnd(ty, t, p)
            return I(ty, v)
        if op == 'unreachable':
            return I()
        if op == 'phi':
            ty, p = m.parse_type(t, p)
            inc = []
            while p < len(t) and t[p] in ('[', ','):
                if t[p] == ',':
                    p += 1
                    continue
                v, p = self._opnd(ty, t, p + 1)
                inc.append((v, t[p + 1]))
                p += 3
            return I(ty, inc)
        if op == 'select':
            cty, p = m.parse_type(t, p)
            c, p = self._opnd(cty, t, p)
            (ty, a, _), p = self._typed(t, p + 1)
            (ty2, b, _), p = self._typed(t, p + 1)
            return I(c, ty, a, b)
        if op == 'extractvalue':
            (ty, v, _), p = self._typed(t, p)
            idx = []
            while p < len(t) and t[p] == ',':
                idx.append(int(t[p + 1]))
                p += 2
            return I(ty, v, idx)
        if op == 'insertvalue':
            (ty, v, _), p = self._typed(t, p)
            (ety, e, _), p = self._typed(t, p + 1)
            idx = []
            while p < len(t) and t[p] == ',':
                idx.append(int(t[p + 1]))
                p += 2
            return I(ty, v, ety, e, idx)
        if op in ('landingpad', 'resume', 'fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'uitofp', 'fptoui', 'fneg'):
            return Instr('unsupported', dest, (op,), line, text)
        raise Unsupported('instruction ' + s[:120])
