"""Parser of LLVM IR text (LLVM 18, opaque pointers), as much of it as clang produces for the sources under contract."""
import re, subprocess


class IRError(Exception):
    pass


TOK = re.compile(r'c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|[%@]"(?:[^"\\]|\\.)*"|[%@][-\w.$]+|"(?:[^"\\]|\\.)*"|-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+'
                 r'|-?\d+|\.\.\.|[A-Za-z_][\w.]*|#\d+|![\w.]*|[\[\]{}()<>*,=|:]')


def toks(s):
    return TOK.findall(s)


# --- types: ('i', n) ('ptr',) ('void',) ('f', name) ('arr', n, t) ('struct', (t...), packed) ('named', name) ('fn',) ('label',) ('meta',)
class P:
    """Token stream."""
    def __init__(self, t, mod):
        self.t, self.i, self.mod = t, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError("expected %s, got %s in %s" % (x, y, " ".join(self.t)))

    def type(self):
        x = self.next()
        if x == "ptr":
            t = ("ptr",)
        elif x == "void":
            t = ("void",)
        elif re.fullmatch(r"i\d+", x):
            t = ("i", int(x[1:]))
        elif x in ("float", "double", "x86_fp80", "half"):
            t = ("f", x)
        elif x in ("label", "metadata", "token"):
            t = (x,)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif x == "{":
            t = self._struct("}", False)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                t = self._struct("}", True)
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif x[0] == "%":
            t = ("named", x)
        elif x == "opaque":
            t = ("opaque",)
        else:
            raise IRError("type: " + x + " in " + " ".join(self.t[:40]))
        while self.peek() == "(":
            # function type
            d = 0
            while True:
                y = self.next()
                d += y == "("
                d -= y == ")"
                if d == 0:
                    break
            t = ("fn", t)
        return t

    def _struct(self, close, packed):
        l = []
        if not self.accept(close):
            while True:
                l.append(self.type())
                if self.accept(close):
                    break
                self.expect(",")
        return ("struct", tuple(l), packed)

    ATTR_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "allocsize", "memory",
                "range", "nofpclass", "captures", "alignstack", "preallocated", "inalloca", "byref", "addrspace"}

    def skip_attrs(self):
        while True:
            x = self.peek()
            if x is None:
                return
            if x in self.ATTR_ARG:
                self.next()
                if self.peek() == "(":
                    d = 0
                    while True:
                        y = self.next()
                        d += y == "("
                        d -= y == ")"
                        if d == 0:
                            break
                elif x == "align":
                    self.next()
                continue
            if x in ("noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "writeonly", "readnone", "inreg",
                     "returned", "immarg", "nest", "swiftself", "noreturn", "nounwind", "inbounds", "dso_local", "writable",
                     "dead_on_unwind", "allocptr", "fastcc", "ccc", "coldcc", "unnamed_addr", "local_unnamed_addr", "nofree", "allocalign"):
                self.next()
                continue
            return

    def value(self, ty):
        """An operand of the given type."""
        x = self.next()
        if x[0] == "%":
            return ("local", x)
        if x[0] == "@":
            return ("global", x)
        if re.fullmatch(r"-?\d+", x):
            return ("int", int(x))
        if x == "true":
            return ("int", 1)
        if x == "false":
            return ("int", 0)
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "zeroinitializer":
            return ("zero",)
        if x == "none":
            return ("undef",)
        if x == "getelementptr":
            self.skip_attrs()
            self.accept("inbounds")
            self.accept("inrange")
            self.expect("(")
            st = self.type()
            self.expect(",")
            self.type()
            base = self.value(("ptr",))
            idx = []
            while self.accept(","):
                self.accept("inrange")
                t = self.type()
                idx.append((t, self.value(t)))
            self.expect(")")
            return ("gep", st, base, idx)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "addrspacecast"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("cast", x, t, v, t2)
        if x in ("sub", "add"):
            while self.peek() != "(":
                self.next()
            self.expect("(")
            t = self.type()
            a = self.value(t)
            self.expect(",")
            t = self.type()
            b = self.value(t)
            self.expect(")")
            return ("cbin", x, a, b)
        if x in ("{", "["):
            close = "}" if x == "{" else "]"
            l = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    l.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(",")
            return ("agg", l)
        if x == "<":
            if self.peek() == "{":
                self.next()
                l = []
                while True:
                    t = self.type()
                    l.append((t, self.value(t)))
                    if self.accept("}"):
                        break
                    self.expect(",")
                self.expect(">")
                return ("agg", l)
            l = []
            while True:
                t = self.type()
                l.append((t, self.value(t)))
                if self.accept(">"):
                    break
                self.expect(",")
            return ("agg", l)
        if x[0:2] == 'c"':
            b = re.sub(rb"\\([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), x[2:-1].encode("latin1"))
            return ("str", b)
        if re.match(r"0x|-?\d+\.", x):
            return ("fp", x)
        raise IRError("value: " + x + " in " + " ".join(self.t[:60]))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def ordering(text):
    m = re.search(r"\b(unordered|monotonic|acquire|release|acq_rel|seq_cst)\b", text)
    return m.group(1) if m else "seq_cst"


class Inst:
    __slots__ = ("op", "res", "ty", "a", "text", "line")

    def __init__(self, op, res, ty, a, text):
        self.op, self.res, self.ty, self.a, self.text = op, res, ty, a, text


class Function:
    def __init__(self, mod, name, header, lines):
        self.mod, self.name, self.header, self.lines = mod, name, header, lines
        self._blocks = None
        self.params = None
        self.ret = None
        self._header()

    def _header(self):
        p = P(toks(self.header), self.mod)
        p.expect("define")
        while True:
            x = p.peek()
            if x in ("dso_local", "internal", "linkonce_odr", "weak_odr", "hidden", "weak", "available_externally", "private", "external",
                     "linkonce", "protected", "fastcc", "comdat"):
                p.next()
                continue
            break
        p.skip_attrs()
        self.ret = p.type()
        p.skip_attrs()
        p.next()   # name
        p.expect("(")
        self.params = []
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    p.expect(")")
                    break
                t = p.type()
                p.skip_attrs()
                n = p.next() if p.peek() and p.peek()[0] == "%" else None
                self.params.append((t, n))
                if p.accept(")"):
                    break
                p.expect(",")

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        self._blocks = {}
        # Unnamed values share one counter: the entry block may be unnamed.
        cur = None
        first = None
        unnamed = len([1 for _, n in self.params if n is None])
        lines = self.lines
        i = 0
        while i < len(lines):
            l = lines[i]
            i += 1
            s = l.strip()
            if not s or s[0] == ";":
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
            if m:
                cur = "%" + m.group(1)
                self._blocks[cur] = []
                first = first or cur
                continue
            if cur is None:
                n = sum(1 for _, nm in self.params if re.fullmatch(r"%\d+", nm or ""))
                cur = "%" + str(n)
                self._blocks[cur] = []
                first = cur
            if s.startswith("switch ") and "]" not in s:
                while "]" not in lines[i]:
                    s += " " + lines[i].strip()
                    i += 1
                s += " " + lines[i].strip()
                i += 1
            self._blocks[cur].append(self._inst(s))
        self.entry = first

    def _inst(self, s):
        cut = s.find(", !")
        body = s if cut < 0 else s[:cut]
        t = toks(body)
        p = P(t, self.mod)
        res = None
        if len(t) > 1 and t[1] == "=":
            res = p.next()
            p.next()
        op = p.next()
        mk = lambda ty, *a: Inst(op, res, ty, a, s)
        if op in ("tail", "notail", "musttail"):
            op = p.next()
        if op == "ret":
            ty = p.type()
            return Inst(op, res, ty, (None if ty == ("void",) else p.value(ty),), s)
        if op == "br":
            if p.peek() == "label":
                p.next()
                return Inst("jmp", res, None, (p.next(),), s)
            ty, c = p.tv()
            p.expect(",")
            p.expect("label")
            a = p.next()
            p.expect(",")
            p.expect("label")
            b = p.next()
            return Inst("br", res, None, (c, a, b), s)
        if op == "switch":
            ty, v = p.tv()
            p.expect(",")
            p.expect("label")
            d = p.next()
            p.expect("[")
            cs = []
            while not p.accept("]"):
                ct = p.type()
                cv = p.value(ct)
                p.expect(",")
                p.expect("label")
                cs.append((cv[1], p.next()))
            return Inst(op, res, ty, (v, d, cs), s)
        if op == "unreachable":
            return Inst(op, res, None, (), s)
        if op == "alloca":
            ty = p.type()
            n = None
            while p.accept(","):
                if p.peek() == "align":
                    p.next()
                    p.next()
                else:
                    n = p.tv()
            return Inst(op, res, ty, (n,), s)
        if op == "load":
            atomic = p.accept("atomic")
            p.accept("volatile")
            ty = p.type()
            p.expect(",")
            _, v = p.tv()
            return Inst(op, res, ty, (v,) + ((ordering(s),) if atomic else ()), s)
        if op == "store":
            atomic = p.accept("atomic")
            p.accept("volatile")
            ty, v = p.tv()
            p.expect(",")
            _, q = p.tv()
            return Inst(op, res, ty, (v, q) + ((ordering(s),) if atomic else ()), s)
        if op == "getelementptr":
            p.accept("inbounds")
            ty = p.type()
            p.expect(",")
            _, base = p.tv()
            idx = []
            while p.accept(","):
                idx.append(p.tv())
            return Inst(op, res, ty, (base, idx), s)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            fl = set()
            while p.peek() in ("nsw", "nuw", "exact", "disjoint"):
                fl.add(p.next())
            ty = p.type()
            a = p.value(ty)
            p.expect(",")
            b = p.value(ty)
            return Inst(op, res, ty, (a, b, fl), s)
        if op in ("icmp", "fcmp"):
            pr = p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(",")
            b = p.value(ty)
            return Inst(op, res, ty, (pr, a, b), s)
        if op in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptosi", "sitofp", "uitofp", "fpext", "fptrunc", "fptoui",
                  "addrspacecast"):
            p.accept("nneg")
            ty, v = p.tv()
            p.expect("to")
            t2 = p.type()
            return Inst(op, res, t2, (ty, v), s)
        if op == "phi":
            ty = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.value(ty)
                p.expect(",")
                b = p.next()
                p.expect("]")
                inc.append((v, b))
                if not p.accept(","):
                    break
            return Inst(op, res, ty, (inc,), s)
        if op == "select":
            ct, c = p.tv()
            p.expect(",")
            ty, a = p.tv()
            p.expect(",")
            _, b = p.tv()
            return Inst(op, res, ty, (c, a, b), s)
        if op == "extractvalue":
            ty, v = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))
            return Inst(op, res, ty, (v, idx), s)
        if op == "insertvalue":
            ty, v = p.tv()
            p.expect(",")
            et, ev = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))
            return Inst(op, res, ty, (v, et, ev, idx), s)
        if op == "freeze":
            ty, v = p.tv()
            return Inst(op, res, ty, (v,), s)
        if op in ("call", "invoke"):
            p.skip_attrs()
            ty = p.type()
            p.skip_attrs()
            if ty[0] == "fn":
                ty = ty[1]
            callee = p.value(("ptr",))
            p.expect("(")
            args = []
            if not p.accept(")"):
                while True:
                    t = p.type()
                    if t == ("metadata",):
                        # skip to , or )
                        while p.peek() not in (",", ")"):
                            p.next()
                        args.append((t, ("undef",)))
                    else:
                        p.skip_attrs()
                        args.append((t, p.value(t)))
                    if p.accept(")"):
                        break
                    p.expect(",")
            return Inst("call", res, ty, (callee, args), s)
        if op == "atomicrmw":
            p.accept("volatile")
            kind = p.next()
            _, q = p.tv()
            p.expect(",")
            ty, v = p.tv()
            return Inst(op, res, ty, (kind, q, v, ordering(s)), s)
        if op == "fence":
            return Inst(op, res, None, (ordering(s),), s)
        if op in ("cmpxchg", "fadd", "fsub", "fmul", "fdiv", "fneg", "extractelement", "insertelement",
                  "shufflevector", "va_arg", "landingpad", "resume"):
            return Inst("unsupported", res, None, (op,), s)
        raise IRError("instruction: " + s)


class Module:
    def __init__(self, text, name):
        self.name = name
        self.types = {}
        self.functions = {}
        self.globals = {}
        self.declared = set()
        self._layout = {}
        lines = text.split("\n")
        i = 0
        self.raw_types = {}
        self.raw_globals = {}
        while i < len(lines):
            l = lines[i]
            if l.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                n = "@" + m.group(1)
                self.functions[n] = Function(self, n, l.rstrip(" {"), lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith("%") and " = type " in l:
                n, d = l.split(" = type ", 1)
                self.raw_types[n] = d
            elif l.startswith("@"):
                n, d = l.split(" = ", 1)
                self.raw_globals[n] = d
            elif l.startswith("declare "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                self.declared.add("@" + m.group(1))
            i += 1
        self.demangled = demangle(list(self.functions) + list(self.declared))

    def resolve(self, t):
        while t[0] == "named":
            n = t[1]
            if n not in self.types:
                d = self.raw_types[n]
                self.types[n] = P(toks(d), self).type()
            t = self.types[n]
        return t

    def layout(self, t):
        """(size, align, offsets or None)"""
        if t in self._layout:
            return self._layout[t]
        r = self.resolve(t)
        k = r[0]
        if k == "i":
            b = 1
            while b * 8 < r[1]:
                b *= 2
            x = (b, min(b, 16), None)
        elif k == "ptr":
            x = (8, 8, None)
        elif k == "f":
            x = {"float": (4, 4, None), "double": (8, 8, None), "x86_fp80": (16, 16, None), "half": (2, 2, None)}[r[1]]
        elif k in ("arr", "vec"):
            s, a, _ = self.layout(r[2])
            x = (s * r[1], a, None)
        elif k == "struct":
            off, al, offs = 0, 1, []
            for e in r[1]:
                s, a, _ = self.layout(e)
                if r[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            x = (off, al, offs)
        elif k == "void":
            x = (0, 1, None)
        else:
            raise IRError("layout of " + str(t))
        self._layout[t] = x
        return x

    def size(self, t):
        return self.layout(t)[0]

    def global_init(self, n):
        """(type, value) of a global with an initializer, or None."""
        if n in self.globals:
            return self.globals[n]
        d = self.raw_globals.get(n)
        r = None
        if d is not None:
            p = P(toks(d), self)
            ext = False
            while p.peek() not in ("global", "constant"):
                x = p.next()
                if x in ("external", "extern_weak", "available_externally"):
                    ext = True
                if p.peek() is None:
                    break
            if p.peek() is not None:
                const = p.next() == "constant"
                t = p.type()
                if ext:
                    r = (t, None, const)
                else:
                    r = (t, p.value(t), const)
        self.globals[n] = r
        return r


def demangle(names):
    plain = [n[1:].strip('"') for n in names]
    out = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(plain), text=True, stdout=subprocess.PIPE).stdout.split("\n")
    return dict(zip(names, out))
