"""A model of the static semantics (typing, constness, scoping, control flow,
warnings) and a generator of programs.  Written from docs/ and the property
statements; used only by the bounded checks, as the oracle for programs given
to the real front end.

Expressions: ("c", type, text) | ("v", name) | ("u", op, e) | ("b", op, l, r) | ("f", name, [args])
Statements (dicts): k = def|set|func|expr|ret|if|elif|else|while|break|continue|noop|unreachable|comment|alias|ns|ext
"""
import random

NUM = ("Int", "Float")
ARITH = {"+": "ADD", "-": "SUB", "*": "MULT", "/": "DIV", "mod": "MOD", "^": "POW"}
CMP = {"<": "LESS_THAN", ">": "GTR_THAN", "<=": "LESS_THAN_EQ", ">=": "GTR_THAN_EQ"}
LOGIC = {"and": "AND", "or": "OR", "xor": "XOR"}
SHIFT = {"<<": "LSHIFT", ">>": "RSHIFT"}
EQ = {"is": "IS", "isnt": "ISNT"}
BIN = {**ARITH, **CMP, **LOGIC, **SHIFT, **EQ}
UN = {"-": "UNARY_NEG", "not": "NOT", "&": "REF", "*": "DEREF"}
BUILTIN = ("Bool", "Int", "Float", "Rune", "Str", "Void")


class Reject(Exception):
    pass


class Scope:
    def __init__(self, parent=None):
        self.d, self.parent = {}, parent

    def get(self, n):
        s = self
        while s:
            if n in s.d:
                return s.d[n]
            s = s.parent
        return None


class Sym:
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)


class Checker:
    """-> raises Reject, or leaves self.warn and self.uses behind"""

    def __init__(self, werror=False):
        self.werror, self.warn, self.uses = werror, [], []
        self.scope = Scope()
        self.func = Sym("func", ret="Int", main=True, name="main")
        self.loops = 0

    def w(self, what):
        self.warn.append(what)
        if self.werror:
            raise Reject("warning " + what)

    # types
    def type_of_name(self, t):
        if t.startswith("&"):
            i = self.type_of_name(t[1:])
            return i and "&" + i
        s = self.lookup(t)
        if s and s.kind == "alias":
            return s.type
        return t if t in BUILTIN else None

    def lookup(self, n):
        if "." in n:
            a, b = n.split(".", 1)
            s = self.scope.get(a)
            if not s or s.kind != "ns":
                return None
            return s.members.get(b)
        return self.scope.get(n)

    def declare(self, n, sym):
        if self.scope.get(n) or n in BUILTIN:
            raise Reject("redeclared " + n)
        self.scope.d[n] = sym

    # expressions -> (type)
    def expr(self, e):
        k = e[0]
        if k == "c":
            return e[1]
        if k == "v":
            s = self.lookup(e[1])
            if not s or s.kind != "var":
                raise Reject("no variable " + e[1])
            s.read = True
            self.uses.append((e[1], s.line))
            return s.type
        if k == "f":
            s = self.lookup(e[1])
            if not s or s.kind != "func":
                raise Reject("no function " + e[1])
            s.called = True
            if len(e[2]) != len(s.params):
                raise Reject("argument count")
            for a, t in zip(e[2], s.params):
                if self.expr(a) != t:
                    raise Reject("argument type")
            return s.ret
        if k == "u":
            t = self.expr(e[2])
            o = e[1]
            if o == "-":
                if t not in NUM:
                    raise Reject("unary -")
                return t
            if o == "not":
                if t != "Bool":
                    raise Reject("not")
                return "Bool"
            if e[2][0] != "v":
                raise Reject("reference of a non variable")
            if o == "&":
                return "&" + t
            if not t.startswith("&"):
                raise Reject("deref")
            return t[1:]
        _, o, l, r = e
        tr = self.expr(r)
        tl = self.expr(l)
        if tl != tr:
            raise Reject("operand types")
        if o in ARITH:
            if o in ("/", "mod") and r[0] == "c" and r[1] == "Int" and int(r[2], 0) == 0:
                raise Reject("division by zero")
            if tr not in NUM:
                raise Reject("not numeric")
            return tr
        if o in CMP:
            if tr not in NUM:
                raise Reject("not numeric")
            return "Bool"
        if o in SHIFT:
            if tr != "Int":
                raise Reject("shift")
            return tr
        if o in LOGIC:
            if tr != "Bool":
                raise Reject("logic")
            return "Bool"
        if tr == "Void":
            raise Reject("void comparison")
        return "Bool"

    def cond(self, e):
        if self.expr(e) != "Bool":
            raise Reject("condition")
        if e[0] == "c":
            self.w("always " + e[2])

    def block(self, stmts, params=()):
        self.scope = Scope(self.scope)
        for n, t, line in params:
            self.declare(n, Sym("var", type=t, const=True, read=False, line=line))
        self.stmts(stmts)
        inner = self.scope
        self.scope = self.scope.parent
        return inner

    def dead(self, rest):
        if any(s["k"] not in ("comment", "unreachable", "noop") for s in rest):
            raise Reject("dead code")

    def stmts(self, ss):
        last = None
        for i, s in enumerate(ss):
            self.stmt(s, last, ss[i + 1:])
            if s["k"] != "comment":
                last = s
        return

    def stmt(self, s, last, rest):
        k = s["k"]
        if k == "def":
            if s.get("alias_rhs"):       # the right hand side starts with the name of a type
                t = self.type_of_name(s["alias_rhs"])
                if t:
                    if s["mut"] or s["type"] or s.get("alias_tail"):
                        raise Reject("type alias form")
                    self.declare(s["name"], Sym("alias", type=t))
                    return
                n = s["alias_rhs"].lstrip("&")     # the name of a variable?
                e = ("v", n)
                for _ in range(len(s["alias_rhs"]) - len(n)):
                    e = ("u", "&", e)
                if s.get("alias_tail"):
                    e = ("b", "+", e, ("c", "Int", "5"))
                s["e"] = e
            e = s["e"]
            name = e[1] if e[0] == "v" else "&" + e[2][1] if e[0] == "u" and e[1] == "&" and e[2][0] == "v" else None
            t = name and self.type_of_name(name)
            if t:                        # so it is an alias after all
                if s["mut"] or s["type"]:
                    raise Reject("type alias form")
                self.declare(s["name"], Sym("alias", type=t))
                return
            t = self.expr(s["e"])
            if s["e"][0] == "f" and t == "Void":
                raise Reject("void assigned")
            vt = t
            if s["type"]:
                vt = self.type_of_name(s["type"])
                if not vt:
                    raise Reject("unknown type")
            sym = Sym("var", type=vt, const=not s["mut"], read=False, reassigned=False, line=s["line"],
                      export=s.get("export", False))
            self.declare(s["name"], sym)
            s["sym"] = sym
            if t != vt:
                raise Reject("initialiser type")
            if s["e"][0] == "c" and s["type"]:
                self.w("trivial " + vt)
        elif k == "set":
            v = self.lookup(s["name"])
            if not v or v.kind != "var":
                raise Reject("no variable")
            if v.const:
                raise Reject("constant reassigned")
            v.reassigned = True
            if self.expr(s["e"]) != v.type:
                raise Reject("assigned type")
            if s["e"][0] == "v" and self.lookup(s["e"][1]) is v:
                raise Reject("self assignment")
            self.uses.append((s["name"], v.line))
        elif k in ("func", "ext"):
            if (k == "ext" or s.get("export")) and self.depth_of() > 0:
                raise Reject("nested export")
            ret = "Void"
            if s["ret"]:
                ret = self.type_of_name(s["ret"])
                if not ret:
                    raise Reject("unknown type")
            f = Sym("func", ret=ret, params=[], called=False, main=False, line=s["line"], name=s["name"])
            outer, loops = self.func, self.loops
            self.func, self.loops = f, 0
            self.declare(s["name"], f)
            s["sym"] = f
            ps = []
            seen = set()
            for n, t in s["params"]:
                ty = self.type_of_name(t)
                if not ty:
                    raise Reject("unknown type")
                if n in seen or self.scope.get(n):
                    raise Reject("parameter shadows")
                seen.add(n)
                f.params.append(ty)
                ps.append((n, ty, s["line"]))
            if k == "func":
                self.block(s["body"], ps)
                term = next((x for x in s["body"] if x["k"] in ("ret", "unreachable")), None)
                val = bool(term and term["k"] == "ret" and term["e"])
                if not val and ret != "Void":
                    raise Reject("missing return")
                if val and ret == "Void":
                    raise Reject("void returns value")
            self.func, self.loops = outer, loops
        elif k == "expr":
            if s["e"][0] != "f":
                raise Reject("dangling expression")
            self.expr(s["e"])
        elif k == "ret":
            t = self.expr(s["e"]) if s["e"] else None
            if t is None and self.func.ret != "Void":
                raise Reject("return needs a value")
            if t is not None:
                if self.func.ret == "Void" or t != self.func.ret:
                    raise Reject("return type")
            self.dead(rest)
        elif k == "unreachable":
            self.dead(rest)
        elif k in ("if", "elif", "else", "while"):
            if k in ("elif", "else") and not (last and last["k"] in ("if", "elif")):
                raise Reject("no preceding if")
            if k == "while":
                self.loops += 1
            if k != "else":
                self.cond(s["e"])
            self.block(s["body"])
            if k == "while":
                self.loops -= 1
        elif k in ("break", "continue"):
            if not self.loops:
                raise Reject("not in a loop")
            self.dead(rest)
        elif k == "ns":
            ns = Sym("ns", members={})
            self.declare(s["name"], ns)
            inner = self.block(s["body"])
            ns.members = {n: m for n, m in inner.d.items()}

    def depth_of(self):
        d, s = 0, self.scope
        while s.parent:
            d, s = d + 1, s.parent
        return d

    def unused(self, ss):
        for s in ss:
            if s["k"] == "def" and "sym" in s:
                v = s["sym"]
                if not v.const and not v.reassigned:
                    self.w("const " + s["name"])
                if not v.read and not v.export:
                    self.w("unused " + s["name"])
            elif s["k"] in ("func", "ext"):
                if not s["sym"].called:
                    self.w("unusedf " + s["name"])
            elif s.get("body"):
                self.unused(s["body"])

    def program(self, ss):
        self.stmts(ss)
        # all warnings are reported before the verdict
        we, self.werror = self.werror, False
        n = len(self.warn)
        self.unused(ss)
        self.werror = we
        if we and len(self.warn) > n:
            raise Reject("unused")
        return self


# ------------------------------------------------------------------ printing

def pe(e, top=True):
    k = e[0]
    if k in ("c",):
        return e[2]
    if k == "v":
        return e[1]
    if k == "f":
        return "%s(%s)" % (e[1], ", ".join(pe(a) for a in e[2]))
    if k == "u":
        s = ("" if e[1] == "&" else " ").join((e[1], pe(e[2], False)))
        return s if top else "(" + s + ")"
    s = "%s %s %s" % (pe(e[2], False), e[1], pe(e[3], False))
    return s if top else "(" + s + ")"


def show(ss):
    out = []

    def go(ss, ind):
        t = "\t" * ind
        for s in ss:
            k = s["k"]
            s["line"] = len(out) + 1
            if k == "def":
                pre = "mut " if s["mut"] else ("export " if s.get("export") else "")
                rhs = s["alias_rhs"] + s.get("alias_tail", "") if s.get("alias_rhs") else pe(s["e"])
                if s["type"]:
                    out.append("%s%s%s: %s = %s" % (t, pre, s["name"], s["type"], rhs))
                else:
                    out.append("%s%s%s := %s" % (t, pre, s["name"], rhs))
            elif k == "set":
                out.append("%s%s = %s" % (t, s["name"], pe(s["e"])))
            elif k in ("func", "ext"):
                pre = "external " if k == "ext" else ("export " if s.get("export") else "")
                h = "%s%s%s(%s)%s" % (t, pre, s["name"], ", ".join("%s: %s" % p for p in s["params"]),
                                      " " + s["ret"] if s["ret"] else "")
                if k == "ext":
                    out.append(h)
                else:
                    out.append(h + " {")
                    go(s["body"], ind + 1)
                    out.append(t + "}")
            elif k == "expr":
                out.append(t + pe(s["e"]))
            elif k == "ret":
                out.append(t + "return" + (" " + pe(s["e"]) if s["e"] else ""))
            elif k in ("if", "elif", "while"):
                out.append("%s%s %s {" % (t, k, pe(s["e"])))
                go(s["body"], ind + 1)
                out.append(t + "}")
            elif k == "else":
                out.append(t + "else {")
                go(s["body"], ind + 1)
                out.append(t + "}")
            elif k == "ns":
                out.append("%snamespace %s {" % (t, s["name"]))
                go(s["body"], ind + 1)
                out.append(t + "}")
            elif k == "comment":
                out.append(t + "# c")
            else:
                out.append(t + k)
    go(ss, 0)
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- generation

LIT = {"Int": ["0", "1", "2", "7", "-3", "0x10"], "Float": ["0.0", "1.5", "-2.25"], "Bool": ["true", "false"],
       "Rune": ["'a'", "'z'"], "Str": ['"s"', '"tt"']}


class Gen:
    """Mostly legal programs; `err` is the chance, per decision, of an arbitrary choice instead of a legal one."""

    def __init__(self, rng, focus, err):
        self.r, self.focus, self.err = rng, focus, err
        self.n = 0

    def oops(self):
        return self.r.random() < self.err

    def fresh(self):
        self.n += 1
        return "v%d" % self.n

    def program(self):
        self.env = [{}]      # name -> ("var", type, mut) | ("func", params, ret) | ("alias", type) | ("ns", {..})
        self.ret = "Int"
        self.loop = 0
        self.infn = 0
        return self.stmts(self.r.randint(1, 9), 0, True)

    def names(self, kind):
        out = []
        for d in self.env:
            for n, v in d.items():
                if v[0] == kind:
                    out.append((n, v))
                if v[0] == "ns":
                    out += [(n + "." + m, w) for m, w in v[1].items() if w[0] == kind]
        return out

    def any_name(self):
        c = [n for d in self.env for n in d] + ["zz", "v1", "v2", "v3", "f1"]
        return self.r.choice(c)

    def type(self):
        r = self.r
        t = r.choice(["Int", "Int", "Int", "Float", "Bool", "Bool", "Rune", "Str"])
        if self.focus in ("types", "assign", "scope") and r.random() < 0.12:
            t = "&" + t
        return t

    def type_name(self, t):
        al = [n for n, v in self.names("alias") if v[1] == t]
        if al and self.r.random() < 0.5:
            return self.r.choice(al)
        if self.oops():
            return self.r.choice(["Int", "Bool", "Float", "Nope", "&Int", self.any_name()])
        return t

    def expr(self, t, d=0):
        r = self.r
        if self.oops():
            c = r.random()
            if c < 0.3:
                return ("v", self.any_name())
            if c < 0.4:
                return ("f", self.any_name(), [self.expr(self.type(), d + 1) for _ in range(r.randint(0, 2))])
            if c < 0.5:
                return ("u", r.choice(list(UN)), self.expr(t, d + 1))
            if c < 0.75 and d < 3:
                return ("b", r.choice(list(BIN)), self.expr(self.type(), d + 1), self.expr(t, d + 1))
            t = self.type()
        opts = []
        vs = [n for n, v in self.names("var") if v[1] == t]
        fs = [(n, v) for n, v in self.names("func") if v[2] == t]
        if vs:
            opts += ["v"] * 3
        if fs and d < 3:
            opts += ["f"]
        if t in LIT:
            opts += ["c"] * 2
        if d < 3:
            if t in ("Int", "Float", "Bool"):
                opts += ["b"] * 3 + ["u"]
            elif ("&" + t) in [v[1] for n, v in self.names("var")]:
                opts += ["*"]
        if t.startswith("&"):
            ws = [n for n, v in self.names("var") if v[1] == t[1:]]
            if ws:
                opts += ["&"] * 3
        if not opts:
            return ("c", "Int", "5")
        o = r.choice(opts)
        if o == "v":
            return ("v", r.choice(vs))
        if o == "c":
            return ("c", t, r.choice(LIT[t]))
        if o == "f":
            n, v = r.choice(fs)
            return self.call(n, v, d)
        if o == "&":
            return ("u", "&", ("v", r.choice(ws)))
        if o == "*":
            return ("u", "*", ("v", r.choice([n for n, v in self.names("var") if v[1] == "&" + t])))
        if o == "u":
            rs = [n for n, v in self.names("var") if v[1] == "&" + t]
            if rs and r.random() < 0.4:
                return ("u", "*", ("v", r.choice(rs)))
            return ("u", "not" if t == "Bool" else "-", self.expr(t, d + 1))
        if t == "Bool":
            c = r.random()
            if c < 0.4:
                return ("b", r.choice(list(LOGIC)), self.expr("Bool", d + 1), self.expr("Bool", d + 1))
            if c < 0.7:
                u = r.choice(NUM)
                return ("b", r.choice(list(CMP)), self.expr(u, d + 1), self.expr(u, d + 1))
            u = self.type()
            return ("b", r.choice(list(EQ)), self.expr(u, d + 1), self.expr(u, d + 1))
        if t == "Int" and r.random() < 0.2:
            return ("b", r.choice(list(SHIFT)), self.expr(t, d + 1), self.expr(t, d + 1))
        o, rhs = r.choice(list(ARITH)), self.expr(t, d + 1)
        if o in ("/", "mod") and rhs == ("c", "Int", "0") and not self.oops():
            rhs = ("c", "Int", "3")
        return ("b", o, self.expr(t, d + 1), rhs)

    def call(self, n, v, d):
        args = [self.expr(p, d + 1) for p in v[1]]
        if self.oops():
            if args and self.r.random() < 0.5:
                args.pop()
            else:
                args.append(self.expr(self.type(), d + 1))
        return ("f", n, args)

    def stmts(self, n, depth, top=False):
        out = []
        i = 0
        while i < n:
            i += 1
            s = self.stmt(depth, top, out)
            out.append(s)
            if s["k"] in ("ret", "break", "continue", "unreachable") and not self.oops():
                while self.r.random() < 0.2:
                    out.append(dict(k=self.r.choice(["noop", "comment", "unreachable"])))
                break
        return out

    def body(self, depth, n=None):
        self.env.append({})
        b = self.stmts(n or self.r.randint(1, 3), depth + 1)
        self.env.pop()
        return b

    def stmt(self, depth, top, prev):
        r = self.r
        w = dict(d=6, s=3, x=2, i=2, l=1, noop=0.4, comment=0.4, r=0.3, f=2 if depth < 2 else 0.3, a=0.3, brk=0.4 if self.loop else 0)
        if self.focus == "types":
            w.update(d=9, i=1, f=2)
        elif self.focus == "assign":
            w.update(d=7, s=7, a=0.6)
        elif self.focus == "func":
            w.update(f=6, x=4, r=1.2)
        elif self.focus == "flow":
            w.update(i=5, l=4, brk=2.5 if self.loop else 0.15, r=1)
        elif self.focus == "scope":
            w.update(f=3, i=3, d=8, a=1, ns=1 if top else 0)
        elif self.focus == "warn":
            w.update(d=7, s=3, i=3)
        if self.oops():
            w["brk"] = 3
        if depth > 3:
            w.update(i=0, l=0, f=0)
        if prev and prev[-1]["k"] in ("if", "elif") and r.random() < 0.5 or self.oops() and r.random() < 0.2:
            if r.random() < 0.5:
                return dict(k="elif", e=self.expr("Bool"), body=self.body(depth))
            return dict(k="else", body=self.body(depth))
        k = r.choices(list(w), list(w.values()))[0]
        if k == "d":
            t = self.type()
            name = self.any_name() if self.oops() or (self.focus == "scope" and r.random() < 0.08) else self.fresh()
            if self.focus == "scope" and r.random() < 0.3:
                name = "v%d" % r.randint(1, 6)
                if self.defined(name) and r.random() < 0.8:
                    name = self.fresh()
            e = self.expr(t)
            mut = r.random() < 0.4
            s = dict(k="def", name=name, mut=mut, type=self.type_name(t) if r.random() < 0.3 else None, e=e)
            if not mut and depth == 0 and r.random() < 0.1:
                s["export"] = True
            self.env[-1].setdefault(name, ("var", t, mut))
            return s
        if k == "a":
            t = r.choice(["Int", "Float", "Bool", "&Int", "Str"])
            name = "T%d" % r.randint(1, 4) if not self.oops() else self.any_name()
            s = dict(k="def", name=name, mut=self.oops(), type="Int" if self.oops() else None, e=None, alias_rhs=self.type_name(t),
                     alias_tail=" + 5" if self.oops() else "")
            self.env[-1].setdefault(name, ("alias", t))
            return s
        if k == "s":
            vs = [(n, v) for n, v in self.names("var") if v[2]]
            if self.oops():
                vs = self.names("var")
            if not vs:
                return dict(k="noop")
            n, v = r.choice(vs)
            e = self.expr(v[1])
            if e == ("v", n) and r.random() < 0.9:
                e = ("c", v[1], LIT[v[1]][0]) if v[1] in LIT else ("v", n)
            return dict(k="set", name=n, e=e)
        if k == "x":
            fs = self.names("func")
            if not fs or self.oops():
                if self.oops() and r.random() < 0.4:
                    return dict(k="expr", e=self.expr(self.type()) if self.oops() else ("f", self.any_name(), []))
                return dict(k="noop")
            n, v = r.choice(fs)
            return dict(k="expr", e=self.call(n, v, 0))
        if k == "f":
            nested = depth > 0
            name = "f%d" % r.randint(1, 4) if self.oops() else "f" + self.fresh()
            ps = []
            for _ in range(r.randint(0, 3)):
                t = r.choice(["Int", "Bool", "Float", "Str"])
                pn = self.any_name() if self.oops() else self.fresh()
                ps.append((pn, t))
            ret = r.choice([None, "Int", "Bool", "Float"])
            s = dict(k="func", name=name, params=[(n, self.type_name(t)) for n, t in ps], ret=ret and self.type_name(ret))
            if not nested and r.random() < 0.15 and self.focus != "warn":
                s["k"] = "ext"
                self.env[-1].setdefault(name, ("func", [t for _, t in ps], ret or "Void"))
                return s
            if r.random() < 0.1 and (not nested or self.oops()):
                s["export"] = True
            self.env[-1].setdefault(name, ("func", [t for _, t in ps], ret or "Void"))
            saved = (self.ret, self.loop)
            self.ret, self.loop = ret, 0
            self.env.append({n: ("var", t, False) for n, t in ps})
            b = self.stmts(r.randint(1, 3), depth + 1)
            if not any(x["k"] in ("ret", "unreachable") for x in b) and (not self.oops()):
                if ret and b[-1]["k"] not in ("break", "continue"):
                    b.append(dict(k="ret", e=self.expr(ret)))
            self.env.pop()
            self.ret, self.loop = saved
            s["body"] = b
            return s
        if k == "i":
            return dict(k="if", e=self.expr("Bool"), body=self.body(depth))
        if k == "l":
            e = self.expr("Bool")
            self.loop += 1
            b = self.body(depth)
            self.loop -= 1
            return dict(k="while", e=e, body=b)
        if k == "r":
            e = self.expr(self.ret) if self.ret else None
            if self.oops():
                e = None if e else self.expr("Int")
            return dict(k="ret", e=e)
        if k == "brk":
            return dict(k=r.choice(["break", "continue"]))
        if k == "ns":
            name = "n%d" % r.randint(1, 3)
            self.env.append({})
            b = []
            for _ in range(r.randint(1, 3)):
                nm = r.choice(["p", "q", "s"]) if r.random() < .6 else self.fresh()
                b.append(dict(k="def", name=nm, mut=False, type=None, e=self.expr("Int", 2)))
                self.env[-1].setdefault(nm, ("var", "Int", False))
            inner = self.env.pop()
            self.env[-1].setdefault(name, ("ns", inner))
            return dict(k="ns", name=name, body=b)
        return dict(k=k if k in ("noop", "comment") else "noop")

    def defined(self, n):
        return any(n in d for d in self.env)


import copy  # noqa: E402


def model(prog, werror):
    p = copy.deepcopy(prog)
    c = Checker(werror)
    try:
        c.program(p)
        return True, c, None
    except Reject as e:
        return False, c, str(e)
