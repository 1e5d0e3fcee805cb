"""Reference parser (tokens -> tree), against the tree the real parser builds."""
import random, time
from .front import Violation, Crash, errors
from .text import classify, Unspecified

PREC = {"^": 1, "*": 3, "/": 3, "mod": 3, "+": 4, "-": 4, "and": 5, "or": 5, "xor": 5, "<<": 5, ">>": 5,
        "is": 6, "isnt": 6, "<": 6, ">": 6, "<=": 6, ">=": 6}
BINOP = {"^": "POW", "*": "MULT", "/": "DIV", "mod": "MOD", "+": "ADD", "-": "SUB", "and": "AND", "or": "OR", "xor": "XOR", "<<": "LSHIFT",
         ">>": "RSHIFT", "is": "IS", "isnt": "ISNT", "<": "LESS_THAN", ">": "GTR_THAN", "<=": "LESS_THAN_EQ", ">=": "GTR_THAN_EQ"}
UNOP = {"-": ("UNARY_NEG", 1), "not": ("NOT", 1), "*": ("DEREF", 1), "&": ("REF", 0)}
DELIM = {"{": "BRACKET_OPEN", "}": "BRACKET_CLOSE", "(": "PAREN_OPEN", ")": "PAREN_CLOSE", ",": "COMMA", "\n": "NEWLINE", "&": "OPER_REF"}


class Reject(Exception):
    pass


class Tok:
    def __init__(self, s, line, col):
        self.s, self.line, self.col = s, line, col
        if s in DELIM:
            self.ty, self.name = DELIM[s], s
        elif s.startswith("#"):
            self.ty, self.name = "COMMENT", s
        else:
            self.ty, self.name = classify("UNKNOWN", s)


NAMES = ("IDENTIFIER", "DOT_IDENTIFIER")
CONSTS = ("INT_CONST", "FLOAT_CONST", "BOOL_CONST", "RUNE_CONST", "STR_CONST")


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def at(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def ty(self, k=0):
        t = self.at(k)
        return t.ty if t else None

    # ---- expressions, loosest level first
    def primary(self):
        """An operand, or None if there is none here"""
        t = self.at()
        if not t:
            return None
        if t.ty == "PAREN_OPEN":
            self.i += 1
            e = self.expr(6)
            if e is None or self.ty() != "PAREN_CLOSE":
                raise Reject("parentheses")
            self.i += 1
            return e
        if t.ty in NAMES and self.ty(1) == "PAREN_OPEN":
            self.i += 2
            args = []
            if self.ty() == "PAREN_CLOSE":
                self.i += 1
                return dict(op="FUNC", name=t.s, args=args)
            while True:
                e = self.expr(6)
                if e is None:
                    if args and self.ty() == "PAREN_CLOSE":
                        raise Unspecified("trailing comma")
                    raise Reject("argument")
                args.append(e)
                if self.ty() == "PAREN_CLOSE":
                    self.i += 1
                    return dict(op="FUNC", name=t.s, args=args)
                if self.ty() != "COMMA":
                    raise Reject("comma")
                self.i += 1
        if t.ty in NAMES:
            self.i += 1
            return dict(op="IDENTIFIER", name=t.s)
        if t.ty in CONSTS:
            self.i += 1
            return dict(op="CONST", tok=t.s)
        return None

    def operand(self):
        t = self.at()
        if t and t.s in UNOP:
            op, lvl = UNOP[t.s]
            self.i += 1
            if not self.at():
                raise Reject("no operand")
            if self.at().s in UNOP:
                raise Reject("two unary operators")
            e = self.expr(lvl) if lvl else self.primary()
            if e is None:
                raise Reject("no operand")
            return dict(op=op, r=e)
        return self.primary()

    def expr(self, level):
        """Left associative operators of at most this level"""
        if level == 0:
            return self.operand()
        l = self.expr(level - 1)
        if l is None:
            return None
        while self.at() and PREC.get(self.at().s) == level:
            op = BINOP[self.at().s]
            self.i += 1
            r = self.expr(level - 1)
            if r is None:
                raise Reject("no right operand")
            l = dict(op=op, l=l, r=r)
        return l

    def full(self):
        e = self.expr(6)
        if e is not None and self.at() and self.at().s in ("not", "&"):
            raise Reject("unary operator after an operand")
        return e

    def type_end(self, k):
        while self.ty(k) == "OPER_REF":
            k += 1
        return k if self.ty(k) in NAMES else None

    # ---- statements
    def ends(self):
        if self.ty() not in (None, "NEWLINE", "BRACKET_CLOSE", "BRACKET_OPEN", "COMMENT"):
            # more on the same line: rejected later, or two statements on a line
            raise Unspecified("several statements on a line")

    def block(self, depth):
        out = []
        while True:
            t = self.at()
            if t is None:
                if depth:
                    raise Reject("block not closed")
                return out
            n = dict(loc=[t.line, t.col])
            if t.ty == "BRACKET_CLOSE":
                if not depth:
                    raise Reject("no open block")
                return out
            if t.ty == "BRACKET_OPEN":
                if not out:
                    raise Unspecified("block without a statement")
                if "kids" in out[-1]:
                    raise Reject("second block")
                self.i += 1
                kids = self.block(depth + 1)
                if not kids:
                    raise Reject("empty block")
                out[-1]["kids"] = kids
                self.i += 1
                continue
            if t.ty == "NEWLINE":
                self.i += 1
                continue
            if t.ty == "COMMA":
                raise Unspecified("comma")
            out.append(n)
            if t.ty == "KW_RETURN":
                self.i += 1
                n.update(t="RETURN", e=self.full())
                self.ends()
            elif t.ty in ("KW_IF", "KW_ELIF", "KW_WHILE"):
                self.i += 1
                n.update(t=t.ty[3:], e=self.full())
                if n["e"] is None:
                    raise Reject("no condition")
                self.ends()
            elif t.ty in ("KW_ELSE", "KW_UNREACHABLE", "KW_NOOP", "KW_BREAK", "KW_CONTINUE", "COMMENT"):
                self.i += 1
                n.update(t=t.ty.replace("KW_", ""))
                self.ends()
            elif t.ty == "KW_IMPORT":
                if self.ty(1) != "IDENTIFIER":
                    raise Reject("import")
                self.i += 2
                n.update(t="IMPORT")
                self.ends()
            elif t.ty == "KW_NAMESPACE":
                if self.at(1) is None:
                    raise Reject("namespace")
                if self.ty(1) != "IDENTIFIER":
                    raise Unspecified("namespace")
                self.i += 2
                n.update(t="NAMESPACE")
                self.ends()
            elif not (self.proto(n) or self.vardef(n) or self.assign(n)):
                e = self.full()
                if e is None:
                    raise Reject("unexpected")
                n.update(t="EXPR", e=e)
                self.ends()

    def proto(self, n):
        ext, exp = self.ty() == "KW_EXTERNAL", self.ty() == "KW_EXPORT"
        k = 1 if ext or exp else 0
        if self.ty(k) != "IDENTIFIER" or self.ty(k + 1) != "PAREN_OPEN":
            return False
        name = self.at(k).s
        j = k + 2
        params = []
        if self.ty(j) == "NEW_IDENTIFIER":
            while True:
                if self.ty(j) != "NEW_IDENTIFIER":
                    if params and self.ty(j) == "PAREN_CLOSE":
                        raise Unspecified("trailing comma")
                    raise Reject("parameter")
                e = self.type_end(j + 1)
                if e is None:
                    raise Reject("parameter type")
                params.append([self.at(j).name, self.at(j + 1).s])
                j = e + 1
                if self.ty(j) != "COMMA":
                    break
                j += 1
        if self.ty(j) != "PAREN_CLOSE":
            if params or self.at(j) is None:
                raise Reject("closing parenthesis")
            if ext or exp:
                raise Reject("not a declaration")
            return False
        ret = None
        e = self.type_end(j + 1)
        want = "NEWLINE" if ext else "BRACKET_OPEN"
        if e is not None:
            if self.ty(e + 1) != want:
                raise Reject("after the type")
            ret = self.at(j + 1).s
            j = e
        elif self.ty(j + 1) != want:
            if params or ext or exp:
                raise Reject("after the parameters")
            return False
        n.update(t="FUNCTION_PROTO", name=name, external=int(ext), export=int(exp), ret=ret, params=params)
        self.i += j + 1
        return True

    def vardef(self, n):
        mut, exp = self.ty() == "KW_MUT", self.ty() == "KW_EXPORT"
        k = 1 if mut or exp else 0
        t = self.at(k)
        if t is None:
            return False
        if t.ty == "NEW_IDENTIFIER":
            e = self.type_end(k + 1)
            if e is None:
                return False
            if self.ty(e + 1) != "OPER_EQUAL":
                raise Reject("no value")
            self.i += e + 2
        elif t.ty == "IDENTIFIER" and self.ty(k + 1) == "OPER_AUTO_EQUAL":
            self.i += k + 2
        else:
            return False
        e = self.full()
        if e is None:
            raise Reject("no value")
        n.update(t="VAR_DEF", name=t.name, const=int(not mut), implicit=int(t.ty == "IDENTIFIER"), export=int(exp), e=e)
        if self.ty() == "COMMENT":
            raise Unspecified("comment after a definition")
        if self.ty() not in (None, "NEWLINE"):
            raise Reject("newline")
        return True

    def assign(self, n):
        if self.ty() not in NAMES or self.ty(1) != "OPER_EQUAL":
            return False
        n.update(t="VAR_ASSIGN", name=self.at().s)
        self.i += 2
        n["e"] = self.full()
        if n["e"] is None:
            raise Reject("no value")
        self.ends()
        return True


# ------------------------------------------------------------ comparison

def same_expr(a, b):
    """a: expected, b: from the real parser"""
    if a is None or b is None:
        return a is b
    if a["op"] != b["op"]:
        return False
    if a["op"] == "CONST":
        return a["tok"] == "".join(map(chr, b["tok"][3]))
    if a["op"] == "IDENTIFIER":
        return a["name"] == b["name"]
    if a["op"] == "FUNC":
        return a["name"] == b["name"] and b["n"] == len(a["args"]) == len(b["args"]) and all(map(same_expr, a["args"], b["args"]))
    return ("l" not in a or same_expr(a["l"], b["l"])) and same_expr(a["r"], b["r"])


def same(a, b):
    if len(a) != len(b):
        return "a block has %d statements, not %d" % (len(b), len(a))
    for x, y in zip(a, b):
        for k in ("t", "loc", "name", "const", "implicit", "export", "external", "ret", "params"):
            if k in x and x[k] != y.get(k):
                return "%s is %r, not %r (in %s)" % (k, y.get(k), x[k], x["t"])
        if "e" in x and not same_expr(x["e"], y.get("e")):
            return "the expression is %s, not %s" % (show(y.get("e")), show(x["e"]))
        if ("kids" in x) != ("kids" in y):
            return "block of %s" % x["t"]
        if "kids" in x:
            w = same(x["kids"], y["kids"])
            if w:
                return w
    return None


def show(e):
    if e is None:
        return "none"
    if e["op"] == "CONST":
        return e["tok"] if isinstance(e["tok"], str) else "".join(map(chr, e["tok"][3]))
    if e["op"] == "IDENTIFIER":
        return e["name"]
    if e["op"] == "FUNC":
        return "%s(%s)" % (e["name"], ", ".join(map(show, e["args"])))
    return "(%s%s %s)" % (show(e["l"]) + " " if "l" in e else "", e["op"], show(e["r"]))


# ------------------------------------------------------------ generation

class Gen:
    def __init__(self, r):
        self.r, self.o = r, []

    def expr(self, d):
        r = self.r
        c = r.random()
        if d <= 0 or c < .25:
            self.o.append(r.choice(["a", "b", "c1", "ns.x", "1", "22", "1.5", "true", "'x'", '"s t"', "0x1F"]))
        elif c < .36:
            self.o.append(r.choice(["-", "not", "*", "&"]))
            if r.random() < .8:
                self.expr(0 if r.random() < .6 else d - 1)
        elif c < .5:
            self.o.append("(")
            self.expr(d - 1)
            self.o.append(")")
        elif c < .6:
            self.o += [r.choice(["f", "g2", "ns.f"]), "("]
            for i in range(r.choice([0, 0, 1, 1, 2, 3])):
                if i:
                    self.o.append(",")
                self.expr(d - 1)
            self.o.append(")")
        else:
            for i in range(r.choice([2, 2, 2, 3, 4])):
                if i:
                    self.o.append(r.choice(list(PREC)))
                self.expr(d - 2)

    def type(self):
        self.o += ["&"] * self.r.choice([0, 0, 0, 1, 2]) + [self.r.choice(["Int", "Bool", "Float", "T1", "ns.T"])]

    def block(self, d):
        r = self.r
        self.o.append("{")
        if r.random() < .95:
            self.o.append("\n")
        for _ in range(r.choice([1, 1, 2, 3]) if r.random() < .97 else 0):
            self.stmt(d - 1)
        self.o.append("}")

    def stmt(self, d):
        r = self.r
        k = r.choice(["def", "def", "set", "expr", "ret", "if", "if", "while", "func", "ext", "ns", "kw", "comment", "import", "nl"] if d > 0 else
                     ["def", "set", "expr", "ret", "kw"])
        ed = r.choice([0, 1, 2, 3, 4])
        if k == "def":
            self.o += r.choice([[], [], ["mut"], ["export"]])
            if r.random() < .5:
                self.o.append("v:")
                self.type()
                self.o.append("=")
            else:
                self.o += ["v", ":="]
            self.expr(ed)
        elif k == "set":
            self.o += [r.choice(["v", "ns.v"]), "="]
            self.expr(ed)
        elif k == "expr":
            self.expr(ed)
        elif k == "ret":
            self.o.append("return")
            if r.random() < .6:
                self.expr(ed)
        elif k == "if":
            self.o.append("if")
            self.expr(ed)
            self.block(d)
            while r.random() < .3:
                if r.random() < .5:
                    self.o.append("\n")
                self.o.append("elif")
                self.expr(ed)
                self.block(d)
            if r.random() < .4:
                if r.random() < .5:
                    self.o.append("\n")
                self.o.append("else")
                self.block(d)
        elif k == "while":
            self.o.append("while")
            self.expr(ed)
            self.block(d)
        elif k in ("func", "ext"):
            self.o += ["external"] if k == "ext" else r.choice([[], [], ["export"]])
            self.o += ["fn", "("]
            for i in range(r.choice([0, 0, 1, 2, 3, 9])):
                if i:
                    self.o.append(",")
                self.o.append("p%d:" % i)
                self.type()
            self.o.append(")")
            if r.random() < .6:
                self.type()
            if k == "func":
                self.block(d)
        elif k == "ns":
            self.o += ["namespace", "N"]
            self.block(d)
        elif k == "kw":
            self.o.append(r.choice(["noop", "break", "continue", "unreachable"]))
        elif k == "comment":
            self.o.append("#{ x #}")
        elif k == "import":
            self.o += ["import", "m"]
        if r.random() < .97:
            self.o.append("\n")


MUT = ["(", ")", "{", "}", ",", "\n", "a", "1", "+", "-", "*", "^", "not", "&", "is", "=", ":=", "x:", "Int", "return", "if", "else", "mut", "export", "external", "import", "namespace", "f", "#{ c #}"]


def tree(f, seconds, seed, stats):
    r = random.Random(seed)
    end = time.time() + seconds
    n = rej = skip = 0
    while time.time() < end:
        g = Gen(r)
        mode = r.random()
        if mode < .4:
            g.o += ["v", ":="]
            g.expr(r.choice([2, 3, 4, 6]))
        else:
            for _ in range(r.choice([1, 1, 2, 3])):
                g.stmt(r.choice([1, 2, 3]))
        o = g.o
        if r.random() < .35 and o:
            for _ in range(r.choice([1, 1, 2])):
                k = r.randrange(len(o) + 1)
                c = r.random()
                if c < .35:
                    o = o[:k] + o[k + 1:]
                elif c < .7:
                    o = o[:k] + [r.choice(MUT)] + o[k:]
                elif c < .85:
                    o = o[:k]
                else:
                    o = o[:k] + [r.choice(MUT)] + o[k + 1:]
        toks, text, line, col = [], "", 1, 1
        for s in o:
            if s == "\n":
                toks.append(Tok(s, line, col))
                text += s
                line, col = line + 1, 1
                continue
            if s == "*" or s == "&" or s == "-":
                pass
            toks.append(Tok(s, line, col))
            text += s + " "
            col += len(s) + 1
        if not toks:
            continue
        # the star is an operator of its own wherever it stands
        try:
            want, why = Parser(toks).block(0), None
        except Reject as e:
            want, why = None, str(e)
        except Unspecified:
            skip += 1
            continue
        if want == []:
            continue
        try:
            res = f.run(text.encode(), "P")
        except Crash as e:
            raise Violation(str(e), text)
        n += 1
        if want is None:
            rej += 1
            if "ast0" in res:
                raise Violation("the text is malformed (%s) but a tree is made of it" % why, text, res["ast0"])
            if not errors(res):
                raise Violation("rejected without an error message", text, res)
            continue
        if "ast0" not in res:
            raise Violation("the text is well formed but rejected by the parser", text, res["msgs"])
        w = same(want, res["ast0"])
        if w:
            raise Violation("the tree is wrong: " + w, text)
    stats.update(texts=n, rejected=rej, unspecified_skipped=skip)
