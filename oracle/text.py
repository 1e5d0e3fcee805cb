"""Reference lexer, token classes and literal values, against the real front end."""
import random, re, struct, time
from .front import Violation, Crash, errors, warnings

WS = " \t\r\n"
DELIM = {"{": "BRACKET_OPEN", "}": "BRACKET_CLOSE", "(": "PAREN_OPEN", ")": "PAREN_CLOSE", ",": "COMMA", "\n": "NEWLINE",
         "&": "OPER_REF", "*": "UNKNOWN"}


class LexError(Exception):
    def __init__(self, why, line, col):
        super().__init__(why)
        self.why, self.line, self.col = why, line, col


class Unspecified(Exception):
    pass


def lex(s):
    """-> list of (type before classification, line, column, text)"""
    if s.startswith("\ufeff"):
        s = s[1:]
    pos = []
    l, c = 1, 1
    for ch in s:
        pos.append((l, c))
        l, c = (l + 1, 1) if ch == "\n" else (l, c + 1)
    pos.append((l, c))
    out, start, i, n = [], None, 0, len(s)

    def close(end, ty="UNKNOWN"):
        nonlocal start
        if start is not None:
            out.append((ty, *pos[start], s[start:end]))
            start = None
    while i < n:
        ch = s[i]
        if ch == "#":
            if start is not None:
                raise Unspecified("comment in the middle of a token")
            nx = s[i + 1:i + 2]
            if nx in (" ", "\t") and nx:
                j = s.find("\n", i)
                j = n if j < 0 else j
                if j < i + 2:
                    raise Unspecified("empty line comment")
            elif nx == "{":
                a, b = s.find("#}", i + 2), s.find("#{", i + 2)
                if b >= 0 and (a < 0 or b < a):
                    raise LexError("nested comment", *pos[b])
                if a < 0:
                    raise LexError("unclosed comment", *pos[i])
                j = a + 2
                if j < n and s[j] not in WS and s[j] not in DELIM:
                    raise Unspecified("text right after a comment")
            else:
                raise LexError("comment start", *pos[i])
            out.append(("COMMENT", *pos[i], s[i:j]))
            i = j
            continue
        if ch in "'\"":
            j = i + 1
            while j < n and s[j] != ch:
                j += 2 if s[j] == "\\" and s[j + 1:j + 2] in ("\\", ch) and s[j + 1:j + 2] else 1
            if start is None:
                start = i
            if j >= n:
                raise LexError("unclosed quote", *pos[start])
            i = j + 1
            continue
        if ch in DELIM:
            close(i)
            out.append((DELIM[ch], *pos[i], ch))
        elif ch in WS:
            close(i)
        elif start is None:
            start = i
        i += 1
    close(n)
    return out


KW = {k: "KW_" + k.upper() for k in "mut return unreachable if elif else while external export noop break continue import namespace".split()}
OPW = {"mod": "OPER_MOD", ":=": "OPER_AUTO_EQUAL", "not": "OPER_NOT", "is": "OPER_IS", "isnt": "OPER_ISNT", "and": "OPER_AND",
       "or": "OPER_OR", "xor": "OPER_XOR", "<=": "OPER_LESS_THAN_EQ", ">=": "OPER_GTR_THAN_EQ", "<<": "OPER_LSHIFT", ">>": "OPER_RSHIFT",
       "=": "OPER_EQUAL", "+": "OPER_PLUS", "-": "OPER_DASH", "*": "OPER_STAR", "/": "OPER_DIV", "<": "OPER_LESS_THAN",
       ">": "OPER_GTR_THAN", "^": "OPER_POW"}
TYPES = "Bool Int Float Rune Str Void".split()
RESERVED = set(KW) | {w for w in OPW if w.isalpha()} | {"Infinity", "NaN", "true", "false"}
D = r"[0-9](?:_?[0-9])*"
INT = re.compile(r"(?:-?%s|0x[0-9a-fA-F](?:_?[0-9a-fA-F])*|0b[01](?:_?[01])*|0o[0-7](?:_?[0-7])*)\Z" % D)
FLOAT = re.compile(r"(?:-?%s\.[0-9]+|NaN|-?Infinity)\Z" % D)
IDENT = re.compile(r"[A-Za-z][A-Za-z0-9_]*\Z")
DOTTED = re.compile(r"[A-Za-z](?:[A-Za-z0-9_.]*[A-Za-z0-9_])?\Z")


def well_quoted(t):
    q = t[0]
    j = 1
    while j < len(t) and t[j] != q:
        j += 2 if t[j] == "\\" and t[j + 1:j + 2] in ("\\", q) and t[j + 1:j + 2] else 1
    return j == len(t) - 1


def classify(ty, t):
    """-> (type, text)"""
    if ty != "UNKNOWN":
        return ty, t
    if t in KW:
        return KW[t], t
    if t in OPW:
        return OPW[t], t
    if re.match(r"0_", t):
        raise Unspecified("0_")
    if INT.match(t):
        return "INT_CONST", t
    if FLOAT.match(t):
        return "FLOAT_CONST", t
    if t in ("true", "false"):
        return "BOOL_CONST", t
    if t[0] in "'\"":
        if not well_quoted(t):
            raise Unspecified("text after a quote")
        if t[0] == '"':
            return "STR_CONST", t
        if len(t) == 3 or (4 <= len(t) <= 12 and t[1] == "\\"):
            return "RUNE_CONST", t
        return "UNKNOWN", t
    if "'" in t or '"' in t:
        return "UNKNOWN", t
    if IDENT.match(t):
        return "IDENTIFIER", t
    if DOTTED.match(t):
        return "DOT_IDENTIFIER", t
    if t.endswith(":") and IDENT.match(t[:-1]) and t[:-1] not in RESERVED and t[:-1] not in TYPES:
        return "NEW_IDENTIFIER", t[:-1]
    return "UNKNOWN", t


CHARS = "abzAZ_019.:-+/<>=^'\"\\#{}(),&* \t\r\n\n  ;@!%~\u00e9\u6f22\U0001f600xno"
LEXEMES = (list(KW) + list(OPW) + TYPES + ["true", "false", "NaN", "Infinity", "-Infinity", "x", "y1", "a_b", "ns.x", "a.b.c", "x:", "Int:", "if:", "mut:",
           "0", "-1", "12", "1_000", "0x1F", "0b101", "0o17", "0xg", "0b2", "0o8", "1.5", "-0.25", "1_0.5", "1._5", "1.", ".5", "1__0", "_1", "1_",
           "'a'", "'\\n'", "'\\''", "'\\\\'", "'\\x41'", "'ab'", '""', '"a b"', '"\\""', '"\\\\"', '"# {"', "'{'", "\u00e9", "x\u00e9", "(", ")", "{", "}", ",", "&", "*", "\n",
           "# c", "# c\n", "#{ b #}", "#{ a\nb #}", "#{#}", "#{", "#}", "#x", "##", "'", '"', "\"a\nb\"", "a:b", "a.", "a..b", "x::", "trueish", "iff", "notx", "-x", "--1", "1a", "0x", "0b", "a-b",
           "'\\x1234567890'", "'\\x123456789'", "Infinity:", "NaN:", "mod:", "0x_1", "0x1_", "0xA__B", "0b1_0", "-0x1", "00", "007", "-", "1.2.3", "1.5_0"])


def gen(r):
    if r.random() < .35:
        return "".join(r.choice(CHARS) for _ in range(r.randint(0, 14)))
    out = []
    for _ in range(r.randint(1, 9)):
        x = r.choice(LEXEMES)
        if r.random() < .12:
            k = r.randint(0, len(x))
            x = x[:k] + r.choice(CHARS) + x[k:]
        elif r.random() < .08 and len(x) > 1:
            k = r.randint(0, len(x) - 1)
            x = x[:k] + x[k + 1:]
        out.append(x)
        out.append(r.choice([" ", " ", " ", "  ", "\t", "\n", "\n", "", "\r\n", " \n\t"]))
    s = "".join(out)
    if r.random() < .03:
        s = "\ufeff" + s
    return s


def txt(cs):
    return "".join(map(chr, cs))


def where(msg):
    m = re.search(r"line (\d+) column (\d+)", msg)
    return (int(m[1]), int(m[2])) if m else None


def tokens(f, seconds, seed, stats, what):
    r = random.Random(seed)
    end = time.time() + seconds
    n = skipped = rejected = 0
    while time.time() < end:
        s = gen(r)
        src = s.encode()
        try:
            want = lex(s)
            err = None
        except LexError as e:
            want, err = None, e
        except Unspecified:
            skipped += 1
            continue
        try:
            res = f.run(src, "rtT")
        except Crash as e:
            raise Violation(str(e), s)
        n += 1
        if err:
            rejected += 1
            if "raw" in res:
                raise Violation("the text should be rejected (%s) but is accepted" % err.why, s, res["raw"])
            es = errors(res)
            if not es:
                raise Violation("the text is rejected without an error message", s, res["msgs"])
            w = where(es[0])
            if what == "lex" and w and (w[0] != err.line or (err.why != "nested comment" and w[1] != err.col)):
                raise Violation("the error is at line %d column %d, reported elsewhere" % (err.line, err.col), s, es)
            continue
        if "raw" not in res:
            raise Violation("the text should be split into tokens but is rejected", s, res["msgs"])
        got = [(t[0], t[1], t[2], txt(t[3])) for t in res["raw"] if t[3]]
        if what == "lex":
            if got != want:
                raise Violation("tokens or positions differ: expected %r" % (want,), s, got)
            # same positions after classification
            g2 = [(t[1], t[2]) for t in res["toks"] if t[3]]
            if g2 != [(t[1], t[2]) for t in want]:
                raise Violation("positions changed", s, g2)
        else:
            g2 = [(t[0], txt(t[3])) for t in res["toks"] if t[3]]
            if [t[3] for t in want] != [t[3] for t in got]:
                continue        # the business of the other property
            for (ty, l, c, t), g in zip(want, g2):
                try:
                    w = classify(ty, t)
                except Unspecified:
                    continue
                if w != g:
                    raise Violation("%r is classified as %s, expected %s" % (t, g, w), s, g2)
    stats.update(texts=n, rejected=rejected, unspecified_skipped=skipped)


# ------------------------------------------------------------- literals

ESC = {"\\": "\\", '"': '"', "'": "'", "0": "\0", "e": "\033", "t": "\t", "r": "\r", "n": "\n"}


def unescape(body):
    """-> list of code points, or None if an escape is bad"""
    out, i = [], 0
    while i < len(body):
        if body[i] != "\\":
            out.append(ord(body[i]))
            i += 1
            continue
        e = body[i + 1:i + 2]
        if e in ESC and e:
            out.append(ord(ESC[e]))
            i += 2
        elif e == "x":
            m = re.match(r"[0-9a-fA-F]{1,8}", body[i + 2:])
            if not m:
                return None
            out.append(int(m[0], 16))
            i += 2 + len(m[0])
        else:
            return None
    return out


def literal(r):
    """-> (text, kind)"""
    k = r.choice(["int", "int", "float", "bool", "rune", "rune", "str", "str"])
    und = lambda ds: "".join(d + ("_" if r.random() < .15 and i < len(ds) - 1 else "") for i, d in enumerate(ds))
    if k == "int":
        b = r.choice([10, 10, 16, 2, 8])
        v = r.choice([r.randint(0, 300), r.getrandbits(r.randint(1, 66)), 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 0, 1])
        if b == 10:
            t = und(str(v))
            if t.startswith("0_"):
                t = "0"
            if r.random() < .1 and not t.startswith("0"):
                t = "0" * r.randint(1, 3) + t
            return ("-" if r.random() < .4 else "") + t, k
        d = {16: "%x", 8: "%o", 2: "{:b}"}[b]
        ds = d.format(v) if b == 2 else d % v
        if r.random() < .5:
            ds = ds.upper()
        if r.random() < .2:
            ds = "0" * r.randint(1, 3) + ds
        return {16: "0x", 8: "0o", 2: "0b"}[b] + und(ds), k
    if k == "float":
        if r.random() < .12:
            return r.choice(["NaN", "Infinity", "-Infinity"]), k
        a = str(r.choice([r.randint(0, 50), r.getrandbits(40), r.getrandbits(64), 10**r.randint(1, 30)]))
        if r.random() < .05:
            a = str(r.randint(1, 9)) + "0" * r.randint(300, 312)
        a = und(a)
        if a.startswith("0_"):
            a = "0"
        fr = "".join(r.choice("0123456789") for _ in range(r.randint(1, 22)))
        return ("-" if r.random() < .4 else "") + a + "." + fr, k
    if k == "bool":
        return r.choice(["true", "false"]), k

    def ch(q):
        c = r.random()
        if c < .35:
            return r.choice("abcXYZ019 #{}(),.:;\u00e9\u6f22\U0001f600~")
        if c < .65:
            return "\\" + r.choice("\\\"'0etrn")
        if c < .9:
            v = r.choice([r.randint(0, 255), r.randint(0, 0x10ffff), r.randint(0xd7f0, 0xe010), 0x10ffff, 0x110000, r.getrandbits(32)])
            return "\\x" + ("%x" % v if r.random() < .5 else "%0*X" % (r.randint(1, 8), v))
        if c < .95:
            return "\\" + r.choice("abdfqxuN8 ")
        return r.choice(["'", '"'])
    if k == "rune":
        return "'" + ch("'") + "'", k
    return '"' + "".join(ch('"') for _ in range(r.randint(0, 7))) + '"', k


def value(t, k):
    """-> ("ok", value) | ("reject",) ; raises Unspecified"""
    if k == "int":
        u = t.replace("_", "")
        v = int(u, {"x": 16, "o": 8, "b": 2}[u[1]]) if u[1:2] in ("x", "o", "b") and u[1:2] else int(u)
        return ("ok", v) if -2**63 <= v < 2**63 else ("reject",)
    if k == "float":
        v = float(t.replace("_", "").replace("Infinity", "inf"))
        if v in (float("inf"), float("-inf")) and "Infinity" not in t:
            return ("reject",)
        if v != 0 and abs(v) < 2.3e-308:
            raise Unspecified("denormal")
        return ("ok", struct.unpack("<Q", struct.pack("<d", v))[0] if v == v else "nan")
    if k == "bool":
        return ("ok", 1 if t == "true" else 0)
    body = t[1:-1]
    cps = unescape(body)
    if k == "rune":
        if len(t) > 3 and t[1] != "\\" or len(t) > 12 or len(t) < 3:
            return ("reject",)
        if cps is None:
            return ("reject",)
        if body and ord(body[0]) < 32:
            return ("reject",)
        if len(cps) != 1:
            return ("reject",)
        if 0xd800 <= cps[0] < 0xe000 or cps[0] > 0x10ffff:
            raise Unspecified("not a character")
        return ("ok", cps[0])
    if cps is None:
        return ("reject",)
    if 0 in cps:
        raise Unspecified("NUL in a string")
    if any(0xd800 <= c < 0xe000 or c > 0x10ffff for c in cps):
        raise Unspecified("not a character")
    return ("ok", "".join(chr(b) for b in "".join(map(chr, cps)).encode()))


TY = {"int": "Int", "float": "Float", "bool": "Bool", "rune": "Rune", "str": "Str"}


def literals(f, seconds, seed, stats):
    r = random.Random(seed)
    end = time.time() + seconds
    n = rej = 0
    while time.time() < end:
        t, k = literal(r)
        if k in ("rune", "str") and not (len(t) >= 2 and well_quoted(t)):
            continue
        try:
            want = value(t, k)
        except Unspecified:
            continue
        pre, post = r.choice([("x := ", "\n"), ("mut x: %s = " % TY[k], "\nx = x\n"), ("x := ", ""), ("f(a: %s) {\n\treturn\n}\nf(" % TY[k], ")\n"), ("x := ", " is y\n"),
                              ("if ", " is %s {\n\tnoop\n}\n" % t), ("x := ", "\r\n")])
        if "y" in post or "= x" in post:
            pre, post = "x := ", "\n"
        s = pre + t + post
        try:
            res = f.run(s.encode(), "A")
        except Crash as e:
            raise Violation(str(e), s)
        n += 1
        if want[0] == "reject":
            rej += 1
            if res["ok"]:
                raise Violation("the literal %s is not valid but accepted" % t, s, res.get("ast"))
            if not errors(res):
                raise Violation("the literal %s is rejected without a message" % t, s, res["msgs"])
            continue
        if not res["ok"]:
            raise Violation("the literal %s is valid but rejected" % t, s, res["msgs"])
        node = res["ast"][-1]
        e = node["e"]
        if e["op"] == "FUNC":
            e = e["args"][0]
        if e["op"] == "IS":
            e = e["r"]
        if e["op"] != "CONST":
            raise Violation("the literal %s is not a constant" % t, s, node)
        got = e.get("val")
        if want[1] == "nan":
            if got is None or struct.unpack("<d", struct.pack("<Q", got))[0] == struct.unpack("<d", struct.pack("<Q", got))[0]:
                raise Violation("NaN is not NaN", s, node)
        elif e["ty"] != TY[k] or got != want[1]:
            raise Violation("the literal %s has value %r of type %s, expected %r" % (t, got, e["ty"], want[1]), s, node)
    stats.update(literals=n, rejected=rej)


# ------------------------------------------------------------- encoding

def decode(f, seconds, seed, stats):
    """Byte strings -> characters -> bytes again."""
    r = random.Random(seed)
    end = time.time() + seconds
    n = bad = 0
    while time.time() < end:
        b = b""
        for _ in range(r.randint(0, 12)):
            c = r.random()
            if c < .3:
                b += bytes([r.choice(b"abc 019#{},.")])
            elif c < .8:
                lo, hi = r.choice([(0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff), (0x7f, 0x81), (0x7fe, 0x801), (0xfffe, 0x10001), (0x10fff0, 0x10ffff), (0xfe00, 0xfeff)])
                x = chr(r.randint(lo, hi)).encode()
                if r.random() < .15:
                    x = r.choice([x[:-1], x[1:], x[:1] + b"a" + x[1:], x[:-1] + bytes([x[-1] ^ 0x40])])
                b += x
            elif c < .87:
                b += bytes([r.randint(0x80, 0xf4)])
        if any(x in b for x in (b'"', b"\n", b"\\", b"\0")) or re.search(b"\xf4[\x90-\xff]|[\xf5-\xff]", b):
            continue
        try:
            want = b.decode()
            good = len(want)
        except UnicodeDecodeError as e:
            want, good = None, len(b[:e.start].decode())
        src = b'x := "' + b + b'"\n'
        shown = repr(src)
        try:
            res = f.run(src, "rA")
        except Crash as e:
            raise Violation(str(e), shown)
        n += 1
        if want is None:
            bad += 1
            if res["ok"] or res["stage"] != "utf8":
                raise Violation("text that is not UTF-8 is not rejected", shown, res)
            es = errors(res)
            if not es:
                raise Violation("rejected without a message", shown, res)
            m = re.search(r"(\d+)", es[0].split("offset")[-1])
            if m and int(m[1]) != good + 6:
                raise Violation("the first bad character is at offset %d, the message says otherwise" % (good + 6), shown, es)
            continue
        if "raw" not in res:
            raise Violation("valid UTF-8 is rejected", shown, res["msgs"])
        got = [txt(t[3]) for t in res["raw"]]
        if '"%s"' % want not in got:
            raise Violation("the characters are not those of the text", shown, got)
        if not res["ok"]:
            raise Violation("valid program rejected", shown, res["msgs"])
        v = res["ast"][-1]["e"].get("val")
        if v is None or v.encode("latin-1") != b:
            raise Violation("the string has other bytes than in the text: %r" % v, shown)
    stats.update(texts=n, invalid=bad)
