"""Whole-compiler oracle: random well-formed programs are compiled by the real
compiler (either back end), run, and what they print is compared with a
reference interpreter of the language (this file; written from docs/)."""
import math, os, random, shutil, struct, subprocess, time
from . import compiler, front

M = 1 << 64
TAG = {"Int": "emiti", "Float": "emitf", "Bool": "emitb", "Rune": "emitr", "Str": "emits"}
GET = {"Int": "geti", "Float": "getf", "Bool": "getb"}

DRIVER = r'''
#include <stdio.h>
#include <stdint.h>
#include <string.h>
static uint64_t s = 12345;
static uint64_t next(void) { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 33; }
void emiti(int64_t x) { printf("i %lld\n", (long long)x); }
void emitf(double x) { uint64_t u; memcpy(&u, &x, 8); if (x != x) printf("f nan\n"); else printf("f %016llx\n", (unsigned long long)u); }
void emitb(int x) { printf("b %d\n", x & 1); }
void emitr(int x) { printf("r %d\n", x); }
void emits(const char *x) { printf("s "); for (; *x; x++) printf("%02x", *x & 255); printf("\n"); }
int64_t geti(void) { return (int64_t)(next() % 41) - 20; }
double getf(void) { return ((int64_t)(next() % 81) - 40) / 4.0; }
_Bool getb(void) { return next() & 1; }
'''


# statements in a loop of very many iterations: the stack must not grow with them
BIG = ["%(n)s := I", "mut %(n)s := I + 1", "%(n)s := &I", "if I < 5 { noop }", "if (I is 5) {\n%(n)s := I\n}\nelse {\nmut %(n)s: Int = I\n}", "noop",
       "namespace %(n)s {\n%(n)sa := I\n}", "if I isnt 3 {\n%(n)s: Float = 1.5\n}"]


class Undefined(Exception):
    """behaviour the language leaves open (overflow, division by 0, ...)"""


def derefs(e):
    return e[0] == "u" and e[1] == "*" or any(derefs(x) for x in (e[2:3] if e[0] == "u" else e[2:4] if e[0] == "b" else e[2] if e[0] == "f" else ()))


class Stop(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


def bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


# ------------------------------------------------------------------ generator

class Gen:
    def __init__(self, rnd, cback=False, focus="all"):
        self.r, self.c, self.focus = rnd, cback, focus
        self.n = 0
        self.funcs = []
        self.scopes = [{}]
        self.infn = 0
        self.loop = 0

    def name(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def vars(self, t=None, mut=None, ref=False):
        out = []
        for s in self.scopes:
            for n, v in s.items():
                if (t is None or v["t"] == t) and (mut is None or v["mut"] == mut) and not v.get("hidden"):
                    if mut and v.get("counter"):
                        continue
                    out.append(n)
        return out

    def type(self):
        return self.r.choice(["Int"] * 5 + ["Float"] * 3 + ["Bool"] * 3 + ["Rune", "Str"])

    def lit(self, t):
        r = self.r
        if t == "Int":
            v = r.choice([r.randint(-12, 12), r.randint(-12, 12), r.randint(0, 3), r.randint(-2000, 2000), r.choice([2147483647, 2147483648, -2147483648, -2147483649, 1 << 40, -(1 << 40), (1 << 63) - 1, -(1 << 63)]) if not self.c or r.random() < .2 else 7])
            tx = str(v)
            if v >= 0 and r.random() < .2:
                tx = r.choice([hex, bin, oct])(v)
            return ("c", t, v, tx)
        if t == "Float":
            v = r.choice([r.randint(-40, 40) / 4, r.randint(-9, 9) * 1.0, r.random() * 100, 0.5, 0.1])
            tx = repr(v)
            if "e" in tx or "." not in tx:
                v, tx = 1.5, "1.5"
            if r.random() < .06:
                v, tx = r.choice([(math.inf, "Infinity"), (math.nan, "NaN"), (-math.inf, "-Infinity")])
            return ("c", t, v, tx)
        if t == "Bool":
            v = r.random() < .5
            return ("c", t, v, "true" if v else "false")
        if t == "Rune":
            v = r.choice("azAZ09~ ")
            return ("c", t, ord(v), "'%s'" % v)
        s = "".join(r.choice("abcd") for _ in range(r.randint(0, 3)))
        if r.random() < .2:
            return ("c", t, s + "\n\"\u00e9%s\\", '"%s\\n\\"\u00e9%%s\\\\"' % s)
        return ("c", t, s, '"%s"' % s)

    def expr(self, t, d=0, pure=False):
        r = self.r
        if t.startswith("&"):
            vs = self.vars(t)
            ws = [n for n in self.vars(t[1:])]
            if vs and (not ws or r.random() < .4):
                return ("v", r.choice(vs), t)
            return ("u", "&", ("v", r.choice(ws), t[1:]), t) if ws else None
        deep = r.random() < (.85 if self.focus == "expr" else .65) * (.8 ** d) and d < 5
        if not deep or t in ("Rune", "Str"):
            vs = self.vars(t)
            x = r.random()
            if vs and x < .65:
                return ("v", r.choice(vs), t)
            rs = self.vars("&" + t)
            if rs and x < .85:
                return ("u", "*", ("v", r.choice(rs), "&" + t), t)
            if x > .93 and not pure and not (self.c and d) and t in GET:
                return ("f", GET[t], [], t)
            return self.lit(t)
        if not pure and not (self.c and d) and r.random() < .25:
            fs = [f for f in self.funcs if f["ret"] == t and any(f["scope"] is s for s in self.scopes)]
            if fs:
                f = r.choice(fs)
                return self.call(f, d)
        P = dict(pure=pure)
        if t == "Int":
            o = r.choice("+ + - - * / mod << >> ^ neg".split())
            if o == "neg":
                return ("u", "-", self.expr(t, d + 1, **P), t)
            l = self.expr(t, d + 1, **P)
            if o in ("/", "mod"):
                q = self.nonzero(d, P) if r.random() < .5 else ("c", t, 7, "7")
            elif o in ("//",):
                q = self.expr(t, d + 1, **P) if r.random() < .5 else ("c", t, 7, "7")
            elif o in ("<<", ">>"):
                n = r.randint(0, 63 if o == ">>" else 20)
                q = ("c", t, n, str(n))
                if r.random() < .3:
                    q = self.expr(t, d + 1, **P)
            elif o == "^":
                n = r.randint(0, 5)
                q = ("c", t, n, str(n)) if r.random() < .6 else self.expr(t, d + 1, **P)
            else:
                q = self.expr(t, d + 1, **P)
            return ("b", o, l, q, t)
        if t == "Float":
            o = r.choice("+ - * / mod ^ neg".split())
            if o == "neg":
                return ("u", "-", self.expr(t, d + 1, **P), t)
            return ("b", o, self.expr(t, d + 1, **P), self.expr(t, d + 1, **P), t)
        x = r.random()
        if x < .3:
            return ("b", r.choice(["and", "or", "xor"]), self.expr(t, d + 1, True), self.expr(t, d + 1, True), t)
        if x < .4:
            return ("u", "not", self.expr(t, d + 1, **P), t)
        if x < .7:
            a = r.choice(["Int", "Int", "Float"])
            return ("b", r.choice(["<", ">", "<=", ">="]), self.expr(a, d + 1, **P), self.expr(a, d + 1, **P), t)
        a = r.choice(["Int", "Float", "Bool", "Rune", "Str", "Str"])
        if r.random() < .15:
            a = "&Int"
        l, q = self.expr(a, d + 1, **P), self.expr(a, d + 1, **P)
        if l is None or q is None:
            return self.lit(t)
        return ("b", r.choice(["is", "isnt"]), l, q, t)

    def nonzero(self, d, P):
        e = self.expr("Int", d + 1, **P)
        return ("c", "Int", 3, "3") if e[0] == "c" and e[2] == 0 else e

    def call(self, f, d):
        args = []
        for p in f["params"]:
            a = self.expr(p[1], d + 1, self.c)
            if a is None:
                return self.lit(f["ret"]) if f["ret"] else None
            args.append(a)
        return ("f", f["name"], args, f["ret"])

    def block(self, n, depth, tail=None):
        self.scopes.append({})
        b = self.stmts(n, depth)
        if tail:
            b = b + [tail]
        self.scopes.pop()
        return b or [("noop",)]

    def fn(self, depth):
        r = self.r
        f = dict(name=self.name("f"), ret=r.choice(["Int", "Float", "Bool", None, "Int"]),
                 params=[(self.name("p"), self.type() if r.random() < .9 else "&Int") for _ in range(r.choice([0, 1, 2, 2, 3, 6]))])
        # no closures: only globals of the top level are visible inside
        saved, self.scopes = self.scopes, [self.scopes[0], {n: dict(t=t, mut=False) for n, t in f["params"]}]
        loop, self.loop, oret = self.loop, 0, self.ret
        self.infn += 1
        body = self.stmts(r.randint(0, 5), depth + 1, f["ret"])
        if f["ret"]:
            body.append(("ret", self.expr(f["ret"])))
        elif r.random() < .2:
            body.append(("ret", None))
        body = body or [("noop",)]
        self.infn -= 1
        self.scopes, self.loop, self.ret = saved, loop, oret
        f["scope"] = self.scopes[-1]
        self.funcs.append(f)
        return ("func", f["name"], f["params"], f["ret"], body)

    def stmts(self, n, depth, ret=0):
        out = []
        if ret != 0:
            self.ret = ret
        myret = self.ret
        for _ in range(n):
            self.ret = myret
            s = self.stmt(depth)
            if s:
                out += s
        self.ret = myret
        return out

    def emit(self):
        t = self.type()
        return [("x", ("f", TAG[t], [self.expr(t)], None))]

    def end(self):
        """a statement that leaves the block, or None"""
        r = self.r
        x = r.random()
        if self.loop and x < .5:
            return (r.choice(["break", "continue"]),)
        if x < .12 and (self.infn or r.random() < .2):
            return ("ret", self.expr(self.ret) if self.ret else None)
        return None

    def stmt(self, depth):
        r = self.r
        x = r.random()
        flow = self.focus == "flow"
        if x < .28:
            return self.emit()
        if x < .50:
            t = self.type() if r.random() < .88 else "&" + r.choice(["Int", "Int", "Float"])
            e = self.expr(t)
            if e is None:
                return self.emit()
            if self.c and len(self.scopes) == 1 and derefs(e):
                return self.emit()      # pinned by a test: not a constant initialiser in C
            n = self.name()
            mut = r.random() < .5
            self.scopes[-1][n] = dict(t=t, mut=mut)
            return [("def", n, t, mut, r.random() < .3, e)]
        if x < .62:
            vs = self.vars(mut=True)
            if vs:
                n = r.choice(vs)
                t = next(s[n]["t"] for s in self.scopes if n in s)
                e = self.expr(t)
                if e and e[:2] != ("v", n):
                    return [("set", n, e)]
            return self.emit()
        if x < .66:
            fs = [f for f in self.funcs if any(f["scope"] is s for s in self.scopes)]
            if fs:
                c = self.call(r.choice(fs), 0)
                if c and c[0] == "f":
                    return [("x", c)]
            return self.emit()
        if depth > (4 if flow else 3):
            return self.emit()
        if x < .84:
            arms = []
            for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
                c = self.expr("Bool", 1)
                arms.append((c, self.block(r.randint(0, 3), depth + 1, self.end())))
            els = self.block(r.randint(0, 3), depth + 1, self.end()) if r.random() < .5 else None
            return [("if", arms, els, r.random() < .2)]
        if x < .87 and not self.c:
            b = self.block(r.randint(1, 3), depth + 1, self.end() if r.random() < .6 else None)
            return [("ns", self.name("n"), b)]
        if x < .885:
            return [("big", self.name("i"), [r.choice(BIG) % dict(n=self.name()) for _ in range(r.randint(1, 3))])]
        if x < .95:
            i = self.name("i")
            self.scopes[-1][i] = dict(t="Int", mut=True, counter=True)
            lim = r.randint(0, 4)
            c = ("b", "<", ("v", i, "Int"), ("c", "Int", lim, str(lim)), "Bool")
            if r.random() < .2:
                c = ("b", "and", c, self.expr("Bool", 2, True), "Bool")
            self.loop += 1
            b = [("set", i, ("b", "+", ("v", i, "Int"), ("c", "Int", 1, "1"), "Int"))] + self.block(r.randint(0, 4), depth + 1, self.end())
            self.loop -= 1
            return [("def", i, "Int", True, False, ("c", "Int", 0, "0")), ("while", c, b)]
        if self.infn == 0 or (self.infn < 3 and not self.c):
            return [self.fn(depth)]
        return [("noop",)]

    def program(self):
        self.ret = "Int"
        out = []
        for _ in range(self.r.randint(0, 3)):
            out += [self.fn(0)] if self.r.random() < .7 else self.stmts(2, 0)
        out += self.stmts(self.r.randint(10, 40), 0)
        if self.r.random() < .3:
            n = self.r.randint(0, 200)
            out.append(("ret", ("c", "Int", n, str(n))))
        return out


# ------------------------------------------------------------------ printing

def pe(e, top=True):
    k = e[0]
    if k == "c":
        return e[3]
    if k == "v":
        return e[1]
    if k == "f":
        return "%s(%s)" % (e[1], ", ".join(pe(a) for a in e[2]))
    if k == "u":
        s = ("" if e[1] == "&" else " ").join((e[1], pe(e[2], False)))
    else:
        s = "%s %s %s" % (pe(e[2], False), e[1], pe(e[3], False))
    return s if top else "(" + s + ")"


def show(ss):
    out = ["external %s(x: %s)" % (TAG[t], t) for t in TAG] + ["external %s() %s" % (GET[t], t) for t in GET]

    def go(ss, ind):
        t = "\t" * ind
        for s in ss:
            k = s[0]
            if k == "def":
                pre = "mut " if s[3] else ""
                out.append("%s%s%s%s %s" % (t, pre, s[1], ": " + s[2] + " =" if s[4] else " :=", pe(s[5])))
            elif k == "set":
                out.append("%s%s = %s" % (t, s[1], pe(s[2])))
            elif k == "x":
                out.append(t + pe(s[1]))
            elif k == "ret":
                out.append(t + "return" + (" " + pe(s[1]) if s[1] else ""))
            elif k == "if":
                for i, (c, b) in enumerate(s[1]):
                    if i and s[3]:
                        out.append(t + "# and so on")
                    out.append("%s%s %s {" % (t, "elif" if i else "if", pe(c)))
                    go(b, ind + 1)
                    out.append(t + "}")
                if s[2] is not None:
                    if s[3]:
                        out.append(t + "# otherwise")
                    out.append(t + "else {")
                    go(s[2], ind + 1)
                    out.append(t + "}")
            elif k == "while":
                out.append("%swhile %s {" % (t, pe(s[1])))
                go(s[2], ind + 1)
                out.append(t + "}")
            elif k == "ns":
                out.append("%snamespace %s {" % (t, s[1]))
                go(s[2], ind + 1)
                out.append(t + "}")
            elif k == "big":
                out.append("%smut %s := 0" % (t, s[1]))
                out.append("%swhile %s < 150000 {" % (t, s[1]))
                for b in s[2]:
                    out.append(b.replace("I", s[1]).replace(s[1] + "nt", "Int"))
                out.append("%s%s = %s + 1" % (t, s[1], s[1]))
                out.append(t + "}")
            elif k == "func":
                out.append("%s%s(%s)%s {" % (t, s[1], ", ".join("%s: %s" % p for p in s[2]), " " + s[3] if s[3] else ""))
                go(s[4], ind + 1)
                out.append(t + "}")
            else:
                out.append(t + k)
    go(ss, 0)
    return "\n".join(out) + "\n"


# ------------------------------------------------------------------ interpreter

class Cell(list):
    dead = False                        # its block has ended


class ConstCell(Cell):
    pass


def end_of(scope):
    for c in scope.values():
        if isinstance(c, Cell):
            c.dead = True


class Interp:
    def __init__(self, cback=False):
        self.c = cback
        self.seed = 12345
        self.out = []
        self.steps = 0
        self.inexact = False
        self.lazy = 0

    def next(self):
        self.seed = (self.seed * 6364136223846793005 + 1442695040888963407) % M
        return self.seed >> 33

    def i64(self, v):
        if not -(1 << 63) <= v < (1 << 63):
            raise Undefined
        return v

    def lookup(self, env, n):
        for s in reversed(env):
            if n in s:
                return s[n]
        raise KeyError(n)

    def ev(self, e, env):
        self.steps += 1
        if self.steps > 20000:
            raise Undefined
        k = e[0]
        if k == "c":
            return e[2]
        if k == "v":
            return self.lookup(env, e[1])[0]
        if k == "f":
            return self.call(e[1], [self.ev(a, env) for a in e[2]], env)
        if k == "u":
            o = e[1]
            if o == "&":
                return self.lookup(env, e[2][1])
            v = self.ev(e[2], env)
            if o == "*":
                if v.dead:
                    raise Undefined
                return v[0]
            if o == "not":
                return not v
            if e[3] == "Float":
                if v == 0:
                    raise Undefined     # the sign of zero
                return -v
            return self.int32(self.i64(-v), e)
        _, o, a, b, t = e
        x, y = self.ev(a, env), self.ev(b, env)
        at = a[1] if a[0] == "c" else a[-1]
        if isinstance(x, ConstCell) or isinstance(y, ConstCell) or (isinstance(x, Cell) and (x.dead or y.dead)):
            raise Undefined             # the identity of a constant
        if o == "is":
            return (x is y) if at.startswith("&") else x == y
        if o == "isnt":
            return (x is not y) if at.startswith("&") else x != y
        if o == "<":
            return x < y
        if o == ">":
            return x > y
        if o == "<=":
            return x <= y
        if o == ">=":
            return x >= y
        if o == "and":
            return x and y
        if o == "or":
            return x or y
        if o == "xor":
            return x != y
        if t == "Float":
            try:
                if o == "+":
                    return x + y
                if o == "-":
                    return x - y
                if o == "*":
                    return x * y
                if o == "/":
                    if y == 0:
                        if x == 0 or x != x:
                            return math.nan
                        return math.copysign(math.inf, x) * math.copysign(1, y)
                    return x / y
                if o == "mod":
                    return math.fmod(x, y)
                self.inexact = True     # an optimiser may compute it in another way
                return math.pow(x, y)
            except (ValueError, OverflowError):
                raise Undefined
        if o == "+":
            return self.int32(self.i64(x + y), e)
        if o == "-":
            return self.int32(self.i64(x - y), e)
        if o == "*":
            return self.int32(self.i64(x * y), e)
        if o in ("/", "mod"):
            if y == 0:
                raise Undefined
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            self.i64(q)
            return self.int32(q if o == "/" else x - q * y, e)
        if o in ("<<", ">>"):
            if not 0 <= y < 64 or (self.c and (x < 0 or y >= 31)):
                raise Undefined
            u = x % M
            u = (u << y) % M if o == "<<" else u >> y
            v = u - M if u >= M // 2 else u
            if self.c and o == "<<" and x << y != v:
                raise Undefined
            return self.int32(v, e)
        if y > 200 or y < 0:
            raise Undefined
        return self.i64(x ** y)

    def int32(self, v, e):
        """the C back end: literals are C ints (recorded limitation)"""
        if self.c and not -(1 << 31) <= v < (1 << 31):
            raise Undefined
        return v

    def call(self, n, args, env):
        for t, w in TAG.items():
            if n == w:
                v = args[0]
                self.out.append("i %d" % v if t == "Int" else ("f nan" if v != v else "f %016x" % bits(v)) if t == "Float" else
                                "b %d" % v if t == "Bool" else "r %d" % v if t == "Rune" else
                                "s " + v.encode().hex())
                return None
        if n == "geti":
            return self.next() % 41 - 20
        if n == "getf":
            return (self.next() % 81 - 40) / 4
        if n == "getb":
            return bool(self.next() & 1)
        f = self.lookup(env, n)
        e2 = [self.globals] + ([f[5]] if f[5] is not self.globals else []) + [{p[0]: ConstCell([a]) for p, a in zip(f[2], args)}]
        try:
            self.run(f[4], e2, True)
        except Ret as r:
            return r.v
        finally:
            end_of(e2[-1])
        return None

    def run(self, ss, env, own=False):
        if not own:
            env = env + [{}]
            try:
                return self.run(ss, env, True)
            finally:
                end_of(env[-1])
        for i, s in enumerate(ss):
            if ss is self.top:
                self.at = i
            self.steps += 1
            if self.steps > 20000:
                raise Undefined
            k = s[0]
            if k == "def":
                env[-1][s[1]] = (Cell if s[3] else ConstCell)([self.ev(s[5], env)])
            elif k == "set":
                v = self.ev(s[2], env)
                self.lookup(env, s[1])[0] = v
            elif k == "x":
                self.ev(s[1], env)
            elif k == "ret":
                raise Ret(self.ev(s[1], env) if s[1] else None)
            elif k == "func":
                env[-1][s[1]] = s + (env[-1],)
            elif k == "if":
                for c, b in s[1]:
                    if self.ev(c, env):
                        self.run(b, env)
                        break
                else:
                    if s[2] is not None:
                        self.run(s[2], env)
            elif k == "ns":
                self.run(s[2], env)
            elif k == "while":
                while self.ev(s[1], env):
                    try:
                        self.run(s[2], env)
                    except Brk:
                        break
                    except Cont:
                        pass
            elif k == "break":
                raise Brk
            elif k == "continue":
                raise Cont

    def program(self, ss):
        self.globals, self.top, self.at = {}, ss, 0
        try:
            self.run(ss, [self.globals], True)
        except Ret as r:
            return r.v & 255
        return 0


# ------------------------------------------------------------------ driving

def search(tmp, seconds, seed, stats, cback=False, focus="all", opts=True):
    exe = compiler.build(tmp)
    rnd = random.Random(seed)
    d = tmp + "/exec"
    os.makedirs(d, exist_ok=True)
    open(d + "/driver.c", "w").write(DRIVER)
    if subprocess.run(["gcc", "-w", "-O1", "-c", "driver.c", "-o", "driver.o"], cwd=d).returncode:
        raise front.Unavailable("driver does not compile")
    end = time.time() + seconds
    stats.update(runs=0, discarded=0, lines=0)
    while time.time() < end:
        batch = []
        while len(batch) < 1:
            g = Gen(rnd, cback, focus)
            p = g.program()
            for _ in range(40):
                it = Interp(cback)
                try:
                    rc = it.program(p)
                except (Undefined, RecursionError):
                    stats["discarded"] += 1
                    s = p[it.at]
                    p = p[:it.at] + ([s[:5] + (g.lit(s[2]),)] if s[0] == "def" and s[2] in TAG else []) + p[it.at + 1:]
                    continue
                if cback:
                    p = p[:it.at + 1]   # what follows may be undefined in C even if it is not executed
                batch.append((p, it.out, rc, it.inexact))
                break
        for p, out, rc, inexact in batch:
            fl = rnd.choice([[], ["-g"]] if inexact else [[], [], ["-O1"], ["-O2"], ["-O3"], ["-g"]]) if opts and not cback else []
            try:
                one(exe, d, fl, p, out, rc, cback, stats)
            except front.Violation as v:
                raise shrink(exe, d, fl, p, cback, v)


def drop(p):
    """programs with one statement (or block) less"""
    for i, s in enumerate(p):
        yield p[:i] + p[i + 1:]
    for i, s in enumerate(p):
        if s[0] == "if":
            if s[2] is not None:
                yield p[:i] + [("if", s[1], None, s[3])] + p[i + 1:]
                for b in drop(s[2]):
                    yield p[:i] + [("if", s[1], b or [("noop",)], s[3])] + p[i + 1:]
            for j, (c, b) in enumerate(s[1]):
                if len(s[1]) > 1:
                    yield p[:i] + [("if", s[1][:j] + s[1][j + 1:], s[2], s[3])] + p[i + 1:]
                for q in drop(b):
                    yield p[:i] + [("if", s[1][:j] + [(c, q or [("noop",)])] + s[1][j + 1:], s[2], s[3])] + p[i + 1:]
        elif s[0] in ("while", "ns"):
            for q in drop(s[2]):
                yield p[:i] + [(s[0], s[1], q or [("noop",)])] + p[i + 1:]
        elif s[0] == "big":
            for j in range(len(s[2])):
                yield p[:i] + [(s[0], s[1], s[2][:j] + s[2][j + 1:])] + p[i + 1:]
        elif s[0] == "func":
            for q in drop(s[4]):
                if q and (not s[3] or q[-1][0] == "ret"):
                    yield p[:i] + [s[:4] + (q,)] + p[i + 1:]
        elif s[0] in ("def", "set", "x", "ret") and s[-1] is not None:
            for e in smaller(s[-1]):
                if s[0] != "x" or e[0] == "f":
                    yield p[:i] + [s[:-1] + (e,)] + p[i + 1:]


def smaller(e):
    t = e[1] if e[0] == "c" else e[-1]
    if e[0] == "b":
        for x in (e[2], e[3]):
            if (x[1] if x[0] == "c" else x[-1]) == t:
                yield x
        for x in smaller(e[2]):
            yield ("b", e[1], x, e[3], e[4])
        for x in smaller(e[3]):
            yield ("b", e[1], e[2], x, e[4])
    elif e[0] == "u":
        for x in smaller(e[2]):
            if e[1] in ("-", "not"):
                yield ("u", e[1], x, e[3])
    elif e[0] == "f":
        for i, a in enumerate(e[2]):
            for x in smaller(a):
                yield ("f", e[1], e[2][:i] + [x] + e[2][i + 1:], e[3])


def shrink(exe, d, fl, p, cback, v):
    end = time.time() + 12
    again = True
    while again and time.time() < end:
        again = False
        for q in drop(p):
            if time.time() > end:
                break
            it = Interp(cback)
            try:
                rc = it.program(q)
            except (Undefined, RecursionError, KeyError, Brk, Cont):
                continue
            try:
                one(exe, d, fl, q, it.out, rc, cback, dict(runs=0, lines=0))
            except front.Violation as w:
                if w.what == v.what and "Compilation error" not in str(w.detail):
                    p, v, again = q, w, True
                    break
    return v


def one(exe, d, fl, p, out, rc, cback, stats):
    src = show(p)
    open(d + "/m.sk", "w").write(src)
    stats["runs"] += 1
    stats["lines"] += len(out)
    for f in ("m", "m.c"):
        if os.path.exists(d + "/" + f):
            os.remove(d + "/" + f)
    if cback:
        r = compiler.run([exe, "m.sk", "--c-backend", "-o", "m.c"], d)
        what = "skull m.sk --c-backend -o m.c && cc m.c driver.c -lm"
        if r.rc == 0:
            q = compiler.run(["gcc", "-std=gnu2x", "-w", "m.c", "driver.o", "-o", "m", "-lm"], d)
            if q.rc:
                raise front.Violation("the C code generated for an accepted program does not compile (%s)" % what, src, q.err[:2000])
    else:
        r = compiler.run([exe, "m.sk"] + fl + ["--", "driver.o", "-no-pie"], d)
        what = "skull m.sk %s -- driver.o -no-pie" % " ".join(fl)
    if r.rc == 1 and "Compilation error" in r.err and "(null)" not in r.err:
        stats["rejected"] = stats.get("rejected", 0) + 1   # C01-C05 decide what is accepted
        stats["why"] = [l for l in r.err.split("\n") if "Compilation error" in l][0]
        return
    if r.rc != 0:
        raise front.Violation("a well-formed program is not compiled (%s)" % what, src, "exit status %s\n%s" % (r.rc, r.err[:2000]))
    x = compiler.run(["prlimit", "--stack=1048576", d + "/m"], d, 20)
    got = x.out.split("\n")[:-1]
    if got != out or x.rc != rc:
        i = next((i for i in range(min(len(got), len(out))) if got[i] != out[i]), min(len(got), len(out)))
        raise front.Violation("the compiled program does not do what it says (%s)" % what, src,
                              "output line %d: expected %r, got %r; exit status expected %s, got %s; expected %d lines, got %d" % (
                                  i + 1, out[i] if i < len(out) else None, got[i] if i < len(got) else None, rc, x.rc, len(out), len(got)))
