"""Symbols of compiled modules: what they define, need, and hide, and that the
linker connects them (values read and functions called from C)."""
import os, random, subprocess, time
from . import compiler, front

CT = {"Int": "int64_t", "Float": "double", "Bool": "_Bool", "Rune": "int32_t", "Str": "const char *"}
FMT = {"Int": "%ld", "Float": "%a", "Bool": "%d", "Rune": "%d", "Str": "%s"}
WORDS = "alpha beta gamma delta eps zeta eta theta iota kappa lam mu nu xi omi pi rho sigma tau ups phi chi psi omega".split()


def lit(rnd, t):
    if t == "Int":
        v = rnd.choice([0, 1, 7, -3, 123456789, 9223372036854775807, rnd.randrange(-10**6, 10**6)])
        return str(v), str(v)
    if t == "Float":
        v = rnd.choice([0.5, 2.25, 1000.125, 3.75])
        return repr(v), v.hex()
    if t == "Bool":
        v = rnd.random() < .5
        return str(v).lower(), str(int(v))
    if t == "Rune":
        c = rnd.choice("aZ9_~")
        return "'%s'" % c, str(ord(c))
    s = "".join(rnd.choice("abc xyz") for _ in range(rnd.randrange(1, 6)))
    return '"%s"' % s, s


def cfloat(h):
    return h


class Mod:
    def __init__(self, rnd, names):
        self.rnd = rnd
        take = lambda: names.pop()
        self.src, self.consts, self.funcs, self.ext, self.hidden = [], [], [], [], []
        for _ in range(rnd.randrange(4)):
            t, n = rnd.choice(list(CT)), take()
            l, v = lit(rnd, t)
            self.consts.append((n, t, v))
            self.src.append("export %s%s %s" % (n, rnd.choice([" :=", ": %s =" % t]), l))
        for _ in range(rnd.randrange(3)):
            t, n = rnd.choice(list(CT)), take()
            l, v = lit(rnd, t)
            self.hidden.append(n)
            self.src.append("%s%s := %s" % (rnd.choice(["", "mut "]), n, l))
        for _ in range(rnd.randrange(3)):
            ps = [(take(), rnd.choice(["Int", "Bool", "Rune", "Str"])) for _ in range(rnd.randrange(3))]
            n = take()
            self.ext.append((n, ps))
            self.src.append("external %s(%s)" % (n, ", ".join("%s: %s" % p for p in ps)))
        for _ in range(rnd.randrange(4)):
            n = take()
            exported = rnd.random() < .6
            ps = [(take(), "Int") for _ in range(rnd.randrange(4))]
            k = [rnd.randrange(-9, 10) for _ in ps]
            c = rnd.randrange(100)
            body = " + ".join(["(%s * %d)" % (p, a) for (p, _), a in zip(ps, k)] + [str(c)])
            inner = ""
            if rnd.random() < .3:
                m = take()
                self.hidden.append(m)
                inner = "\tmut %s := %d\n\t%s = 1\n" % (m, c, m)
            if self.ext and rnd.random() < .5:
                e = self.ext[rnd.randrange(len(self.ext))]
                inner += "\t%s(%s)\n" % (e[0], ", ".join(lit(rnd, t)[0] for _, t in e[1]))
                self.used.add(e[0]) if hasattr(self, "used") else setattr(self, "used", {e[0]})
            self.src.append("%s%s(%s) Int {\n%s\treturn %s\n}" % ("export " if exported else "", n, ", ".join("%s: %s" % p for p in ps), inner, body))
            if exported:
                self.funcs.append((n, k, c))
            else:
                self.hidden.append(n)
                if rnd.random() < .5:
                    v = take()
                    self.hidden.append(v)
                    self.src.append("%s := %s(%s)" % (v, n, ", ".join(str(rnd.randrange(9)) for _ in ps)))
        if not hasattr(self, "used"):
            self.used = set()
        for e in self.ext:
            if rnd.random() < .6:
                self.used.add(e[0])
                self.src.append("%s(%s)" % (e[0], ", ".join(lit(rnd, t)[0] for _, t in e[1])))
        self.src = "\n".join(self.src) + "\n" or "noop\n"
        if not self.src.strip():
            self.src = "noop\n"


def w64(x):
    return (x + 2**63) % 2**64 - 2**63


def driver(m, name, cback):
    c, out = ["#include <stdint.h>", "#include <stdio.h>"], []
    for i, (n, ps) in enumerate(m.ext):
        c.append("void %s(void) {}" % n)
    body = []
    for i, (n, t, v) in enumerate(m.consts):
        c.append('extern %s c%d __asm__("%s.%s");' % (CT[t], i, name, n))
        body.append('printf("%s\\n", c%d);' % (FMT[t], i))
        out.append(float.fromhex(v) if t == "Float" else v)
    for i, (n, k, q) in enumerate(m.funcs):
        args = [m.rnd.randrange(-99, 99) for _ in k]
        c.append('int64_t f%d() __asm__("%s.%s");' % (i, name, n))
        body.append('printf("%%ld\\n", f%d(%s));' % (i, ", ".join("(int64_t)%d" % a for a in args)))
        out.append(str(w64(sum(a * b for a, b in zip(args, k)) + q)))
    c.append("int test(void) { %s return 0; }" % " ".join(body))
    c.append("int main(void) { return test(); }")
    return "\n".join(c) + "\n", out


def nm(f, d):
    q = subprocess.run(["nm", f], cwd=d, capture_output=True, text=True)
    glob, und, loc = set(), set(), set()
    for l in q.stdout.splitlines():
        *_, k, n = l.split()
        (und if k in "Uwv" else glob if k.isupper() or k == "u" else loc).add(n)
    return glob, und, loc


def search(tmp, seconds, seed, stats):
    exe = compiler.build(tmp)
    rnd = random.Random(seed)
    d = tmp + "/link"
    end = time.time() + seconds
    stats.update(runs=0, symbols=0)
    while time.time() < end:
        sub = rnd.choice(["", "a/", "a/b.sk.d/", "./"])
        name = rnd.choice(["m", "mod", "x.y", "long_module_name", "m.sk"])
        subprocess.run(["rm", "-rf", os.path.abspath(d)])
        os.makedirs(d + "/" + sub)
        names = WORDS[:] + [w + "x" for w in WORDS]
        rnd.shuffle(names)
        m = Mod(rnd, names)
        cback = rnd.random() < .35
        fl = rnd.choice([[], [], ["-O1"], ["-O2"], ["-g"]]) if not cback else []
        f = sub + name + ".sk"
        open(d + "/" + f, "w").write(m.src)
        stats["runs"] += 1
        r = compiler.run([exe, f] + (["--c-backend", "-o", "out.c"] if cback else ["-c", "-o", "out.o"] + fl), d)
        what = "skull %s %s" % (f, "--c-backend" if cback else "-c " + " ".join(fl))

        def bad(w, got):
            raise front.Violation("%s (%s)" % (w, what), m.src, got)
        if r.rc == 1 and "Compilation error" in r.err:
            stats["rejected"] = stats.get("rejected", 0) + 1
            stats["why"] = r.err[:200]
            continue
        if r.rc:
            bad("a well-formed module is not compiled", r.err[:1500])
        if cback:
            q = compiler.run(["gcc", "-std=gnu2x", "-w", "-c", "out.c", "-o", "out.o"], d)
            if q.rc:
                bad("the C code of an accepted module does not compile", q.err[:1500])
        glob, und, loc = nm("out.o", d)
        stats["symbols"] += len(glob) + len(und)
        want = {name + "." + n for n, *_ in m.consts} | {name + "." + n for n, *_ in m.funcs}
        rest = {"main"} if cback else {"." + name}
        if glob - rest != want:
            bad("an exported name is not visible, or one that is not exported is", "visible symbols: %s, expected: %s" % (sorted(glob), sorted(want | rest)))
        if "." + name not in glob | loc:
            bad("the code of the module has no symbol of its name", str(sorted(glob | loc)))
        und -= {"_GLOBAL_OFFSET_TABLE_"}
        if not (und <= m.used) or (not [x for x in fl if x[1] == "O"] and und != m.used):
            bad("an external function is not referred to by its name", "undefined symbols: %s, called: %s" % (sorted(und), sorted(m.used)))
        c, out = driver(m, name, cback)
        if cback:
            c = c.replace("int main(void)", "int vp_main(void)")
        c = c.replace("int main(void)", "int main(void)")
        open(d + "/drv.c", "w").write(c)
        if cback:
            subprocess.run(["objcopy", "--redefine-sym", "main=vp_mod_main", "out.o", "out2.o"], cwd=d)
            c2 = "int test(void); int main(void) { return test(); }\n"
            open(d + "/m2.c", "w").write(c2)
            q = compiler.run(["gcc", "-w", "-std=gnu17", "-no-pie", "out2.o", "drv.c", "m2.c", "-o", "t", "-lm"], d)
        else:
            q = compiler.run(["gcc", "-w", "-std=gnu17", "-no-pie", "out.o", "drv.c", "-o", "t", "-lm"], d)
        if q.rc:
            bad("a module cannot be linked with C code that uses its exports and provides its externals", q.err[:1500])
        x = compiler.run(["./t"], d)
        got = x.out.split("\n")[:-1]
        ok = len(got) == len(out) and all((float.fromhex(g) == w) if isinstance(w, float) else g == w for g, w in zip(got, out))
        if not ok:
            bad("C code does not see the exported values and functions", "expected %s, got %s" % (out, got))
