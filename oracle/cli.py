"""Command lines: what each one must do -- the exit status, the files that exist
afterwards, what kind they are, and what is printed where."""
import os, random, shutil, struct, time
from . import compiler, front

GOOD = [("return %d\n", True), ("x := %d\nreturn x\n", True), ("f(a: Int) Int {\n\treturn a\n}\nr := f(%d)\nreturn r\n", True)]
WARN = "x := 7\n# unused\nreturn %d\n"
BAD = ["x: Int = true\nreturn x\n", "return y\n", "x := \n", "f(a: Int) Int {\n\treturn 'a'\n}\n", "noop )\n", "if 1 {\n\tnoop\n}\n"]
FLAGS = ["-c", "-S", "-E", "-g", "-q", "-O1", "-O2", "-O3", "--c-backend", "--werror", "--llvm-no-verify", "--color"]
WRONG = ["-x", "-", "-O", "-O0", "-O4", "-O11", "-cS", "-ab", "--nope", "--c", "-oo", "-ofile", "--versions", "-hv", "-O1x"]
END = ["-h", "-v", "--help", "--version"]
NAMES = ["a.sk", "b.x.sk", "sub/c.sk", "./d.sk", "sub/../e.sk"]
OUTS = ["out1", "sub/out2", "-", "none/out", "a.o", "sub"]
EXTRA = [["-O0"], ["-g", "-Wall"], ["-no-pie"], ["-L."]]


def model(args, env_color):
    """-> ('stop', status) or ('go', flags, filename, out, extra)"""
    seen, fn, out, extra, i = set(), None, None, None, 0
    while i < len(args):
        a = args[i]
        i += 1
        if not a.startswith("-"):
            fn = a
        elif a in END:
            return ("stop", 0)
        elif a == "--":
            if i == len(args):
                return ("stop", 1)
            extra = args[i:]
            break
        elif a == "-o":
            if out is not None or i == len(args):
                return ("stop", 1)
            out = args[i]
            i += 1
        elif a in FLAGS:
            if a in seen or (a == "--color" and env_color):
                return ("stop", 1)
            seen.add(a)
        else:
            return ("stop", 1)
    if len(seen & {"-O1", "-O2", "-O3"}) > 1 or len(seen & {"-c", "-S", "-E"}) > 1:
        return ("stop", 1)
    if "--c-backend" in seen and seen & {"--llvm-no-verify", "-S"} or {"-q", "--werror"} <= seen:
        return ("stop", 1)
    if fn is None or not fn.endswith(".sk") or fn == ".sk" or fn.endswith("/.sk"):
        return ("stop", 1)
    return ("go", seen, fn, out, extra)


def hidden(fn, ext):
    d, b = os.path.split(fn)
    return os.path.join(d, "." + b + "." + ext)


def files(d):
    r = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            n = os.path.join(p, f)
            r[os.path.relpath(n, d)] = open(n, "rb").read()
    return r


def elf(b):
    return struct.unpack_from("<H", b, 16)[0] if b[:4] == b"\x7fELF" else 0


def scenario(rnd):
    kind = rnd.choices(["good", "warn", "bad", "empty", "missing"], [8, 2, 3, 1, 1])[0]
    val = rnd.randrange(1, 200)
    src = {"good": lambda: rnd.choice(GOOD)[0] % val, "warn": lambda: WARN % val, "bad": lambda: rnd.choice(BAD), "empty": lambda: "", "missing": lambda: None}[kind]()
    name = rnd.choice(NAMES)
    args = [name] if rnd.random() < .93 else [rnd.choice(["a.c", ".sk", "sub/.sk", "a.skx", "", "a"])]
    if rnd.random() < .05:
        args = []
    for _ in range(rnd.choice([0, 1, 1, 2, 2, 3, 4])):
        args.insert(rnd.randrange(len(args) + 1), rnd.choice(FLAGS))
    if rnd.random() < .08:
        args.insert(rnd.randrange(len(args) + 1), rnd.choice(WRONG + END))
    if rnd.random() < .3:
        args += ["-o", rnd.choice(OUTS)] if rnd.random() < .95 else ["-o"]
        if rnd.random() < .1:
            args = args[-2:] + args[:-2]
        if rnd.random() < .04:
            args += ["-o", "out3"]
    if rnd.random() < .15:
        args += ["--"] + (rnd.choice(EXTRA) if rnd.random() < .8 else [])
    return kind, src, val, name, args, rnd.random() < .15


def one(exe, d, sc):
    kind, src, val, name, args, env_color = sc
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d + "/sub")
    if src is not None:
        open(os.path.join(d, name), "w").write(src)
    before = files(d)
    env = {"COLOR": "1"} if env_color else {}
    r = compiler.run([exe] + args, d, 30, env)
    after = files(d)
    new = {k: v for k, v in after.items() if k not in before}
    ctx = "program (%s, in %s):\n%s\ncommand line: skull %s%s" % (kind, name, src, " ".join(repr(a) for a in args), "   with COLOR=1" if env_color else "")
    obs = "status %s, new files %s, stdout %r, stderr %r" % (r.rc, sorted(new), r.out[:300], r.err[:300])

    def fail(what):
        raise front.Violation(what, ctx, obs)

    if r.rc is None:
        fail("ends")
    if r.rc < 0:
        fail("is not ended by a signal")
    if any(after.get(k) != v for k, v in before.items()):
        fail("the sources stay as they are")
    if not args:
        if r.rc != 0 or not r.out or new:
            fail("without arguments the usage is printed")
        return "usage"
    m = model(args, env_color)
    if m[0] == "stop":
        if r.rc != m[1]:
            fail("ends with status %d before anything is compiled" % m[1])
        if new:
            fail("nothing is written")
        if m[1] == 0 and not r.out or m[1] == 1 and (not r.err or r.out):
            fail("a message on the right stream")
        return "stop%d" % m[1]
    _, flags, fn, out, extra = m
    rejected = fn != name or kind in ("bad", "missing") or kind == "warn" and "--werror" in flags or kind == "empty" and "--werror" in flags
    if rejected or kind == "empty":
        if r.rc != (1 if rejected else 0):
            fail("the exit status says whether the program was accepted")
        if new or r.out:
            fail("nothing is written")
        if not r.err and "-q" not in flags:
            fail("a message says why")
        return "rejected" if rejected else "empty"
    if kind == "warn":
        if not r.err and "-q" not in flags:
            fail("a warning is printed")
    c = "--c-backend" in flags
    if c:
        where = out or ("-" if "-E" in flags else hidden(fn, "c"))
        what = "c"
    elif "-E" in flags:
        where, what = out or "-", "ir"
    elif "-S" in flags:
        where, what = out or hidden(fn, "s"), "asm"
    elif "-c" in flags:
        where, what = out or hidden(fn, "o"), "obj"
    else:
        where, what = out or hidden(fn, "o"), "bin"
    where = where if where == "-" else os.path.normpath(where)
    if what == "bin" and where.startswith("-") and where != "-":
        return "dashed"  # the name of the object is taken for an option of cc
    impossible = where.startswith("none/") or where == "sub" or where == "-" and what in ("obj", "bin")
    if impossible:
        if r.rc != 1:
            fail("a result that cannot be written makes the status 1")
        if new:
            fail("nothing is written")
        if not r.err:
            fail("a message says why")
        return "unwritable"
    if r.rc != 0:
        fail("the program is accepted and its result written: status 0")
    if what == "bin":
        where = os.path.normpath(fn[:-3])
    if where == "-":
        if new:
            fail("the result goes to the standard output only")
        text = r.out
    else:
        if set(new) != {where}:
            fail("exactly the file %s is written" % where)
        if r.out:
            fail("nothing is printed to the standard output")
        text = new[where].decode("utf-8", "replace")
    if kind == "good" and r.err:
        fail("no message for a program that is accepted")
    if what == "c":
        if "int main(void)" not in text:
            fail("C source is written")
        open(d + "/vp.c", "w").write(text)
        cc = compiler.run(["gcc", "-std=gnu2x", "-w", "vp.c", "-o", "vp", "-lm"], d)
        if cc.rc:
            raise front.Violation("the C source compiles", ctx, cc.err[:500])
        got = compiler.run(["./vp"], d).rc
        if got != val:
            fail("the program that was compiled gives %s, not %d" % (got, val))
    elif what == "ir":
        if "define" not in text or "ModuleID" not in text or "@_start(" in text:
            fail("the LLVM text of the module is written")
    elif what == "asm":
        if ".text" not in text or "\n_start:" in text:
            fail("assembly is written")
    elif what == "obj":
        if elf(new[where]) != 1:
            fail("an object file is written")
    else:
        if elf(new[where]) not in (2, 3):
            fail("a program is written")
        got = compiler.run(["./" + where], d).rc
        if got != val:
            fail("the program that was written ends with %s, not %d" % (got, val))
    return what


def fixed(exe, d, stats):
    """Results that cannot be written completely, and a linker that does not end well."""
    for args, what in ((["a.sk", "--c-backend", "-o", "/dev/full"], "a full device"), (["a.sk", "--", "; kill -9 $$"], "a command that is killed"), (["a.sk", "--", "-lvp-no-such-library"], "a command that fails")):
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        open(d + "/a.sk", "w").write("return 3\n")
        r = compiler.run([exe] + args, d)
        stats["runs"] += 1
        if r.rc != 1:
            raise front.Violation("status 1 for " + what, "return 3\n\ncommand line: skull " + " ".join(repr(a) for a in args), "status %s" % r.rc)
    for name in ("x.sk", "x"):
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d + "/" + name)
        if name == "x":
            open(d + "/x.sk", "w").write("return 3\n")
        r = compiler.run([exe, "x.sk"], d)
        stats["runs"] += 1
        if r.rc != 1 or not r.err:
            raise front.Violation("status 1 and a message when %s is a directory" % name, "skull x.sk", "status %s" % r.rc)


    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    os.mkfifo(d + "/p.sk")
    fd = os.open(d + "/p.sk", os.O_RDWR)
    os.write(fd, b"return 3\n")
    r = compiler.run([exe, "p.sk"], d)
    os.close(fd)
    stats["runs"] += 1
    if r.rc != 1 or not r.err:
        raise front.Violation("status 1 and a message for a file that cannot be read (a FIFO)", "skull p.sk", "status %s" % r.rc)


def search(tmp, seconds, seed, stats):
    exe = compiler.build(tmp)
    rnd = random.Random(seed)
    d = tmp + "/cli"
    end = time.time() + seconds
    stats["runs"] = 0
    fixed(exe, d, stats)
    while time.time() < end:
        k = one(exe, d, scenario(rnd))
        stats["runs"] += 1
        stats[k] = stats.get(k, 0) + 1
