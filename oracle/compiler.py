"""Builds the whole real compiler (out of tree) and runs it on files."""
import fcntl, glob, os, shutil, subprocess
from .front import REPO, HERE, Unavailable

LIBS = None


def llvm(*a):
    for c in ("llvm-config-19", "llvm-config"):
        try:
            return subprocess.run([c, *a], capture_output=True, text=True, check=True).stdout.split()
        except (OSError, subprocess.CalledProcessError):
            pass
    raise Unavailable("no llvm-config")


def build(tmp):
    """tmp: a directory of one worker; the compiler is built once, next to it."""
    d = os.path.join(os.path.dirname(tmp.rstrip("/")), "compiler")
    os.makedirs(d, exist_ok=True)
    exe = d + "/skull"
    with open(d + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(d + "/failed"):
            raise Unavailable(open(d + "/failed").read())
        if not os.path.exists(exe):
            try:
                _build(d, exe)
            except Unavailable as e:
                open(d + "/failed", "w").write(str(e))
                raise
    return exe


def _build(d, exe):
    os.makedirs(d + "/gen/skull", exist_ok=True)
    data = open(REPO + "/skull/shim.ll", "rb").read()
    with open(d + "/gen/skull/shim.h", "w") as f:
        f.write("char LL_SHIM[] = {%s};\nunsigned int LL_SHIM_len = %d;\n" % (",".join(map(str, data)), len(data)))
    flags = ["-std=gnu18", "-g", "-O0", "-w", "-I" + d + "/gen", "-I" + REPO, '-DSKULL_VERSION="vp"', "-D_GNU_SOURCE"] + \
        [x for x in llvm("--cflags") if x.startswith("-I")]
    srcs = [s for s in sorted(glob.glob(REPO + "/skull/**/*.c", recursive=True))]
    procs, objs = [], []
    for i, s in enumerate(srcs):
        o = "%s/%d.o" % (d, i)
        objs.append(o)
        procs.append(subprocess.Popen(["gcc"] + flags + ["-c", s, "-o", o], stderr=subprocess.PIPE, text=True))
        if len(procs) >= 8:
            wait(procs.pop(0))
    for p in procs:
        wait(p)
    r = subprocess.run(["gcc"] + objs + ["-o", exe + ".tmp"] + llvm("--ldflags", "--libs") + ["-lm"], capture_output=True, text=True)
    if r.returncode:
        raise Unavailable("compiler does not link: " + r.stderr[-1500:])
    os.rename(exe + ".tmp", exe)


def wait(p):
    e = p.communicate()[1]
    if p.returncode:
        raise Unavailable("compiler does not compile: " + e[-1500:])


class Result:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err


def run(cmd, cwd, timeout=20, env=None):
    e = dict(os.environ)
    e.pop("COLOR", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return Result(None, "", "did not end in %d s" % timeout)
    return Result(p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"))
