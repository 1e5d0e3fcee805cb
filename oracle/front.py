"""Drives the real front end (native/front.c linked with /repo's sources)."""
import glob, json, os, signal, subprocess, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0",
           UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=0")


class Unavailable(Exception):
    pass


def front_sources():
    s = []
    for p in ("skull/common/*.c", "skull/parse/*.c", "skull/semantic/*.c"):
        s += sorted(glob.glob(REPO + "/" + p))
    return s + [REPO + "/skull/build_data.c", REPO + "/skull/codegen/abi.c", REPO + "/skull/codegen/shared.c"]


def build(tmp, san=True):
    exe = tmp + "/front"
    if os.path.exists(exe):
        return exe
    flags = ["-std=gnu18", "-g", "-O1", "-w", "-I" + REPO, '-DSKULL_VERSION="vp"', "-D_GNU_SOURCE"]
    if san:
        flags += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    srcs = [s for s in front_sources() if os.path.exists(s)] + [HERE + "/native/front.c"]
    od = tmp + "/front_o"
    os.makedirs(od, exist_ok=True)
    procs, objs = [], []
    for i, s in enumerate(srcs):
        o = "%s/%d.o" % (od, i)
        objs.append(o)
        procs.append(subprocess.Popen(["gcc"] + flags + ["-c", s, "-o", o], stderr=subprocess.PIPE, text=True))
    for p in procs:
        e = p.communicate()[1]
        if p.returncode:
            raise Unavailable("front end driver does not compile: " + e[-1500:])
    r = subprocess.run(["gcc"] + flags + objs + ["-o", exe, "-lm"], capture_output=True, text=True)
    if r.returncode:
        raise Unavailable("front end driver does not link: " + r.stderr[-1500:])
    return exe


class Crash(Exception):
    pass


class Front:
    def __init__(self, exe):
        self.exe, self.p, self.n = exe, None, 0

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, env=ENV)

    def run(self, src, flags="-", filename="m.sk"):
        """src: bytes without NUL. -> dict; raises Crash"""
        if self.p is None:
            self.start()
        self.n += 1

        def hang(*_):
            self.p.kill()
        signal.signal(signal.SIGALRM, hang)
        signal.alarm(20)
        try:
            self.p.stdin.write(b"%d %s %s\n" % (len(src), flags.encode(), filename.encode()) + src)
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = b""
        finally:
            signal.alarm(0)
        if not line.endswith(b"\n"):
            try:
                self.p.stdin.close()
            except OSError:
                pass
            err = self.p.stderr.read().decode(errors="replace")
            self.p.wait()
            self.p = None
            raise Crash("the front end crashed or did not end: " + err[:1500])
        return json.loads(line)

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None


class Violation(Exception):
    def __init__(self, what, src, detail=None):
        super().__init__(what)
        self.what, self.src, self.detail = what, src, detail


def errors(res):
    return [m for m in res["msgs"] if "Compilation error" in m]


def warnings(res):
    return [m for m in res["msgs"] if "Warning" in m]
