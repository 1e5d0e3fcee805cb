"""Registry of the bounded checks that drive the real code from an oracle.
Each entry: function(tmp, seconds, seed, stats) that raises front.Violation."""
from . import cli, exec as ex, front, link, parse, sem, text

REG = {}


def reg(name):
    def deco(f):
        REG[name] = f
        return f
    return deco


def with_front(fn):
    def go(tmp, seconds, seed, stats):
        f = front.Front(front.build(tmp))
        try:
            fn(f, seconds, seed, stats)
        finally:
            stats["runs"] = f.n
            f.close()
    return go


def sem_reg(focus):
    def fn(f, seconds, seed, stats):
        sem.search(f, focus, seconds, seed, focus == "warn", True, stats)
    REG["sem_" + focus] = with_front(fn)


for _f in ("types", "assign", "func", "flow", "scope", "warn"):
    sem_reg(_f)


REG["lex"] = with_front(lambda f, sec, seed, st: text.tokens(f, sec, seed, st, "lex"))
REG["classify"] = with_front(lambda f, sec, seed, st: text.tokens(f, sec, seed, st, "classify"))
REG["literals"] = with_front(text.literals)
REG["parse"] = with_front(parse.tree)
for _f in ("expr", "flow", "all"):
    REG["exec_" + _f] = lambda tmp, sec, seed, st, f=_f: ex.search(tmp, sec, seed, st, False, f)
    REG["exec_c_" + _f] = lambda tmp, sec, seed, st, f=_f: ex.search(tmp, sec, seed, st, True, f)
REG["link"] = link.search
REG["cli"] = cli.search
REG["decode"] = with_front(text.decode)


def par(name, tmp, seconds, seed, workers):
    """The same search from several seeds at once."""
    import concurrent.futures as cf, os
    jobs = []
    for i in range(workers):
        d = os.path.join(tmp, "%s.%d" % (name, i))
        os.makedirs(d, exist_ok=True)
        jobs.append((name, d, seconds, seed * 1000 + i))
    with cf.ProcessPoolExecutor(workers) as ex:
        rs = list(ex.map(_run, jobs))
    r = next((r for r in rs if r["found"]), rs[0])
    r["runs"] = sum(x["runs"] for x in rs)
    tot = {}
    for x in rs:
        for k, v in x["stats"].items():
            tot[k] = tot.get(k, 0) + v if isinstance(v, (int, float)) else v
    r["stats"] = tot
    return r


def _run(a):
    return run(*a)


def run(name, tmp, seconds, seed):
    """-> dict(found, detail, inputs, runs, stats, unavailable)"""
    stats = {}
    out = dict(found=False, detail="", inputs=None, unavailable=None, stats=stats)
    try:
        REG[name](tmp, seconds, seed, stats)
    except front.Violation as v:
        out.update(found=True, inputs=v.src, detail="%s\n--- input:\n%s\n--- observed: %s" % (v.what, v.src, v.detail))
    except front.Crash as e:
        out.update(found=True, detail=str(e))
    except front.Unavailable as e:
        out.update(unavailable=str(e))
    out["runs"] = stats.get("runs", 0)
    return out
