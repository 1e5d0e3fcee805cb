"""Bounded check of the semantic phase: random programs, verdict of the model
against the verdict of the real front end."""
import random, re, time
from . import lang
from .front import Crash, Violation, errors, warnings


def walk_expr(e, out):
    if e["op"] == "IDENTIFIER":
        out.append((e["name"], e.get("at", [0, 0])[0]))
    elif e["op"] == "FUNC":
        for a in e["args"]:
            walk_expr(a, out)
    elif e["op"] != "CONST":
        if "r" in e:
            walk_expr(e["r"], out)
        if "l" in e:
            walk_expr(e["l"], out)
    return out


def uses(nodes):
    out = []
    for n in nodes:
        if n["t"] == "VAR_DEF" and "vty" not in n:
            continue
        if n.get("e"):
            walk_expr(n["e"], out)
        if n["t"] == "VAR_ASSIGN":
            out.append((n["name"], n["at"][0]))
        if "kids" in n:
            out += uses(n["kids"])
    return out


TYPES = {"c": None}


def warn_key(m):
    m = m.split("Warning: ", 1)[1].strip()
    m = re.sub(r"^line \d+ column \d+: ", "", m)
    q = re.search(r'"([^"]*)"', m)
    q = q[1] if q else ""
    if "is unused" in m:
        return ("unusedf " if m.startswith("function") else "unused ") + q
    if "should be constant" in m:
        return "const " + q
    if "always true" in m:
        return "always true"
    if "always false" in m:
        return "always false"
    if "trivialy" in m:
        return "trivial " + q
    return "? " + m


def one(f, prog, werror, cmp_warn, cmp_uses):
    src = lang.show(prog)
    ok, c, why = lang.model(prog, werror)
    try:
        res = f.run(src.encode(), ("A" if ok else "") + ("w" if werror else "") + "-")
    except Crash as e:
        raise Violation("the compiler crashed on a program it should %s" % ("accept" if ok else "reject"), src, str(e))
    if res["ok"] != ok:
        raise Violation("the program should be %s%s but is %s" % (
            "accepted" if ok else "rejected", " (%s)" % why if why else "", "accepted" if res["ok"] else "rejected"), src, res["msgs"])
    er = errors(res)
    if ok and er:
        raise Violation("an accepted program produced an error message", src, res["msgs"])
    if not ok and not er and not (werror and why.startswith(("warning", "unused"))):
        raise Violation("a program was rejected without an error message", src, res["msgs"])
    if not ok and not res["msgs"]:
        raise Violation("a program was rejected without a message", src, res["msgs"])
    if ok and cmp_uses:
        a, b = sorted(uses(res["ast"])), sorted(c.uses)
        if a != b:
            raise Violation("names resolve to the wrong declarations", src, dict(got=a, expected=b))
    if ok and cmp_warn:
        a, b = sorted(map(warn_key, warnings(res))), sorted(c.warn)
        if a != b:
            raise Violation("wrong set of warnings", src, dict(got=a, expected=b))
    return ok


def search(f, focus, seconds, seed, cmp_warn=False, cmp_uses=False, stats=None):
    rng = random.Random(seed * 1000003 + sum(map(ord, focus)))
    end = time.time() + seconds
    n = acc = 0
    while time.time() < end:
        g = lang.Gen(rng, focus, rng.choice([0.0, 0.01, 0.03, 0.1]))
        prog = g.program()
        acc += one(f, prog, focus == "warn" and rng.random() < 0.3, cmp_warn, cmp_uses)
        n += 1
    if stats is not None:
        stats.update(programs=n, accepted=acc)
