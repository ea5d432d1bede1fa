"""Small interfaces, all of them: TLC enumerates the specifications of a family, checks the interpreter of Cli
against a second definition of their language (spec/MCCli.tla), and prints each with what is to be observed of every
short line and every typed text; here each is written out as specification text and used in the code."""
import json
import cliobs, vlib
from vlib import uncodes

INV = "Agrees ListsRight HideListsOnly OrderFree PermutesFree EmitSpec"
# each Every-th specification: strides without common factors with the families' own regularities
# property: [(family, part, (size, every) quick, (size, every) thorough)], observations compared
USE = {
    "C01": ([("expr", "eval", (2, 2), (3, 11)), ("words", "eval", (2, 3), (3, 7))], "class"),
    "C02": ([("stmts", "eval", (1, 17), (1, 1))], "class"),
    "C03": ([("expr", "eval", (2, 3), (3, 19))], "cvv"),
    "C04": ([("stmts", "eval", (1, 23), (1, 1))], "calls"),
    "C05": ([("words", "type", (2, 7), (3, 11)), ("stmts", "type", (1, 41), (1, 5))], "line"),
    "C06": ([("words", "type", (2, 3), (3, 11)), ("stmts", "type", (1, 41), (1, 5))], "shows"),
    "C07": ([("hide", "all", (1, 5), (1, 1))], "class calls line shows"),
    "C08": ([("sets", "all", (1, 3), (2, 7))], "class cvv calls shows line"),
    "C09": ([("refs", "all", (1, 31), (1, 1))], "class cvv calls shows line"),
    "C11": ([("prefs", "eval", (1, 1), (2, 1))], "class cvv calls"),
}


def cfg(fam, size, part, every, offset):
    return ('SPECIFICATION Spec\nCONSTANTS\n Family = "%s"\n Size = %d\n Part = "%s"\n Every = %d\n Offset = %d\n'
            'INVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (fam, size, part, every, offset, INV))


# ------------------------------------------------------------- specification text
def expr(e, inner=False):
    k = e["k"]
    if k == "cmd":
        return uncodes(e["name"])
    if k == "var":
        v = e["var"]
        t = "<%s:%s" % (uncodes(v["name"]), v["t"])
        for r in v["ranges"]:
            n = "length" if v["t"] == "string" else "range"
            t += " %s[%s:%s]" % (n, uncodes(r["lo"]), uncodes(r["hi"]))
        if v["pref"]:
            t += " preference:%d" % v["pref"]
        return t + ">"
    if k == "seq":
        return expr(e["a"], True) + " " + expr(e["b"], True)
    if k == "alt":
        b = expr(e["b"], True)
        return "(" + expr(e["a"], True) + " | " + ("(" + b + ")" if e["b"]["k"] == "seq" else b) + ")"
    if k == "opt":
        return "[" + expr(e["a"]) + "]"
    if k == "ref":
        return "@" + e["tree"] + "".join(", @remove:" + x for x in e["rm"])
    raise ValueError(k)


def stmt(s):
    t = expr(s["e"])
    if s["hide"]:
        t += ", hide"
    t += "".join(", " + x for x in s["labels"]) + "".join(", %s()" % c["fn"] for c in s["cbs"])
    if s["block"] == "none":
        return t + ";"
    return t + (";" if s["term"] else "") + (" @{ " if s["block"] == "set" else " { ") + " ".join(map(stmt, s["sub"])) + " }"


def text(secs):
    return "".join('treename="%s";\n  %s\n' % (s["name"], "\n  ".join(map(stmt, s["stmts"]))) for s in secs)


# ------------------------------------------------------------- sessions
def session(b, lines, typing):
    ops = [(("new",), {}), (("spec", text(b["secs"])), dict(secs=b["secs"]))]
    ops.append((("active", "t"), dict(tree="t")))
    want = [None] * 3
    for m, res in enumerate(b["r"]):
        if len(b["r"]) > 1:
            ops.append((("set", "pref", m), dict(k="pref", v=m)))
            want.append(None)
        for l, r in zip(lines, res):
            ops.append((("eval", uncodes(l)), dict(line=l)))
            want.append(r)
    for ks, r in zip(typing, b["t"]):
        ops.append((("type", uncodes(ks)), dict(keys=ks)))
        want.append(r)
    return ops, want


def differ(rec, w, fields):
    """what a record and the model's expectation disagree in, or None"""
    if rec["op"] == "eval":
        if "class" in fields and rec["cls"] != w["c"]:
            return "class: observed %s, specified %s" % (rec["cls"], w["c"])
        if (rec["cls"] == "ok") != (w["c"] == "ok"):
            return "accepted: observed %s, specified %s" % (rec["cls"], w["c"])
        if w["c"] == "ok" and "cvv" in fields and rec["cvv"] != w["v"]:
            return "values: observed %s, specified %s" % (vals(rec["cvv"]), vals(w["v"]))
        if "calls" in fields and rec["calls"] != w.get("x", []):
            return "calls: observed %s, specified %s" % (brief(rec["calls"]), brief(w.get("x", [])))
    else:
        if "line" in fields and rec["line"] != w["l"]:
            return "line: observed %r, specified %r" % (uncodes(rec["line"]), uncodes(w["l"]))
        if "shows" in fields:
            a = [(s["k"], rows(s)) for s in rec["shows"]]
            b = [(s["k"], rows(s)) for s in w["s"]]
            if a != b:
                return "listed: observed %s, specified %s" % (a, b)
    return None


def rows(s):
    r = [uncodes(x) for x in s["rows"]]
    return r if s["k"] == "?" else " ".join(" ".join(r).split())


def vals(cvv):
    return [tuple(uncodes(x) if isinstance(x, list) else x for x in v.values()) for v in cvv]


def brief(cs):
    return [(c.get("i", c["f"]), vals(c.get("cvv", []))) for c in cs]


def specs(work, fam, part, size, every, offset, timeout):
    t = vlib.tlc(work, "MCCli", cfg(fam, size, part, every, offset), "mc-" + fam + part, timeout=timeout, workers=8, heap="12g")
    if not t.ok:
        i = min([j for j in (t.out.find(x) for x in ("DISAGREE", "LIST\"", "COMPLETION", "ORDER\"", "Error:")) if j >= 0] or [0])
        raise vlib.CheckError("the model does not hold (%s): %s" % (t.error[:200], t.out[i:i + 1500]))
    lines = typing = None
    bs = []
    for x in t.out.split("\n"):
        if x.startswith('"LINES'):
            d = json.loads(json.loads(x)[5:])
            lines, typing, total = d["lines"], d["typing"], d["n"]
        elif x.startswith('"BEH'):
            bs.append(json.loads(json.loads(x)[3:]))
    return t, lines, typing, total, bs


def check(rep, work, prop, tier, seed, binary):
    uses, fields = USE[prop]
    fields = fields.split()
    cov = []
    for fam, part, quick, thorough in uses:
        size, every = quick if tier == "quick" else thorough
        t, lines, typing, total, bs = specs(work, fam, part, size, every, 1 + seed % every, 500 if tier == "quick" else 6000)

        def one(b):
            ops, want = session(b, lines, typing)
            recs, crash = cliobs.observe(binary, ops, timeout=120)
            if crash:
                return b, ops, len(recs), "the program " + crash
            for i, (r, w) in enumerate(zip(recs, want)):
                if r["op"] == "spec" and r["ret"] != 0:
                    return b, ops, i, "the specification was not loaded"
                d = w is not None and differ(r, w, fields)
                if d:
                    return b, ops, i, d
            return None
        res = vlib.pmap(one, bs)
        n = 0
        for x in res:
            if x is None:
                continue
            b, ops, i, d = x
            again = one(b)
            if again is None:
                continue
            b, ops, i, d = again
            what = repr(ops[i][0][1:])[:200] if i < len(ops) else "end"
            rep.violation("interface %s: %s %s: %s" % (" ".join(text(b["secs"]).split()), ops[i][0][0] if i < len(ops) else "", what, d),
                          dict(specification=text(b["secs"]), operation=what, mismatch=d, family=fam))
            n += 1
            if n >= 3:
                break
        cov.append(dict(family=fam, size=size, specifications_in_family=total, checked=len(bs), lines=len(lines) if part != "type" else 0,
                        typed_texts=len(typing) if part != "eval" else 0, tlc_states=t.distinct, compared=fields))
        if rep.violations:
            break
    rep.cov["families"] = cov
    return sum(c["checked"] for c in cov)
