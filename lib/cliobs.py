"""Runs generated sessions on the real code and turns them into traces for CliTrace."""
import re
import gencli
from vlib import codes, uncodes, run_driver

RES = {1: "ok", 2: "multi"}


def script(ops):
    def enc(op, i, a):
        if i == 0 or isinstance(a, int):
            return str(a)
        if a == "-" and op == "alias" and i in (1, 3):
            return "-"
        return "x" + a.encode("latin-1").hex() if a else "-"
    return ("\n".join(" ".join(enc(args[0], i, a) for i, a in enumerate(args)) for args, _ in ops) + "\n").encode()


def classify(res, reason):
    if res == -2:
        return "eof"
    if res in RES:
        return RES[res]
    if res == 0:
        if "mbiguous" in reason:
            return "amb"
        if "ncomplete" in reason:
            return "inc"
        return "bad"
    return "err%d" % res


def calls(cs):
    out = []
    for c in cs:
        if "fn" in c:
            out.append(dict(f="cb", i=c["fn"], fs=c["fs"], uh=c["uh"], cvv=c["cvv"],
                            argv=[dict(t=a["t"], s=a["s"]) for a in c["argv"]]))
        elif "wp" in c:
            out.append(dict(f="wp", w=c["wp"], ret=c["ret"]))
    return out


REPORT = re.compile(r'CLI syntax error in: "(.*)": |Ambiguous command\n|CLI callback error\n')


def looplog(e):
    """what the loop did, in order: lines given to the history hook, calls, reports"""
    log = []
    for c in e["calls"]:
        if "hist" in c:
            log.append((c["at"], dict(f="hist", line=c["hist"]) if c["arg"] else dict(f="hist", line=[], bad=1)))
        else:
            log.append((c["at"], calls([c])[0]))
    for m in REPORT.finditer(uncodes(e["out"])):
        kind = "syntax" if m.group(1) is not None else "ambiguous" if m.group(0)[0] == "A" else "callback"
        log.append((m.start() + .5, dict(f="report", kind=kind, line=codes(m.group(1) or ""))))
    return [x for _, x in sorted(log, key=lambda y: y[0])]


def squeeze(s):
    return " ".join(s.split())


def shows(ev, keys, prompt):
    """what each ? and TAB listed: rows of text between the echo of the key and the redrawn prompt"""
    out, marks = ev["out"], ev["marks"]
    text = uncodes(out)
    prompt = "\r" + prompt
    res = []
    esc = False
    for i, k in enumerate(keys):
        a = marks[i]
        b = marks[i + 1] if i + 1 < len(marks) and marks[i + 1] else len(text)
        seg = text[a:b]
        lit = esc
        esc = False
        if k == 92 and not lit:
            esc = True
            continue
        if (lit and 32 <= k < 127) or k not in (63, 9):
            continue
        j = seg.rfind(prompt)
        body = seg[:j] if j >= 0 else seg
        rows = [squeeze(x) for x in body.replace("\r", "\n").split("\n")]
        rows = [codes(x) for x in rows if x]
        res.append(dict(k="?" if k == 63 else "t", rows=rows))
    return res


def merge(ops, evs):
    """trace records: what was asked joined with what was observed"""
    recs = []
    prompt = "cli> "
    for i, (args, meta) in enumerate(ops):
        if i >= len(evs) or evs[i].get("op") != args[0]:
            break
        e = evs[i]
        op = args[0]
        r = dict(op=op, live=e["live"])
        if op == "set":
            r.update(meta)
            r.setdefault("i", 0)
            r.setdefault("v", 0)
            if r["k"] == "prompt":
                prompt = uncodes(r["v"])
        elif op == "spec":
            r.update(ret=e["ret"], secs=meta["secs"])
        elif op == "trees":
            r.update(names=e["names"], active=e["active"])
        elif op == "active":
            r.update(tree=meta["tree"])
        elif op in ("eval", "evalin"):
            r.update(line=meta["line"], tree=meta.get("tree", ""), cls=classify(e["res"], uncodes(e["reason"])) if e["ret"] == 0 else "error",
                     cvv=e["cvv"], nocvv=False, calls=calls(e["calls"]), eret=e["eret"], out=e["out"],
                     xcalls=[dict(fn="ex%d" % x["fn"], cvv=x["cvv"], argv=[dict(t=a["t"], s=a["s"]) for a in x["argv"]]) for x in e["xcalls"]])
        elif op == "type":
            keys = list(args[1].encode("latin-1"))
            r.update(keys=keys, used=e["used"], marks=e["marks"], out=e["out"], line=e["line"],
                     hook=[c["hist"] for c in e["calls"] if "hist" in c and c["arg"]], cls=classify(e["res"], uncodes(e["reason"])) if e["ret"] == 0 else "error",
                     calls=calls(e["calls"]), eret=e["eret"], shows=shows(e, keys, prompt))
        elif op == "loop":
            r.update(keys=list(args[1].encode("latin-1")), used=e["used"], ret=e["ret"], log=looplog(e))
        elif op == "handle":
            r.update(i=args[1])
        elif op == "histsave":
            r.update(text=e["text"])
        elif op == "histload":
            r.update(text=codes(args[1]), ret=e["ret"])
        elif op == "alias":
            r.update(ret=e["ret"], eexist=e["eexist"], alias=meta["alias"])
        recs.append(r)
    return recs


def observe(binary, ops, timeout=60):
    """(records, crash description or None)"""
    evs, rc, err = run_driver(binary, script(ops), timeout=timeout)
    recs = merge(ops, evs)
    crash = None
    if rc != 0 or len(recs) != len(ops):
        n = len(recs)
        crash = "ended with status %s at operation %d of %d (%s): %s" % (
            rc, n + 1, len(ops), repr(ops[n][0])[:300] if n < len(ops) else "end", err.strip()[-1500:])
    return recs, crash
