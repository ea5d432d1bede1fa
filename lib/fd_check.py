"""Descriptors registered with the line reader (C24)."""
import collections, json, random, re
import vlib, steps
from vlib import uncodes


def act(a):
    op = a["op"]
    if op == "reg":
        return "r%d%d%d" % (a["f"], a["h"], a["a"])
    if op == "key":
        return "n" if a["c"] == 10 else "k" + chr(a["c"])
    if op == "fail":
        return "f"
    return {"unreg": "u", "put": "p", "take": "t"}[op] + str(a["f"])


def script(plan):
    """list of script lines"""
    return (["begin", "do " + plan["start"]] if plan["start"] else ["begin"]) + \
        ["idle " + x for x in plan["idle"]] + ["call " + x for x in plan["call"]] + ["read"] * plan.get("reads", 1)


def from_model(p):
    # "own" means the descriptor called: the driver writes it as t0
    f = lambda acts: "".join("t0" if a["op"] == "own" else act(a) for a in acts)
    return dict(start=f(p["start"]), idle=[f(x) for x in p["idle"]], call=[f(x) for x in p["call"]])


def gen(seed):
    r = random.Random(seed)
    used = lambda: r.randint(1, 3)

    def reg():
        return "r%d%d%d" % (r.choice([1, 2, 3, 1, 2, 3, 1, 2, 3, 8, 9, 7]) if r.random() < .3 else used(), r.randint(1, 3), r.randint(1, 6))

    def idle():
        s = ""
        for _ in range(r.randint(0, 4)):
            s += r.choice([lambda: "p%d" % used(), lambda: "p%d" % used(), lambda: "p%d" % used(), lambda: "k" + r.choice("abcde"),
                           lambda: "u%d" % used() if r.random() < .4 else reg(), lambda: "n" if r.random() < .6 else ""])()
        return s + ("f" if r.random() < .06 else "")

    def call():
        s = "t0" if r.random() < .75 else ""
        gone = set()
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            x = r.random()
            if x < .2:
                f = r.choice([1, 2, 3, 1, 2, 3, 8, 9])
                gone.add(f)
                s += "u%d" % f
            elif x < .45:
                t = reg()
                if int(t[1]) not in gone:     # a number unregistered and registered again in one round: not specified
                    s += t
            elif x < .7:
                s += "p%d" % used()
            elif x < .85:
                s += "k" + r.choice("xyz")
            else:
                s += "n"
        return s + ("f" if r.random() < .08 else "")
    start = "".join(reg() for _ in range(r.randint(0, 4)))
    if r.random() < .3:
        start += "u%d" % used()
    if r.random() < .3:
        start += "p%d" % used()
    calls = [call() for _ in range(r.randint(0, 8))]
    # within one round another handler could register what this one unregistered: then only one of them may do so
    if any("u" in c for c in calls):
        calls = [c if "u" in c or not re.search("r[123]", c) or r.random() < .0 else re.sub("r[123]..", "", c) for c in calls]
    return dict(start=start, idle=[idle() for _ in range(r.randint(0, 5))], call=calls, reads=r.choice([1, 1, 2, 3]))


def run(binary, plans):
    """events of each plan, one process for all"""
    text = "\n".join("\n".join(script(p)) for p in plans) + "\n"
    evs, rc, err = vlib.run_driver(binary, text.encode(), timeout=150)
    out = []
    for e in evs:
        if e["op"] == "begin":
            out.append([])
        out[-1].append(e)
    crash = None
    if rc == 70:
        raise vlib.CheckError("driver: " + err[-500:])
    if rc != 0:
        m = re.search(r"ERROR: (AddressSanitizer[^\n]*)", err)
        crash = "did not end (status %d): %s" % (rc, m.group(1) if m else err[-300:])
    return out, crash


def validate(work, tag, evs):
    cfg = 'SPECIFICATION Spec\nCONSTANTS\n TraceFile = "t.ndjson"\nCONSTRAINT Note\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n'
    return vlib.tlc(work, "FdTrace", cfg, tag, [("t.ndjson", "\n".join(json.dumps(e) for e in evs) + "\n")])


def one(rep, work, binary, plans, tag, stats):
    evs, crash = run(binary, plans)
    flat, idx = [], []
    for k, es in enumerate(evs):
        flat += es
        idx += [k] * len(es)
        stats["sessions"] += 1
        for e in es:
            stats["event " + e["op"]] += 1
    if not flat:
        raise vlib.CheckError("no events: " + str(crash))
    t = validate(work, tag, flat)
    bad = None
    if not t.ok:
        m = re.search(r'"REJECTED",\s*(\d+)', t.out)
        if not m:
            raise vlib.CheckError("TLC on FdTrace: " + t.error[:1500])
        bad = (idx[min(int(m.group(1)), len(idx)) - 1], int(m.group(1)))
    elif crash:
        bad = (len(evs) - 1, None)
    return t.states, len(evs), bad, crash


def batch(rep, work, binary, plans, stats, name, size=150):
    chunks = [plans[i:i + size] for i in range(0, len(plans), size)]
    res = vlib.pmap(lambda x: one(rep, work, binary, x[1], "%s-%d" % (name, x[0]), stats), list(enumerate(chunks)))
    states = ok = 0
    for c, (st, n, bad, crash) in zip(chunks, res):
        states += st
        if bad is None:
            ok += n
            continue
        if len(rep.violations) >= 3:
            continue
        # again, alone, and if that is accepted with the ones before it
        for again in ([c[bad[0]]], c[:bad[0] + 1]):
            evs, crash = run(binary, again)
            flat = [e for es in evs for e in es]
            t = validate(work, "again", flat)
            m = re.search(r'"REJECTED",\s*(\d+)', t.out)
            if crash or m:
                what = "the program " + crash if crash else "no run of the specification has event %d: %s" % (
                    int(m.group(1)), json.dumps(flat[int(m.group(1)) - 1]) if int(m.group(1)) <= len(flat) else "end")
                upto = flat[:int(m.group(1))] if m else flat[-40:]
                start = max(i for i, e in enumerate(upto) if e["op"] == "begin") if any(e["op"] == "begin" for e in upto) else 0
                rep.violation("registered descriptors, plan %s: %s" % (json.dumps(again[-1]), what),
                              dict(plan=again[-1], events=upto[start:][-60:], mismatch=what))
                break
    return states, ok


def check(rep, work, prop, tier, seed):
    binary = vlib.driver(work, "drv_fd", True)
    stats = collections.Counter()
    deep = tier != "quick"
    cfg = ("SPECIFICATION Spec\nCONSTANTS\n IdleLen = %d\n CallLen = %d\n NStarts = %d\nINVARIANTS OnlyRegistered\nPROPERTIES Served Ends\nCHECK_DEADLOCK FALSE\n"
           % ((2, 2, 1) if not deep else (3, 2, 2)))
    t, behs = steps.behaviours(work, "MCFd", cfg, "mc")
    plans = [from_model(b) for b in behs]
    if not plans:
        raise vlib.CheckError("no plans from MCFd")
    s1, ok1 = batch(rep, work, binary, plans, stats, "model")
    n = 1200 if not deep else 20000
    s2 = ok2 = 0
    if not rep.violations:
        s2, ok2 = batch(rep, work, binary, [gen(seed * 1000000 + k) for k in range(n)], stats, "random")
    self_ok = None
    if not rep.violations:
        for k in range(0, len(plans), 50):
            evs, _ = run(binary, plans[k:k + 50])
            flat = [e for es in evs for e in es]
            some = [e for e in flat if e["op"] == "call"]
            if some:
                some[0]["a"] += 1
                break
        if validate(work, "self", flat).ok:
            raise vlib.CheckError("a falsified record was accepted")
        self_ok = True
    rep.cov.update(states=t.distinct + s1 + s2, transitions=t.states + s1 + s2, traces_validated_against_impl=ok1 + ok2,
                   distinct_nontrivial=len({json.dumps(p) for p in plans}) + ok2, counts=dict(stats), falsified_record_rejected=self_ok,
                   samples=[dict(plan=plans[len(plans) // 2])],
                   rule="every plan of MCFd and random plans from the seed are carried out, each recorded trace is validated by FdTrace")
    rep.assumptions += ["build with AddressSanitizer, gcc -O1; a crash or memory error is a violation",
                        "a descriptor number unregistered and registered again within one round is not exercised"]
