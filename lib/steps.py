"""Libraries used through steps (string buffers, variable vectors, paging): sessions of operations run on the
real code, every step's observation checked by TLC against the module's step function; and all behaviours of a
bounded model, printed by TLC with what is to be observed, replayed into the code."""
import collections, json, re, time
import vlib
from vlib import uncodes


def hexs(c):
    return "x" + bytes(c).hex()


def run_sessions(binary, args, sessions, encode, timeout=120):
    """[(name, ops)] -> [(name, ops, observations, crash|None)], all in one process."""
    script = "".join("begin\n" + "".join(encode(o) + "\n" for o in ops) for _, ops in sessions)
    evs, rc, err = vlib.run_driver(binary, script.encode(), timeout=timeout, args=args)
    out, i, crash = [], 0, None
    if rc == 70:
        raise vlib.CheckError("driver: " + err[-500:])
    for name, ops in sessions:
        obs = evs[i + 1:i + 1 + len(ops)]
        i += 1 + len(ops)
        if len(obs) < len(ops):
            m = re.search(r"ERROR: (AddressSanitizer[^\n]*)", err)
            crash = ("did not end (status %d): " % rc) + (m.group(1) if m else err[-300:])
            out.append((name, ops, obs, crash))
            break
        out.append((name, ops, obs, None))
    if crash is None and rc != 0:
        raise vlib.CheckError("driver ended with status %d: %s" % (rc, err[-500:]))
    return out


def show(op):
    def f(v):
        if isinstance(v, list) and v and all(isinstance(x, int) for x in v):
            return repr(uncodes(v))
        if isinstance(v, list) and len(v) == 1 and isinstance(v[0], list):
            return repr(uncodes(v[0]))
        return json.dumps(v) if not isinstance(v, str) else v
    return op["op"] + "(" + ", ".join("%s=%s" % (k, f(v)) for k, v in op.items() if k not in ("op", "obs")) + ")"


def trace_cfg(consts=""):
    return ('SPECIFICATION Spec\nCONSTANTS\n TraceFile = "t.ndjson"\n%sPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n' % consts)


def records(res):
    recs, idx = [], []
    for k, (name, ops, obs, crash) in enumerate(res):
        recs.append(dict(op="begin"))
        idx.append((k, -1))
        for j, o in enumerate(obs):
            recs.append(dict(ops[j], obs=o))
            idx.append((k, j))
    return recs, idx


def validate(work, module, tag, recs, timeout=600):
    return vlib.tlc(work, module, trace_cfg(), tag, [("t.ndjson", "\n".join(json.dumps(r) for r in recs) + "\n")],
                    timeout=timeout)


def place(t):
    m = re.search(r'<<\s*"MISMATCH",\s*(\d+)', t.out)
    if m:
        i = m.start()
        return int(m.group(1)), re.sub(r"\s+", " ", t.out[i:i + 6000].split("<<\"REJECTED")[0].split("<< \"REJECTED")[0])[:2500]
    m = re.search(r'"REJECTED", (\d+)', t.out)
    if m:
        return int(m.group(1)), "no step of the specification explains it"
    m = re.findall(r"State (\d+):", t.out)
    return (int(m[-1]) if m else None), None


def violation(rep, what, ops, upto, detail):
    rep.violation("%s, operation %d (%s): %s" % (what, upto + 1, show(ops[upto])[:200] if upto < len(ops) else "end", detail[:1200]),
                  dict(session=str(what), operations=[show(o) for o in ops[:upto + 1]], mismatch=detail))


def check_random(rep, work, binary, args, module, encode, sessions, stats, chunk=None):
    """runs and validates sessions; returns (states, sessions validated, samples)"""
    n = vlib.NCPU
    shards = [sessions[i::n] for i in range(n)]

    def one(k):
        if not shards[k]:
            return None
        res = run_sessions(binary, args, shards[k], encode)
        recs, idx = records(res)
        t = validate(work, module, "%s-%d" % (module, k), recs)
        return res, idx, t
    states = ok = 0
    samples = []
    for k, x in enumerate(vlib.pmap(one, range(n))):
        if x is None:
            continue
        res, idx, t = x
        states += t.states
        for name, ops, obs, crash in res:
            stats["sessions"] += 1
            for o in ops[:len(obs)]:
                stats["op " + o["op"]] += 1
            if crash and len(rep.violations) < 3:
                violation(rep, "session %s" % name, ops, len(obs), "the program " + crash)
        if res and len(samples) < 2:
            samples.append(dict(session=str(res[0][0]), operations=[show(o) for o in res[0][1][:10]], observed=res[0][2][:3]))
        if t.ok:
            ok += len(res)
            continue
        l, msg = place(t)
        if l is None or l > len(idx) or msg is None:
            raise vlib.CheckError("TLC on %s: %s" % (module, t.error[:1500]))
        s, j = idx[l - 1]
        # again, alone; a mismatch that needs the sessions before it is looked at with them
        for again in ([shards[k][s]], shards[k][:s + 1]):
            res2 = run_sessions(binary, args, again, encode)
            recs2, idx2 = records(res2)
            t2 = validate(work, module, "again", recs2)
            if res2[-1][3]:
                violation(rep, "session %s" % res2[-1][0], res2[-1][1], len(res2[-1][2]), "the program " + res2[-1][3])
                break
            if not t2.ok:
                l2, msg2 = place(t2)
                if msg2 is None:
                    raise vlib.CheckError("TLC on %s: %s" % (module, t2.error[:1500]))
                s2, j2 = idx2[l2 - 1]
                if len(rep.violations) < 3:
                    violation(rep, "session %s" % again[s2][0], again[s2][1], max(j2, 0), msg2)
                break
    return states, ok, samples


def falsified(work, module, res, change):
    """a record with one observation changed must be rejected"""
    recs, _ = records(res)
    for r in recs:
        if "obs" in r and change(r["obs"]):
            t = validate(work, module, "self", recs)
            if t.ok:
                raise vlib.CheckError("a falsified record was accepted")
            return True
    return None


def behaviours(work, module, cfg, tag, timeout=800, workers=vlib.NCPU, heap="8g"):
    """all behaviours of the bounded model: (TLC result, list of [{e, x}])"""
    t = vlib.tlc(work, module, cfg, tag, timeout=timeout, workers=workers, heap=heap)
    if not t.ok:
        raise vlib.CheckError("TLC on %s: %s" % (module, t.error[:2000]))
    out = []
    for line in t.out.split("\n"):
        if line.startswith('"BEH'):
            out.append(json.loads(json.loads(line)[3:]))
    return t, out


def replay(rep, binary, args, encode, behs, stats, chunk=400, norm=lambda x: x):
    """replays the model's behaviours into the code, comparing every step"""
    chunks = [behs[i:i + chunk] for i in range(0, len(behs), chunk)]

    def one(c):
        return run_sessions(binary, args, [(i, [s["e"] for s in b]) for i, b in enumerate(c)], encode)
    steps = 0
    for c, res in zip(chunks, vlib.pmap(one, chunks)):
        for b, (name, ops, obs, crash) in zip(c, res):
            stats["behaviours replayed"] += 1
            for j, o in enumerate(obs):
                steps += 1
                if norm(o) != norm(b[j]["x"]) and len(rep.violations) < 3:
                    violation(rep, "behaviour of the model", ops, j, "observed %s, specified %s" % (json.dumps(o), json.dumps(b[j]["x"])))
                    break
            if crash and len(rep.violations) < 3:
                violation(rep, "behaviour of the model", ops, len(obs), "the program " + crash)
        if rep.violations:
            break
    stats["model steps replayed"] += steps
    return steps
