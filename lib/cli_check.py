"""Decides the command-interpreter properties: random sessions on the real code,
their recorded behaviour checked by TLC against spec/CliTrace.tla."""
import collections, copy, json, re, sys
import cliobs, direct, family, gencli, gened, twins, vlib
from vlib import uncodes

FIELDS = {
    "C01": "class",
    "C02": "load,class,help,tab",
    "C03": "class1,cvv",
    "C04": "class1,calls,ret",
    "C05": "line,tab,shows",
    "C06": "help,tab,shows,line",
    "C07": "class,calls,help,tab,line",
    "C08": "class,cvv,calls,help,tab",
    "C09": "load,class,cvv,calls,ret,help,tab,line",
    "C10": "class,calls,ret,out,help,tab",
    "C11": "class,cvv,calls",
    "C12": "line,used,hist,hook",
    "C13": "line,used,hook",
    "C14": "line,used,screen",
    "C15": "class,cvv",
    "C16": "class,cvv",
    "C19": "load,class,cvv,calls,ret,xcalls,live,trees,help,tab,line,alias",
    "C20": "trees,class,cvv,calls,help,tab,line",
    "C21": "class1,calls,ret,out",
    "C23": "line,used,hook,class,calls,ret,loop,trees",
    "C25": "class,cvv,calls,xcalls,help,tab,line",
    "C26": "alias,class,cvv,calls,ret,help,tab,line",
}
QUICK, THOROUGH = 240, 4000
SESSIONS = {"C12": (400, 6000), "C13": (200, 3000), "C14": (320, 5000), "C23": (400, 6000)}
BATCH = 1024


def cfg(fields):
    return ('SPECIFICATION Spec\nCONSTANTS\n TraceFile = "t.ndjson"\n Fields = {%s}\n'
            'POSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n' % ",".join('"%s"' % f for f in fields.split(",")))


def dec(x):
    """TLC output with sequences of character codes as strings"""
    x = re.sub(r"\s+", " ", x.split('"REJECTED"')[0])

    def f(m):
        v = [int(y) for y in re.findall(r"\d+", m.group(0))]
        return repr("".join(map(chr, v))) if v and all(y < 256 for y in v) else m.group(0)
    return re.sub(r"<<\s*\d+(, *\d+)* *>>", f, x)


def validate(work, tag, recs, fields, timeout=600):
    return vlib.tlc(work, "CliTrace", cfg(fields), tag, [("t.ndjson", "\n".join(json.dumps(x) for x in recs) + "\n")],
                    timeout=timeout)


def place(t):
    """number of the trace record TLC rejected, its message"""
    m = re.search(r'<<"?\s*"?MISMATCH",\s*(\d+)', t.out)
    m2 = re.search(r'"REJECTED", (\d+)', t.out)
    if m:
        i = t.out.find("MISMATCH")
        return int(m.group(1)), dec(t.out[i:i + 12000])[:1500]
    if m2:
        return int(m2.group(1)), "no step of the specification explains it"
    m3 = re.findall(r"State (\d+):", t.out)
    return (int(m3[-1]) if m3 else None), None


def show(ops, upto=None):
    res = []
    for args, _ in ops[:upto]:
        res.append(" ".join(str(a) if isinstance(a, int) or i == 0 else (a if "\n" in a and len(a) > 30 else repr(a))
                            for i, a in enumerate(args)))
    return res


def run_one(binary, name, ops):
    recs, crash = cliobs.observe(binary, ops)
    return name, ops, recs, crash


def judge_alone(rep, work, binary, name, ops, fields, k):
    """runs one session alone; reports and returns True when it breaks the property"""
    _, _, recs, crash = run_one(binary, name, ops)
    if crash:
        rep.violation("session %s: the program %s" % (name, crash),
                      dict(session=str(name), operations=show(ops), crash=crash))
        return True
    t = validate(work, "alone%d" % k, recs, fields)
    if t.ok:
        return False
    l, msg = place(t)
    if msg is None:
        raise vlib.CheckError("TLC on session %s: %s" % (name, t.error[:1500]))
    rep.violation("session %s, operation %d (%s): %s" % (name, l, show(ops[l - 1:l])[0][:300], msg),
                  dict(session=str(name), operation=l, operations=show(ops, l), mismatch=msg))
    return True


def corrupt(recs):
    """a recorded session with one observation changed: must be rejected"""
    out = copy.deepcopy(recs)
    for r in out:
        if r["op"] == "loop":
            r["log"] = r["log"] + [dict(f="hist", line=[120])]
            return out
        if r["op"] == "type" and r["cls"] != "eof" or r["op"] == "eval" and r["cls"] == "ok":
            r["cls"] = "bad"
            if r["op"] == "type":
                r["line"] = r["line"] + [120]
            else:
                r["cvv"] = r["cvv"][:-1]
            return out
    return None


def sessions(prop, seed, n, start=0):
    base = seed * 1000000 + start
    gen = gened.gen if prop in gened.PROF else gencli.gen
    return [(base + i, gen(base + i, prop)) for i in range(n)]


def check(rep, work, prop, tier, seed, n=None, extra=()):
    """extra: directed sessions [(name, ops)]"""
    fields = FIELDS[prop]
    binary = vlib.driver(work, "drv_cli", True)
    total = n or SESSIONS.get(prop, (QUICK, THOROUGH))[tier != "quick"]
    stats = collections.Counter()
    samples = []
    done = 0
    states = trans = validated = 0
    nontriv = set()
    selftest = None
    small = 0
    if prop in family.USE:
        small = family.check(rep, work, prop, tier, seed, binary)
    if prop in ("C02", "C11", "C16"):
        extra = list(extra) + twins.sessions(tier, seed)
    extra = list(extra) + direct.sessions(prop, tier, seed)
    while done < total and not rep.violations:
        cnt = min(BATCH, total - done)
        ss = sessions(prop, seed, cnt, done)
        if done == 0:
            ss = list(extra) + gened.systematic(prop, tier) + ss
        done += cnt
        res = vlib.pmap(lambda x: run_one(binary, *x), ss)
        for name, ops, recs, crash in res:
            if crash and len(rep.violations) < 3:
                judge_alone(rep, work, binary, name, ops, fields, 0)
        if rep.violations:
            break
        N = vlib.NCPU
        shards = [[] for _ in range(N)]
        for k, r in enumerate(res):
            if not r[3]:
                shards[k % N].append(r)

        def shard(k):
            """validates a shard; on rejection returns the session to look at again"""
            rs = list(shards[k])
            bad = []
            st = 0
            while rs:
                flat, idx = [], []
                for r in rs:
                    flat += r[2]
                    idx += [r] * len(r[2])
                t = validate(work, "s%d" % k, flat, fields)
                st += t.states
                if t.ok:
                    return bad, st, None, len(shards[k]) - len(bad)
                if t.error == "timeout":
                    return bad, st, "TLC timeout", 0
                l, msg = place(t)
                if l is None or l > len(idx):
                    return bad, st, t.error[:1500], 0
                r = idx[l - 1]
                bad.append(r)
                if len(bad) >= 2:
                    return bad, st, None, 0
                rs = [x for x in rs if x is not r]
            return bad, st, None, 0
        outs = vlib.pmap(shard, range(N))
        bads = []
        for bad, st, err, ok in outs:
            states += st
            validated += ok
            bads += bad
        for k, r in enumerate(bads[:6]):
            judge_alone(rep, work, binary, r[0], r[1], fields, k)
            if len(rep.violations) >= 3:
                break
        if not rep.violations:
            for _, _, err, _ in outs:
                if err:
                    raise vlib.CheckError("TLC: " + err)
        for name, ops, recs, crash in res:
            stats["sessions"] += 1
            for r in recs:
                stats["op " + r["op"]] += 1
                if "cls" in r:
                    stats["class " + r["cls"]] += 1
                    nontriv.add((r["cls"], json.dumps(r.get("line")), json.dumps(r.get("cvv")), len(r["calls"])))
                if r["op"] in ("type", "loop"):
                    stats["keys"] += r["used"]
                    if "cls" not in r:
                        nontriv.add(json.dumps(r["log"]))
                if r["op"] == "eval":
                    stats["callbacks"] += len(r["calls"])
                    stats["expansions"] += len(r["xcalls"])
                if r["op"] == "type":
                    for s in r["shows"]:
                        stats["listings " + s["k"]] += 1
            if len(samples) < 3 and len(recs) > 4:
                samples.append(dict(session=str(name), operations=show(ops)[:12],
                                    observed=[dict(cls=r["cls"], line=uncodes(r["line"])) for r in recs if "cls" in r][:6]))
        # the machinery itself: a falsified record must be rejected
        if selftest is None and not rep.violations:
            for name, ops, recs, crash in res:
                c = corrupt(recs)
                if c:
                    t = validate(work, "self", c, fields + ",class,line,loop")
                    selftest = not t.ok
                    break
            if selftest is False:
                raise vlib.CheckError("a falsified record was accepted")
    rep.cov.update(states=states, transitions=max(0, states - 8), traces_validated_against_impl=validated,
                   samples=samples, distinct_nontrivial=len(nontriv), fields=fields, falsified_record_rejected=selftest,
                   rule="sessions generated from the seed (profile %s); a case is distinct by line, classification and values" % prop,
                   counts=dict(stats))
    if small:
        rep.cov["model_interfaces_replayed"] = small
        rep.cov["traces_validated_against_impl"] += small
        rep.cov["states"] += sum(c["tlc_states"] for c in rep.cov["families"])
    rep.assumptions += ["lines and specifications are the generator's (lib/gencli.py): printable ASCII, bounded size",
                        "build with AddressSanitizer, gcc -O1; a crash or memory error in a session is a violation"]
