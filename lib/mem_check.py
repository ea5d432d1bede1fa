"""C17 string buffers, C18 variable vectors."""
import collections, random
import steps, vlib
from steps import hexs
from vlib import codes

TECH = "steps"


# ------------------------------------------------------------------ string buffers
def enc_buf(o):
    a = [o["op"]]
    for k in ("i", "j", "f", "s", "n", "m", "c"):
        if k in o:
            v = o[k]
            a.append(hexs(v) if isinstance(v, list) else str(v))
    if o["op"] in ("fmt", "vfmt"):
        a = [o["op"], str(o["i"]), hexs(codes(o["f"])), hexs(o["s"]), str(o["n"])]
    return " ".join(a)


def gen_buf(seed):
    r = random.Random(seed)
    ops = []
    big = r.random() < .1
    live = {}
    if r.random() < .7:
        st = r.choice([0, 1, 2, 3, 4, 7, 8, 16, 31])
        ops.append(dict(op="alloc", n=st, m=r.choice([0, 1, 2, 5, 16, 33, 64])))
    else:
        st = 1024
    cap = {}

    def length(i):
        """lengths near what may be left in the buffer"""
        left = cap.get(i, 8) - live[i]
        k = r.random()
        if k < .45:
            return max(0, min(left + r.randint(-3, 3), 1500))
        if k < .9:
            return r.randint(0, 12)
        return r.randint(0, 1200 if big else 80)

    def text(n, zero=False):
        return [r.randint(0 if zero else 1, 255) for _ in range(n)]
    for _ in range(r.randint(5, 40)):
        i = r.randint(1, 3)
        if i not in live:
            if r.random() < .5:
                n = r.choice([0, 1, 2, 3, 5, 8, 10, 16, 64])
                ops.append(dict(op="new", i=i, n=n))
                cap[i] = n
            else:
                ops.append(dict(op="newdef", i=i))
                cap[i] = st
            live[i] = 0
            continue
        k = r.random()
        if live[i] > 1500 and not big:
            k = .97
        n = length(i)
        if k < .2:
            ops.append(dict(op="str", i=i, s=text(min(n, 60))))
            n = min(n, 60)
        elif k < .3:
            ops.append(dict(op="run", i=i, n=n, c=r.randint(0, 89)))
        elif k < .42:
            n = min(n, 60)
            ops.append(dict(op="raw", i=i, s=text(n, True)))
        elif k < .52:
            c = r.choice([0, 1, 10, 65, 127, 200, 255])
            ops.append(dict(op="chr", i=i, n=c))
            n = 1 if c else 0
        elif k < .74:
            f = r.choice(["s", "d", "x", "s=d", "width", "width", "prec", "pct", "none"])
            s = text(r.randint(0, 9))
            if f == "width":
                v = min(n, 300)
            elif f == "prec":
                v = r.randint(0, 12)
            else:
                v = r.choice([0, 9, 10, 255, 2147483647] + ([-1, -2147483647] if f != "x" else []))
            ops.append(dict(op=r.choice(["fmt", "vfmt"]), i=i, f=f, s=s, n=v))
            n = dict(s=len(s), d=len(str(v)), x=len("%x" % (v & 0xffffffff)), width=max(v, len(s)), prec=min(v, len(s)),
                     pct=len(s) + 2, none=0).get(f, len(s) + len(str(v)) + 2)
        elif k < .8:
            js = [j for j in live if j != i]
            if not js:
                continue
            j = r.choice(js)
            ops.append(dict(op="buf", i=i, j=j))
            n = live[j]
        elif k < .83:
            ops.append(dict(op="null", i=i, f=r.choice(["str", "raw"])))
            n = 0
        elif k < .84:
            ops.append(dict(op="nofmt"))
            n = 0
        elif k < .93:
            n = r.choice([0, live[i], live[i] + 1, max(0, live[i] - 1), r.randint(0, live[i])])
            ops.append(dict(op="trunc", i=i, n=n))
            if n <= live[i]:
                live[i] = n
            continue
        elif k < .98:
            ops.append(dict(op="reset", i=i))
            live[i] = 0
            continue
        else:
            ops.append(dict(op="free", i=i))
            del live[i]
            continue
        live[i] += n
        if cap[i] < live[i] + 1:
            cap[i] = max(cap[i] * 2, 1)
    return ops


# ------------------------------------------------------------------ variable vectors
VALUES = {
    "int8": ["0", "-128", "127", "5", "-3"], "int16": ["-32768", "32767", "300", "-1"],
    "int32": ["-2147483648", "2147483647", "0", "100000"],
    "int64": ["-9223372036854775808", "9223372036854775807", "4294967296", "-4294967295", "1"],
    "uint8": ["0", "255", "128"], "uint16": ["65535", "0", "9"], "uint32": ["4294967295", "0", "2147483648"],
    "uint64": ["18446744073709551615", "0", "9223372036854775808", "4294967297", "1"],
    "decimal64": ["1.50", "-0.05", "12.25", "-12.25", "0.00"],
    "bool": ["true", "false"], "rest": ["a b", "", "x"], "string": ["", "a", "ab", "b", "a b", "\xe5"],
    "interface": ["eth0", "eth1"], "ipv4addr": ["1.2.3.4", "255.255.255.255", "0.0.0.0"],
    "ipv4prefix": ["1.2.3.4/8", "1.2.3.4/9", "10.0.0.0/32"], "ipv6addr": ["2001:db8::1", "2001:db8::2"],
    "ipv6prefix": ["2001:db8::1/64", "2001:db8::1/65"], "macaddr": ["00:11:22:33:44:55", "fe:dc:ba:98:76:54"],
    "url": ["http://u:p@h/x", "http://u:q@h/x", "ftp://h/", "http://v:p@h/x", "http://u:p@g/x", "http://u:p@h/y"],
    "uuid": ["550e8400-e29b-41d4-a716-446655440000", "550e8400-e29b-41d4-a716-446655440001"],
    "void": ["0x10", "0x20"], "empty": [""],
    "time": ["2008-09-21T18:57:21.003000Z", "2008-09-21T18:57:21.003001Z", "2009-09-21T18:57:21.003000Z"],
}
ABSENT = "~"


def opt(s):
    return [] if s is None else [codes(s)]


def enc_vec(o):
    def e(k):
        v = o[k]
        if k == "name":
            return "~" if v == [] else hexs(v[0])
        if k == "bits":
            return str(sum(1 << b for b in v))
        return hexs(v) if isinstance(v, list) else str(v)
    op = o["op"]
    order = dict(new="i n", start="i s", txt="i s", words="i j s", append="i j k", take="i k", add="i t name s", gets="i k",
                 find="i name", findkw="i name", findvar="i name", findstr="i name", dup="i j", name="i name",
                 elname="i k name", const="i k n", flag="i k bits", unflag="i k bits", set="i k s", clear="i k", tget="i k", tset="i k t s",
                 cmp="i k j m", deli="i k", get="i k", next="i k").get(op)
    order = (order or ("i k" if op == "del" else "i")).split()
    order[0:0] = []
    return " ".join([op] + [e(k) for k in order])


NAMES = ["a", "b", "ab", "c", ""]


def gen_vec(seed):
    r = random.Random(seed)
    ops = []
    types = r.sample(sorted(VALUES), r.randint(2, 7)) + ["string"]
    est = {1: 0, 2: 0, 3: 0}            # rough lengths

    def name():
        return opt(r.choice(NAMES + [None]))
    for i in (1, 2):
        ops.append(dict(op="new", i=i, n=r.choice([0, 0, 0, 1, 3])))
        est[i] = ops[-1]["n"]
    n = r.randint(10, 60)
    while len(ops) < n:
        i = r.choice([1, 1, 1, 2, 2, 3])
        k = r.randint(1, max(1, est[i]))
        j = r.randint(1, 3)
        m = r.randint(1, max(1, est[j]))
        x = r.random()
        if x < .25 and est[i] < 12:
            t = r.choice(types)
            ops.append(dict(op="add", i=i, t=t, name=name(), s=codes(r.choice(VALUES[t]))))
            est[i] += 1
        elif x < .33 and est[i] < 12:
            ops.append(dict(op="append", i=i, j=j, k=m))
            est[i] += 1
        elif x < .36:
            ops.append(dict(op="take", i=i, k=k))
        elif x < .39:
            ops.append(dict(op=r.choice(["put", "put", "fromvar"]), i=i))
            est[i] = est[i] + 1 if ops[-1]["op"] == "put" else 1
        elif x < .45:
            ops.append(dict(op=r.choice(["del", "deli"]), i=i, k=k))
            est[i] = max(0, est[i] - 1)
        elif x < .47:
            ops.append(dict(op="deli", i=i, k=est[i] + r.choice([1, 1, 2, 50])))
        elif x < .49:
            ops.append(dict(op=r.choice(["delother", "len", "selfname"]), i=i))
        elif x < .52:
            ops.append(dict(op=r.choice(["get", "gets", "next"]), i=i, k=r.choice([k, max(1, est[i]), est[i] + 1])))
        elif x < .54:
            ops.append(dict(op=r.choice(["each", "each1"]), i=i))
        elif x < .56:
            ops.append(dict(op="next", i=i, k=r.choice([0, k])))
        elif x < .62:
            op = r.choice(["find", "findkw", "findvar", "findstr"])
            ops.append(dict(op=op, i=i, name=opt(r.choice(NAMES)) if op != "find" else name()))
        elif x < .66:
            if i != j:
                ops.append(dict(op="dup", i=i, j=j))
                est[j] = est[i]
        elif x < .68:
            ops.append(dict(op="name", i=i, name=name()))
        elif x < .72:
            ops.append(dict(op=r.choice(["print", "tobuf"]), i=i))
        elif x < .74:
            ops.append(dict(op=r.choice(["nokeys", "first"]), i=i))
        elif x < .75:
            ops.append(dict(op=r.choice(["empty", "free"]), i=i))
            est[i] = 0
        elif x < .77:
            op = r.choice(["start", "txt", "words", "new"])
            t = "".join(r.choice("ab \n" if op == "txt" else "ab \"\\\t") for _ in range(r.randint(0, 12)))
            if op == "new":
                ops.append(dict(op="new", i=i, n=r.randint(0, 4)))
            elif op == "words":
                if i == j:
                    continue
                ops.append(dict(op=op, i=i, j=j, s=codes(t)))
                est[j] = 3
            else:
                ops.append(dict(op=op, i=i, s=codes(t)))
            est[i] = 3
        elif x < .81:
            ops.append(dict(op="elname", i=i, k=k, name=name()))
        elif x < .86:
            ops.append(dict(op="const", i=i, k=k, n=r.choice([1, 1, 0])))
        elif x < .91:
            ops.append(dict(op=r.choice(["flag", "flag", "unflag"]), i=i, k=k, bits=sorted(r.sample(range(7), r.randint(1, 2)))))
        elif x < .93:
            ops.append(dict(op="tget", i=i, k=k))
            t = r.choice(types)
            if t not in ("macaddr", "ipv6addr", "ipv6prefix", "empty"):
                ops.append(dict(op="tset", i=i, k=k, t=t, s=codes(r.choice(VALUES[t]))))
        elif x < .94:
            ops.append(dict(op="set", i=i, k=k, s=codes(r.choice(VALUES["string"]))))
        elif x < .95:
            ops.append(dict(op="clear", i=i, k=k))
        else:
            ops.append(dict(op="cmp", i=i, k=k, j=j, m=m))
    return ops


# ---------------------------------------------------------------- paged output
def enc_page(o):
    op = o["op"]
    if op == "resize":
        return "resize %d %d" % (o["h"], o["w"])
    if op in ("paging", "rows", "width"):
        return "%s %d" % (op, o["n"])
    if op == "fmt":
        return "fmt %s %s" % (hexs(o["s"]), hexs(o["t"]))
    if op in ("out", "basic", "other", "keys"):
        return "%s %s" % (op, hexs(o["s"]))
    return op


def gen_page(seed):
    r = random.Random(seed)
    ops = []
    width = 80

    def line():
        w = max(21, min(width, 90))
        n = r.choice([0, 1, 2, 5, 9, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1, r.randint(0, 3 * w)])
        c = r.randint(0, 25)
        return "".join(chr(97 + (c + i) % 26) if r.random() < .97 else " " for i in range(n))

    def text():
        x = r.random()
        if x < .08:
            return ""
        if x < .3:
            return line()
        if x < .55:
            return line() + "\n"
        if x < .7:
            return "\n" * r.randint(1, 6)
        return "\n".join(line() if r.random() < .3 else r.choice(["", "one", "two words"]) for _ in range(r.randint(2, 12))) + r.choice(["", "\n"])
    h = r.randint(2, 12)
    width = r.choice([0, 10, 21, 22, 30, 40, 80])
    ops.append(dict(op="resize", h=h, w=width))
    if r.random() < .1:
        ops.append(dict(op="resize", h=0, w=width))
        ops.append(dict(op="rows", n=r.randint(2, 9)))
    for _ in range(r.randint(3, 14)):
        x = r.random()
        if x < .72:
            o = r.choice(["out", "out", "out", "fmt", "basic"])
            s = text()
            e = dict(op=o, s=codes(s))
            n = len(s) // 21 + s.count("\n") + 4
            if o == "fmt":
                t = line()
                e["t"] = codes(t)
                n += len(t) // 21 + 4
            style = r.random()
            pool = " " if style < .3 else "\n" if style < .45 else "  \n\n\n?xyq\x03"[:r.choice([7, 9, 10, 11])]
            ops.append(dict(op="drain"))
            ops.append(dict(op="keys", s=codes("".join(r.choice(pool) for _ in range(n)))))
            ops.append(e)
            if r.random() < .3:
                ops.append(dict(op="status"))
        elif x < .82:
            ops.append(dict(op="reset"))
        elif x < .9:
            if r.random() < .6:
                width = r.choice([0, 10, 21, 22, 30, 40, 80])
            ops.append(dict(op="resize", h=r.choice([0, 2, 3, 5, 8, 24]), w=width))
        elif x < .93:
            ops.append(dict(op="paging", n=r.randint(0, 1)))
        elif x < .96:
            ops.append(dict(op="rows", n=r.choice([0, 2, 4, 7])))
        elif x < .98:
            width = r.choice([0, 15, 25, 33])
            ops.append(dict(op="width", n=width))
        else:
            ops.append(dict(op="other", s=codes(text())))
    return ops


CONF = {
    "C22": dict(drv="drv_out", trace="PageTrace", enc=enc_page, gen=gen_page, n=(1200, 12000)),
    "C17": dict(arg="buf", trace="BufTrace", enc=enc_buf, gen=gen_buf, n=(1200, 20000)),
    "C18": dict(arg="vec", trace="VecTrace", enc=enc_vec, gen=gen_vec, n=(1200, 8000)),
}


def mc_cfg(prop, tier):
    if prop == "C17":
        sizes = "{<<0,0,FALSE>>, <<1,0,FALSE>>, <<4,0,TRUE>>, <<3,2,FALSE>>, <<8,8,TRUE>>, <<0,5,TRUE>>}"
        return "MCBuf", ("SPECIFICATION Spec\nCONSTANTS\n Depth = %d\n Lens = {0,1,2,3,7}\nINVARIANTS IsConcatenation OtherUntouched Emit\n"
                         "CHECK_DEADLOCK FALSE\n" % (2 if tier == "quick" else 3)).replace("Depth", "Sizes <- TheSizes\n Depth")
    if prop == "C22":
        return "MCPage", ("SPECIFICATION Spec\nCONSTANTS\n Depth = %d\n Heights = %s\n Choices = %d\nINVARIANTS Complete PageFits Emit\n"
                          "PROPERTIES Quiet\nCHECK_DEADLOCK FALSE\n" % ((2, "{0, 2, 3, 4}", 3) if tier == "quick" else (3, "{2, 3, 4, 6}", 3)))
    return "MCVec", ("SPECIFICATION Spec\nCONSTANTS\n Depth = %d\nINVARIANTS Sound Emit\nCHECK_DEADLOCK FALSE\n" % (3 if tier == "quick" else 4))


def change(o):
    o["ret"] += 1
    return True


def check(rep, work, prop, tier, seed):
    c = CONF[prop]
    binary = vlib.driver(work, c.get("drv", "drv_mem"), True)
    args = [c["arg"]] if "arg" in c else []
    stats = collections.Counter()
    mod, cfg = mc_cfg(prop, tier)
    t, behs = steps.behaviours(work, mod, cfg, "mc")
    if not behs:
        raise vlib.CheckError("no behaviours from " + mod)
    steps.replay(rep, binary, args, c["enc"], behs, stats)
    states, trans = t.distinct, t.states
    ok, samples = 0, []
    if not rep.violations:
        total = c["n"][tier != "quick"]
        done = 0
        while done < total and not rep.violations:
            cnt = min(2400, total - done)
            ss = [(seed * 1000000 + done + k, c["gen"](seed * 1000000 + done + k)) for k in range(cnt)]
            st, k, sm = steps.check_random(rep, work, binary, args, c["trace"], c["enc"], ss, stats)
            states += st
            trans += st
            ok += k
            samples = samples or sm
            done += cnt
    self_ok = None
    if not rep.violations:
        res = steps.run_sessions(binary, args, [(0, c["gen"](seed))], c["enc"])
        self_ok = steps.falsified(work, c["trace"], res, change)
    rep.cov.update(states=states, transitions=trans, traces_validated_against_impl=ok + stats["behaviours replayed"],
                   samples=samples, distinct_nontrivial=len({str(b) for b in behs}) + ok, counts=dict(stats),
                   falsified_record_rejected=self_ok,
                   rule="all behaviours of %s up to its depth replayed; random sessions from the seed validated by %s; "
                        "each session or behaviour counts once" % (mod, c["trace"]))
    rep.assumptions += ["build with AddressSanitizer, gcc -O1; a crash or memory error is a violation"]
