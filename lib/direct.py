"""Directed sessions that enumerate: texts of blanks, quotes, escapes and comments; words at the bounds of every type."""
import itertools
import os, random
from dsl import v, w, choice, seq, alt, grp, opt, ref, st, session
from gencli import C, LIMITS
from twins import rng

CHUNK = 150


def chunks(name, trees, lines, opts=()):
    lines = [x for x in dict.fromkeys(lines)]
    return [("%s-%d" % (name, i // CHUNK), session(trees, *lines[i:i + CHUNK], opts=opts)) for i in range(0, len(lines), CHUNK)]


# ------------------------------------------------------------- splitting a line
def splits(tier, seed):
    r = random.Random("splits%d" % seed)
    nest = v("w5")
    for n in (4, 3, 2, 1):
        nest = seq(v("w%d" % n), opt(nest))
    words = [("t", [st(nest, "cb0")])]
    rest = [("t", [st(seq(w("x"), v("r", "rest")), "cb0"), st(seq(v("w1"), v("w2")), "cb1")])]
    A = 'a \t"\\#'
    texts = lambda n: ["".join(x) for x in itertools.product(A, repeat=n)]
    full = [x for n in range(1, 5 if tier == "quick" else 6) for x in texts(n)]
    long = ["".join(r.choice(A + "b ") for _ in range(n)) for n in (6, 7, 8, 10, 14) for _ in range(150 if tier == "quick" else 3000)]
    out = chunks("split", words, full + long, [("comment", 35)])
    out += chunks("splitnc", words, r.sample(full, 300 if tier == "quick" else 3000) + long[::3], [])
    out += chunks("rest", rest, ["x" + y for y in r.sample(full, 400 if tier == "quick" else 3000)] + ["x " + y for y in long[::2]], [("comment", 35)])
    return out


# ------------------------------------------------------------- words at the bounds of types
def ints(tier, seed):
    r = random.Random("ints%d" % seed)
    near = []
    for lo, hi in LIMITS.values():
        near += [lo - 1, lo, lo + 1, hi - 1, hi, hi + 1]
    near = sorted(set(near))
    ws = [str(n) for n in near]
    ws += ["+%d" % n for n in near if n > 0]
    ws += [("-" if n < 0 else "") + hex(abs(n)) for n in near] + [("-" if n < 0 else "") + "0%o" % abs(n) for n in near]
    ws += [str(n * k) for n in near for k in (10, 2, 1 << 32, 1 << 64) if abs(n) > 100]
    ws += ["+", "-", "0", "-0", "+0", "00", "08", "0x", "0xg", "0X1F", "1.", "1.0", "1e1", "--1", "+-1", "-+1", "1-", "1-2", "5-", "1_0", "1x",
           "x1", "0b1", '"5 "', '""', '"5"', "5\\", "99999999999999999999999999", "-99999999999999999999999999", "0xFFFFFFFFFFFFFFFFF", "1,0", "0x-5"]
    ws = list(dict.fromkeys(ws))
    out = []
    for t, (lo, hi) in LIMITS.items():
        out += chunks("int-" + t, [("t", [st(v("z", t), "cb0")])], ws)
        shapes = [rng((lo, hi)), rng((lo + 1, hi - 1)), rng((0, hi)), rng((hi, hi)), rng((lo, lo)), rng(hi), rng(0), rng((1, 5), (7, 9)), rng((7, 9), (1, 5)),
                  rng((5, 5), (lo, lo)), rng((1, 3), hi - 1), rng((3, 6), (5, 9)), rng(lo, (hi, hi))]
        for k, (a, x) in enumerate(shapes):
            pts = sorted({n + d for q in a["ranges"] for n in ([int(bytes(q["lo"]))] if q["haslo"] else []) + [int(bytes(q["hi"]))] for d in (-1, 0, 1)} | {0, 4, 6, 8, lo, hi})
            out += chunks("int-%s-r%d" % (t, k), [("t", [st(v("z", t, x, **a), "cb0")])], [str(n) for n in pts] + [r.choice(ws) for _ in range(4)])
    return out


def decimals(tier, seed):
    out = []
    for n in (1, 2, 9, 17, 18):
        def pt(x):
            s = "%0*d" % (n + 1, abs(x))
            return ("-" if x < 0 else "") + s[:-n] + "." + s[-n:]
        M = 2**63
        ws = [pt(x) for x in (M - 1, M, M + 1, -M, -M - 1, -M + 1, 0, 1, -1, 10**n, -10**n, 10**n - 1, M * 10, -M * 10, M // 10, 2**64, 2**64 + 1, 2 * M + 5)]
        ws += ["1", "-1", "+1", "0", "-0", "+0.0", "1.", ".1", "-.1", "+.1", ".", "-", "+", "-.", '""', "1.0", "1..0", "1.0.0", "1.x", "x.1", "1.-1", "--1.0", "1.+0",
               "0x1", "1e1", "00.5", "010.5", "1." + "0" * n, "1." + "0" * (n + 1), "1." + "9" * n, "1." + "9" * (n + 1), "0." + "0" * (n - 1) + "1", "-0." + "0" * (n - 1) + "1",
               "9" * 18, "9" * 19, "9" * 20, "1,5", "1 .5"]
        out += chunks("dec-%d" % n, [("t", [st(v("z", "decimal64", "fraction-digits:%d" % n, fd=n), "cb0")])], ws)
        for k, ps in enumerate(([("-1.5", "2.5")], [("0.0", "1.0"), ("3.0", "4.5")], ["2.5"], [("-0.5", "-0.1")], [("1.5", "1.5"), ("-2.0", "-1.0")])):
            a, x = rng(*ps)
            us = ["-1.6", "-1.5", "-1.4", "-2.0", "-2.1", "-1.0", "-0.9", "-0.6", "-0.5", "-0.1", "-0.0", "0.0", "0.1", "0.9", "1.0", "1.1", "1.4", "1.5", "1.6", "2.4", "2.5", "2.6",
                  "2.9", "3.0", "3.1", "4.5", "4.6", "1", "3", "100", "-100"]
            if n > 1:
                us += ["1.01", "0.99", "2.49", "2.51", "4.51", "2.99", "-0.09", "-0.51", "1.49", "1.51"]
            out += chunks("dec-%d-r%d" % (n, k), [("t", [st(v("z", "decimal64", "fraction-digits:%d %s" % (n, x), fd=n, **a), "cb0")])], us)
    return out


def texts(tier, seed):
    out = []
    lens = [(0, 0), (1, 1), (0, 3), (2, 5), 0, 4, 8]
    combos = [(x,) for x in lens] + [((1, 2), (5, 6)), ((5, 6), (1, 2)), (2, (7, 8)), ((3, 3), 1), ((0, 0), (4, 4), (8, 9))]
    ws = ['"' + "abcdefghijk"[:n] + '"' for n in range(12)] + ["abcdefghijk"[:n] for n in range(1, 12)] + ["a\\ b", '"a b"', "a\\\\b"]
    for k, c in enumerate(combos):
        a, x = rng(*c, key="length")
        out += chunks("len-%d" % k, [("t", [st(v("z", "string", x, **a), "cb0")])], ws)
    out += chunks("bool", [("t", [st(v("z", "bool"), "cb0")])],
                  [f(x) for x in ("true", "false", "on", "off", "enable", "disable", "yes", "no", "1", "0", "tru", "truee", "fals", "falsee", "o", "onn", "of", "offf",
                                  "enabled", "enabl", "disabled", "disabl", "t", "f", '""', "true\\ ", "null") for f in (str, str.upper, str.capitalize)])
    oct_ = ["0", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "260", "300", "999", "1000", "00", "01", "001", "a", "", "-1", "+1"]
    ips = [".".join("1" if j != i else o for j in range(4)) for i in range(4) for o in oct_]
    ips += ["1.2.3", "1.2.3.4.5", "1", "1.2", "1.2.3.4.", ".1.2.3.4", "1..2.3", "1,2,3,4", "0x1.2.3.4", "1.2.3.4x", "0.0.0.0", "255.255.255.255", "a.b.c.d", '""']
    out += chunks("ip4", [("t", [st(v("z", "ipv4addr"), "cb0")])], ips)
    masks = [str(n) for n in range(-1, 35)] + ["", "/", "08", "032", "0x20", "+8", "x", "8x", "1.5", "255.0.0.0", "99999999999", "4294967297"]
    out += chunks("ip4p", [("t", [st(v("z", "ipv4prefix"), "cb0")])], ["10.0.0.0/" + m for m in masks] + ["10.0.0.0", "10.0.0/8", "/8", "256.0.0.0/8", "10.1.2.3/8"])
    six = []
    for n in range(1, 10):
        g = ["1", "ab", "FFFF", "0", "10", "FE80", "0db8", "2", "3"][:n]
        six.append(":".join(g))
        for k in range(1, n + 1):
            six.append(":".join(g[:k]) + "::" + ":".join(g[k:]))
    six += ["1::2::3", "12345::", "g::", "1:2:3:4:5:6:7:8:", ":1:2", "1:::2", "1:2:3:4:5:6:7", "fe80::1%eth0", "1::x", "1:0:0:4:0:0:7:8", "1:0:0:0:5:0:0:8", "1:2:0:4:5:0:7:8",
            "1:0:3:0:0:0:7:8", "1:2:3:4:5:6:0:0", "1:2:3:4:5:6:7:0", "2001:DB8::00ff", "1::00000"]
    six = [x for x in six if not x.startswith(":")]
    out += chunks("ip6", [("t", [st(v("z", "ipv6addr"), "cb0")])], six)
    out += chunks("ip6p", [("t", [st(v("z", "ipv6prefix"), "cb0")])], ["fe80::/" + m for m in masks + ["64", "127", "128", "129", "256"]] + [x + "/64" for x in six[::5]] + ["fe80::", "1:2/64"])
    mac = "00:1a:2B:cd:Ef:9f"
    macs = [mac] + [mac[:i] + c + mac[i + 1:] for i in range(17) for c in "0gG:-"] + [mac[:i] + mac[i + 1:] for i in range(17)] + [mac + c for c in ":0"] + ["0:1:2:3:4:5", mac[:14], mac + ":00"]
    out += chunks("mac", [("t", [st(v("z", "macaddr"), "cb0")])], macs)
    uu = "01234567-89ab-CDEF-0123-456789abcdef"
    out += chunks("uuid", [("t", [st(v("z", "uuid"), "cb0")])], [uu] + [uu[:i] + c + uu[i + 1:] for i in range(36) for c in "0g-"] + [uu[:i] + uu[i + 1:] for i in range(36)] + [uu + "0", uu + "-"])
    ts = []
    for y, mo, d, h, mi, s in itertools.chain([("2020", "02", "03", "04", "05", "06")], *[
            [tuple(x if i == j else b for j, b in enumerate(("2020", "05", "03", "04", "05", "06"))) for x in xs]
            for i, xs in enumerate((["1970", "1999", "2037", "2099", "202", "abcd"], ["01", "12", "13", "00", "1", "x1"], ["01", "28", "31", "00", "32"], ["00", "23", "24"], ["00", "59", "60"], ["00", "59", "60", "6"]))]):
        ts.append("%s-%s-%sT%s:%s:%s" % (y, mo, d, h, mi, s))
    b = ts[0]
    ts += [b + x for x in (".1", ".12", ".123", ".1234", ".12345", ".123456", ".000001", ".100000", ".", ".x", "Z", ".5Z", ".123456Z", "z", "x")] + [b[:10], b[:16], b.replace("T", "t"), b.replace("T", "x"), '"%s"' % b.replace("T", " "), b.replace("-", "/")]
    out += chunks("time", [("t", [st(v("z", "time"), "cb0")])], ts)
    out += chunks("url", [("t", [st(v("z", "url"), "cb0")])],
                  ["http://h/p", "http://h/", "http://h", "http://", "http:/", "http:", "http", "://h/p", "//h/p", "a://b", "http://u@h/p", "http://u:p@h/p", "http://u:@h/p", "http://:p@h/p",
                   "http://@h/p", "http://u:p:q@h/p", "http://u@v@h/p", "http://h:80/p", "http://h/p/q", "http://h/p@q", "http://h//p", "file:///etc", "http://h?x", '""'])
    out += chunks("iface", [("t", [st(v("z", "interface"), "cb0")])], ["eth0", "lo", "a b", "eth0.1", '""', '"a b"', "e\\ f", "0"])
    return out


# ------------------------------------------------------------- every kind of word at every kind of place
EXS = [("set", "ex", 0, "q1\nq12\nq3\nr5", "first\nsecond"), ("set", "ex", 1, "\x01m", "")]
EXM = [dict(fn="ex0", mode="list", prefix="", vals=[C(x) for x in ("q1", "q12", "q3", "r5")], helps=[C("first"), C("second")]),
       dict(fn="ex1", mode="prefix", prefix=C("m"), vals=[], helps=[])]


def dyn(name, i, *args, tr=""):
    return v(name, "string", "ex%d(%s)%s" % (i, ",".join('"%s"' % a for a in args), " translate:%s()" % tr if tr else ""), fn="ex%d" % i, fname=C("ex%d" % i),
             fargs=[dict(t="string", s=C(a)) for a in args], **(dict(tr=tr) if tr else {}))


def kinds(n):
    """(what, expression, words): the n-th slot's words do not collide with another's keywords"""
    N = str(n)
    r1, x1 = rng((1, 5), (20, 30))
    return [("word", lambda: w("ab" + N), ["ab" + N, "a" + "b", "ab" + N + "x"]),
            ("choice", lambda: choice("c" + N, "north" + N, "nord" + N, "south" + N), ["north" + N, "nor", "so", "south" + N, "x", "n"]),
            ("help", lambda: v("h" + N, "string", 'choice:e%s|ee%s' % (N, N), choice=[C("e" + N), C("ee" + N)], ctext=C("e%s|ee%s" % (N, N))), ["e" + N, "e", "ee"]),
            ("string", lambda: v("s" + N), ["some", '"two words"', "a\\ b", "1"]),
            ("shown", lambda: v("s" + N, "string", 'show:"what%s"' % N, show=C("what" + N)), ["some", "1"]),
            ("int", lambda: v("i" + N, "int32", x1, **r1), ["1", "5", "0", "6", "20", "31", "x"]),
            ("uint8", lambda: v("u" + N, "uint8"), ["255", "256", "0x1f"]),
            ("bool", lambda: v("b" + N, "bool"), ["true", "off", "maybe"]),
            ("ip", lambda: v("p" + N, "ipv4addr"), ["1.2.3.4", "1.2.3"]),
            ("dec", lambda: v("d" + N, "decimal64", "fraction-digits:2", fd=2), ["1.5", "2", "1.555"]),
            ("dyn", lambda: dyn("y" + N, 0, "arg" + N), ["q1", "q12", "q", "r", "q3", "zz"]),
            ("dynp", lambda: dyn("y" + N, 1), ["base", "mbase", "m", "mx"]),
            ("tr", lambda: v("t" + N, "string", "translate:tr%d()" % (n % 2), tr="tr%d" % (n % 2)), ["word", "Wo"]),
            ("dyntr", lambda: dyn("y" + N, 0, tr="tr0"), ["q1", "t_q1", "q12", "r"])]


def cbs(n):
    return ("cb%d" % n, "arg%d" % n)


# name: (trees of the two expressions, text before the words, text between)
PLACES = {
    "top": lambda e, f: ([("t", [st(seq(e(), f()), cbs(0)), st(w("k"), cbs(1))])], ""),
    "below": lambda e, f: ([("t", [st(w("a"), cbs(1), sub=[st(e(), cbs(0), sub=[st(f(), cbs(2))])])])], "a "),
    "group": lambda e, f: ([("t", [st(seq(w("a"), grp(alt(e(), w("kk"))), f()), cbs(0))])], "a "),
    "option": lambda e, f: ([("t", [st(seq(w("a"), opt(e()), opt(f())), cbs(0))])], "a "),
    "between": lambda e, f: ([("t", [st(seq(w("a"), e(), w("k"), f(), w("l")), cbs(0))])], "a "),
    "ref": lambda e, f: ([("t", [st(w("a"), cbs(1), sub=[ref("u")])]), ("u", [st(seq(e(), f()), cbs(0)), st(w("k"), cbs(2))])], "a "),
    "reftop": lambda e, f: ([("t", [ref("u"), st(w("k"), cbs(2))]), ("u", [st(seq(e(), opt(f())), cbs(0))])], ""),
    "refcb": lambda e, f: ([("t", [st(w("a"), sub=[ref("u", ("cb5", "own"))], term=False)]), ("u", [st(e(), cbs(0), sub=[st(f(), cbs(1))])])], "a "),
    "refnest": lambda e, f: ([("t", [st(w("a"), sub=[ref("u")], term=False)]), ("u", [ref("v"), st(w("k"), cbs(2))]), ("v", [st(seq(e(), f()), cbs(0))])], "a "),
    "refdeep": lambda e, f: ([("t", [st(w("a"), sub=[ref("u")], term=False)]), ("u", [st(e(), cbs(1), sub=[ref("v")])]), ("v", [st(f(), cbs(0))])], "a "),
    "set": lambda e, f: ([("t", [st(w("a"), cbs(1), sub=[st(e(), cbs(0)), st(seq(w("kk"), f()), cbs(2))], set=True)])], "a "),
    "twice": lambda e, f: ([("t", [st(seq(w("a"), e()), cbs(0)), st(seq(w("b"), e(), f()), cbs(1)), st(seq(w("a"), e(), f()), cbs(2))])], "a "),
}


def grid(prop, tier, seed, count):
    r = random.Random("grid%s%d" % (prop, seed))
    E, F = kinds(1), kinds(2)
    cells = [(p, i, j) for p in PLACES for i in range(len(E)) for j in range(len(F))
             if not (p in ("top", "reftop") and E[i][0].startswith("dyn"))]
    if prop == "C25":
        cells = [c for c in cells if E[c[1]][0].startswith("dyn") or F[c[2]][0].startswith("dyn")]
    if tier == "quick" and len(cells) > count:
        # each kind at each place at least once; the second kind at random
        by = {}
        for c in cells:
            by.setdefault(c[:2], []).append(c)
        first = [r.choice(x) for x in by.values()]
        r.shuffle(first)
        cells = first[:count] + r.sample(cells, max(0, count - len(first)))
    out = []
    for p, i, j in cells:
        trees, pre = PLACES[p](E[i][1], F[j][1])
        ws, us = E[i][2], F[j][2]
        mid, end = (" k", " l") if p == "between" else ("", "")
        lines = [pre + x + mid + " " + y + end for x in ws for y in r.sample(us, min(len(us), 2))] + [pre + ws[0] + mid + " " + y + end for y in us]
        lines += [pre + x for x in ws] + [pre.strip() or "k", pre + "k", pre + "kk", pre + "kk " + us[0], pre + us[0]]
        if p == "set":
            lines += [pre + "kk " + us[0] + " " + ws[0], pre + ws[0] + " kk " + us[0], pre + ws[0] + " kk " + us[0] + " " + ws[0], pre + "kk " + us[0] + " kk " + us[0]]
        if p == "twice":
            lines += ["b " + ws[0], "b " + ws[0] + " " + us[0]]
        typed = [("type", pre + x + "\n") for x in ("?", "\t?", ws[0][:1] + "?\t", ws[0] + mid + " ?", ws[0] + mid + " " + us[0][:1] + "?\t?")]
        typed = [t for t in typed if '"' not in t[1] and "\\" not in t[1]]
        ls = [("eval", x) for x in dict.fromkeys(lines)] + typed
        ops = session(trees, *[x[1] if x[0] == "eval" else ("type", x[1].replace("\n", "") + "\n" if x[1].strip("?\t\n") else "~" + x[1]) for x in ls])
        if any(E[i][0].startswith("dyn") or F[j][0].startswith("dyn") for _ in (0,)):
            ops[1:1] = [(o, dict(k="ex", ex=m)) for o, m in zip(EXS, EXM)]
        out.append(("grid-%s-%s-%s" % (p, E[i][0], F[j][0]), ops))
    return out


# ------------------------------------------------------------- references that remove labels, at every level
def removals(tier, seed):
    out = []
    S = [(), ("l",), ("m",), ("l", "m")]
    for s1, s2, cb, how in itertools.product(S, S, (0, 1), ("below", "top", "deep", "both")):
        vt = [st(w("x"), cbs(1), labels=["l"]), st(w("y"), cbs(2), labels=["m"]), st(w("xy"), cbs(3), labels=["l", "m"]),
              st(w("k"), cbs(4), sub=[st(w("p"), cbs(5), labels=["l"]), st(w("q"), cbs(6), labels=["m"])])]
        at = (("cb5", "own"),) if cb else ()
        top = [st(w("z"), cbs(7), labels=["m"])]
        if how == "top":
            trees, pre = [("t", [ref("u", *at, rm=s2), st(w("a"), cbs(0))]), ("u", [ref("v", rm=s1)] + top), ("v", vt)], [""]
        elif how == "below":
            trees, pre = [("t", [st(w("a"), sub=[ref("u", *at, rm=s2)], term=False)]), ("u", [ref("v", rm=s1)] + top), ("v", vt)], ["a "]
        elif how == "deep":
            trees, pre = [("t", [st(w("a"), sub=[ref("u", *at, rm=s2)], term=False)]), ("u", [st(w("n"), cbs(6), labels=["n"], sub=[ref("v", rm=s1)])] + top), ("v", vt)], ["a ", "a n "]
        else:
            trees, pre = [("t", [st(w("a"), sub=[ref("v", *at, rm=s1)], term=False), st(w("b"), sub=[ref("v", rm=s2)], term=False), ref("v")]), ("v", vt)], ["a ", "b ", ""]
        uses = [q + x for q in pre for x in ("x", "y", "xy", "z", "k", "k p", "k q", "n")]
        uses += [("type", q + x + "~\n" if not (q + x).strip("?\t") else q + x + "\n") for q in pre for x in ("?", "\t", "k ?", "x?", "k \t")]
        out.append(("rm-%s-%s-%s-%d" % ("".join(s1), "".join(s2), how, cb), session(trees, *uses)))
    # trees that refer to themselves
    for s1, s2, cb in itertools.product(S, S[:3], (0, 1)):
        at = (("cb5", "own"),) if cb else ()
        ut = [st(w("x"), cbs(1), labels=["l"]), st(w("y"), cbs(2), labels=["m"]), st(w("n"), cbs(3), sub=[ref("u", *at, rm=s1)])]
        trees = [("t", [st(w("a"), sub=[ref("u", rm=s2)], term=False)]), ("u", ut)]
        uses = ["a " + "n " * d + x for d in range(4) for x in ("x", "y", "n")] + [("type", "a " + "n " * d + "?\t\n") for d in range(4)]
        out.append(("rmself-%s-%s-%d" % ("".join(s1), "".join(s2), cb), session(trees, *uses)))
    if tier == "quick":
        out = random.Random("rm%d" % seed).sample(out, 90)
    return out


def typing(k):
    """keys of one line: something must remain of it once trimmed"""
    k = k.replace("\n", "")
    t = k
    for x in "?\t\x01\x02\x05\x06 ":
        t = t.replace(x, "")
    return ("type", (k if t and t[0] not in "#!" else "~" + k) + "\n")


# ------------------------------------------------------------- completion at every place of a line
def completion(tier, seed):
    r = random.Random("completion%d" % seed)
    pool = ["a", "ab", "abc", "abcde", "abd", "b", "aB", "x-long-word"]
    out = []
    subs = [s for n in (1, 2, 3, 4) for s in itertools.combinations(pool, n)]
    for k, s in enumerate(subs if tier != "quick" else r.sample(subs, 40)):
        step = [0, 4, 1, 5][k % 4]
        var = [[], [st(v("z1", "int32"), cbs(6))], [st(choice("z2", "abq", "abr"), cbs(7))], [st(w("abhidden"), cbs(5), hide=True)]][(k // 4) % 4]
        below = [st(w("only"), cbs(1), sub=[st(w("child"), cbs(2))])]
        tree = [st(w(x), cbs(0), sub=below if j % 2 else None) for j, x in enumerate(s)] + var
        deep = [st(w("go"), sub=tree, term=False)]
        uses = []
        texts = ["", "a", "ab", "abc", "abcd", "x", "A", "abcde", "abh", "abq"]
        for pre in ("", "go "):
            for t in texts:
                uses.append(typing(pre + t + "\t" + r.choice(["", "\t", "?"])))
                uses.append(typing(pre + t + " \t"))
        for t in r.sample([x for x in texts if x], 6):
            for back in range(1, len(t) + 3):
                for tail in (" tail", "zz", ""):
                    if back <= len(t) + len(tail):
                        uses.append(typing("go " + t + tail + "\x02" * back + "\t" + r.choice(["", "Q", "\t", "\x05."])))
        uses = uses[:36] + r.sample(uses[36:], min(len(uses) - 36, 34 if tier == "quick" else 200)) if len(uses) > 36 else uses
        opts = [("tabmode", step)] if step else []
        if k % 5 == 3:
            opts.append(("delim", ord(r.choice(" .:"))))
        if k % 7 == 2:
            opts.append(("caseignore", 1))
        out.append(("completion-%s-%d" % ("-".join(s), k), session([("t", tree + deep)], *uses, opts=opts)))
    return out


# ------------------------------------------------------------- help texts at every width
def helps(tier, seed):
    r = random.Random("helps%d" % seed)
    out = []
    for k in range(60 if tier == "quick" else 900):
        width = r.choice([20, 21, 24, 30, 40, 57, 80, 81, 100])
        words, seen = [], set()
        for _ in range(r.randint(1, 6)):
            x = "".join(r.choice("abcdefgh") for _ in range(r.choice([1, 2, 3, 5, 8, 13, 18, 24, 40])))
            if x in seen:
                continue
            seen.add(x)
            hs = []
            for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
                n = max(1, max(21, width) - max(21, len(x) + 1) - 3 + r.choice([-1, 0, 1, 2])) if r.random() < .5 else r.choice([1, 3, 10, 20, 37, 56, 57, 58, 59, 60, 61, 76, 79, 80, 81, 100])
                hs.append(" ".join("".join(r.choice("mnopqrs") for _ in range(r.choice([1, 2, 4, 7, 20]))) for _ in range(100))[:n].strip() or "h")
            words.append((x, hs))
        tree = [st(w(x, *hs), cbs(0), sub=[st(w("sub", *(hs[:1])), cbs(1))] if r.random() < .3 else None) for x, hs in words]
        if len(words) > 1 and r.random() < .5:      # the same help twice
            tree.append(st(w("zz", *words[0][1]), cbs(2)))
        if r.random() < .4:
            tree.append(st(v("z1", "string"), cbs(3)))
        uses = [typing("?"), typing("\t")] + [typing(x[:r.randint(1, len(x))] + e) for x, _ in words for e in ("?", "\t", " ?", " \t")]
        opts = [("width", width)]
        if r.random() < .4:
            opts.append(("hlines", r.choice([1, 2, 3])))
        if k % 2:
            opts.append(("htrunc", 1))
        if r.random() < .4:
            opts.append(("lexicalorder", 1))
        if r.random() < .3:
            opts.append(("tabmode", 1))
        out.append(("helps-%d" % k, session([("t", tree)], *uses, opts=opts)))
    return out


# ------------------------------------------------------------- hidden at every level
def hidden(tier, seed):
    out = []
    for name, e, ws in (("word", lambda: w("abc"), ["abc", "ab", "a"]), ("same", lambda: w("abz"), ["abz", "ab", "abzz"]), ("var", lambda: v("n", "int32"), ["5", "x"]),
                        ("string", lambda: v("s"), ["text"]), ("choice", lambda: choice("c", "abx", "aby"), ["abx", "ab"])):
        for name2, e2 in (("none", None), ("word", lambda: w("abd")), ("words", lambda: grp(alt(w("abd"), w("abcd")))), ("var", lambda: v("m", "uint8"))):
            for shape in ("end", "block", "opt", "seq"):
                for where in ("top", "below", "ref", "reftop", "set", "deep"):
                    if shape == "end":
                        h = [st(e(), cbs(0), hide=True)]
                    elif shape == "block":
                        h = [st(e(), cbs(0), sub=[st(w("sub"), cbs(1)), st(w("suc"), cbs(2))], hide=True)]
                    elif shape == "opt":
                        h = [st(seq(e(), opt(w("sub"))), cbs(0), hide=True)]
                    else:
                        h = [st(seq(e(), w("sub")), cbs(0), hide=True)]
                    sib = [st(e2(), cbs(3))] if e2 else []
                    if where == "set" and shape in ("opt", "seq"):
                        continue
                    if where == "top":
                        trees, pre = [("t", h + sib)], ""
                    elif where == "below":
                        trees, pre = [("t", [st(w("go"), cbs(4), sub=h + sib)])], "go "
                    elif where == "set":
                        trees, pre = [("t", [st(w("go"), cbs(4), sub=h + sib, set=True)])], "go "
                    elif where == "ref":
                        trees, pre = [("t", [st(w("go"), cbs(4), sub=[ref("u")])]), ("u", h + sib)], "go "
                    elif where == "reftop":
                        trees, pre = [("t", [ref("u"), st(w("go"), cbs(4))]), ("u", h + sib)], ""
                    else:
                        trees, pre = [("t", [st(w("go"), cbs(4), sub=[ref("u")])]), ("u", [st(w("in"), cbs(5), sub=h + sib)])], "go in "
                    uses = [pre + x for x in ws + [ws[0] + " sub", ws[0] + " su", "abd", "abcd", "7"]]
                    uses += [typing(pre + x) for x in ("?", "\t", "a?", "ab\t", "ab?", "abc\t", ws[0] + "?", ws[0] + " ?", ws[0] + " \t", ws[0] + " s?", ws[0] + " su\t", pre.strip() and " ?" or "?")]
                    out.append(("hidden-%s-%s-%s-%s" % (name, name2, shape, where), session(trees, *uses)))
    if tier == "quick":
        out = random.Random("hidden%d" % seed).sample(out, 150)
    return out


# ------------------------------------------------------------- sets: elements of every kind, lines of every order
def elements(i):
    """elements of a set with names of their own: (statement, [texts])"""
    a, b, c = "abc"[i] + "a", "abc"[i] + "b", "abc"[i] + "c"
    return [(st(w(a), cbs(i)), [a]),
            (st(seq(w(a), v("x%d" % i, "int32")), cbs(i)), [a + " 5", a]),
            (st(w(a), cbs(i), sub=[st(w(b), cbs(4)), st(w(c), cbs(5))]), [a, a + " " + b, a + " " + c, a + " " + b + " " + c]),
            (st(w(a), sub=[st(w(b), cbs(4))], term=False), [a + " " + b, a]),
            (st(seq(w(a), opt(w(b))), cbs(i)), [a, a + " " + b]),
            (st(grp(alt(w(a), w(b))), cbs(i)), [a, b, a + " " + b]),
            (st(w(a), cbs(i), sub=[st(w(b), cbs(4)), st(w(c), cbs(5))], set=True), [a, a + " " + b, a + " " + c + " " + b, a + " " + b + " " + b]),
            (st(v("v%d" % i, ["int32", "ipv4addr", "bool"][i]), cbs(i)), [["5", "1.2.3.4", "true"][i], ["70000", "10.0.0.1", "off"][i]]),
            (st(choice("k%d" % i, a, b), cbs(i)), [a, b])]


def sets(tier, seed):
    r = random.Random("sets%d" % seed)
    n = len(elements(0))
    out = []
    for ks in (r.sample(list(itertools.product(range(n), repeat=3)), 60) if tier == "quick" else itertools.product(range(n), repeat=3)):
        es = [elements(i)[k] for i, k in enumerate(ks)]
        top = r.choice(["go", "ref", "block"])
        if top == "ref":
            trees = [("t", [st(w("go"), cbs(6), sub=[ref("u")])]), ("u", [st(w("in"), cbs(7), sub=[e[0] for e in es], set=True)])]
            pre = "go in"
        else:
            trees = [("t", [st(w("go"), *([cbs(6)] if top == "go" else []), sub=[e[0] for e in es], set=True, term=top == "go"), st(w("other"), cbs(7))])]
            pre = "go"
        lines = [pre]
        for m in (1, 2, 3, 4):
            orders = list(itertools.product(range(3), repeat=m))
            if m == 4:
                orders = r.sample(orders, 10)
            for o in orders:
                lines.append(" ".join([pre] + [r.choice(es[i][1]) for i in o]))
                if m == 3 and len(set(o)) == 3:
                    lines += [" ".join([pre] + [r.choice(es[i][1]) for i in o]) for _ in range(2)]
        lines += [pre + " " + x for e in es for x in e[1]]
        lines = list(dict.fromkeys(lines))
        r.shuffle(lines)
        uses = lines[:70]
        uses += [typing(" ".join([pre] + [r.choice(es[i][1]) for i in o]) + k) for o in ((), (0,), (1,), (2,), (0, 1), (2, 0), (1, 2, 0)) for k in (" ?", " \t")]
        out.append(("set-%s-%s" % ("-".join(map(str, ks)), top), session(trees, *uses)))
    return out


# ------------------------------------------------------------- walks over working points
def walks(tier, seed):
    out = []
    for k in range(24 if tier == "quick" else 400):
        r = random.Random("walk%d.%d" % (seed, k))

        def data(p):
            x = [st(w(p + "a"), cbs(2), sub=[st(w("k1"), cbs(3), sub=[st(w("k2"), cbs(4), sub=[st(w("k3"), cbs(5))]), st(v("n", "int32"), cbs(6), sub=[st(w("k4"), cbs(7))])]), st(w("l1"), cbs(3))]),
                 st(w(p + "b"), cbs(2), sub=[st(v("s", "string"), cbs(5), sub=[st(w("m1"), cbs(6)), st(w("m2"), cbs(7), sub=[st(w("m3"), cbs(0))])])]),
                 st(w(p + "c"), cbs(4))]
            r.shuffle(x)
            return x
        paths = {"": ["k1", "k1 k2", "k1 k2 k3", "k1 5", "k1 5 k4", "l1", "text", "text m2", "text m2 m3", "text m1", "m2", "m2 m3", "k2", "k3", "k2 k3", "5 k4", "k4", "nosuch"]}
        for p in "uv":
            paths[p] = [p + "a", p + "b", p + "c"] + [p + "a " + x for x in ("k1", "k1 k2", "k1 k2 k3", "k1 5", "k1 7 k4", "l1", "nosuch")] + [p + "b " + x for x in ("text", "text m2", "text m2 m3", "text m1")]
        main = []
        for p in "uv":
            main += [st(w("edit" + p), sub=[ref(p, ("wp_set", p))], term=False), st(w("up" + p), ("wp_up", p)), st(w("top" + p), ("wp_top", p)),
                     st(w("set" + p), cbs(1), sub=[ref(p, ("cb0", "own"))]), st(w("show" + p), sub=[ref(p, rm=["zzz"])], term=False)]
        trees = [("t", main), ("u", data("u")), ("v", data("v"))]
        uses = []
        for _ in range(26):
            p = r.choice("uuv")
            a = r.random()
            if a < .5:
                uses.append("edit" + p + " " + r.choice(paths[""] + paths[p] * 2))
            elif a < .78:
                uses.append("up" + p)
            elif a < .86:
                uses.append("top" + p)
            elif a < .93:
                uses.append(r.choice(["nosuch", "set" + p, "edit" + p, "up", "set" + p + " ?"]))
            else:
                uses.append(("active", "u"))
                uses.append(r.choice(["ua", "ua k1", "k1"]))
                uses.append(("active", "t"))
            for q in "uv":
                if q == p or r.random() < .4:
                    uses.append(typing(r.choice(["set", "edit", "show"]) + q + " ?"))
                uses.append(r.choice(["set", "show"]) + q + " " + r.choice(paths[""] + paths[q]))
        out.append(("walk-%d" % k, session(trees, *uses)))
    return out


# ------------------------------------------------------------- aliases: names and commands in every relation
def aliases(tier, seed):
    out = []
    for k in range(60 if tier == "quick" else 1000):
        r = random.Random("alias%d.%d" % (seed, k))
        trees = [("t", [st(w("show"), cbs(0), sub=[st(w("ip"), cbs(1), sub=[st(v("n", "int32"), cbs(2))]), st(w("all"), cbs(3))]), st(w("shut"), cbs(4)), st(w("set"), sub=[st(v("x", "string"), cbs(5))], term=False)]
                  + ([st(v("any", "string"), cbs(6))] if r.random() < .3 else [])), ("u", [st(w("show"), cbs(7)), st(w("only"), cbs(1))])]
        names = ["show", "sh", "shu", "q", "qu", "quit", "QUIT", "showing", "any", "x"]
        lines = ["show", "show ip", "show ip 5", "show ip x", "show all", "sh", "sho a", "shut", "set value", "set", "set two words", "nosuch", "only", "show ip 5 6", "s"]
        ops = session(trees, opts=[("uh", 0)] + ([("caseignore", 1)] if r.random() < .1 else []))
        added, tree = [], "t"
        for _ in range(10):
            if r.random() < .15:
                tree = r.choice("tu")
                ops.append((("active", tree), dict(tree=tree)))
            n = r.choice(names + added * 3)
            # an alias may not lead back to itself: the code would run it for ever
            heads = {"show": ("set", "shut"), "showing": ("show", "set", "shut"), "any": ("show", "set", "shut"), "x": ("show", "set", "shut")}.get(n, ("show", "sho", "set", "shut"))
            pick = [x for x in lines if x.split()[0] in heads]
            l = r.choice(pick)
            t = r.choice(["-", "-", "t", "u"])
            h = r.choice(["-", "help text"])
            cb = r.choice([-1, -1, -1, 0, 1])
            ops.append((tuple(["alias", t, n, h, l] + ([cb] if cb >= 0 else [])),
                        dict(alias=dict(tree="" if t == "-" else t, name=C(n), help=[C(h)] if h != "-" else [], cmd=C(l), fn="alias" if cb < 0 else "al%d" % cb))))
            if n not in added:
                added.append(n)
            for x in r.sample(names, 4) + [n, r.choice(lines), n + " 5"]:
                ops.append((("eval", x), dict(line=C(x))))
            for x in r.sample(["?", n + "?", n[:1] + "\t", "s?", "q\t"], 2):
                ops.append((typing(x), {}))
        out.append(("alias-%d" % k, ops))
    return out


# ------------------------------------------------------------- histories: all sequences of a few lines and moves
def histories(tier, seed):
    r = random.Random("histories%d" % seed)
    P, N = "\x10", "\x0e"
    alphabet = ["a", "b", "c", P, P + P, P + P + P, N, P + N, P + P + N, P + P + P + P + N + N, "x" + P, P + "b", P + N + "c", P + P + "\x01\x0b" + "a", " a", "a ", "# a", "", "\x12a", P + "\x12b"]
    seqs = [(c, q) for c in (1, 2, 3, 4) for q in itertools.product(range(len(alphabet)), repeat=3)]
    seqs = r.sample(seqs, 1400 if tier == "quick" else 24000) + [(c, tuple(r.randrange(len(alphabet)) for _ in range(8))) for c in (1, 2, 3, 5, 20) for _ in range(20 if tier == "quick" else 300)]
    out = []
    for k in range(0, len(seqs), 40):
        ops = session([("t", [st(v("s", "rest"), cbs(0))])], opts=[("comment", 35)] if k % 3 == 0 else ())
        for c, q in seqs[k:k + 40]:
            ops.append((("set", "hist", c), dict(k="hist", v=c)))
            for i in q:
                a = alphabet[i]
                # a line that stays empty is followed by one that is not
                ops.append((("type", a + ("\n" if a in "abc" else "\nd\n")), {}))
            ops.append((("type", P * r.randint(0, c + 1) + N * r.randint(0, 2) + "\nz\n"), {}))
            if r.random() < .3:
                ops.append((("histsave",), {}))
        out.append(("histories-%d" % (k // 40), ops))
    return out


def longlines(tier, seed):
    """long lines saved, loaded and recalled"""
    out = []
    for n in (128, 256, 1023, 1025, 3000) + ((2047, 2048, 2049, 4095, 4097) if tier != "quick" else ()):
        l = ("%d " % n + "abcdefghij" * 500)[:n]
        ops = session([("t", [st(v("s", "rest"), cbs(0))])])
        ops += [(("set", "hist", 5), dict(k="hist", v=5)), (("histload", "a\n%s\nb\n" % l), {}), (("histsave",), {})]
        if n <= 256:
            ops += [(("type", "\x10\x10\n"), {}), (("histsave",), {}), (("type", "\x10\x10\x10x\n"), {}), (("histsave",), {})]
        out.append(("longlines-%d" % n, ops))
    return out


# ------------------------------------------------------------- pipes: who prints, how much, what reads it, and how it ends
def pipes(tier, seed):
    r = random.Random("pipes%d" % seed)
    tag = "0123456789abcdefghijklmnopqrstuvwxyz" * 6
    long = lambda n: ("%d " % n + "the quick brown fox, " * 1000)[:n - 1]
    prints = [("none", ["cb0"]), ("one", [("out0", "one line")]), ("two", [("out0", "first", "second of line 2")]), ("many", [("out1", "30", "abc")]),
              ("wide", [("out1", "40", tag)]), ("then", [("out0", "first"), ("out0", "second")]), ("mixed", ["cb0", ("out1", "3", "x"), "cb1", ("out0", "last")])]
    prints += [("long%d" % n, [("out0", long(n))]) for n in (255, 256, 1023, 1025, 4095, 4096, 4097, 5000) + ((8191, 8193, 12000) if tier != "quick" else ())]
    prints += [("longs", [("out0", long(2000)), ("out0", long(2500), "x"), ("out1", "5", "y")])]
    reads = [("up", "pf0"), ("pre", ("pf1", "> ")), ("none", "pf2"), ("head", ("pf3", "1")), ("cnt", "pf4")]
    out = []
    for name, cbs in prints:
        for shape in ("ref", "default", "top", "below", "optional", "var"):
            if tier == "quick" and name.startswith("long") and shape not in ("ref", "default"):
                continue
            P = ("|p", [st(w("\\|"), sub=[st(w(n), f) for n, f in reads] + [st(seq(w("grep"), v("z", "string")), "pf5")], term=False)])
            P[1][0][0]["e"]["name"] = C("|")
            pre = "abc"
            if shape == "ref":
                t = ("t", [st(w("abc"), *cbs, sub=[ref("|p")])])
            elif shape == "default":
                t = ("t", [st(w("abc"), *cbs)], "|p")
            elif shape == "top":
                t = ("t", [st(w("abc"), sub=[ref("u")], term=False)], "|p")
            elif shape == "below":
                t = ("t", [st(w("abc"), *cbs, sub=[st(w("d"), "cb2"), ref("|p")])])
            elif shape == "optional":
                t = ("t", [st(seq(w("abc"), opt(w("d"))), *cbs, sub=[ref("|p")])])
            else:
                t = ("t", [st(seq(w("abc"), v("n", "int32")), *cbs)], "|p")
                pre = "abc 5"
            trees = [t, P] + ([("u", [st(w("d"), *cbs)])] if shape == "top" else [])
            if shape == "top":
                pre = "abc d"
            ops = session(trees)
            lines = [pre] + [pre + " | " + n for n, _ in reads] + [pre + " | grep " + x for x in ("line", "x", "nowhere", "1")] + [pre + " |", pre + " | nosuch", pre + " d | up", "abc | cnt", "| up", pre + " | up | cnt"]
            fns = sorted({{"out1": 8, "out0": 9}.get(c if isinstance(c, str) else c[0], -1) for c in cbs} - {-1}) + [0]
            for rep in range(2):
                for l in lines if not rep else r.sample(lines, 4):
                    ops.append((("eval", l), dict(line=C(l))))
                f = r.choice(fns)
                if not rep:
                    ops.append((("set", "cbret", f, -1), dict(k="cbret", i=f, v=-1)))
            out.append(("pipes-%s-%s" % (name, shape), ops))
    return out


GRID = {"C01": 60, "C02": 50, "C03": 168, "C04": 60, "C06": 60, "C05": 50, "C09": 60, "C19": 60, "C25": 120, "C11": 50}


ONLY = os.environ.get('DIRECT_ONLY')     # one enumeration, for development
MORE = {"C05": [completion], "C06": [helps], "C07": [hidden], "C08": [sets], "C09": [removals], "C10": [walks], "C12": [histories, longlines], "C21": [pipes],
        "C15": [splits], "C16": [ints, decimals, texts], "C26": [aliases]}


def sessions(prop, tier, seed):
    out = []
    for f in MORE.get(prop, []):
        if ONLY and f.__name__ != ONLY:
            continue
        out += f(tier, seed)
    if prop in GRID and not ONLY:
        out += grid(prop, tier, seed, GRID[prop])
    return out
