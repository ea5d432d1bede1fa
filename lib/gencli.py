"""Generator of sessions for the command interpreter: random specifications with
their structure (for the TLA+ specification) and text (for the code), and uses of
them.  The seed and a profile decide everything."""
import random, re
from vlib import codes

C = codes
PRINTF = {"cb": 8}


def mkvar(name, t, **k):
    v = dict(name=C(name), t=t, show=[], ranges=[], choice=[], regex=[], fd=0, fn="", fname=[],
             fargs=[], pref=0, ctext=[], rtext=[], tr="")
    v.update(k)
    return v


# ------------------------------------------------------------------ profiles
BASE = dict(
    words=None, nstmt=(2, 5), depth=3, comps=(1, 3),
    p_opt=.12, p_grp=.18, p_alt=.7, p_var=.3, p_block=.35, p_set=0.0, p_term=.5, p_hide=.0, p_label=0.0,
    p_ref=0.0, p_dyn=0.0, p_choice=.06, p_trans=.04, p_odd=.35, p_help=.3, p_cb=.9, p_cb2=.12, p_args=.4, p_merge=.45,
    maxpos=140, ntrees=(1, 1), vtypes=None, p_pref=.05, p_range=.5, caseignore=.12, lexical=.1, prefmode=.12,
    exkeys=.1, exfirst=.1, ops=14, w_eval=8, w_type=3, w_evalin=0, w_alias=0, w_trees=0, w_active=0,
    w_cbret=.5, p_help_key=.5, p_tab_key=.5, comment=.0, p_good=.6, tabmode=0.0, hlines=0.0, wp=0.0,
    pipes=0.0, p_rest=.05, p_quote=.08, p_escape=.03, p_refcb=.3, p_rm=.0, p_fail=0.0, uh=1, p_names=.3, p_same=.12)

PROFILES = {
    "C01": dict(ntrees=(1, 2), p_ref=.06, p_set=.06, p_var=.35, caseignore=.25, p_opt=.15, ops=24, w_type=1, prefmode=.0),
    "C02": dict(p_opt=.3, p_grp=.35, p_var=.15, p_block=.45, p_merge=.75, nstmt=(2, 4), depth=3, ops=30, w_type=1,
                words=["a", "b", "c", "d", "aa", "ab"], prefmode=0, p_cb=1.0),
    "C03": dict(p_trans=.15, ntrees=(1, 3), p_ref=.12, p_set=.08, p_var=.55, exkeys=.35, exfirst=.35, p_quote=.25, p_escape=.12, p_rest=.2, w_type=0, ops=22, p_good=.85),
    "C04": dict(ntrees=(1, 2), p_ref=.1, p_set=.08, p_cb=1.0, p_cb2=.6, p_args=.7, w_cbret=2, w_type=1, ops=22, p_merge=.7, p_opt=.25, p_good=.8),
    "C05": dict(ntrees=(1, 2), p_ref=.08, p_set=.08, p_hide=.05, w_type=10, w_eval=1, p_tab_key=1.0, p_help_key=.1, tabmode=.3, caseignore=.3, p_choice=.12, p_help=.1,
                words=["abcdef", "abcdeg", "abc", "ab", "show", "shutdown", "shutoff", "s1", "s10", "x", "AbcD"]),
    "C06": dict(ntrees=(1, 2), p_ref=.08, p_set=.08, p_hide=.05, w_type=10, w_eval=1, p_help_key=1.0, p_tab_key=.3, p_help=.8, hlines=.2, tabmode=.2, p_choice=.12),
    "C07": dict(ntrees=(1, 2), p_ref=.15, p_hide=.35, w_type=6, w_eval=6, p_help_key=.8, p_tab_key=.6),
    "C08": dict(p_set=.85, p_block=.75, depth=3, p_var=.12, w_eval=12, w_type=3, ops=26, p_opt=.08, p_grp=.1, p_hide=.05),
    "C09": dict(ntrees=(2, 4), p_ref=.3, p_label=.3, p_rm=.35, p_refcb=.4, w_type=4, ops=24, p_hide=.05, p_set=.08),
    "C10": dict(wp=1.0, w_type=3, ops=26, ntrees=(1, 1), p_good=.9),
    "C11": dict(p_var=.75, p_pref=.25, prefmode=.7, p_merge=.5, w_type=1, ops=26, p_range=.3, p_good=.9, p_rest=.1),
    "C15": dict(comment=.5, p_quote=.4, p_escape=.3, p_var=.5, p_rest=.2, w_type=2, ops=26),
    "C16": dict(p_var=1.0, nstmt=(3, 5), depth=1, p_range=.75, ops=46, w_type=0, p_opt=.0, p_grp=0, p_block=0, p_merge=0,
                p_choice=.02, p_pref=0.0),
    "C19": dict(ntrees=(1, 3), p_ref=.15, p_set=.25, p_hide=.1, p_dyn=.15, p_label=.1, p_rm=.2, w_type=8, w_eval=8, ops=30,
                p_choice=.12, p_quote=.1, wp=.1),
    "C20": dict(p_names=.7, ntrees=(1, 3), w_trees=3, w_active=4, w_evalin=3, w_eval=5, w_type=3, ops=26, p_ref=.08),
    "C21": dict(pipes=1.0, p_ref=.35, p_help=.1, p_var=.2, ops=22, w_type=2, w_eval=12, p_good=.9, w_cbret=.8),
    "C25": dict(p_trans=.15, p_dyn=.45, p_var=.3, w_type=7, w_eval=9, p_help_key=.7, p_tab_key=.7, ops=22, ntrees=(1, 2), p_ref=.1),
    "C26": dict(w_alias=5, w_eval=9, w_type=3, w_trees=0, w_active=.6, ops=26, ntrees=(1, 2), uh=0),
}
WORDS = ["a", "ab", "abc", "abd", "b", "ba", "show", "shut", "x1", "x10", "x2", "c", "d", "deb", "default"]
ODD = ["Show", "SHOW", "aB", "AB", "Abc", "shoW", "show-all", "a.b", "x_1", "10", "9", "a/b", "a;b", "a=b", "b{c", "<a>", "a|b", "a,b",
       "a@b", "a:b", "#a", "\xc3\xa9", "\xc3\xa9t\xc3\xa9", "x(1)", "[a]", "-", "+", "a'b", "abcdefghijklmnopqrstuvwxyz0123456789"]
ALLTYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "decimal64", "bool", "string",
            "string", "string", "ipv4addr", "ipv4prefix", "ipv6addr", "ipv6prefix", "macaddr", "url", "uuid", "time",
            "interface"]
LIMITS = {"int8": (-128, 127), "int16": (-32768, 32767), "int32": (-2**31, 2**31 - 1), "int64": (-2**63, 2**63 - 1),
          "uint8": (0, 255), "uint16": (0, 65535), "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1)}


def escape(w):
    return "".join("\\" + c if c in "@ \t,#=;\\<()[]|{}" else c for c in w)


def positions(stmts):
    """number of positions of the statements written out (merged by keyword and by variable)"""
    nodes = [{}]

    def walk(e, at):
        k = e["k"]
        if k in ("cmd", "var", "ref"):
            key = (k, repr(e.get("name") or e.get("var") or e.get("tree")))
            res = []
            for a in at:
                if key not in nodes[a]:
                    nodes.append({})
                    nodes[a][key] = len(nodes) - 1
                if nodes[a][key] not in res:
                    res.append(nodes[a][key])
            return res
        if k == "seq":
            return walk(e["b"], walk(e["a"], at))
        if k == "alt":
            return list(dict.fromkeys(walk(e["a"], at) + walk(e["b"], at)))
        if k == "opt":
            return list(dict.fromkeys(at + walk(e["a"], at)))
        return walk(e["a"], at)

    def block(ss, at):
        for st in ss:
            if len(nodes) > 5000:
                return
            block(st["sub"], walk(st["e"], at))
    block(stmts, [0])
    return len(nodes)


def empty(e):
    k = e["k"]
    if k == "opt":
        return True
    if k == "seq":
        return empty(e["a"]) and empty(e["b"])
    if k == "alt":
        return empty(e["a"]) or empty(e["b"])
    return k == "grp" and empty(e["a"])


def toprefs(stmts):
    """names of the trees referred to at the first position"""
    out = set()
    for st in stmts:
        if st["e"]["k"] == "ref":
            out.add(st["e"]["tree"])
        elif empty(st["e"]):
            out |= toprefs(st["sub"])
    return out


class Tree:
    def __init__(self, name, text=None):
        self.name, self.text, self.stmts, self.pipe = name, text or name, [], False


class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = dict(BASE)
        self.p.update(PROFILES.get(prof, {}))
        self.prof = prof
        self.ops = []
        self.trees = []
        self.exn = 0
        self.exs = {}
        self.vn = 0
        self.curpool = None
        self.rmsets = {}
        self.tops = {}
        self.refd = {}

    def ch(self, p):
        return self.r.random() < p

    # -------------------------------------------------------------- variables
    def num(self, lo, hi):
        r = self.r
        k = r.random()
        if k < .25:
            return r.choice([lo, hi, lo - 1, hi + 1, lo + 1, hi - 1])
        if k < .5:
            b = r.choice([7, 8, 15, 16, 31, 32, 63, 64])
            return r.choice([1, -1]) * (2 ** b) + r.choice([-1, 0, 1])
        return r.randint(-20, 300)

    def numtext(self, n):
        r = self.r
        k = r.random()
        s = "-" if n < 0 else ("+" if r.random() < .05 else "")
        a = abs(n)
        if k < .1:
            return s + hex(a)
        if k < .15:
            return s + "0" + oct(a)[2:]
        if k < .18:
            return s + "0x" + ("%X" % a)
        return s + str(a)

    def regex(self, d=0):
        r = self.r
        k = r.random()
        if d > 2 or k < .3:
            c = r.choice("abc01")
            return dict(k="lit", c=ord(c)), c
        if k < .42:
            rs = r.choice([[("a", "c")], [("0", "9")], [("a", "b"), ("0", "1")]])
            neg = r.random() < .2
            return (dict(k="cls", neg=neg, rs=[[ord(x), ord(y)] for x, y in rs]),
                    "[" + ("^" if neg else "") + "".join(x + "-" + y for x, y in rs) + "]")
        if k < .47:
            return dict(k="any"), "."
        if k < .72:
            es = [self.regex(d + 1) for _ in range(r.randint(2, 3))]
            return dict(k="cat", es=[e[0] for e in es]), "".join(e[1] for e in es)
        if k < .82:
            es = [self.regex(d + 1) for _ in range(2)]
            return dict(k="alt", es=[e[0] for e in es]), "(" + "|".join(e[1] for e in es) + ")"
        e = self.regex(d + 1)
        op = r.choice(["opt", "star", "plus"])
        return dict(k=op, e=e[0]), "(" + e[1] + ")" + {"opt": "?", "star": "*", "plus": "+"}[op]

    def var(self, ctx, types=None):
        """returns (var, spectext, sampler) – sampler gives a word of interest"""
        r, p = self.r, self.p
        self.vn += 1
        name = "z%s" % r.choice(["", "1", "2", "n"]) if self.ch(.5) else "z%d" % self.vn
        if self.ch(p["p_dyn"]) and ctx.get("below"):
            return self.dynvar(name, ctx)
        if self.anynames:
            # any name, that of a keyword that may stand here too: only where the order of help does not matter
            name = r.choice([x for x in ctx.get("pool") or () if re.fullmatch("[a-z0-9]+", x)] + list("abcdmsx")) + r.choice(["", "", "1", "b"])
        if self.ch(p["p_choice"]):
            pre = "p" + chr(97 + self.vn % 26) + chr(97 + self.vn // 26 % 26)
            ws = [pre + x for x in r.sample(["ine", "in", "ear", "lum", "each", "1", "10"], r.randint(1, 3))]
            txt = "|".join(ws)
            t = "string"
            v = mkvar(name, t, choice=[C(w) for w in ws], ctext=C(txt))
            return v, "<%s:%s%s choice:%s>" % (name, t, self.trans(v), txt), lambda: r.choice(ws)
        types = types or p["vtypes"] or ctx.get("types") or ALLTYPES
        t = r.choice(types)
        if self.ch(p["p_rest"]) and ctx.get("last"):
            t = "rest"
        v = mkvar(name, t)
        txt = "<%s:%s" % (name, t)
        samp = None
        if t in LIMITS:
            lo, hi = LIMITS[t]
            pts = []
            if self.ch(p["p_range"]):
                for _ in range(r.choice([1, 1, 2, 3])):
                    if self.ch(.25):
                        b = max(lo, min(hi, self.num(lo, hi)))
                        v["ranges"].append(dict(haslo=False, lo=C("0"), hi=C(str(b))))
                        txt += " range[%d]" % b
                        pts += [b]
                    else:
                        a, b = sorted(max(lo, min(hi, self.num(lo, hi))) for _ in range(2))
                        v["ranges"].append(dict(haslo=True, lo=C(str(a)), hi=C(str(b))))
                        txt += " range[%d:%d]" % (a, b)
                        pts += [a, b]

            def samp():
                if pts and r.random() < .7:
                    n = r.choice(pts) + r.choice([-1, 0, 0, 0, 1])
                elif r.random() < .5:
                    n = max(lo, min(hi, r.randint(-20, 300)))
                else:
                    n = self.num(lo, hi)
                s = self.numtext(n)
                if r.random() < .04:
                    s += r.choice(["x", ".", "9", "-", "a0"])
                return s
        elif t == "decimal64":
            fd = r.randint(1, 18) if self.ch(.4) else r.choice([1, 2, 3])
            v["fd"] = fd
            txt += " fraction-digits:%d" % fd
            pts = []
            if self.ch(p["p_range"]):
                for _ in range(r.choice([1, 1, 2])):
                    if fd > 15:
                        a, b = sorted(r.randint(-800, 800) for _ in range(2))
                        a, b = "%s%d.%02d" % ("-" if a < 0 else "", abs(a) // 100, abs(a) % 100), "%s%d.%02d" % ("-" if b < 0 else "", abs(b) // 100, abs(b) % 100)
                    else:
                        a, b = sorted(r.randint(-3000, 3000) for _ in range(2))
                        a, b = "%s%d.%d" % ("-" if a < 0 else "", abs(a) // 10, abs(a) % 10), "%s%d.%d" % ("-" if b < 0 else "", abs(b) // 10, abs(b) % 10)
                    v["ranges"].append(dict(haslo=True, lo=C(a), hi=C(b)))
                    txt += " range[%s:%s]" % (a, b)
                    pts += [a, b]

            def samp():
                k = r.random()
                if pts and k < .4:
                    s = r.choice(pts)
                    if r.random() < .5:
                        s = s[:-1] + r.choice("0123456789")
                    if r.random() < .3:
                        s += "0" * r.randint(0, 2)
                    return s
                if k < .5:
                    big = r.choice([9223372036854775807, 9223372036854775808, 9223372036854775806, 99999999999999999999])
                    d = str(big)
                    return r.choice(["", "-"]) + d[:-fd] + "." + d[-fd:]
                s = r.choice(["", "", "-", "+"]) + str(r.randint(0, 120))
                if r.random() < .7:
                    s += "." + "".join(r.choice("0123456789") for _ in range(r.randint(0 if r.random() < .1 else 1, fd + (1 if r.random() < .2 else 0))))
                if r.random() < .05:
                    s += r.choice("x.-")
                return s
        elif t == "bool":
            def samp():
                return r.choice(["true", "false", "true", "false", "tru", "True", "on", "off", "enable", "disable", "1", "falsee"])
        elif t in ("string", "rest"):
            pats = []
            if self.ch(.2) and t == "string":
                for _ in range(r.choice([1, 1, 2])):
                    a, s = self.regex()
                    inv = self.ch(.2)
                    v["regex"].append(dict(inv=inv, re=a, txt=C(s)))
                    txt += ' regexp:%s"%s"' % ("!" if inv else "", s)
                    pats.append(s)
            pts = []
            if self.ch(p["p_range"] * .5) and t == "string":
                for _ in range(r.choice([1, 1, 2])):
                    a, b = sorted(r.randint(0, 8) for _ in range(2))
                    if self.ch(.2):
                        v["ranges"].append(dict(haslo=False, lo=C("0"), hi=C(str(b))))
                        txt += " length[%d]" % b
                    else:
                        v["ranges"].append(dict(haslo=True, lo=C(str(a)), hi=C(str(b))))
                        txt += " length[%d:%d]" % (a, b)
                    pts += [a, b]

            def samp():
                if pats and r.random() < .7:
                    s = pats[0]
                    return "".join(r.choice("abc01") for _ in range(r.randint(1, 4))) if r.random() < .6 else "".join(c for c in s if c in "abc01") or "a"
                if pts and r.random() < .8:
                    n = max(0, r.choice(pts) + r.choice([-1, 0, 0, 1]))
                else:
                    n = r.randint(1, 6)
                s = "".join(r.choice("abxyz019") for _ in range(n))
                if r.random() < p["p_quote"] or s == "":
                    k = (len(s) + 1) // 2
                    s = '"' + s[:k] + (r.choice(["", " ", "  ", ";", "\\"]) if s else "") + s[k:] + '"'
                elif r.random() < p["p_escape"]:
                    s = s[:1] + "\\" + r.choice([" ", "x", "\\", '"', "#"]) + s[1:]
                if t == "rest" and r.random() < .6:
                    s += " " + r.choice(["more words", "a", 'q "x y"', "  z"])
                return s
        elif t == "interface":
            def samp():
                return r.choice(["eth0", "lo", "wlan0.1"])
        elif t == "ipv4addr":
            def samp():
                o = [r.choice(["0", "1", "255", "10", "127"]) for _ in range(4)]
                if r.random() < .15:
                    o[r.randrange(4)] = r.choice(["256", "01", "", "x", "1000"])
                if r.random() < .06:
                    o.append("1")
                return ".".join(o)
        elif t == "ipv4prefix":
            def samp():
                return ".".join(r.choice(["0", "1", "255", "10"]) for _ in range(4)) + r.choice(["/0", "/8", "/32", "/33", "/24", "", "/x", "/-1"])
        elif t in ("ipv6addr", "ipv6prefix"):
            def samp():
                n = r.randint(1, 8)
                g = ["%x" % r.choice([1, 0xab, 0xffff, 0x10, 0xFE80]) for _ in range(n)]
                if n < 8:
                    k = r.randint(1, n)
                    s = ":".join(g[:k]) + "::" + ":".join(g[k:])
                else:
                    s = ":".join(g)
                if r.random() < .1:
                    s = r.choice([s + ":", "12345::1", "g::1", "1::2::3", "1:2:3:4:5:6:7", s.upper()])
                if t == "ipv6prefix":
                    s += r.choice(["/0", "/64", "/128", "/129", "", "/q"])
                return s
        elif t == "macaddr":
            def samp():
                s = ":".join("%02x" % r.randrange(256) for _ in range(r.choice([6, 6, 6, 6, 5, 7])))
                return s.upper() if r.random() < .2 else (s[:-1] + "g" if r.random() < .1 else s)
        elif t == "uuid":
            def samp():
                h = "%032x" % r.getrandbits(128)
                s = "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
                return s if r.random() < .8 else r.choice([s[:-1], s[:9] + "z" + s[10:], s.upper()])
        elif t == "url":
            def samp():
                return r.choice(["http://a.b/c", "http://u:p@h/x", "http://u@h/", "https://h", "ftp:/x", "http//x", "a://b/c/d"])
        elif t == "time":
            def samp():
                return r.choice(["2024-02-03T04:05:06", "2024-12-31T23:59:59.123456Z", "1999-01-01T00:00:00.5", "2024-13-01T00:00:00",
                                 "2024-01-01T24:00:00", "2024-01-01", "2024-01-01T00:00:0", "2024-01-01T00:00:00Z"])
        if self.ch(p["p_pref"]):
            v["pref"] = r.choice([1, 4, 6, 30, 50, 90, 100, 120])
            txt += " preference:%d" % v["pref"]
        if t in ("string", "rest"):
            txt += self.trans(v)
        if self.ch(.06):
            v["show"] = C("zshow%d" % self.vn)
            txt += ' show:"zshow%d"' % self.vn
        return v, txt + ">", samp

    def trans(self, v):
        if not self.ch(self.p["p_trans"]):
            return ""
        v["tr"] = self.r.choice(["tr0", "tr1"])
        return " translate:%s()" % v["tr"]

    def dynvar(self, name, ctx):
        r = self.r
        if self.exn < 9 and (self.exn == 0 or self.ch(.75)):
            i = self.exn
            self.exn += 1
            n = i + 1
            if self.ch(.25):
                pre = "m%d" % n
                self.exs[i] = dict(mode="prefix", prefix=pre, vals=[], helps=[])
            else:
                k = r.random()
                pool = ["q%da" % n, "q%dab" % n, "q%dabc" % n, "q%dx" % n, "q%d10" % n, "q%d9" % n]
                vals = r.sample(pool, r.randint(1, 4)) if k < .92 else []
                if self.ch(.12):
                    vals.append('"q%d b"' % n)
                helps = ["help of %s" % x for x in vals][:r.choice([0, len(vals), len(vals), 1])]
                self.exs[i] = dict(mode="list", prefix="", vals=vals, helps=helps)
        else:
            i = r.randrange(self.exn)
        args = [r.choice(["p", "tree two", "x1"]) for _ in range(r.choice([0, 1, 2]))]
        fn = "ex%d" % i
        v = mkvar(name, "string", fn=fn, fname=C(fn), fargs=[dict(t="string", s=C(a)) for a in args])
        ex = self.exs[i]

        def samp():
            if ex["mode"] == "prefix":
                return r.choice(["base", "base", ex["prefix"] + r.choice(["a", "1", "x"])])
            return r.choice(ex["vals"]) if ex["vals"] else "q"
        return v, "<%s:string %s(%s)%s>" % (name, fn, ",".join('"%s"' % a for a in args), self.trans(v)), samp

    # ------------------------------------------------------------ expressions
    def helptext(self):
        if not self.ch(self.p["p_help"]):
            return [], ""
        r = self.r
        ls = [r.choice(["does it", "the value", "h", "a longer text, with words", "Set"]) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        return [C(x) for x in ls], '("%s")' % "\n".join(ls)

    def word(self, ctx):
        r = self.r
        pool = ctx["pool"]
        used = ctx["used"]
        if used and self.ch(self.p["p_merge"]):
            return r.choice(used)
        w = r.choice(pool)
        used.append(w)
        return w

    def atom(self, ctx):
        hl, ht = self.helptext()
        if self.ch(self.p["p_var"]) and (ctx.get("below") or self.prof in ("C16", "C11", "C01", "C03") or self.ch(.3)):
            if ctx["vars"] and self.ch(self.p["p_merge"] * .5):
                v, txt, samp = self.r.choice(ctx["vars"])
                if v["t"] == "rest" and not ctx.get("last"):
                    v, txt, samp = self.var(ctx)
            else:
                v, txt, samp = self.var(ctx)
            if v["t"] != "rest":
                ctx["vars"].append((v, txt, samp))
            return dict(k="var", var=v, help=hl), txt + ht, ("v", samp, v)
        w = self.word(ctx)
        return dict(k="cmd", name=C(w), help=hl), escape(w) + ht, ("w", w)

    def sub(self, ctx, last=False, d=0):
        """one component"""
        r, p = self.r, self.p
        c = dict(ctx)
        c["last"] = last
        if d < 2 and self.ch(p["p_opt"]) and not c.get("noopt"):
            e, t, s = self.inner(c, d + 1)
            return dict(k="opt", a=e), "[" + t + "]", ("o", s)
        if d < 2 and self.ch(p["p_grp"]):
            e, t, s = self.inner(c, d + 1)
            return dict(k="grp", a=e), "(" + t + ")", s
        return self.atom(c)

    def inner(self, ctx, d):
        """inside brackets: a sequence, or alternatives, each alternative after the first a single component"""
        r = self.r
        if self.ch(self.p["p_alt"]):
            n = r.choice([2, 2, 3])
            e, t, s = self.seq(ctx, d)
            ss = [s]
            for _ in range(n - 1):
                e2, t2, s2 = self.seq(ctx, d)
                e = dict(k="alt", a=e, b=e2)
                t = t + " | (" + t2 + ")" if " " in t2 or self.ch(.3) else t + " | " + t2
                if " | " in t2:
                    pass
                ss.append(s2)
            return e, t, ("a", ss)
        return self.seq(ctx, d)

    def seq(self, ctx, d):
        r = self.r
        n = r.choice([1, 1, 2])
        c = dict(ctx)
        es = []
        for i in range(n):
            c2 = dict(c)
            c2["below"] = c.get("below") or i > 0
            if i > 0:
                c2["used"] = []
                c2["vars"] = []
            es.append(self.sub(c2, last=False, d=d))
        e, t, s = es[0]
        ss = [s]
        for x in es[1:]:
            e = dict(k="seq", a=e, b=x[0])
            t += " " + x[1]
            ss.append(x[2])
        return e, t, ("s", ss)

    def callbacks(self):
        r, p = self.r, self.p
        cbs, txts = [], []
        if self.ch(p["p_cb"]):
            n = 1
            while n < 3 and self.ch(p["p_cb2"]):
                n += 1
            for _ in range(n):
                i = r.randrange(6)
                args, ats = [], []
                while len(args) < 3 and self.ch(p["p_args"]):
                    t, s, a = r.choice([("string", "v", '"v"'), ("string", "a b", '"a b"'), ("int32", "42", '(int32)"42"'),
                                        ("string", "nm", "nm"), ("bool", "true", '(bool)"true"'), ("uint8", "7", '(uint8)"7"'),
                                        ("string", "x,(y);", '"x,(y);"')])
                    args.append(dict(t=t, s=C(s)))
                    ats.append(a)
                cbs.append(dict(fn="cb%d" % i, args=args, pipe=False))
                txts.append("cb%d(%s)" % (i, ", ".join(ats)))
        return cbs, txts

    def outcbs(self):
        r = self.r
        cbs, txts = [], []
        for _ in range(r.choice([1, 1, 2])):
            if self.ch(.6):
                n = r.choice([0, 1, 3, 12])
                tag = r.choice(["abc", "q"])
                cbs.append(dict(fn="out1", args=[dict(t="string", s=C(str(n))), dict(t="string", s=C(tag))], pipe=False))
                txts.append('out1("%d","%s")' % (n, tag))
            else:
                a = [r.choice(["first x", "second", "line 1"]) for _ in range(r.choice([1, 2]))]
                cbs.append(dict(fn="out0", args=[dict(t="string", s=C(x)) for x in a], pipe=False))
                txts.append("out0(%s)" % ",".join('"%s"' % x for x in a))
        return cbs, txts

    def stmt(self, ctx, depth):
        r, p = self.r, self.p
        n = r.randint(*p["comps"])
        if ctx.get("single"):
            n = 1
        es = []
        c = dict(ctx)
        for i in range(n):
            c2 = dict(c)
            c2["below"] = c.get("below") or i > 0
            c2["noopt"] = i == 0 and p["pipes"]
            if i > 0:
                c2["used"] = ctx["under"].setdefault("u%d" % i, [])
                c2["vars"] = ctx["undervars"].setdefault("u%d" % i, [])
            es.append(self.sub(c2, last=(i == n - 1)))
        e, t, s = es[0]
        ss = [s]
        for x in es[1:]:
            e = dict(k="seq", a=e, b=x[0])
            t += " " + x[1]
            ss.append(x[2])
        hasrest = "rest" in t
        st = dict(e=e, term=True, cbs=[], hide=False, labels=[], block="none", sub=[])
        opts = []
        ref = None
        if not hasrest and self.refnames(ctx) and self.ch(p["p_ref"]):
            ref = r.choice(self.refnames(ctx))
            if not ref.pipe:
                self.refd[ctx.get("tname")][ref.name] = 1
            # one choice of removed labels per pair of trees: the same tree reached twice at one place is the same alternatives
            key = (ctx.get("tname"), ref.name)
            if key not in self.rmsets:
                self.rmsets[key] = [x for x in ["l1", "l2"] if self.ch(p["p_rm"])]
            rm = list(self.rmsets[key])
            if ref.pipe:
                rm = []
            rs = dict(e=dict(k="ref", tree=ref.name, rm=rm, pipe=ref.pipe), term=False, cbs=[], hide=False, labels=[], block="none", sub=[])
            rtxt = "@" + ref.name
            ropts = ["@remove:" + x for x in rm]
            if ref.pipe:
                rs["cbs"], t2 = self.outcbs()
                ropts += t2
            elif self.ch(p["p_refcb"]):
                a = [dict(t="string", s=C("rx"))] if self.ch(.5) else []
                i = r.randrange(6)
                rs["cbs"] = [dict(fn="cb%d" % i, args=a, pipe=False)]
                ropts.append("cb%d(%s)" % (i, '"rx"' if a else ""))
                r.shuffle(ropts)
        if p["pipes"] and not hasrest:
            cbs, txts = self.outcbs()
        else:
            cbs, txts = self.callbacks()
        blk = depth > 1 and not hasrest and self.ch(p["p_block"]) and ref is None
        term = True if not blk else self.ch(p["p_term"])
        if self.ch(p["p_hide"]):
            st["hide"] = True
            opts.append("hide")
        if self.ch(p["p_label"]):
            lab = r.choice(["l1", "l2"])
            st["labels"] = [lab]
            opts.append(lab)
        if ref is not None:
            # reference below: term unless callbacks dropped
            term = self.ch(.5)
        isset = blk and self.ch(p["p_set"])
        if isset and opts:
            term = True         # '@{' is not read after options
        if term:
            st["cbs"] = cbs
            opts += txts
            # order among options is free, callbacks keep theirs
            flags = [o for o in opts if "(" not in o]
            opts = flags + txts if self.ch(.5) else txts + flags
        st["term"] = term
        txt = t + ("".join(", " + o for o in opts))
        samp = ("s", ss)
        if ref is not None:
            st["block"] = "plain"
            st["sub"] = [rs]
            body = rtxt + "".join(", " + o for o in ropts)
            # a reference standing last in a block of its own
            txt += (";" if term else "") + " { " + body + "; }"
            return st, txt, ("t", samp, term, ("R", ref))
        if blk:
            sub, stx, ssamp = self.block(dict(ctx, below=True), depth - 1, isset)
            st["block"] = "set" if isset else "plain"
            st["sub"] = sub
            txt += (";" if term else "") + (" @{ " if isset else " { ") + stx + " }"
            return st, txt, ("t", samp, term, ("S" if isset else "B", ssamp))
        return st, txt + ";", ("t", samp, True, None)

    def refnames(self, ctx):
        # trees that may meet at one place must not bring in a third tree twice
        used = self.refd.setdefault(ctx.get("tname"), {})
        return [t for t in ctx.get("refs", [])
                if t.pipe or t.name in used or not any(self.tops[t.name] & self.tops[u] for u in used)]

    def block(self, ctx, depth, isset=False, n=None):
        r, p = self.r, self.p
        c = dict(ctx, used=[], vars=[], under={}, undervars={})
        lo, hi = p["nstmt"]
        n = n or r.randint(1 if ctx.get("below") else lo, hi)
        sts, txts, samps = [], [], []
        for _ in range(n):
            s, t, sm = self.stmt(c, depth)
            sts.append(s)
            txts.append(t)
            samps.append(sm)
        return sts, "\n  ".join(txts), samps

    # --------------------------------------------------------------- sampling
    def words(self, s):
        """words along one way through an expression"""
        r = self.r
        k = s[0]
        if k in ("w", "al"):
            return [s[1]]
        if k == "v":
            return [s[1]()]
        if k == "o":
            return self.words(s[1]) if self.ch(.5) else []
        if k == "a":
            return self.words(r.choice(s[1]))
        if k == "s":
            out = []
            for x in s[1]:
                out += self.words(x)
            return out
        if k == "t":
            out = self.words(s[1])
            if s[3] is None or (s[2] and self.ch(.3)):
                return out
            kind, what = s[3]
            if kind == "R":
                if len(out) > 12:
                    return out
                return out + self.treewords(what)
            if kind == "B":
                return out + (self.words(r.choice(what)) if what else [])
            xs = list(what)
            r.shuffle(xs)
            xs = xs[:r.choice([1, 1, 2, 2, 3, 4])]
            if self.ch(.15) and xs:
                xs.append(r.choice(xs))
            for x in xs:
                out += self.words(x)
            return out
        return []

    def treewords(self, tree):
        if not tree.samps:
            return []
        return self.words(self.r.choice(tree.samps))

    def line(self, tree):
        r, p = self.r, self.p
        ws = self.treewords(tree) if tree else ["a"]
        if not ws:
            ws = [r.choice(WORDS)]
        good = self.ch(p["p_good"])
        if not good:
            for _ in range(r.choice([1, 1, 2])):
                k = r.random()
                i = r.randrange(len(ws)) if ws else 0
                if k < .3 and ws:
                    ws[i] = ws[i][:r.randint(1, max(1, len(ws[i])))]
                elif k < .45:
                    ws.insert(r.randint(0, len(ws)), r.choice(WORDS + ["zz", "5", "true"]))
                elif k < .6 and len(ws) > 1:
                    del ws[i]
                elif k < .7 and len(ws) > 1:
                    ws = ws[:r.randint(1, len(ws))]
                elif k < .8 and ws:
                    ws[i] = ws[i] + r.choice(["x", "0", "c"])
                elif k < .88 and ws:
                    ws[i] = ws[i].upper() if self.ch(.5) else ws[i].capitalize()
                elif k < .94 and len(ws) > 1:
                    j = r.randrange(len(ws))
                    ws[i], ws[j] = ws[j], ws[i]
                elif ws:
                    ws.append(ws[i])
        else:
            # abbreviations that may or may not be unique
            for i in range(len(ws)):
                if self.ch(.12) and len(ws[i]) > 1 and not ws[i].startswith('"'):
                    ws[i] = ws[i][:r.randint(1, len(ws[i]) - 1)]
        if p["pipes"] and tree is not None and self.ch(.5) and "|" not in ws:
            ws = ws + self.treewords(self.r.choice(self.pipes))
        out = ""
        for i, w in enumerate(ws):
            if self.ch(p["p_quote"] * .3) and '"' not in w and "\\" not in w and w:
                w = '"' + w + '"'
            elif self.ch(p["p_escape"]) and '"' not in w and w and self.prof == "C15":
                j = r.randrange(len(w))
                w = w[:j] + "\\" + w[j:]
            if i:
                out += r.choice([" ", " ", " ", " ", "  ", "\t", " \t "]) if self.prof == "C15" else (" " if r.random() < .95 else "  ")
            out += w
        if self.prof == "C15":
            if self.ch(.2):
                out = r.choice([" ", "\t", "  "]) + out
            if self.ch(.2):
                out += r.choice([" ", "\t", "  "])
            if self.ch(.3):
                out += r.choice([" # c", " #", "#x", " ! z", " \\# y", ' "# x"'])
            if self.ch(.08):
                j = r.randrange(len(out) + 1)
                out = out[:j] + '"' + out[j:]
        return out[:200]

    # ---------------------------------------------------------------- session
    def op(self, *args, **meta):
        self.ops.append((args, meta))

    def setup(self):
        r, p = self.r, self.p
        self.op("new")
        if not p["uh"]:
            self.op("set", "uh", 0, k="uh", v=0)
        def opt(key, k, vals):
            if self.ch(p[key]):
                v = r.choice(vals)
                self.op("set", k, v, k=k, v=v)
                return v
            return 0
        self.ci = opt("caseignore", "caseignore", [1])
        if self.ci == 0:
            opt("lexical", "lexicalorder", [1])
        opt("prefmode", "pref", [0, 1, 2, 3])
        opt("exkeys", "exkeys", [1])
        opt("exfirst", "exfirst", [1])
        self.steps = opt("tabmode", "tabmode", [1, 4, 5])
        opt("hlines", "hlines", [1, 2])
        opt("comment", "comment", [33, 0, 35])

    def usedwords(self):
        if not hasattr(self, "wordpool"):
            self.wordpool = self.p["words"] or WORDS
            if self.ch(self.p["p_odd"]):
                self.wordpool = self.r.sample(self.wordpool, min(8, len(self.wordpool))) + self.r.sample(ODD, 9)
        return self.wordpool

    def mktree(self, name, refs):
        t = Tree(name)
        if refs is None:
            pool = self.usedwords()
        else:
            pool = self.usedwords()
        # trees draw their words from disjoint pools: what a reference brings in is new at that place
        ix = self.ixs.setdefault(name, min(len(self.ixs), 4)) if hasattr(self, "ixs") else {"t": 0, "u": 1, "v": 2, "w": 3}.get(name, 4)
        pool = [["", "u", "v", "w", "y"][ix] + w for w in pool]
        types = None
        if self.p["p_ref"]:
            # ... and their variables from disjoint types
            k = ix
            types = [x for i, x in enumerate(dict.fromkeys(ALLTYPES)) if i % 5 == k]
            if "string" in types:
                types += ["string", "string"]
        while True:
            t.stmts, t.txt, t.samps = self.block(dict(pool=pool, refs=refs or [], tname=name, types=types), self.p["depth"])
            if positions(t.stmts) <= self.p["maxpos"]:
                break
        t.top = {name}
        for x in toprefs(t.stmts):
            t.top |= self.tops.get(x, set())
        self.tops[name] = t.top
        return t

    def spec(self, trees, first=False):
        txt = ""
        secs = []
        for t in trees:
            if self.ch(self.p["p_odd"]):
                t.txt = re.sub(r";\n  ", lambda m: ";" + self.r.choice(["\n  ", "\n", " ", "\t", "", "\n# comment; { <\n", " # c \" @x\n\n", "\r\n"]), t.txt)
            txt += 'treename="%s";\n  %s\n' % (t.name, t.txt)
            secs.append(dict(name=t.name, text=C(t.text), pipe=t.name.startswith("|"), dflt=getattr(t, "dflt", ""), stmts=t.stmts))
        self.op("spec", txt, secs=secs)
        self.trees += trees

    def exops(self):
        for i, x in self.exs.items():
            vals = ("\x01" + x["prefix"]) if x["mode"] == "prefix" else "\n".join(x["vals"])
            self.op("set", "ex", i, vals, "\n".join(x["helps"]), k="ex",
                    ex=dict(fn="ex%d" % i, mode=x["mode"], prefix=C(x["prefix"]), vals=[C(v) for v in x["vals"]],
                            helps=[C(v) for v in x["helps"]]))

    def trees_for_session(self):
        r, p = self.r, self.p
        n = r.randint(*p["ntrees"])
        names = ["t", "u", "v", "w"][:n]
        if n > 1 and self.ch(p["p_names"]):
            # names that begin with one another, or differ in case
            names = r.sample(r.choice([["t", "tt", "ttt", "t1"], ["tree", "tre", "trees", "t"], ["t", "T", "t-", "t-u"], ["a.b", "a", "a.bc", "A"]]), n)
            self.ixs = {}
        made = {}
        order = []
        # later trees first: a tree may refer to trees made before it
        for nm in reversed(names):
            made[nm] = self.mktree(nm, list(order))
            order.append(made[nm])
        return [made[nm] for nm in names]

    def keys(self, line):
        """keystrokes for a line, with help and TAB keys and moves sprinkled in"""
        r, p = self.r, self.p
        ks = ""
        esc = False
        hk = self.ch(p["p_help_key"])
        tk = self.ch(p["p_tab_key"])
        cut = r.randint(0, len(line)) if self.ch(.4) else len(line)
        line = line[:cut][:48]
        often = .12 if len(line) < 16 else .05
        for c in line:
            if c == "?" or c == "\n":
                continue
            if c == "\t":
                c = " "
            if hk and self.ch(often):
                ks += "?"
            if tk and self.ch(often):
                ks += "\t"
            ks += c
        if ks.endswith("\\"):
            ks += "x"
        if hk and self.ch(.8):
            ks += r.choice(["?", "?", " ?"])
        if tk and self.ch(.8):
            ks += r.choice(["\t", "\t", "\t\t", " \t"])
            if self.ch(.3):
                ks += r.choice(WORDS + ["5"]) + r.choice(["", "\t", "?"])
        if self.ch(.12):
            # moves: insertion or keys in the middle
            k = r.choice(["\x01", "\x02", "\x02\x02", "\x02\x02\x02", "\x01\x06", "\x01\x06\x06"])
            ks += k + r.choice(["?" if hk else "", "\t" if tk else "", "", "b", " "])
            if self.ch(.5):
                ks += "\x05"
        if not ks.strip(" \t?\x01\x02\x05\x06") or ks.lstrip(" \t\x01\x02\x05\x06?").startswith(("#", "!")):
            ks = "~" + ks
        # the line must not be blank once trimmed: a sentinel that is no command, in front, when in doubt
        return ks + "\n"

    def pick(self):
        p = self.p
        ws = [("eval", p["w_eval"]), ("type", p["w_type"]), ("evalin", p["w_evalin"]), ("alias", p["w_alias"]),
              ("trees", p["w_trees"]), ("active", p["w_active"]), ("cbret", p["w_cbret"])]
        t = sum(w for _, w in ws)
        x = self.r.random() * t
        for k, w in ws:
            x -= w
            if x < 0:
                return k
        return "eval"

    def curtree(self):
        for t in self.trees:
            if t.name == self.active:
                return t
        return None

    def use(self, n):
        r, p = self.r, self.p
        for _ in range(n):
            k = self.pick()
            t = self.curtree()
            if k == "type" and self.anynames:
                k = "eval"
            if k in ("eval", "type") and t is None:
                k = "trees"
            if k == "eval":
                l = self.line(t) or "a"
                if not l.strip() or l.strip()[0] in "#!":
                    l = "a " + l
                self.op("eval", l, line=C(l))
            elif k == "evalin":
                tt = r.choice([x for x in self.trees if not x.name.startswith("|")])
                l = self.line(tt)
                if not l.strip() or l.strip()[0] in "#!":
                    l = "a " + l
                self.op("evalin", tt.name, l, line=C(l), tree=tt.name)
            elif k == "type":
                ks = self.keys(self.line(t))
                if re.search("[\x80-\xff]", ks) and (re.search("[\x00-\x08\x0b-\x1f\x7f]", ks) or re.search("[^\x00-\x7f\xc3\xa9]|\xc3(?!\xa9)|(?<!\xc3)\xa9", ks)):
                    ks = re.sub("[\x80-\xff]", "", ks)     # keys inside a character of two bytes
                self.op("type", ks, keys=C(ks[:-1]))
            elif k == "trees":
                self.op("trees")
            elif k == "active":
                have = [x.name for x in self.trees if not x.name.startswith("|")]
                nm = r.choice(have * 4 + [x for x in ("none", have[0] + "y", have[-1][:-1]) if x and x not in have and not x.startswith("|")])
                self.active = nm if nm in have else ""
                self.op("active", nm, tree=nm)
                if self.active == "":
                    self.op("trees")
                    self.active = r.choice([x.name for x in self.trees if not x.name.startswith("|")])
                    self.op("active", self.active, tree=self.active)
            elif k == "cbret":
                i, v = r.choice([8, 9]) if p["pipes"] else r.randrange(6), r.choice([-1, -1, 0, 1])
                self.op("set", "cbret", i, v, k="cbret", i=i, v=v)
            elif k == "alias":
                self.alias(t)

    def alias(self, t):
        r = self.r
        nm = r.choice(["al", "alx", "alias1", "al2"] + ([t.samps[0][1][1][0][1]] if t.samps and t.samps[0][0] == "t" and t.samps[0][1][1][0][0] == "w" and self.ch(.5) else []))
        al = [x for x in t.samps if x[0] != "al"]
        keep, t.samps = t.samps, al
        l = self.line(t).replace("\\", "").replace('"', "")
        t.samps = keep
        w = (l.split() or ["~"])[0].lower()
        if any(x.startswith(w) for x in ["al", "alx", "alias1", "al2", nm]):
            l = "nosuch " + l       # never itself
        if self.ch(.12):
            l = r.choice(["al", "alx", "al2"])   # to another alias
            if l <= nm:
                l = "nosuch"
        h = r.choice(["-", "an alias"])
        cb = -1 if self.ch(.8) else r.randrange(3)
        args = ["alias", t.name if self.ch(.5) else "-", nm, h, l] + ([cb] if cb >= 0 else [])
        self.op(*args, alias=dict(tree=t.name if args[1] != "-" else "", name=C(nm), help=[C(h)] if h != "-" else [], cmd=C(l),
                                  fn="alias" if cb < 0 else "al%d" % cb))
        t.samps.append(("al", nm))

    def session(self):
        p = self.p
        self.anynames = p["w_eval"] >= 5 and self.ch(p["p_same"])
        self.setup()
        if self.ch(p["wp"]):
            ts = self.wptrees()
        elif self.ch(p["pipes"]):
            ts = self.pipetrees()
        else:
            ts = self.trees_for_session()
        self.exops()
        late = None
        if self.prof == "C20" and self.ch(.6):
            late = self.mktree(self.r.choice([x for x in ("x", ts[0].name + "x", ts[-1].name[:1], ts[0].name.upper()) if x not in [y.name for y in ts]]), list(ts))
        self.spec(ts, True)
        self.active = ts[0].name if ts[0].name else ts[0].name
        for t in ts:
            if t.name == "t":
                self.active = "t"
        if ts[0].name != self.active:
            self.op("active", self.active, tree=self.active)
        n = p["ops"]
        if late is not None:
            self.use(n // 2)
            self.spec([late])
            self.op("trees")
            self.use(n // 2)
        else:
            self.use(n)
        return self.ops

    # ------------------------------------------------- working points, pipes
    def wptrees(self):
        """a main tree with edit/up/top/show commands and references to a data tree"""
        r, p = self.r, self.p
        pa = p["p_args"]
        p["p_args"] = 0       # the name of the tree is the first argument
        d = self.mktree("u", [])
        p["p_args"] = pa
        main = Tree("t")

        def w(x):
            return dict(k="cmd", name=C(x), help=[])

        def st(e, cbs=(), block="none", sub=(), term=True):
            return dict(e=e, term=term, cbs=list(cbs), hide=False, labels=[], block=block, sub=list(sub))

        def cb(fn, *a):
            return dict(fn=fn, args=[dict(t="string", s=C(x)) for x in a], pipe=False)

        def ref(fn, a):
            return st(dict(k="ref", tree="u", rm=[], pipe=False), [cb(fn, *a)], term=False)
        main.stmts = [
            st(w("edit"), [], "plain", [ref("wp_set", ["u"])], term=False),
            st(w("up"), [cb("wp_up", "u")]), st(w("top"), [cb("wp_top", "u")]),
            st(w("set"), [], "plain", [ref("cb0", [])], term=False),
            st(w("put"), [], "plain", [ref("cb1", ["x"])], term=False),
            st(w("other"), [cb("cb2")])]
        main.txt = ('edit { @u, wp_set("u"); }\n up, wp_up("u"); top, wp_top("u");\n set { @u, cb0(); }\n put { @u, cb1("x"); }\n'
                    ' other, cb2();')
        R = ("t", ("s", [("w", "edit")]), False, ("R", d))
        main.samps = [R, R, R, ("t", ("s", [("w", "up")]), True, None), ("t", ("s", [("w", "top")]), True, None),
                      ("t", ("s", [("w", "set")]), False, ("R", d)), ("t", ("s", [("w", "set")]), False, ("R", d)),
                      ("t", ("s", [("w", "put")]), False, ("R", d)), ("t", ("s", [("w", "other")]), True, None)]
        if self.ch(.5):
            # a second data tree
            pass
        return [d, main]

    def pipetrees(self):
        """trees of pipe commands; trees whose commands print, with pipes offered or not"""
        r = self.r
        pipes = []
        for nm, pre in [("|p", ""), ("|q", "k")][:r.choice([1, 2, 2])]:
            t = Tree(nm)
            t.pipe = True
            sub, txt, samps = [], [], []
            for w in r.sample(["up", "pre", "none", "head", "cnt", "grep"], r.randint(2, 5)):
                a, at, fn = [], "", dict(up="pf0", pre="pf1", none="pf2", head="pf3", cnt="pf4", grep="pf5")[w]
                if w == "pre":
                    a = r.choice(["> ", "p"])
                    a, at = [dict(t="string", s=C(a))], '"%s"' % a
                elif w == "head":
                    a = r.choice("0127")
                    a, at = [dict(t="string", s=C(a))], '"%s"' % a
                e, et, sm = dict(k="cmd", name=C(pre + w), help=[]), pre + w, ("w", pre + w)
                if w == "grep":
                    v = mkvar("z1", "string")
                    e = dict(k="seq", a=e, b=dict(k="var", var=v, help=[]))
                    et += " <z1:string>"
                    sm = ("s", [sm, ("v", lambda: r.choice(["abc", "line", "1", "x", "zz", "e", '" o"']), v)])
                sub.append(dict(e=e, term=True, cbs=[dict(fn=fn, args=a, pipe=True)], hide=False, labels=[], block="none", sub=[]))
                txt.append("%s, %s(%s);" % (et, fn, at))
                samps.append(("t", sm, True, None))
            t.stmts = [dict(e=dict(k="cmd", name=C("|"), help=[]), term=False, cbs=[], hide=False, labels=[], block="plain", sub=sub)]
            t.txt = "\\| {\n  " + "\n  ".join(txt) + " }"
            t.samps = [("t", ("s", [("w", "|")]), False, ("B", samps))]
            pipes.append(t)
        ts = []
        one = [r.choice(pipes)]     # references to one pipe tree only: two may meet at one place
        if self.ch(.5):
            ts.append(self.mktree("u", one))
        main = self.mktree("t", one + ts)
        ts.append(main)
        for t in ts:
            if self.ch(.6):
                t.dflt = r.choice(pipes).name
        self.pipes = pipes
        for t in pipes + ts:
            t.txt = 'pipetree="%s";\n  %s' % (getattr(t, "dflt", ""), t.txt)
        return ts + pipes


def gen(seed, prof):
    """small specifications only: a session whose text is long is drawn again"""
    k = 0
    while True:
        ops = Gen("%s.%d" % (seed, k), prof).session()
        n = sum(len(a[1]) for a, _ in ops if a[0] == "spec")
        if n < 1400 or k > 20:
            return ops
        k += 1
