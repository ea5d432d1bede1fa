"""Directed sessions: two variables that differ in one respect, at one place, each with something of its own after
it - alternatives that must not be taken for one another."""
import itertools, random
from dsl import v, w, seq, st, session
from gencli import C


def rng(*pairs, key="range"):
    rs, txt = [], []
    for p in pairs:
        if isinstance(p, tuple):
            rs.append(dict(haslo=True, lo=C(str(p[0])), hi=C(str(p[1]))))
            txt.append("%s[%s:%s]" % (key, p[0], p[1]))
        else:
            rs.append(dict(haslo=False, lo=C("0"), hi=C(str(p))))
            txt.append("%s[%s]" % (key, p))
    return dict(ranges=rs), " ".join(txt)


def rx(*pats):
    """pats: (inverted, text) of literals, classes and repetitions the table below knows"""
    lit = lambda c: dict(k="lit", c=ord(c))
    table = {"a": lit("a"), "b": lit("b"), "ab": dict(k="cat", es=[lit("a"), lit("b")]),
             "a.*": dict(k="cat", es=[lit("a"), dict(k="star", e=dict(k="any"))]),
             "(a)+": dict(k="plus", e=lit("a")), "[a-c]": dict(k="cls", neg=False, rs=[[97, 99]]),
             "[0-9]": dict(k="cls", neg=False, rs=[[48, 57]]), ".": dict(k="any"),
             ".*b": dict(k="cat", es=[dict(k="star", e=dict(k="any")), lit("b")])}
    return (dict(regex=[dict(inv=i, re=table[p], txt=C(p)) for i, p in pats]),
            " ".join('regexp:%s"%s"' % ("!" if i else "", p) for i, p in pats))


def fd(n, *pairs):
    k, t = rng(*pairs)
    return dict(k, fd=n), ("fraction-digits:%d " % n + t).strip()


NUMS = [({}, ""), rng((1, 5)), rng((1, 6)), rng((2, 5)), rng(5), rng(6), rng((1, 5), (10, 20)), rng((1, 5), (10, 30)), rng((1, 5), (11, 20)),
        rng((1, 4), (10, 20)), rng((1, 5), 20)]
STRS = [({}, ""), rng(2, key="length"), rng((1, 2), key="length"), rng((2, 3), key="length"), rng((1, 2), (4, 5), key="length"),
        rng((1, 2), (4, 6), key="length"), rx((False, "a.*")), rx((False, ".*b")), rx((True, "a.*")), rx((False, "a.*"), (False, ".*b")),
        rx((False, "a.*"), (True, ".*b")), rx((False, "[a-c]"))]
DECS = [fd(1), fd(2), fd(2, ("1.0", "2.0")), fd(2, ("1.0", "3.0")), fd(2, ("0.5", "2.0")), fd(1, ("1.0", "2.0")),
        fd(2, ("1.0", "2.0"), ("4.0", "5.0")), fd(2, ("1.0", "2.0"), ("4.0", "6.0"))]
NW = ["0", "1", "4", "5", "6", "10", "11", "15", "20", "25", "30", "31", "-1"]
SW = ["a", "ab", "abc", "b", "xyb", "abcd", "abcdeb", "axxxxc", "acb"]
DW = ["0.5", "1.0", "1.55", "2.0", "2.5", "3.0", "4.5", "5.5", "0.7"]
TYPES = [("int8", "5"), ("int16", "300"), ("int32", "70000"), ("int64", "-5000000000"), ("uint8", "200"), ("uint16", "65535"), ("uint32", "4000000000"),
         ("uint64", "18446744073709551615"), ("bool", "true"), ("string", "abc"), ("interface", "eth0"), ("ipv4addr", "10.0.0.1"),
         ("ipv4prefix", "10.0.0.0/8"), ("ipv6addr", "fe80::1"), ("ipv6prefix", "2001:db8::/32"), ("macaddr", "00:11:22:33:44:aa"),
         ("url", "http://a.b/c"), ("uuid", "01234567-89ab-cdef-0123-456789abcdef"), ("time", "2020-01-02T03:04:05")]


def pair(name, a, b, words, opts=()):
    """a, b: (type, attributes, their text)"""
    def var(n, x):
        return v(n, x[0], x[2], **x[1])
    t = [st(w("a"), sub=[st(var("z1", a), "cb0"), st(seq(var("z2", b), w("b")), "cb1")], term=False),
         st(w("c"), sub=[st(var("z1", b), "cb2"), st(seq(var("z2", a), w("b")), "cb3")], term=False)]
    uses = [x for q in words for x in ("a " + q, "a " + q + " b", "c " + q, "c " + q + " b")]
    uses += [("type", "a ?\t.\n"), ("type", "c ?\t.\n")]
    return ("twins-" + name, session([("t", t)], *uses, opts=opts))


def sessions(tier, seed):
    r = random.Random("twins%d" % seed)
    out = []
    for t, shapes, words in (("int32", NUMS, NW), ("uint8", NUMS, NW), ("int64", NUMS, NW), ("string", STRS, SW), ("decimal64", DECS, DW)):
        ps = list(itertools.combinations(range(len(shapes)), 2))
        if t in ("uint8", "int64"):
            ps = ps if tier != "quick" else r.sample(ps, 6)
        for i, j in ps:
            out.append(pair("%s-%d-%d" % (t, i, j), (t,) + tuple(shapes[i]), (t,) + tuple(shapes[j]), words))
    ps = list(itertools.combinations(range(len(TYPES)), 2))
    for i, j in ps if tier != "quick" else r.sample(ps, 40):
        ws = list(dict.fromkeys([TYPES[i][1], TYPES[j][1], "5", "abc"]))
        out.append(pair("%s-%s" % (TYPES[i][0], TYPES[j][0]), (TYPES[i][0], {}, ""), (TYPES[j][0], {}, ""), ws,
                        opts=[("pref", r.choice([0, 0, 1, 2, 3]))]))
    return out
