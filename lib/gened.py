"""Sessions at the prompt: keys of every kind, histories, loops (C12, C13, C14, C23)."""
import random
from dsl import *
from gencli import C

WORDS = ["show", "set", "a", "interface", "eth0", "b7", "ip", "x", "longer-word", "10.0.0.1", "zz", "q"]
CTRL = {"A": 1, "B": 2, "D": 4, "E": 5, "F": 6, "H": 8, "K": 11, "L": 12, "N": 14, "O": 15, "P": 16, "R": 18, "S": 19,
        "T": 20, "U": 21, "W": 23, "Y": 25, "Z": 26}


def trees(r):
    """a small specification whose commands are easily typed"""
    return [("t", [st(w("show"), "cb0", sub=[st(w("ip", "addresses"), "cb1"), st(w("interface"), "cb1", sub=[st(v("n", "string"), "cb2")])]),
                   st(w("set"), sub=[st(v("x", "int32"), "cb3"), st(w("longer-word"), "cb4")], term=False),
                   st(w("quit"), "cb5"), st(w("go"), "cb6"), st(w("back"), "cb7"),
                   st(seq(w("tail"), v("r", "rest")), "cb4")]),
            ("u", [st(w("go"), "cb7"), st(w("quit"), "cb5"), st(w("back"), "cb6"), st(w("only"), "cb1", sub=[st(w("here"), "cb2")])])]


class Keys:
    def __init__(self, r, prof, p):
        self.r, self.prof, self.p = r, prof, p
        self.k = []
        self.yanks = 0

    def put(self, *cs):
        self.k += list(cs)

    def text(self, n=None):
        r = self.r
        for i in range(n or r.randint(1, 3)):
            x = r.random()
            if x < .75:
                self.put(*r.choice(WORDS).encode())
            elif x < .9:
                self.put(*[r.choice(b"abcxyz019.-_/'!#$%&()*+,:;<=>@[]^`{|}~\"") for _ in range(r.randint(1, 6))])
            else:
                self.put(*([32] * r.randint(1, 4)))
            if r.random() < .6:
                self.put(32)

    def seq(self):
        r = self.r
        c = r.choice(b"[[[[OO")
        x = r.random()
        if x < .6:
            self.put(27, c, r.choice(b"CDCDHFAB"))
        elif x < .75:
            self.put(27, r.choice(b"fFbB"))
        elif x < .9:
            self.put(27, c, 51, r.choice(b"~~~~x"))
        else:
            self.put(27, *r.choice([(c, r.choice(b"EGZ1")), (r.choice(b"xyz"),)]))

    def key(self):
        """one editing action"""
        r, p = self.r, self.p
        x = r.random()
        if x < p["text"]:
            self.text()
        elif x < p["text"] + p["move"]:
            y = r.random()
            n = r.choice([1, 1, 2, 5, 12])
            if y < .25:
                self.put(*([2] * n))
            elif y < .4:
                self.put(*([6] * n))
            elif y < .5:
                self.put(1)
            elif y < .58:
                self.put(5)
            else:
                self.seq()
        elif x < p["text"] + p["move"] + p["edit"]:
            a = r.choice([(8,), (127,), (8, 8, 8), (4,), (4, 4), (20,), (11,), (21,), (23,), (23,), (25,), (25,), (15,),
                                (11, 25, 25), (21, 25), (23, 25, 25), (27, 91, 51, 126)])
            if a.count(25):
                self.yanks += a.count(25)
                if self.yanks > p["yanks"]:      # lines could double each time
                    return
            self.put(*a)
        elif x < p["text"] + p["move"] + p["edit"] + p["hist"]:
            self.put(*([r.choice([16, 16, 16, 14])] * r.choice([1, 1, 2, 3])))
        elif x < p["text"] + p["move"] + p["edit"] + p["hist"] + p["search"]:
            self.search()
        else:
            y = r.random()
            if y < .3:
                self.put(92, r.choice(b"?\\ab \"" + (b"\n" if p["nl"] and r.random() < .5 else b"")))
            elif y < .4:
                self.put(92, r.choice([1, 2, 8, 9, 23]))
            elif y < .55:
                self.put(12)
            elif y < .75:
                self.put(*r.choice([(200, 130), (226, 130, 172), (240, 159, 152, 128), (195, 165), (26,), (7,), (28,), (29,), (130,), (255,)]))
            elif y < .9 and p["tab"]:
                self.put(9)
            elif p["tab"]:
                self.put(63)

    def search(self):
        r = self.r
        self.put(r.choice([18, 18, 19]))
        s = r.choice(WORDS)
        i = r.randrange(len(s))
        s = s[i:i + r.randint(1, 4)]
        for c in s.encode():
            self.put(c)
            if r.random() < .15:
                self.put(8)
            if r.random() < .2:
                self.put(r.choice([18, 18, 19]))
        for _ in range(r.choice([0, 0, 1, 2])):
            self.put(r.choice([18, 19, 8]))
        self.put(*r.choice([(1,), (5,), (27, 91, 67), (14,), (16,), (6,), (2,), (23,), (27, 91, 68)]))


PROF = {
    "C12": dict(yanks=4, text=.25, move=.04, edit=.1, hist=.42, search=.16, tab=False, nl=False, lines=(8, 22), actions=(1, 4)),
    "C13": dict(yanks=7, text=.34, move=.28, edit=.28, hist=.03, search=.01, tab=True, nl=True, lines=(2, 5), actions=(4, 40)),
    "C14": dict(yanks=4, text=.36, move=.26, edit=.22, hist=.08, search=.04, tab=True, nl=False, lines=(1, 3), actions=(4, 30)),
    "C23": dict(yanks=4, text=.3, move=.05, edit=.05, hist=.1, search=.0, tab=False, nl=False, lines=(2, 10), actions=(1, 3)),
}
LINES = ["show", "show ip", "show interface eth0", "set 5", "set longer-word", "set 999999999999", "nosuch", "s", "go", "back", "only here",
         "quit", "", "   ", "# nothing", "show # rest", "  show   ip ", "tail a b  c", "show interface", "show ip"]


def gen(seed, prof):
    r = random.Random(seed * 7919 + 13)
    p = dict(PROF[prof])
    ops = [(("new",), {})]

    def opt(k, x, v=None):
        ops.append((("set", k, x), dict(k=k, v=v if v is not None else x)))
    if prof == "C14":
        opt("width", r.choice([21, 21, 22, 24, 27, 30, 33, 40, 52, 80, 160]))
        if r.random() < .5:
            opt("scroll", 0)
        if r.random() < .5:
            w_ = ops[1][0][2]
            s = r.choice(["> ", "$", "host# ", "a-longer-prompt> "] + (["p" * 60 + "q" * 24 + "> "] if ops[1][0][2] == 160 else []))
            s = s if len(s) < w_ * .55 else "> "
            opt("prompt", s, C(s))
    else:
        if r.random() < .3:
            opt("scroll", 0)
        if r.random() < .3:
            opt("width", r.choice([21, 40, 132, 200]))
    if prof in ("C12", "C14") or r.random() < .2:
        opt("hist", r.choice([1, 1, 2, 3, 4, 5, 8, 20, 100]) if prof == "C12" else r.choice([2, 5, 100]))
    if r.random() < .25 and prof != "C14":
        opt("utf8", 1)
    if prof == "C23" or r.random() < .3:
        if r.random() < .8:
            opt("histfn", 0)
        for c in r.sample([3, 24, 7, 28, 29], r.choice([0, 1, 1, 2])):
            opt("exitchar", c)
    if r.random() < .3:
        opt("comment", 35)
    tm = r.choice([0, 4, 5, 1])
    if tm:
        opt("tabmode", tm)
    base = session(trees(r))
    ops += base[1:]
    if prof == "C23":
        for i, x in ((5, "exit"), (6, "u"), (7, "t")):
            if x == "exit":
                if r.random() < .7:
                    ops.append((("set", "cbexit", i, 1), dict(k="cbexit", i=i, v=1)))
            elif r.random() < .7:
                ops.append((("set", "cbtree", i, x), dict(k="cbtree", i=i, tree=x)))
        if r.random() < .4:
            i = r.randrange(5)
            ops.append((("set", "cbret", i, -1), dict(k="cbret", i=i, v=-1)))
    typed = []
    two, cur, second = prof == "C13" and r.random() < .2, 0, False
    for n in range(r.randint(*p["lines"])):
        k = Keys(r, prof, p)
        if prof == "C12":
            x = r.random()
            if x < .12:
                ops.append((("histsave",), {}))
                continue
            if x < .2:
                ls = [r.choice(LINES + WORDS) for _ in range(r.randint(0, 7))]
                t = "".join(y + "\n" for y in ls) + r.choice(["", "", "cut"])
                ops.append((("histload", t), {}))
                continue
            if x < .23:
                opt("hist", r.choice([1, 2, 3, 5]))
                continue
            y = r.random()
            if y < .35:
                k.put(*r.choice(LINES).encode())
            elif y < .5 and typed:
                k.put(*typed[-1])           # repeated
            elif y < .9:
                for _ in range(r.randint(*p["actions"])):
                    k.key()
            typed.append(list(k.k))
        elif prof == "C23":
            continue
        else:
            big = prof == "C13" and r.random() < .06
            for _ in range(r.randint(*p["actions"]) * (4 if big else 1)):
                k.key()
            if big or prof != "C14" and r.random() < .04:
                k.put(5)
                k.text(6)
                while len(k.k) < 200 and r.random() < .9:
                    k.text(3)
                for _ in range(r.randint(1, 2) if len(k.k) < 500 else 0):
                    k.put(*r.choice([(1, 11, 25, 25, 25), (5, 21, 25, 25), (1, 11, 25, 1, 25)]))
        if two and n > 0 and r.random() < .6:
            cur = 1 - cur
            ops.append((("handle", cur), {}))
            if cur == 1 and not second:
                second = True
                ops.append(next(o for o in base if o[0][0] == "spec"))
        if prof == "C13" and r.random() < .8:
            k.put(1, *b".", 5, *b".")
        if r.random() < .05 and prof != "C12":
            if r.random() < .5:
                k.put(1, 11, 4)         # end of file, on an empty line
        else:
            k.put(r.choice([10, 10, 13]))
            while prof == "C14" and r.random() < .1:
                k.put(10)
        s = bytes(k.k).decode("latin-1")
        ops.append((("type", s), {}))
    if prof == "C23":
        for _ in range(r.randint(1, 3)):
            k = Keys(r, prof, p)
            for n in range(r.randint(*p["lines"])):
                x = r.random()
                if x < .75:
                    k.put(*r.choice(LINES).encode())
                else:
                    for _ in range(r.randint(*p["actions"])):
                        k.key()
                if r.random() < .04:
                    k.put(r.choice([1, 5]), r.choice([3, 4, 24]))
                elif r.random() < .03:
                    k.put(1, 11, 4)
                k.put(r.choice([10, 13]))
            if r.random() < .3:
                k.put(*r.choice(LINES).encode())    # no newline at the end
            elif r.random() < .5:
                k.put(4)
            ops.append((("loop", bytes(k.k).decode("latin-1")), {}))
            if r.random() < .3:
                ops.append((("active", "t"), dict(tree="t")))
    if prof == "C12":
        ops.append((("histsave",), {}))
        ks = [16] * r.randint(0, 6)
        ops.append((("type", bytes(ks + [10]).decode("latin-1")), {}))
    ops.append((("trees",), {}))
    return ops


SINGLE = [[1], [2], [4], [5], [6], [8], [11], [12], [14], [15], [16], [20], [21], [23], [25], [27, 91, 67], [27, 79, 68], [27, 91, 72],
          [27, 91, 70], [27, 102], [27, 98], [27, 91, 51, 126], [120], [32], [92, 63], [9], [18, 98], [19, 98], [26], [195, 165], [27, 120]]
STARTS = {"C13": [[], list(b"ab  cd")] , "C14": [list(b"  show interface  abcde"), list(b"one two"),
                                                 list(b"a line longer than any row of the terminal")]}


def systematic(prof, tier):
    """every pair of keys, from a few lines with the cursor in and at the ends of the line"""
    if prof not in STARTS:
        return []
    out = []
    r = random.Random(5)
    for n, start in enumerate(STARTS[prof]):
        for scroll in (0, 1) if prof == "C14" else (1,):
            if prof == "C14" and tier == "quick" and (n + scroll) % 3:
                continue
            for a in SINGLE:
                ops = [(("new",), {}), (("set", "scroll", scroll), dict(k="scroll", v=scroll))]
                if prof == "C14":
                    ops.append((("set", "width", 22), dict(k="width", v=22)))
                ops += session(trees(r))[1:]
                for past in ("show interface eth0", "tail abc abd"):
                    ops.append((("type", past + "\n"), {}))
                for j, b in enumerate(SINGLE):
                    # the cursor: before, in, or after the text
                    place = [[], [1], [2, 2, 2]][(j + n) % 3]
                    k = start + place + a + b
                    if prof == "C13":
                        k += [46] + ([1, 44, 5, 59] if j % 2 else [])
                    k += [10]
                    ops.append((("type", bytes(k).decode("latin-1")), {}))
                out.append(("pairs-%d-%d-%s" % (n, scroll, "-".join(map(str, a))), ops))
    return out
