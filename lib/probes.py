"""Reruns the sessions of the known findings on the real code."""
import cli_check, cliobs, evid, vlib
from dsl import *


def choice_overlap():
    return session([("t", [st(w("p"), sub=[st(seq(choice("zx", "a", "b"), w("c")), "cb0"),
                                           st(seq(choice("zy", "b", "d"), w("e")), "cb1")], term=False)])],
                   "p a e", "p b c", "p a e")


def overlapping():
    return session([("t", [st(w("go"), sub=[st(w("a"), sub=[st(w("b"), "cb0")], term=False), ref("u")], term=False),
                           st(w("only"), sub=[ref("u")], term=False)]),
                    ("u", [st(w("a"), sub=[st(w("c"), "cb1")], term=False)])],
                   "only a b", "go a b", "go a c", "only a b", "go a c")


PROBES = {("C02", "choice-overlap"): (choice_overlap, "class"),
          ("C19", "overlapping-references"): (overlapping, "class,live"),
          ("C09", "overlapping-references"): (overlapping, "class,cvv,calls")}


def run(rep, work, prop):
    for fid, text in evid.known(prop):
        fn, fields = PROBES[(prop, fid)]
        ops = fn()
        binary = vlib.driver(work, "drv_cli", True)
        recs, crash = cliobs.observe(binary, ops)
        ok = False
        if not crash:
            t = cli_check.validate(work, "probe-" + fid, recs, fields)
            ok = t.ok
            if not ok and cli_check.place(t)[1] is None:
                raise vlib.CheckError("probe %s: %s" % (fid, t.error[:800]))
        if not ok:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, fid, text))
