"""Hand-written sessions: specification text and structure from one description.
   w("a"), v("z","string",**extra), seq, alt, opt, grp, st(e, cb.., sub=[...]), tree("t", [...])."""
from gencli import mkvar, C


def w(x, *help):
    return (dict(k="cmd", name=C(x), help=[C(h) for h in help]), x + ('("%s")' % "\n".join(help) if help else ""))


def v(name, t="string", txt="", **k):
    return (dict(k="var", var=mkvar(name, t, **k), help=[]), "<%s:%s%s>" % (name, t, " " + txt if txt else ""))


def choice(name, *ws):
    return v(name, "string", "choice:" + "|".join(ws), choice=[C(x) for x in ws], ctext=C("|".join(ws)))


def seq(a, *r):
    for b in r:
        a = (dict(k="seq", a=a[0], b=b[0]), a[1] + " " + b[1])
    return a


def alt(a, *r):
    for b in r:
        a = (dict(k="alt", a=a[0], b=b[0]), a[1] + " | " + b[1])
    return a


def opt(a):
    return (dict(k="opt", a=a[0]), "[" + a[1] + "]")


def grp(a):
    return (dict(k="grp", a=a[0]), "(" + a[1] + ")")


def ref(tree, *cbs, rm=()):
    c, t = _cbs(cbs)
    return (dict(e=dict(k="ref", tree=tree, rm=list(rm), pipe=tree.startswith("|")), term=False, cbs=c, hide=False, labels=[], block="none", sub=[]),
            "@" + tree + "".join(", @remove:" + x for x in rm) + t + ";")


def _cbs(cbs):
    c, t = [], ""
    for x in cbs:
        f, a = (x, []) if isinstance(x, str) else (x[0], list(x[1:]))
        c.append(dict(fn=f, args=[dict(t="string", s=C(y)) for y in a], pipe=f.startswith("pf")))
        t += ", %s(%s)" % (f, ",".join('"%s"' % y for y in a))
    return c, t


def st(e, *cbs, sub=None, set=False, hide=False, labels=(), term=True):
    c, t = _cbs(cbs)
    t = e[1] + (", hide" if hide else "") + "".join(", " + l for l in labels) + t
    d = dict(e=e[0], term=term, cbs=c, hide=hide, labels=list(labels), block="none", sub=[])
    if sub is None:
        return d, t + ";"
    d["block"] = "set" if set else "plain"
    d["sub"] = [s[0] for s in sub]
    return d, t + (";" if term else "") + (" @{ " if set else " { ") + " ".join(s[1] for s in sub) + " }"


def session(trees, *uses, opts=()):
    """trees: [(name, [statements])]; uses: line text, or ("type", keys), ..."""
    ops = [(("new",), {})]
    for k, x in opts:
        ops.append((("set", k, x), dict(k=k, v=x)))
    txt, secs = "", []
    for name, ss, *d in trees:          # d: the pipes offered by default
        txt += 'treename="%s";\n  %s%s\n' % (name, 'pipetree="%s";\n  ' % d[0] if d else "", "\n  ".join(s[1] for s in ss))
        secs.append(dict(name=name, text=C(name), pipe=name.startswith("|"), dflt=d[0] if d else "", stmts=[s[0] for s in ss]))
    ops.append((("spec", txt), dict(secs=secs)))
    for u in uses:
        if isinstance(u, str):
            ops.append((("eval", u), dict(line=C(u))))
        elif u[0] == "type":
            ops.append((("type", u[1]), dict(keys=C(u[1]))))
        elif u[0] == "active":
            ops.append((("active", u[1]), dict(tree=u[1])))
    return ops
