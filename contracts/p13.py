"""P13: dynamic variables follow dynamic scope, restored on every exit, per thread.

Nested dynamic blocks are covered up to three levels of arbitrary bindings of two names (bounded in nesting depth);
everything else (values, which names are bound where, what happens inside) is arbitrary."""
from spec import *
from lib import *
D = "unpythonic.dynassign:"
TRUSTED = ["threading.local, threading.current_thread/main_thread, RLock (pyvc/models.py)"]
ASSUMPTIONS = ["nesting depth of dynamic blocks: at most 3 in these contracts (bounded); names: two representatives"]


def visible(stack, glob, n):
    for sc in reversed(stack):
        if n in sc: return (sc, sc[n])
    return (glob, glob[n]) if n in glob else None


def look(v, dyn, stack, glob, when=""):
    for n in ("x", "y"):
        r = visible(stack, glob, n)
        if r is None:
            v.must_raise(f"unbound {n}" + when, AttributeError, lambda: v.p.getattr(dyn, n))
            v.oblige(f"{n} not in dyn" + when, z3.Not(v.truthy(v.total("in", lambda: v.contains(dyn, n)))))
            v.same(f"get default of {n}" + when, v.total("get", lambda: v.method(dyn, "get", n, 5)), 5)
        else:
            v.same(f"{n}" + when, v.total("read", lambda: v.p.getattr(dyn, n)), r[1])
            v.same(f"[{n}]" + when, v.total("read item", lambda: v.p.getitem(dyn, n)), r[1])
            v.oblige(f"{n} in dyn" + when, v.truthy(v.total("in", lambda: v.contains(dyn, n))))
            v.same(f"get {n}" + when, v.total("get", lambda: v.method(dyn, "get", n, 5)), r[1])


class World:
    """dyn with the given global defaults and enclosing blocks, in thread tid"""
    def __init__(self, v, glob, levels, tid=0):
        self.v, self.tid = v, tid
        self.dyn = v.get(D + "dyn")
        self.glob = {n: v.obj("g_" + n) for n in glob}
        if self.glob: v.total("make_dynvar", lambda: v.call(D + "make_dynvar", **self.glob))
        self.stack, self.cms = [], []
        v.thread(tid)
        for j, names in enumerate(levels): self.push(names, j)
    def push(self, names, tag):
        v = self.v
        b = {n: v.obj(f"v{tag}_{n}") for n in names}
        cm = v.total("let", lambda: v.method(self.dyn, "let", **b))
        v.total("enter", lambda: v.method(cm, "__enter__"))
        self.stack.append(b); self.cms.append(cm)
    def pop(self, exc=None):
        v = self.v
        cm = self.cms.pop(); self.stack.pop()
        x = mkexc(exc) if exc else None
        r = v.total("exit", lambda: v.method(cm, "__exit__", exc, x, None))
        v.oblige("leaving a block swallows no exception", z3.Not(v.truthy(r)))
    def look(self, when=""): look(self.v, self.dyn, self.stack, self.glob, when)


LEVELS = [[], ["x"], ["xy"], ["x", "y"], ["x", "x"], ["xy", "x"], ["y", "xy"], ["x", ""], ["x", "y", "x"], ["xy", "x", "y"]]


@contract(D + "dyn", name=D + "dyn (blocks)", variants=[(g, tuple(l), t, how) for g in ("", "x") for l in LEVELS for t in (0, 1) for how in ("normal", "exception", "update_in")])
def _(v, var):
    g, levels, tid, how = var
    w = World(v, g, levels, tid)
    w.look()
    before = [dict(s) for s in w.stack]
    for names in ("x", "xy", ""):
        w.push(names, "n" + names)
        w.look(f" inside let({names})")
        if how == "update_in" and names:
            z = v.obj("z" + names)
            v.total("update", lambda: v.p.setattr(w.dyn, "x", z))
            w.stack[-1]["x"] = z
            w.look(" updated inside")
        w.push("y", "deep" + names)
        w.look(" deeper")
        w.pop(ValueError if how == "exception" else None)
        w.look(" back one level")
        w.pop(ValueError if how == "exception" else None)
        w.look(f" after let({names})")
    while w.cms:
        w.pop()
        w.look(" unwinding")


@contract(D + "dyn", name=D + "dyn (update)", variants=[(g, tuple(l), t, k) for g in ("", "x") for l in LEVELS for t in (0, 1) for k in ("attr", "item", "one", "two", "two_rev", "bad")])
def _(v, var):
    g, levels, tid, how = var
    w = World(v, g, levels, tid)
    p, dyn = v.p, w.dyn
    z1, z2 = v.obj("z1"), v.obj("z2")
    if how == "attr": new = {"x": z1}; th = lambda: p.setattr(dyn, "x", z1)
    elif how == "item": new = {"x": z1}; th = lambda: p.setitem(dyn, "x", z1)
    elif how == "one": new = {"x": z1}; th = lambda: v.method(dyn, "update", x=z1)
    elif how == "two": new = {"x": z1, "y": z2}; th = lambda: v.method(dyn, "update", **new)
    elif how == "two_rev": new = {"y": z1, "x": z2}; th = lambda: v.method(dyn, "update", **new)
    else: new = {"x": z1, "nope": z2}; th = lambda: v.method(dyn, "update", **new)
    scopes = {n: visible(w.stack, w.glob, n) for n in new}
    if any(s is None for s in scopes.values()):
        v.must_raise("update of an undefined variable", AttributeError, th)
    else:
        v.total("update", th)
        for n, s in scopes.items(): s[0][n] = new[n]
    w.look(" after update")
    while w.cms:
        w.pop(); w.look(" unwinding")


@contract(D + "dyn", name=D + "dyn (threads)", variants=[(g, tuple(l), k, when) for g in ("", "x") for l in LEVELS for k in ("let", "update") for when in ("inherit", "before")])
def _(v, var):
    """thread 1 starts from its own copy of what the main thread has at its first use; afterwards neither sees the other"""
    g, levels, how, when = var
    w = World(v, g, levels, 0)
    main = w.stack
    v.thread(1)
    o = World.__new__(World)
    o.v, o.tid, o.dyn, o.glob, o.cms = v, 1, w.dyn, w.glob, []
    if when == "inherit":
        o.stack = [dict(s) for s in main]
        o.look(" in the new thread")
    else:
        # the other thread first uses dyn only after the main thread has left its blocks
        v.thread(0)
        while w.cms: w.pop()
        v.thread(1)
        o.stack = []
        o.look(" in the late thread")
    def both(msg):
        v.thread(0); w.look(" main thread, " + msg)
        v.thread(1); o.look(" other thread, " + msg)
    both("first")
    v.thread(1); o.push("x", "t1"); both("other entered a block")
    v.thread(0); w.push("xy", "t0"); both("main entered a block")
    if how == "update":
        z, z2 = v.obj("z"), v.obj("z2")
        v.thread(1); v.total("update", lambda: v.p.setattr(o.dyn, "x", z)); o.stack[-1]["x"] = z
        both("other updated")
        v.thread(0); v.total("update", lambda: v.method(w.dyn, "update", x=z2)); w.stack[-1]["x"] = z2
        both("main updated")
    v.thread(1); o.pop(); both("other left its block")
    if how == "update" and when == "inherit" and visible(o.stack, {}, "x"):
        z3_ = v.obj("z3")
        v.thread(1); v.total("update", lambda: v.p.setattr(o.dyn, "x", z3_)); visible(o.stack, {}, "x")[0]["x"] = z3_
        both("other updated what it started from")
    v.thread(0); w.pop(); both("main left its block")
    while w.cms:
        v.thread(0); w.pop(); both("unwinding main")


@contract(D + "make_dynvar")
def _(v):
    a, b = v.obj("a"), v.obj("b")
    dyn = v.get(D + "dyn")
    look(v, dyn, [], {})
    v.call(D + "make_dynvar", x=a); look(v, dyn, [], {"x": a})
    v.call(D + "make_dynvar", y=b); look(v, dyn, [], {"x": a, "y": b})
    v.call(D + "make_dynvar", x=b); look(v, dyn, [], {"x": b, "y": b})
