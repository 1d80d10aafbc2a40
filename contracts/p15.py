"""P15: an escape ends exactly its own dynamic extent with exactly its own value.

The body of a catch point is arbitrary: it returns, raises an ordinary exception, or raises an escape with an arbitrary
value, tag and catch-all permission; the catch point is then transparent except for the escapes it should catch.
Nesting to any depth follows by applying the contract to the nested call (the body is any callable)."""
from spec import *
from lib import *
M = "unpythonic.ec:"
ASSUMPTIONS = ["user tags are not equal to the integer id() of a live internal object"]


def escape(v, value, tg, allow):
    k, x = v.attempt(lambda: v.call(M + "throw", value, tg, allow) if v.choose(2) else v.call(M + "throw", value, tag=tg, allow_catchall=allow))
    v.oblige("throw raises", z3.BoolVal(k == "raise"))
    return x


SPECS = ["none", "one", "t0", "t1", "t2", "t3"]


@contract(M + "catch", variants=[(s, cu, how, tg) for s in SPECS for cu in (True, False) for how in ("return", "raise", "base", "escape") for tg in (("untagged", "tagged", "equal", "zero", "empty") if how == "escape" else ("-",))])
def _(v, var):
    spec, cu, how, tg = var
    p = v.p
    ts = [v.obj(f"t{j}") for j in range(3)]
    tags = {"none": None, "one": ts[0], "t0": (), "t1": (ts[0],), "t2": tuple(ts[:2]), "t3": tuple(ts)}[spec]
    tl = [] if tags is None else [ts[0]] if spec == "one" else list(tags)
    for t in ts:
        v.assume(z3.And(t.t != toU(None), tag(t.t) != 1))
        if spec == "one": v.assume(z3.Not(bz(md.py_isinstance(p, t, tuple))))
    a, k = v.obj("arg"), v.obj("kw")
    value = v.obj("value")
    allow = v.bool("allow")
    etag = None if tg == "untagged" else v.obj("etag") if tg == "tagged" else 0 if tg == "zero" else "" if tg == "empty" else ts[0]
    if tg == "tagged": v.assume(z3.And(etag.t != toU(None), tag(etag.t) != 1))
    calls = []
    if how == "escape": exc = escape(v, value, etag, allow)
    elif how in ("raise", "base"): exc = mkexc(ValueError if how == "raise" else KeyboardInterrupt, 1)
    def body(p_, args, kw):
        calls.append((args, kw))
        if how == "return": return value
        raise PyRaise(exc)
    args = {"none": [], "one": [tags]}.get(spec, [tags])
    kw = {} if cu and v.choose(2) else {"catch_untagged": cu}
    deco = v.total("catch()", lambda: v.call(M + "catch", *args, **kw))
    f = v.total("decorate", lambda: v.call(deco, Fn(body, "body")))
    r, x = v.attempt(lambda: v.call(f, a, key=k))
    v.oblige("the body is called exactly once", z3.BoolVal(len(calls) == 1))
    v.oblige("with the given arguments", z3.And(same(calls[0][0][0], a), same(calls[0][1]["key"], k), z3.BoolVal(len(calls[0][0]) == 1 and len(calls[0][1]) == 1)))
    if how == "return":
        v.oblige("returns normally", z3.BoolVal(r == "ok"))
        v.same("the body's value", x, value)
    elif how in ("raise", "base"):
        v.oblige("an ordinary exception passes", z3.BoolVal(r == "raise" and x is exc))
    else:
        if tags is None: should = z3.Or(allow.t, z3.BoolVal(cu and etag is None))
        elif etag is None: should = z3.BoolVal(cu)
        else: should = z3.Or([same(etag, t) for t in tl] + [z3.BoolVal(False)])
        if v.case(should):
            v.oblige("caught", z3.BoolVal(r == "ok"))
            v.same("the thrown value is the result", x, value)
        else:
            v.oblige("passes on as the same escape", z3.BoolVal(r == "raise" and x is exc))


INTER = ["direct", "catchall", "catch_tag", "call_ec", "tryfinally"]


@contract(M + "call_ec", variants=[(i, h) for i in INTER for h in ("escape", "return", "raise", "throw_tag", "throw_untagged")])
def _(v, var):
    inter, how = var
    p = v.p
    value, other, t = v.obj("value"), v.obj("other"), v.obj("t")
    v.assume(z3.And(t.t != toU(None), tag(t.t) != 1, z3.Not(bz(md.py_isinstance(p, t, tuple)))))
    log, saved = [], []
    exc = mkexc(ValueError)
    def act(ec):
        log.append("act")
        if how == "escape":
            p.call(ec, [value]); log.append("after")      # not reached
            return other
        if how == "return": return value
        if how == "raise": raise PyRaise(exc)
        return v.call(M + "throw", value, *([t] if how == "throw_tag" else []))
    def body(p_, args, kw):
        ec = args[0]; saved.append(ec)
        inner = Fn(lambda p2, a2, k2: act(ec), "inner")
        if inter == "direct": r = act(ec)
        elif inter == "catchall": r = v.call(v.call(v.call(M + "catch"), inner))
        elif inter == "catch_tag": r = v.call(v.call(v.call(M + "catch", t), inner))
        elif inter == "call_ec": r = v.call(M + "call_ec", Fn(lambda p2, a2, k2: act(ec), "inner2"))
        else:
            try: r = act(ec)
            finally: log.append("cleanup")
        log.append("through")
        return r if how != "escape" else other
    k, x = v.attempt(lambda: v.call(M + "call_ec", Fn(body, "body")))
    if how == "escape":
        v.oblige("returns normally", z3.BoolVal(k == "ok"))
        v.same("exactly the escape's value", x, value)
        v.oblige("nothing after the escape runs", z3.BoolVal("after" not in log and "through" not in log))
        if inter == "tryfinally": v.oblige("cleanup runs", z3.BoolVal(log.count("cleanup") == 1))
    elif how == "return":
        v.oblige("returns normally", z3.BoolVal(k == "ok")); v.same("the body's value", x, value)
    elif how == "raise": v.oblige("an ordinary exception passes", z3.BoolVal(k == "raise" and x is exc))
    elif how == "throw_tag":
        if inter in ("catchall", "catch_tag"): v.oblige("caught inside", z3.BoolVal(k == "ok")); v.same("value", x, value)
        else: v.oblige("a foreign escape passes call_ec", z3.BoolVal(k == "raise"))
    else:
        if inter in ("catchall", "catch_tag"): v.oblige("caught inside", z3.BoolVal(k == "ok"))
        else: v.oblige("an untagged escape passes call_ec", z3.BoolVal(k == "raise"))
    # afterwards the continuation is dead, however the extent ended
    v.must_raise("escape after the extent", RuntimeError, lambda: p.call(saved[0], [other]))


@contract(M + "call_ec", name=M + "call_ec (nested)", variants=["outer", "inner", "both"])
def _(v, which):
    p = v.p
    a, b = v.obj("a"), v.obj("b")
    log = []
    def outer(p_, args, kw):
        eo = args[0]
        def inner(p2, args2, k2):
            ei = args2[0]
            if which == "outer": p.call(eo, [a])
            p.call(ei, [b])
            log.append("dead code")
        r = v.call(M + "call_ec", Fn(inner, "inner"))
        log.append(("inner result", r))
        if which == "both": p.call(eo, [a])
        return r
    x = v.total("call_ec", lambda: v.call(M + "call_ec", Fn(outer, "outer")))
    if which == "outer": v.same("value of the outer", x, a); v.oblige("inner abandoned", z3.BoolVal(log == []))
    elif which == "inner": v.same("value of the inner", x, b); v.oblige("inner returned", z3.BoolVal(len(log) == 1))
    else: v.same("value of the outer", x, a); v.oblige("inner returned", z3.BoolVal(len(log) == 1)); v.same("inner value", log[0][1], b)


@contract(M + "throw", name=M + "throw (uncaught)")
def _(v):
    k, x = v.attempt(lambda: v.call(M + "throw", v.obj("value")))
    v.oblige("raises", z3.BoolVal(k == "raise"))
    v.exc_is("not an ordinary Exception (except Exception does not stop it)", x, BaseException)
    v.oblige("not an Exception", z3.Not(bz(md.py_isinstance(v.p, x, Exception))))
