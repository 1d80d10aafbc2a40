from base import *
from unpythonic.env import env
from unpythonic.assignonce import assignonce
D = Driver("P11")
NAMES = ["a", "b", "c", "x1", "_y", "foo", "__dunder__", "_z_", "__mangled", "é", "class"]
BADID = ["1a", "a b", "", "a-b"]
RESERVED = ["set", "clear", "finalize", "_env", "_finalized"]


def view(e, model, hist):
    eq(len(e), len(model), "len", hist=hist)
    eq(list(e), list(model), "iteration order/content", hist=hist)
    eq(list(e.keys()), list(model.keys()), "keys", hist=hist)
    check([id(v) for v in e.values()] == [id(v) for v in model.values()], "values", hist=hist)
    check([(k, id(v)) for k, v in e.items()] == [(k, id(v)) for k, v in model.items()], "items", hist=hist)
    for n in NAMES:
        eq(n in e, n in model, "membership", name=n, hist=hist)
        d = object()
        if n in model:
            same(getattr(e, n), model[n], "attribute", hist=hist); same(e[n], model[n], "item", hist=hist); same(e.get(n, d), model[n], "get", hist=hist)
        else:
            raises(AttributeError, lambda: getattr(e, n), "undefined attribute", hist=hist)
            raises((AttributeError, KeyError), lambda: e[n], "undefined item", hist=hist); same(e.get(n, d), d); same(e.get(n), None)
    check(e == dict(model) and not (e != dict(model)), "equality with the same mapping", hist=hist)
    check(not (e == {**model, "zzz": 1}), "equality with a different mapping", hist=hist)
    if model:
        check(not (e == {}) and not (e == env()), "equality with an empty mapping", hist=hist)
        k0 = next(iter(model)); check(not (e == {k: v for k, v in model.items() if k != k0}), "equality with a smaller mapping", hist=hist)
        check(not (e == {**model, k0: object()}), "equality with a mapping that differs in one value", hist=hist)
    check(e == env(**model), "equality with an equal environment", hist=hist)


@D.case(500)
def histories(r):
    once = r.random() < .5
    init = {n: Item(("init", n)) for n in r.sample(NAMES, r.randint(0, 3))}
    e = (assignonce if once else env)(**init)
    m = dict(init)
    fin = False
    hist = [("init", once, sorted(init))]
    view(e, m, hist)
    cnt = 0
    for step in range(r.randint(1, 25)):
        n = r.choice(NAMES); v = r.choice([Item(step), None, 0])
        op = r.choice(["setattr", "setitem", "set", "lshift", "delattr", "delitem", "pop", "popd", "popitem", "clear", "update", "updatekw", "updatebad", "setdefault", "finalize", "badname", "reserved", "setundefined"])
        if op == "finalize" and r.random() < .6:
            op = "setattr"
        if op == "clear" and r.random() < .6:
            op = "setitem"
        hist.append((op, n, v, fin))
        defined = n in m
        if op in ("setattr", "setitem"):
            act = (lambda: setattr(e, n, v)) if op == "setattr" else (lambda: e.__setitem__(n, v))
            if (fin and not defined) or (once and defined):
                raises(AttributeError, act, op, hist=hist)
            else:
                act(); m[n] = v
        elif op == "set":
            if defined:
                same(e.set(n, v), v, "set returns the value"); m[n] = v
            else:
                raises(AttributeError, lambda: e.set(n, v), "set of an undefined name", hist=hist)
        elif op == "lshift":
            if defined:
                same(e << (n, v), e, "<< returns the environment"); m[n] = v
            else:
                raises(AttributeError, lambda: e << (n, v), "<< of an undefined name", hist=hist)
        elif op in ("delattr", "delitem"):
            act = (lambda: delattr(e, n)) if op == "delattr" else (lambda: e.__delitem__(n))
            if fin:
                raises((TypeError, AttributeError, KeyError), act, "deletion from a finalized environment", hist=hist)
            elif not defined:
                raises((AttributeError, KeyError), act, "deletion of an undefined name", hist=hist)
            else:
                act(); del m[n]
        elif op in ("pop", "popd"):
            d = Item("d")
            act = (lambda: e.pop(n, d)) if op == "popd" else (lambda: e.pop(n))
            if fin:
                raises((TypeError, AttributeError, KeyError), act, "pop from a finalized environment", hist=hist)
            elif defined:
                same(act(), m.pop(n), "pop", hist=hist)
            elif op == "popd":
                same(act(), d)
            else:
                raises((KeyError, AttributeError), act, "pop of an undefined name", hist=hist)
        elif op == "popitem":
            if fin:
                raises((TypeError, KeyError, AttributeError), e.popitem, "popitem from a finalized environment", hist=hist)
            elif m:
                k, x = e.popitem(); check(k in m and m[k] is x, "popitem", hist=hist); del m[k]
            else:
                raises((KeyError, AttributeError), e.popitem)
        elif op == "clear":
            if fin:
                raises(TypeError, e.clear, "clear of a finalized environment", hist=hist)
            else:
                e.clear(); m.clear()
        elif op in ("update", "updatekw"):
            new = {k: Item((step, k)) for k in r.sample(NAMES, r.randint(0, 3))}
            act = (lambda: e.update(new)) if op == "update" else (lambda: e.update(**new))
            bad = (fin and any(k not in m for k in new)) or (once and any(k in m for k in new))
            if bad:
                raises(AttributeError, act, op, new=sorted(new), hist=hist)
                # names that existed keep to the rules: nothing new when finalized, nothing changed when assign-once
                if fin:
                    check(set(e) == set(m), "update added a name to a finalized environment", hist=hist)
                    for k in m:
                        same(e[k], m[k], "a refused update of a finalized environment rebound a name", name=k, hist=hist)
                if once:
                    for k in m:
                        same(e[k], m[k], "update changed an assign-once binding", hist=hist)
                m = dict(e.items())
            else:
                act(); m.update(new)
        elif op == "updatebad":
            raises((ValueError, AttributeError), lambda: e.update({r.choice(BADID): 1}), "invalid name via update", hist=hist)
        elif op == "setdefault":
            if defined:
                same(e.setdefault(n, v), m[n], "setdefault of a defined name", hist=hist)
            elif fin:
                raises(AttributeError, lambda: e.setdefault(n, v), "setdefault adds to a finalized environment", hist=hist)
            else:
                same(e.setdefault(n, v), v, "setdefault", hist=hist); m[n] = v
        elif op == "finalize":
            e.finalize(); fin = True
        elif op == "badname":
            b = r.choice(BADID)
            raises((ValueError, AttributeError), lambda: setattr(e, b, v), "invalid identifier accepted", name=b, hist=hist)
            raises((ValueError, AttributeError), lambda: e.__setitem__(b, v), "invalid identifier accepted", name=b, hist=hist)
        elif op == "reserved":
            b = r.choice(RESERVED[:3])
            raises(AttributeError, lambda: setattr(e, b, v), "reserved name accepted", name=b, hist=hist)
            raises(AttributeError, lambda: e.__setitem__(b, v), "reserved name accepted", name=b, hist=hist)
            raises(AttributeError, lambda: e.update({b: v}), "reserved name accepted by update", name=b, hist=hist)
        elif op == "setundefined":
            raises(AttributeError, lambda: e.set("never_defined", v))
        view(e, m, hist)
    return step + 1


@D.case(100)
def with_block(r):
    cls = r.choice([env, assignonce])
    for exc in (False, True):
        for fin in (False, True):
            x = Item(1)
            try:
                with cls(a=x) as e:
                    same(e.a, x); e.b = x
                    if fin: e.finalize()
                    if exc: raise KeyError
            except KeyError:
                check(exc)
            eq(len(e), 0, "environment not empty after its with block", exc=exc, fin=fin); check("a" not in e and "b" not in e); eq(list(e), [])
    # independence
    a, b = cls(x=1), cls(x=2)
    check(a.x == 1 and b.x == 2 and "y" not in a); a.y = 1; check("y" not in b, "environments share state")
    c = cls(); check(len(c) == 0 and "x" not in c, "environments share state")


if __name__ == "__main__":
    D.main()
