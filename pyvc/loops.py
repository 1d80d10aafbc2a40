"""Loop cuts: havoc what the loop writes, assume inferred invariants, check them at the back edge.

The invariants are conjunctions of template instances over the abstract state (positions of input
iterators, ghost output counters, integer variables, sequence contents), found by Houdini: start
from all instances true on entry, drop what the loop body does not preserve, repeat."""
import z3
from core import *
from ops import *
from bytesm import SWin, find_term, clampz


class Poison:
    """Local variable that had no value when the loop was entered."""
    def __init__(self, loop, cell): self.loop, self.cell = loop, cell


def elemkind(s):
    if isinstance(s, CSeq):
        ks = {kind_of(x) for x in s.items}
        if not ks: return None
        if len(ks) == 1: return ks.pop()
        return "U"
    return kind_of(sat(s, z3.Int("?k")))


def kind_of(v):
    if isinstance(v, (bool, SBool)): return "bool"
    if isinstance(v, (int, SInt)): return "int"
    if isinstance(v, tuple): return ("tuple",) + tuple(kind_of(x) for x in v)
    if isinstance(v, STuple): return ("stuple", elemkind(v.seq))
    if isinstance(v, SArr): return "arr"
    return "U"


NEWABLE = []
BM = [None]


def newable(v):
    return type(v) in NEWABLE


def shape_of(v, start=None, seen=None):
    if start is not None and isinstance(v, HObj) and v.uid > start and newable(v):
        seen = set() if seen is None else seen
        if v.uid in seen: raise Unsupported("loop creates an object referenced from two places")
        seen.add(v.uid)
        return ("new", type(v), Const(getattr(v, "cls", None)), getattr(v, "maxlen", None), tuple((k, shape_of(x, start, seen)) for k, x in sorted(v.cells.items(), key=lambda y: str(y[0]))))
    if isinstance(v, tuple): return ("tuple",) + tuple(shape_of(x, start, seen) for x in v)
    if isinstance(v, (bool, SBool)): return "bool"
    if isinstance(v, (int, SInt)): return "int"
    if isinstance(v, SU): return "U"
    if isinstance(v, SArr): return "arr"
    if isinstance(v, SWin): return "win"
    if isinstance(v, STuple): return ("stuple", elemkind(v.seq))
    if isinstance(v, Seq): return ("seq", elemkind(v))
    if v is UNBOUND: return ("unbound",)
    if type(v).__name__ == "BoundMethod": return ("bm", Const(v.self), Const(v.fn))
    if not isinstance(v, (HObj, str, bytes, float, complex, type(None), type, type(Ellipsis), type(NotImplemented), slice)) and v is not NotImplemented:
        raise Unsupported(f"loop variable holds {v!r}")
    return ("const", Const(v))


class Const:
    def __init__(self, v): self.v = v
    def __eq__(self, o):
        if isinstance(self.v, HObj) or isinstance(o.v, HObj):
            return isinstance(self.v, HObj) and isinstance(o.v, HObj) and self.v.uid == o.v.uid and type(self.v) is type(o.v)
        try: return type(self.v) is type(o.v) and bool(self.v == o.v)
        except Exception: return self.v is o.v
    def __hash__(self): return 1


def find_shape(shapes, s):
    for j, o in enumerate(shapes):
        if o == s: return j
    for j, o in enumerate(shapes):
        if isinstance(o, tuple) and isinstance(s, tuple) and o[0] == s[0] and o[0] in ("seq", "stuple"): return j
    return 0


def add_shape(shapes, s):
    """-> True if changed"""
    for j, o in enumerate(shapes):
        if o == s: return False
        if isinstance(o, tuple) and isinstance(s, tuple) and o[0] == s[0] and o[0] in ("seq", "stuple"):
            if s[1] is None or s[1] == o[1]: return False
            if o[1] is None:
                shapes[j] = s; return True
            if o[1] != "U":
                shapes[j] = (o[0], "U"); return True
            return False
    shapes.append(s)
    return True


def fresh_elem(c, kind, base):
    """element function for a fresh sequence"""
    if kind == "int":
        f = c.fun(base, I, I); return lambda i: mki(f(i))
    if kind == "bool":
        f = c.fun(base, I, B); return lambda i: mkb(f(i))
    if isinstance(kind, tuple) and kind[0] == "tuple":
        fs = [fresh_elem(c, k, base) for k in kind[1:]]
        return lambda i: tuple(f(i) for f in fs)
    if isinstance(kind, tuple): raise Unsupported("sequence of sequences")
    f = c.fun(base, I, U)
    return lambda i: SU(f(i))


def has_new(s):
    return isinstance(s, tuple) and (s[0] == "new" or s[0] == "tuple" and any(has_new(x) for x in s[1:]))


def init_new(o, s):
    if hasattr(type(o), "entries"): o.base = None
    if "maxlen" in getattr(o, "__dict__", {}) or s[3] is not None or hasattr(type(o), "seq"): o.maxlen = s[3]


class Cut:
    def __init__(self, c, node_key):
        self.c = c
        key = (node_key, tuple(c.decisions))
        self.loop = c.x.loops.setdefault(key, Loop())
        if not hasattr(self.loop, "live"): self.loop.live = set()
        self.start = c.serial
        self.w = set()
        self.entry = (self.start, self.w, frozenset(c.running))
        for uid, k in self.loop.writes:       # what this loop changes, the loops around it change
            for start, w, *_ in c.logs:
                if uid <= start: w.add((uid, k))
        self.enter()
        c.logs.append(self.entry)

    # ---- leaves
    def read(self, cell):
        uid, k = cell
        o = self.c.obj(uid)
        return o.cells.get(k, UNBOUND)

    def write(self, cell, v):
        uid, k = cell
        o = self.c.obj(uid)
        if v is UNBOUND: o.cells.pop(k, None)
        else: o.cells[k] = v

    def env(self):
        """cell values and integer leaves of the current state"""
        vals, ints = {}, {}
        for cell in self.cells:
            v = self.read(cell)
            if isinstance(v, Poison): continue
            vals[cell] = v
            self.leaves(cell, v, ints)
        return vals, ints

    def leaves(self, name, v, ints):
        if isint(v): ints[name] = iz(v)
        elif isinstance(v, SWin): ints[(name, "lo")], ints[(name, "hi")] = v.lo, v.hi
        elif isinstance(v, tuple):
            for j, x in enumerate(v): self.leaves((name, j), x, ints)
        elif newable(v) and self.isnew(name):
            for k, x in sorted(v.cells.items(), key=lambda y: str(y[0])): self.leaves((name, k), x, ints)
        elif isinstance(v, Seq) and not getattr(v, "inf", False): ints[(name, "len")] = iz(slen(v))
        elif isinstance(v, STuple) and not getattr(v.seq, "inf", False): ints[(name, "len")] = iz(slen(v.seq))

    def isnew(self, name):
        while name not in self.loop.shapes and isinstance(name, tuple) and isinstance(name[0], tuple): name = name[0]
        return any(isinstance(s, tuple) and has_new(s) for s in self.loop.shapes.get(name, ()))

    def uleaves(self, name, v, out, allobj=False):
        if isinstance(v, SU): out[name] = v.t
        elif isinstance(v, tuple):
            for j, x in enumerate(v): self.uleaves((name, j), x, out, allobj)
        elif newable(v) and self.isnew(name):
            for k, x in sorted(v.cells.items(), key=lambda y: str(y[0])): self.uleaves((name, k), x, out, allobj)

    # ---- entry
    def enter(self):
        c, loop = self.c, self.loop
        self.cells = sorted(loop.writes, key=lambda x: (x[0], str(x[1])))
        if not self.cells: return
        init_vals, init_ints = self.env()
        self.init_vals, self.init_ints = init_vals, init_ints
        chosen = {}
        sig, is_init = [], True       # which shape each variable has: invariants are per combination
        for cell in self.cells:
            sh = loop.shapes.setdefault(cell, [])
            v = init_vals.get(cell, UNBOUND)
            if v is UNBOUND and cell not in loop.live:
                chosen[cell] = "poison"; continue
            add_shape(sh, shape_of(v))
            k = c.choose(len(sh))
            if k: sig.append((cell, k))
            chosen[cell] = sh[k]
            if find_shape(sh, shape_of(v)) != k: is_init = False
        self.sig = tuple(sig)
        # integers first
        seqs = []
        for cell in self.cells:
            s = chosen[cell]
            if s == "poison":
                self.write(cell, Poison(loop, cell)); continue
            if isinstance(s, tuple) and s[0] in ("seq", "stuple"):
                seqs.append((cell, s)); continue
            self.write(cell, self.fresh(cell, s))
        lens = {}
        for cell, s in seqs:
            L = c.int("len"); c.assume(L >= 0); c.index(L)
            lens[cell] = L
        ints = {}
        for cell in self.cells:
            if chosen[cell] == "poison" or cell in lens: continue
            self.leaves(cell, self.read(cell), ints)
        for t in ints.values(): c.index(t)
        for cell, s in seqs:
            v = self.pick_rep(cell, s, lens[cell], ints)
            self.write(cell, v if s[0] == "seq" else STuple(v))
        # candidate invariants
        vals, ints = self.env()
        self.cands = self.candidates(vals, ints, self.sig)
        good = self.filter_initial(self.cands) if is_init else self.cands
        fs = [z for z in (f(vals, ints) for k, f in good) if z is not None]
        for z in fs: c.assume(z)
        if c.check() == z3.unsat: raise PathEnd

    def fresh(self, cell, s):
        c = self.c
        base = str(cell[1]) if isinstance(cell, tuple) else "h"
        if s == "int": return SInt(c.int(f"h_{base}"))
        if s == "bool": return SBool(c.bool(f"h_{base}"))
        if s == "U": return SU(c.u(f"h_{base}"))
        if s == "win":
            lo, hi = c.int(f"h_{base}_lo"), c.int(f"h_{base}_hi"); c.assume(lo <= hi); c.index(lo, hi); return SWin(lo, hi)
        if s == "arr": c.nfresh = getattr(c, "nfresh", 0) + 1; return SArr(z3.Const(f"h_set{c.nfresh}", z3.ArraySort(U, B)))
        if s[0] == "tuple": return tuple(self.fresh(cell, x) for x in s[1:])
        if s[0] == "new":
            o = s[1].__new__(s[1])
            HObj.__init__(o)
            if s[2].v is not None: o.cls = s[2].v if not isinstance(s[2].v, HObj) else self.c.obj(s[2].v.uid)
            init_new(o, s)
            for k, sh in s[4]: o.cells[k] = self.fresh((cell, k), sh)
            return o
        if s[0] in ("seq", "stuple"):
            if s[1] is None: v = CSeq(())
            else:
                L = c.int("len"); c.assume(L >= 0)
                v = SSeq(L, fresh_elem(c, s[1], "hseq"))
            return v if s[0] == "seq" else STuple(v)
        if s[0] == "bm": return BM[0](self.const(s[1]), self.const(s[2]))
        if s[0] == "const": return self.const(s[1])
        if s[0] == "unbound": return UNBOUND
        raise Unsupported(f"loop variable of unsupported kind {s}")

    def const(self, k):
        return k.v if not isinstance(k.v, HObj) else self.c.obj(k.v.uid)

    # ---- sequence representations
    def rep_list(self, s, ints):
        """[(name, builder(L, intsenv) -> SSeq)]"""
        c = self.c
        out = []
        H = []
        for j, (src, pos) in enumerate(c.sources):
            H.append((f"src{j}", src, pos))
        for j, h in enumerate(c.hints):
            H.append((f"hint{j}", h, None))
        names = sorted(ints, key=str)
        for j, f in enumerate(c.hints2):
            for n in names:
                out.append((("h2", j, n), lambda L, e, f=f, n=n: SSeq(L, lambda i: f(i, e[n])) if n in e else None))
        for hn, f, pos in H:
            cand = ([pos] if pos in ints else []) + [n for n in names if n != pos]
            def mk(f=f):
                return f
            for n in cand[:5]:
                out.append((("suffix", hn, n), lambda L, e, f=f, n=n: SSeq(L, lambda i: f(z3.simplify(e[n] - L + i))) if n in e else None))
            out.append((("prefix", hn, 0), lambda L, e, f=f: SSeq(L, lambda i: f(i))))
            for n in cand[:5]:
                out.append((("rest", hn, n), lambda L, e, f=f, n=n: SSeq(L, lambda i: f(z3.simplify(e[n] + i))) if n in e else None))
                out.append((("rsuffix", hn, n), lambda L, e, f=f, n=n: SSeq(L, lambda i: f(z3.simplify(e[n] - 1 - i))) if n in e else None))
            out.append((("prefix", hn, 1), lambda L, e, f=f: SSeq(L, lambda i: f(z3.simplify(i + 1)))))
        return out

    def pick_rep(self, cell, s, L, ints):
        c, loop = self.c, self.loop
        dropped = loop.reps.setdefault(cell, set())
        init = self.init_vals.get(cell)
        iseq = init.seq if isinstance(init, STuple) else init if isinstance(init, Seq) else None
        if s[1] is None: return CSeq(())      # only ever seen empty so far
        for name, build in self.rep_list(s, ints):
            if name in dropped: continue
            v = build(L, ints)
            if v is None: continue
            if s[1] is not None and kind_of(sat(v, z3.Int("?k"))) != s[1]:
                continue
            if iseq is not None:
                iv = build(iz(slen(iseq)), self.init_ints)
                if iv is None or c.valid(same_seq(iseq, iv))[0] != "yes":
                    dropped.add(name); continue
            self.reps = getattr(self, "reps", {})
            self.reps[cell] = (name, build)
            return v
        if s[1] is None: return CSeq(())
        return SSeq(L, fresh_elem(c, s[1], "hseq"))

    # ---- candidates
    def candidates(self, vals, ints, sig):
        """[(key, formula builder)] for the combination of shapes sig, minus those already dropped"""
        c = self.c
        out = []
        names = sorted(ints, key=str)
        i0 = self.init_ints
        def leaf(n): return lambda v, e: e.get(n)
        def rel(key, f, *ns):
            def g(v, e):
                if any(n not in e for n in ns): return None
                return f(*[e[n] for n in ns])
            out.append((key, g))
        bounds = [("0", z3.IntVal(0))] + [(str(b), b) for b in c.bounds]
        for n in names:
            if n in i0:
                rel(("ge0", n), lambda a, t=i0[n]: a >= t, n)
                rel(("le0", n), lambda a, t=i0[n]: a <= t, n)
            for bn, b in bounds:
                rel(("le", n, bn), lambda a, b=b: a <= b, n)
                rel(("ge", n, bn), lambda a, b=b: a >= b, n)
                rel(("eq", n, bn), lambda a, b=b: a == b, n)
                rel(("le1", n, bn), lambda a, b=b: a <= b + 1, n)
        for x in range(len(names)) if not c.lean else ():
            for y in range(x + 1, len(names)):
                a, b = names[x], names[y]
                if a in i0 and b in i0:
                    rel(("diff", a, b), lambda p, q, t=i0[a] - i0[b]: p - q == t, a, b)
                    rel(("sum", a, b), lambda p, q, t=i0[a] + i0[b]: p + q == t, a, b)
                for d in (-1, 0, 1):
                    rel(("d", a, b, d), lambda p, q, d=d: p - q == d, a, b)
                    rel(("dle", a, b, d), lambda p, q, d=d: p - q <= d, a, b)
                    rel(("dge", a, b, d), lambda p, q, d=d: p - q >= d, a, b)
                for bn, b_ in bounds[1:]:
                    rel(("sumb", a, b, bn), lambda p, q, b_=b_: p + q == b_, a, b)
        for a in names:
            if not (c.mins or isinstance(a, tuple) and len(a) == 2 and a[1] == "len"): continue
            for b in names:
                if a == b: continue
                for bn, b_ in bounds[1:]:
                    rel(("min", a, b, bn), lambda p, q, b_=b_: p == z3.If(q <= b_, q, b_), a, b)
        H = [(f"src{j}", s) for j, (s, p) in enumerate(c.sources)] + [(f"hint{j}", h) for j, h in enumerate(c.hints)]
        def eqsafe(a, b):
            ka, kb = kind_of(a), kind_of(b)
            if ka != kb: return None
            return same(a, b)
        for cell, v in vals.items():
            if isinstance(v, (Seq, STuple, HObj, SWin)) or v is UNBOUND: continue
            if cell in self.init_vals and not isinstance(self.init_vals[cell], (Seq, HObj)) and not isint(v):
                iv = self.init_vals[cell]
                if shape_of(iv) == shape_of(v):
                    out.append((("same0", cell), lambda vv, e, cell=cell, iv=iv: same(vv[cell], iv) if cell in vv and shape_of(vv[cell]) == shape_of(iv) else None))
            if isinstance(v, (SU, SInt, tuple)):
                for hn, h in H:
                    for n in names:
                        if n == cell: continue
                        for d in (-1, 0):
                            def g(vv, e, cell=cell, h=h, n=n, d=d):
                                if cell not in vv or n not in e or not isinstance(vv[cell], (SU, int, SInt, tuple)): return None
                                return eqsafe(vv[cell], h(z3.simplify(e[n] + d)))
                            if g(vals, ints) is not None:
                                out.append((("val", cell, hn, n, d), g))
        for cell, v in vals.items():
            if not isinstance(v, SArr): continue
            for hn, h in enumerate(c.arrhints):
                for n in names:
                    for d in (-1, 0, 1):
                        out.append((("arr", cell, hn, n, d), lambda vv, e, cell=cell, h=h, n=n, d=d: same(vv[cell], h(z3.simplify(e[n] + d))) if cell in vv and n in e and isinstance(vv[cell], SArr) else None))
        for kn, kf in enumerate(c.pairs):
            for a in names:
                for b in names:
                    if a != b and (not c.lean or isinstance(a, tuple) and len(a) == 2 and a[1] == "hi"): rel(("pair", kn, a, b), lambda x, y, kf=kf: kf(x, y), a, b)
        for ch, st, en in getattr(c, "find_calls", ()):
            for a in names:
                if not (isinstance(a, tuple) and len(a) == 2 and a[1] == "lo"): continue
                b = (a[0], "hi")
                for n in names:
                    if n in (a, b) or isinstance(n, tuple) and len(n) == 2 and n[1] in ("lo", "hi"): continue
                    def fnd(x, lo, hi, ch=ch, st=st, en=en):
                        nn = hi - lo
                        t = find_term(c, ch, lo + clampz(st, nn), hi if en is None else lo + clampz(en, nn))
                        return x == z3.If(t == -1, -1, t - lo)
                    rel(("find", ch, st, en, a, n), fnd, n, a, b)
        for kn, kf in enumerate(c.ikeeps):
            for n in names:
                if n in i0: rel(("ikeep", kn, n), lambda a, kf=kf, t=i0[n]: kf(a) == kf(t), n)
        for pn, pf in enumerate(c.preds):
            for n in names:
                for d in (-1, 0, 1) if not c.lean else (0,):
                    rel(("pred", pn, n, d), lambda a, pf=pf, d=d: pf(z3.simplify(a + d)), n)
        ul, ul0 = {}, {}
        for cell, v in vals.items(): self.uleaves(cell, v, ul)
        for cell, v in self.init_vals.items(): self.uleaves(cell, v, ul0, True)
        for n in sorted(ul, key=str):
            if n in vals or n not in ul0: continue
            def g(vv, e, n=n, t=ul0[n]):
                o = {}
                for cell, x in vv.items(): self.uleaves(cell, x, o, True)
                return o[n] == t if n in o else None
            out.append((("same0", n), g))
        for n in sorted(ul, key=str):
            if n in vals: continue
            for hn, h in H:
                for m in names:
                    for d in (-1, 0, 1):
                        def g(vv, e, n=n, h=h, m=m, d=d):
                            o = {}
                            for cell, x in vv.items(): self.uleaves(cell, x, o)
                            if n not in o or m not in e: return None
                            return eqsafe(SU(o[n]), h(z3.simplify(e[m] + d)))
                        if g(vals, ints) is not None: out.append((("leaf", n, hn, m, d), g))
        if c.keeps:
            for n in sorted(ul, key=str):
                for kn, (kf, k0) in enumerate(c.keeps):
                    def g(vv, e, n=n, kf=kf, k0=k0):
                        o = {}
                        for cell, x in vv.items(): self.uleaves(cell, x, o)
                        return kf(o[n]) == k0 if n in o else None
                    out.append((("keep", kn, n), g))
        for inv in c.x.user_invs:
            out.append(inv(self))
        return [((sig, k), f) for k, f in out if (sig, k) not in self.loop.dropped]

    def filter_initial(self, cands):
        """keep those valid on entry"""
        c, loop = self.c, self.loop
        iv, ii = self.init_vals, self.init_ints
        live = []
        for k, f in cands:
            live.append((k, f, f(iv, ii)))
        return self.maximal(live, initial=True)

    def maximal(self, live, initial=False):
        c, loop = self.c, self.loop
        while True:
            fs = [z for k, f, z in live if z is not None]
            if not fs: break
            c.unfold()
            r = c.check(z3.Not(z3.And(fs)))
            if r == z3.unsat: break
            bad = []
            if r == z3.sat:
                m = c.solver.model()
                bad = [k for k, f, z in live if z is not None and z3.is_false(m.eval(z, model_completion=True))]
            if not bad:
                for k, f, z in live:
                    if z is not None and c.check(z3.Not(z)) != z3.unsat: bad.append(k)
                if not bad: break
            bs = set(bad)
            for k in bs: loop.dropped.add(k)
            live = [x for x in live if x[0] not in bs]
        return [(k, f) for k, f, z in live]

    # ---- back edge
    def back(self):
        c, loop = self.c, self.loop
        new = {x for x in self.w if x not in loop.writes}
        if new:
            loop.writes |= new
            c.x.dirty = True
            raise PathEnd
        if self.cells:
            vals, ints = self.env()
            dirty = False
            seen = set()
            sig = []
            for cell, v in vals.items():
                sh = loop.shapes[cell]
                if cell in loop.live or cell in self.init_vals and self.init_vals[cell] is not UNBOUND:
                    s = shape_of(v, self.start, seen)
                    if isinstance(v, HObj) and v.uid > self.start and s not in sh and not newable(v):
                        raise Unsupported(f"loop rebinds {cell[1]!r} to a new object")
                    if add_shape(sh, s): dirty = True
                    j = find_shape(sh, s)
                    if j: sig.append((cell, j))
                    if len(sh) > 6: raise Unsupported(f"loop variable {cell[1]!r} takes too many shapes")
            for cell, (name, build) in getattr(self, "reps", {}).items():
                v = vals[cell]
                s = v.seq if isinstance(v, STuple) else v
                if not isinstance(s, Seq): continue
                want = build(iz(slen(s)), ints)
                if want is None or c.valid(same_seq(s, want))[0] != "yes":
                    loop.reps[cell].add(name); dirty = True
            if dirty:
                c.x.dirty = True
                raise PathEnd
            for n, t in ints.items(): c.index(t)
            live = [(k, f, f(vals, ints)) for k, f in self.candidates(vals, ints, tuple(sig))]
            kept = self.maximal(live)
            if len(kept) != len(live):
                c.x.dirty = True
                raise PathEnd
        raise PathEnd

    def leave(self):
        self.c.logs = [e for e in self.c.logs if e is not self.entry]
