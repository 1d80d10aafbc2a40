import typing
"""Operational models of the Python built-ins and stdlib functions the verified code uses (trusted)."""
import ast, types, operator as _op, collections as _coll, collections.abc as _abc, functools as _ft, itertools as _it
import numbers, threading as _thr, builtins as _bi
import z3
from core import *
from ops import *
import interp as ip
from interp import *
from loops import elemkind, kind_of
import bytesm as bm


# =============================================================== containers
class ListObj(HObj):
    nat = list
    def __init__(self, seq=None, maxlen=None):
        super().__init__(c=seq if seq is not None else CSeq(()))
        self.maxlen = maxlen
    shared = False      # other threads can act just before an access
    @property
    def seq(self):
        if self.shared and Ctx.cur.on_table is not None: Ctx.cur.on_table(Ctx.cur.interp, self, None, "list")
        return self.cells["c"]
    def put(self, s): self.set("c", s)
    def __repr__(self): return f"{self.nat.__name__}({self.seq})"


class DequeObj(ListObj):
    nat = _coll.deque


class SymMap:
    """arbitrary initial content: has/val are functions U -> Bool / U -> value"""
    def __init__(self, has, val): self.has, self.val = has, val


DELETED = Opaque("deleted")
TEXT = ("formatted string", "string", "repr", "str")   # opaque text: only ever shown to the user


class DictObj(HObj):
    nat = dict
    def __init__(self, base=None):
        super().__init__(m=())
        self.base = base
    @property
    def entries(self): return self.cells["m"]
    def raw_set(self, k, v):
        self.cells["m"] = self.cells["m"] + ((k, v),)
    def __repr__(self): return f"dict{self.entries}"


class SetObj(HObj):
    nat = set
    def __init__(self, items=(), base=None, nat=set):
        super().__init__(m=tuple(items))
        self.base, self.nat = base, nat
    @property
    def sym(self): return isinstance(self.cells["m"], SArr)
    @property
    def entries(self):
        if self.sym: raise Unsupported("the items of a symbolic set")
        return self.cells["m"]
    def __repr__(self): return f"set{self.cells['m']}"


class InstDict(DictObj):
    """vars(instance): live view of the instance's attributes"""
    def __init__(self, inst):
        HObj.__init__(self)
        self.inst = inst
        self.base = None
        self.cells = _InstCells(inst)


class _InstCells:
    def __init__(self, inst): self.inst = inst
    def __getitem__(self, k): return tuple(self.inst.cells.items())
    def __setitem__(self, k, v):
        old = dict(self.inst.cells)
        for kk in list(self.inst.cells):
            if kk not in dict(v): self.inst.delete(kk)
        for kk, vv in v:
            if kk not in old or old[kk] is not vv: self.inst.set(kk, vv)


class Rng:
    """range with symbolic bounds"""
    def __init__(self, start, stop, step): self.start, self.stop, self.step = start, stop, step
    def __repr__(self): return f"range({self.start},{self.stop},{self.step})"


def rng_len(r):
    a, b, s = iz(r.start), iz(r.stop), iz(r.step)
    cs = conc(r.step)
    if cs == 1: n = b - a
    elif cs == -1: n = a - b
    elif cs is not None and cs > 0: n = (b - a + cs - 1) / cs
    elif cs is not None: n = (a - b - cs - 1) / (-cs)
    else:
        if Ctx.cur.branch(s > 0): n = (b - a + s - 1) / s
        else: n = (a - b - s - 1) / (-s)
    return z3.simplify(z3.If(n > 0, n, z3.IntVal(0)))


def rng_seq(r):
    n = rng_len(r)
    a, s = iz(r.start), iz(r.step)
    cn = conc(n)
    if cn is not None and cn <= 64: return CSeq([mki(a + k * s) for k in range(cn)])
    return SSeq(n, lambda i: mki(a + i * s))


def to_rng(v):
    if isinstance(v, range): return Rng(v.start, v.stop, v.step)
    return v


# =============================================================== iterators
class Stream(HObj):
    """iterator object. nxt: host method raising Stop; rest: closed form of what remains, or None; exhaust: its effect"""
    def nxt(self, p): raise Unsupported("next")
    def rest(self, p): return None
    def exhaust(self, p): raise Unsupported("exhaust")
    def advance(self, p, k):
        """skip up to k items (k a z3 Int >= 0)"""
        ck = conc(k)
        if ck is not None and ck <= 20:
            for _ in range(ck):
                try: self.nxt(p)
                except Stop: return
            return
        raise Unsupported("symbolic advance")
    def __repr__(self): return f"<{type(self).__name__}>"


class SrcIter(Stream):
    """iterator over a mathematical sequence; cell pos = number of items delivered"""
    def __init__(self, seq, owner=None, label=None):
        super().__init__(pos=0)
        self._seq, self.owner = seq, owner
        self.label = label
        c = Ctx.cur
        if isinstance(self.seq, SSeq):
            c.sources.append((lambda i: sat(self.seq, i), (self.uid, "pos")))
            if not self.seq.inf: c.bounds.append(self.seq.n)
    @property
    def seq(self): return self.owner.seq if self.owner is not None else self._seq
    def nxt(self, p):
        s = self.seq
        pos = self.get("pos")
        if getattr(s, "inf", False) or p.c.branch(iz(pos) < iz(slen(s))):
            p.c.index(iz(pos))
            v = sat(s, iz(pos))
            self.set("pos", mki(iz(pos) + 1))
            return v
        raise Stop
    def rest(self, p):
        s = self.seq
        pos = self.get("pos")
        if getattr(s, "inf", False): return sslice(s, pos, None)
        if isinstance(s, CSeq) and isinstance(pos, int): return CSeq(s.items[pos:])
        lo = zmin(pos, slen(s)) if conc(pos) != 0 else z3.IntVal(0)
        return sslice(s, mki(lo), None)
    def exhaust(self, p):
        s = self.seq
        if getattr(s, "inf", False): raise Unsupported("draining an infinite input does not terminate")
        self.set("pos", mki(zmax(self.get("pos"), slen(s))))
    def advance(self, p, k):
        s = self.seq
        if getattr(s, "inf", False): self.set("pos", mki(iz(self.get("pos")) + k)); return
        self.set("pos", mki(zmax(self.get("pos"), zmin(mki(iz(self.get("pos")) + k), slen(s)))))


class FnStream(Stream):
    """contract of a generator function used at a call site: the k-th item and how much input it has consumed by then"""
    def __init__(self, seq, consume=None):
        super().__init__(pos=0)
        self.seq, self.consume = seq, consume
        c = Ctx.cur
        if isinstance(seq, SSeq):
            c.sources.append((lambda i: sat(seq, i), (self.uid, "pos")))
            if not seq.inf: c.bounds.append(seq.n)
    def nxt(self, p):
        pos = self.get("pos")
        s = self.seq
        if getattr(s, "inf", False) or p.c.branch(iz(pos) < iz(slen(s))):
            v = sat(s, iz(pos))
            self.set("pos", mki(iz(pos) + 1))
            if self.consume: self.consume(p, iz(pos) + 1, False)
            return v
        if self.consume: self.consume(p, iz(pos), True)
        raise Stop
    def rest(self, p):
        if getattr(self.seq, "inf", False): return sslice(self.seq, self.get("pos"), None)
        return sslice(self.seq, mki(zmin(self.get("pos"), slen(self.seq))), None)
    def exhaust(self, p):
        if getattr(self.seq, "inf", False): raise Unsupported("draining an infinite stream does not terminate")
        self.set("pos", slen(self.seq))
        if self.consume: self.consume(p, iz(slen(self.seq)), True)


class EnumIter(Stream):
    def __init__(self, it, start):
        super().__init__(k=start)
        self.it = it
    def nxt(self, p):
        x = py_next(p, self.it)
        k = self.get("k")
        self.set("k", mki(iz(k) + 1))
        return (k, x)
    def rest(self, p):
        r = stream_rest(p, self.it)
        if r is None: return None
        k = iz(self.get("k"))
        if isinstance(r, CSeq): return CSeq([(mki(k + j), x) for j, x in enumerate(r.items)])
        return SSeq(r.n, lambda i: (mki(k + i), r.f(i)), inf=r.inf)
    def exhaust(self, p):
        r = self.rest(p)
        stream_exhaust(p, self.it)
        self.set("k", mki(iz(self.get("k")) + iz(slen(r))))


class ZipIter(Stream):
    def __init__(self, its):
        super().__init__()
        self.its = its
    def nxt(self, p):
        if not self.its: raise Stop
        return tuple(py_next(p, it) for it in self.its)
    def rest(self, p):
        rs = [stream_rest(p, it) for it in self.its]
        if any(r is None for r in rs): return None
        if not rs: return CSeq(())
        fin = [r for r in rs if not getattr(r, "inf", False)]
        if not fin: return SSeq(None, lambda i: tuple(sat(r, i) for r in rs), inf=True)
        n = slen(fin[0])
        for r in fin[1:]: n = mki(zmin(n, slen(r)))
        if isinstance(n, int) and n <= 32: return CSeq([tuple(sat(r, j) for r in rs) for j in range(n)])
        return SSeq(iz(n), lambda i: tuple(sat(r, i) for r in rs))
    def exhaust(self, p):
        rs = [stream_rest(p, it) for it in self.its]
        fin = [r for r in rs if not getattr(r, "inf", False)]
        n = slen(fin[0])
        for r in fin[1:]: n = mki(zmin(n, slen(r)))
        # the first input that ends stops the round: earlier ones lose one more item
        stopped = z3.BoolVal(False)
        for it, r in zip(self.its, rs):
            k = z3.If(stopped, iz(n), iz(n) + 1)
            ends = z3.BoolVal(False) if getattr(r, "inf", False) else iz(slen(r)) == iz(n)
            it.advance(p, z3.simplify(k))
            stopped = z3.simplify(z3.Or(stopped, ends))


class ZipLongestIter(Stream):
    def __init__(self, its, fill):
        super().__init__(done=tuple(False for _ in its))
        self.its, self.fill = its, fill
    def nxt(self, p):
        done = list(self.get("done"))
        out = []
        if self.its and all(d is False for d in done):
            rs = [stream_rest(p, it) if isinstance(it, SrcIter) or type(it).__name__ in ("SeqIter", "ListIter") else None for it in self.its]
            if all(r is not None and not getattr(r, "inf", False) and not isinstance(r, CSeq) for r in rs):
                # every input's remaining items are known in closed form: no case split per input
                if not p.c.branch(z3.Or([iz(slen(r)) > 0 for r in rs])):
                    for it in self.its: it.advance(p, z3.IntVal(1))
                    raise Stop
                out = tuple(ite(iz(slen(r)) > 0, sat(r, z3.IntVal(0)), self.fill) for r in rs)
                for it in self.its: it.advance(p, z3.IntVal(1))
                return out
        for j, it in enumerate(self.its):
            if p.truth(done[j]): out.append(self.fill); continue
            try:
                out.append(py_next(p, it))
            except Stop:
                done[j] = True
                self.set("done", tuple(done))
                if all(d is True or p.truth(d) for d in done): raise
                out.append(self.fill)
        if not self.its: raise Stop
        return tuple(out)
    def rest(self, p):
        if not self.its: return CSeq(())
        if any(d is not False for d in self.get("done")): return None
        rs = [stream_rest(p, it) for it in self.its]
        if any(r is None or getattr(r, "inf", False) for r in rs): return None
        n = slen(rs[0])
        for r in rs[1:]: n = mki(zmax(n, slen(r)))
        def at(i):
            return tuple(ite((i if z3.is_expr(i) else z3.IntVal(i)) < iz(slen(r)), sat(r, i), self.fill) for r in rs)
        if isinstance(n, int): return CSeq([at(z3.IntVal(j)) for j in range(n)])
        return SSeq(iz(n), at)
    def exhaust(self, p):
        for it in self.its: stream_exhaust(p, it)
        self.set("done", tuple(True for _ in self.its))


class MapIter(Stream):
    def __init__(self, f, its, star=False):
        super().__init__()
        self.f, self.its, self.star = f, its, star
        self.z = its[0] if star else ZipIter(its)
    def nxt(self, p):
        a = py_next(p, self.z)
        if self.star: a = to_seq(p, a).items
        return p.call(self.f, list(a))
    def rest(self, p):
        if self.star and isinstance(self.z, GenObj): return None
        r = self.z.rest(p)
        if r is None: return None
        if isinstance(r, CSeq): return None
        return pure_apply(p, self.f, r)
    def exhaust(self, p):
        self.z.exhaust(p)


def pure_apply(p, f, r):
    """closed form of map(f, *zip args r) for a pure branch-free f"""
    c = p.c
    k = c.int("k")
    w = set()
    entry = (c.serial, w)
    c.logs.append(entry)
    c.x.pure += 1
    nev = len(c.events)
    try:
        v = p.call(f, list(to_seq(p, sat(r, k)).items))
        subst_value(v, k, k)
        ok = not {x for x in w if x[1] != "calls"}
    except (Impure, PyRaise):
        ok = False
    finally:
        c.x.pure -= 1
        c.logs = [e for e in c.logs if e is not entry]
        del c.events[nev:]
    if not ok: return None
    return SSeq(r.n, lambda i: subst_value(v, k, i if z3.is_expr(i) else z3.IntVal(i)), inf=getattr(r, "inf", False))


class ISlice(Stream):
    """islice(it, start, stop, 1): cells: todo = items still to skip, left = items still allowed (None: no limit)"""
    def __init__(self, it, start, stop):
        left = None if stop is None else mki(zmax(0, mki(iz(stop) - iz(start))))
        super().__init__(skip=start, left=left)
        self.it = it
        self.stop = stop
    def nxt(self, p):
        # CPython: skip to `start` first (never beyond stop), then stop without touching the input once `stop` is reached
        left = self.get("left")
        sk = self.get("skip")
        if conc(sk) != 0:
            if self.stop is not None:
                sk = mki(zmin(sk, self.stop))
            self.set("skip", 0)
            self.it.advance(p, iz(sk)) if isinstance(self.it, Stream) else gen_advance(p, self.it, sk)
        if left is not None and not p.c.branch(iz(left) > 0): raise Stop
        try:
            v = py_next(p, self.it)
        except Stop:
            if left is not None: self.set("left", 0)
            raise
        if left is not None: self.set("left", mki(iz(left) - 1))
        return v
    def rest(self, p):
        r = stream_rest(p, self.it)
        if r is None: return None
        sk, left = self.get("skip"), self.get("left")
        if getattr(r, "inf", False):
            r2 = sslice(r, sk, None)
            return r2 if left is None else SSeq(iz(left), r2.f) if not isinstance(left, int) else CSeq([sat(r2, j) for j in range(left)])
        lo = mki(zmin(sk, slen(r)))
        r2 = sslice(r, lo, None)
        if left is None: return r2
        return sslice(r2, 0, mki(zmin(left, slen(r2))))
    def exhaust(self, p):
        sk, left = self.get("skip"), self.get("left")
        if left is None:
            stream_exhaust(p, self.it)
        else:
            tot = iz(sk) + iz(left)
            if self.stop is not None: tot = z3.If(iz(left) > 0, tot, iz(mki(zmin(sk, self.stop))))
            self.it.advance(p, z3.simplify(tot))
            self.set("left", 0)
        self.set("skip", 0)
    def advance(self, p, k):
        ck = conc(k)
        if ck is not None and ck <= 8: return Stream.advance(self, p, k)
        sk, left = self.get("skip"), self.get("left")
        if conc(sk) != 0: raise Unsupported("advance of a slice")
        if left is None: return self.it.advance(p, k)
        m = zmin(mki(k), left)
        self.it.advance(p, z3.simplify(m))
        self.set("left", mki(iz(left) - m))


def gen_advance(p, it, k):
    ck = conc(k)
    if ck is None: raise Unsupported("symbolic advance of a generator")
    for _ in range(ck):
        try: py_next(p, it)
        except Stop: return


class ChainIter(Stream):
    def __init__(self, its):
        super().__init__(j=0)
        self.its = list(its)        # iterables, opened one by one
        self.open = {j: x if isinstance(x, (Stream, GenObj)) else SrcIter(None, owner=x) if isinstance(x, ListObj) else SrcIter(tseq(x))
                     for j, x in enumerate(self.its) if isinstance(x, (Stream, GenObj, ListObj, tuple, STuple))}
    def opened(self, p, j):
        if j not in self.open:
            p.c.host_write(self)
            self.open[j] = py_iter(p, self.its[j])
        return self.open[j]
    def cur(self, p):
        return self.opened(p, self.at(p))
    def at(self, p):
        """which part it is at: one case per part"""
        j = self.get("j")
        if isinstance(j, int): return j
        for k in range(len(self.its)):
            if p.c.branch(iz(j) == k): self.cells["j"] = k; return k
        self.cells["j"] = len(self.its)
        return len(self.its)
    def nxt(self, p):
        while True:
            if self.at(p) >= len(self.its): raise Stop
            try: return py_next(p, self.cur(p))
            except Stop: self.set("j", self.at(p) + 1)
    def rest(self, p):
        s = CSeq(())
        for j in range(self.at(p), len(self.its)):
            r = stream_rest(p, self.opened(p, j))
            if r is None: return None
            s = sconcat(s, r)
        return s
    def exhaust(self, p):
        for j in range(self.at(p), len(self.its)):
            stream_exhaust(p, self.opened(p, j))
        self.set("j", len(self.its))
    def advance(self, p, k):
        ck = conc(k)
        if ck is not None: return Stream.advance(self, p, k)
        # symbolic: walk through the parts
        while True:
            j = self.at(p)
            if j >= len(self.its): return
            it = self.cur(p)
            r = stream_rest(p, it)
            if r is None: raise Unsupported("symbolic advance")
            if getattr(r, "inf", False) or p.c.branch(k <= iz(slen(r))):
                it.advance(p, k); return
            stream_exhaust(p, it)
            k = z3.simplify(k - iz(slen(r)))
            self.set("j", j + 1)


class TeeBuf(HObj):
    def __init__(self, it, base):
        super().__init__(pulled=0)
        self.it, self.base = it, base


class TeeIter(Stream):
    def __init__(self, buf, pos=0):
        super().__init__(pos=pos)
        self.buf = buf
    def nxt(self, p):
        pos, b = self.get("pos"), self.buf
        pulled = b.get("pulled")
        if p.c.branch(iz(pos) < iz(pulled)):
            v = sat(b.base, iz(pos))
        else:
            v = py_next(p, b.it)
            b.set("pulled", mki(iz(pulled) + 1))
        self.set("pos", mki(iz(pos) + 1))
        return v
    def rest(self, p):
        b = self.buf.base
        if getattr(b, "inf", False): return sslice(b, self.get("pos"), None)
        return sslice(b, mki(zmin(self.get("pos"), slen(b))), None)
    def adv_to(self, p, new):
        b = self.buf
        pulled = b.get("pulled")
        extra = z3.If(new > iz(pulled), new - iz(pulled), z3.IntVal(0))
        b.it.advance(p, z3.simplify(extra))
        b.set("pulled", mki(iz(pulled) + extra))
        self.set("pos", mki(new))
    def exhaust(self, p):
        if getattr(self.buf.base, "inf", False): raise Unsupported("draining an infinite stream does not terminate")
        self.adv_to(p, iz(mki(zmax(self.get("pos"), slen(self.buf.base)))))
    def advance(self, p, k):
        b = self.buf.base
        new = iz(self.get("pos")) + k
        if not getattr(b, "inf", False): new = iz(mki(zmax(self.get("pos"), mki(zmin(mki(new), slen(b))))))
        self.adv_to(p, z3.simplify(new))


class ConcatSeqIter(SrcIter):
    pass


class GenObj(HObj):
    """generator object of interpreted code"""
    def __init__(self, gen, name="gen", pure=None):
        super().__init__()
        self.gen, self.name, self.started, self.finished = gen, name, False, False
        self.pure = pure
    def __repr__(self): return f"<generator {self.name}>"
    def resume(self, p, how):
        if self.finished: raise Stop
        if Ctx.cur.x.pure: raise Impure
        p.c.host_write(self)
        p.c.depth += 1
        p.c.running.append(self.uid)
        saved = p.excstack
        try:
            if p.c.depth > 80: raise Unsupported("recursion depth")
            ev = how()
            return ev[1]
        except StopIteration as s:
            self.finished = True
            raise Stop(s.value)
        except PyRaise as e:
            self.finished = True
            if isinstance(e.exc, InstObj) and e.exc.cls is StopIteration:
                x = mkexc(RuntimeError, "generator raised StopIteration")
                x.cells["__cause__"] = e.exc
                raise PyRaise(x)
            raise
        finally:
            p.c.depth -= 1
            p.c.running.remove(self.uid)
            p.excstack = saved
    def send(self, p, v):
        if not self.started:
            self.started = True
            return self.resume(p, lambda: next(self.gen))
        return self.resume(p, lambda: self.gen.send(v))
    def throw(self, p, exc):
        if not self.started:
            self.finished = True
            raise PyRaise(exc)
        return self.resume(p, lambda: self.gen.throw(PyRaise(exc)))
    def close(self, p):
        if self.finished: return
        if not self.started: self.finished = True; return
        try:
            self.throw(p, mkexc(GeneratorExit))
        except Stop: return
        except PyRaise as e:
            if isinstance(e.exc, InstObj) and e.exc.cls in (GeneratorExit, StopIteration): return
            raise
        throw(RuntimeError, "generator ignored GeneratorExit")


def py_iter(p, v):
    if isinstance(v, (Stream, GenObj)): return v
    if isinstance(v, ListObj): return SrcIter(None, owner=v)
    if isinstance(v, (tuple, STuple)): return SrcIter(tseq(v))
    if isinstance(v, (Rng, range)): return SrcIter(rng_seq(to_rng(v)))
    if isinstance(v, str): return SrcIter(CSeq(list(v)))
    if isinstance(v, bytes): return SrcIter(CSeq(list(v)))
    if isinstance(v, DictObj): return SrcIter(CSeq([k for k, x in dict_entries(p, v)]))
    if isinstance(v, DictView): return SrcIter(CSeq(v.items(p)))
    if isinstance(v, SetObj):
        if v.base is not None: raise Unsupported("iteration over a symbolic set")
        return SrcIter(CSeq(v.entries))
    if isinstance(v, InstObj):
        m = cls_lookup(v, "__iter__")
        if m is not None and m is not None:
            return p.call(BoundMethod(v, m) if not isinstance(m, NativeMember) else native_bound(p, v, m), [])
        g = cls_lookup(v, "__getitem__")
        if g is not None:
            return p.call(p.get_global(p.module("pyvc_prelude"), "_iter_by_getitem"), [v])
        throw(TypeError, "not iterable")
    if isinstance(v, UserIter): return v.make(p)
    if isinstance(v, SU):
        r = su_special(p, v, "__iter__")
        if r is not None: return r[0]
        if p.c.x.iter_ok is not None: return p.c.x.iter_ok(p, v)
        raise Unsupported("iteration over an opaque object")
    if v is None or isinstance(v, (int, SInt, float, FuncObj, bool)): throw(TypeError, "not iterable")
    if isinstance(v, (frozenset, set)): return SrcIter(CSeq(sorted(v, key=str)))
    raise Unsupported(f"iter of {v!r}")


isgen = z3.Function("isgenerator", U, B)


class UserIter(HObj):
    """an iterable supplied by the user, that is not its own iterator and has no len or indexing"""
    def __init__(self, seq):
        super().__init__()
        self.seq = seq
        self.made = []
    def make(self, p):
        p.c.host_write(self)
        it = SrcIter(self.seq)
        self.made.append(it)
        return it


def py_next(p, it):
    if isinstance(it, Stream): return it.nxt(p)
    if isinstance(it, GenObj): return it.send(p, None)
    if isinstance(it, InstObj):
        try: return p.call(p.getattr(it, "__next__"), [])
        except PyRaise as e:
            if isinstance(e.exc, InstObj) and e.exc.cls is StopIteration: raise Stop
            raise
    throw(TypeError, f"not an iterator")


def stream_rest(p, it):
    if isinstance(it, Stream): return it.rest(p)
    if isinstance(it, GenObj) and it.pure is not None and not it.started:
        n, src, cenv = it.pure
        r = stream_rest(p, src)
        if r is None or isinstance(r, CSeq): return None
        return p.pure_map(n.elt, n.generators[0].target, cenv, r)
    return None


def stream_exhaust(p, it):
    if isinstance(it, GenObj):
        p.c.host_write(it)
        it.finished = True
        return stream_exhaust(p, it.pure[1])
    it.exhaust(p)


def concrete_stream(p, it):
    if isinstance(it, InstObj): return False
    if isinstance(it, SrcIter): return isinstance(it.seq, CSeq) and isinstance(it.get("pos"), int)
    if isinstance(it, (EnumIter,)): return concrete_stream(p, it.it)
    if isinstance(it, ZipIter): return any(concrete_stream(p, x) for x in it.its)
    if isinstance(it, ZipLongestIter): return all(concrete_stream(p, x) for x in it.its)
    if isinstance(it, MapIter): return concrete_stream(p, it.z)
    if isinstance(it, FnStream): return isinstance(it.seq, CSeq) and isinstance(it.get("pos"), int)
    if isinstance(it, ChainIter):
        return all(concrete_stream(p, it.opened(p, j)) for j in range(it.get("j"), len(it.its)))
    if isinstance(it, ISlice): return concrete_stream(p, it.it) or isinstance(it.get("left"), int) and it.get("left") <= 16 and isinstance(it.get("skip"), int)
    if isinstance(it, TeeIter): return isinstance(it.buf.base, CSeq) and isinstance(it.get("pos"), int)
    if isinstance(it, GenObj): return True
    return False


def drain(p, it):
    """-> Seq of everything the iterator still yields"""
    if isinstance(it, InstObj): return to_seq_inst(p, it)
    if not concrete_stream(p, it):
        r = stream_rest(p, it)
        if r is not None:
            if getattr(r, "inf", False): raise Unsupported("draining an infinite stream does not terminate")
            stream_exhaust(p, it)
            return r
    out = ListObj(CSeq(()))
    def body(x):
        list_append(p, out, x)
        return None
        yield
    p.run_plain(p.drive(it, body, DrainNode, None))
    return out.seq


class DrainNode:
    lineno = -1
    col_offset = 0


def to_seq_inst(p, it):
    out = ListObj(CSeq(()))
    def body(x):
        list_append(p, out, x)
        return None
        yield
    p.run_plain(p.drive(it, body, DrainNode, None))
    return out.seq


def to_seq(p, v):
    """items of any iterable as a Seq (consumes iterators)"""
    if isinstance(v, Seq): return v
    if isinstance(v, ListObj): return v.seq
    if isinstance(v, (tuple, STuple)): return tseq(v)
    if isinstance(v, (Rng, range)): return rng_seq(to_rng(v))
    return drain(p, py_iter(p, v))


# =============================================================== list operations
def list_append(p, l, x):
    s = sconcat(l.seq, CSeq((x,)))
    if l.maxlen is not None:
        n = slen(s)
        ml = l.maxlen
        if isinstance(n, int) and isinstance(ml, int):
            if n > ml: s = sslice(s, n - ml, n)
        else:
            drop = z3.If(iz(n) > iz(ml), iz(n) - iz(ml), z3.IntVal(0))
            s = sslice(s, mki(drop), n)
    l.put(s)


def list_extend(p, l, v):
    if isinstance(v, ListObj) or isinstance(v, (tuple, STuple)): s = to_seq(p, v)
    else:
        s = to_seq(p, v)
    if l.maxlen is not None:
        s2 = sconcat(l.seq, s)
        n, ml = slen(s2), l.maxlen
        drop = mki(zmax(0, mki(iz(n) - iz(ml))))
        l.put(sslice(s2, drop, n)); return
    l.put(sconcat(l.seq, s))


def norm_index(p, k, n, exc=IndexError):
    """index value, length -> z3/int in range or raises IndexError"""
    ck, cn = conc(k), conc(n)
    if ck is not None and cn is not None:
        j = ck + cn if ck < 0 else ck
        if 0 <= j < cn: return j
        throw(exc, "index out of range")
    kz, nz = iz(k), iz(n)
    if p.c.branch(kz < 0): kz = z3.simplify(kz + nz)
    if p.c.branch(z3.And(kz >= 0, kz < nz)):
        p.c.index(kz)
        return kz
    throw(exc, "index out of range")


def slice_indices(p, s, n):
    """slice.indices(n) -> (start, stop, step) as values"""
    step = s.step if s.step is not None else 1
    if not isint(step): throw(TypeError, "slice indices must be integers")
    for x in (s.start, s.stop):
        if x is not None and not isint(x): throw(TypeError, "slice indices must be integers")
    if conc(step) is None:
        if p.c.branch(iz(step) == 0): throw(ValueError, "slice step cannot be zero")
        pos = p.c.branch(iz(step) > 0)
    else:
        if conc(step) == 0: throw(ValueError, "slice step cannot be zero")
        pos = conc(step) > 0
    nz = iz(n)
    def clip(v, default, lo, hi):
        if v is None: return default
        v = iz(v)
        v = z3.If(v < 0, v + nz, v)
        return z3.If(v < lo, lo, z3.If(v > hi, hi, v))
    if pos: a, b = clip(s.start, z3.IntVal(0), z3.IntVal(0), nz), clip(s.stop, nz, z3.IntVal(0), nz)
    else: a, b = clip(s.start, nz - 1, z3.IntVal(-1), nz - 1), clip(s.stop, z3.IntVal(-1), z3.IntVal(-1), nz - 1)
    if p.c.name_slices: a, b = (named(p.c, x) for x in (a, b))
    return mki(a), mki(b), step


def named(c, t):
    """a name for an integer term (keeps the formulas small)"""
    t = z3.simplify(t)
    if t.num_args() == 0: return t
    k = t.sexpr()
    if k not in c.named_terms:
        x = c.int("nm"); c.assume(x == t); c.named_terms[k] = x
    return c.named_terms[k]


def seq_getslice(p, seq, s):
    n = slen(seq)
    a, b, st = slice_indices(p, s, n)
    r = rng_seq(Rng(a, b, st))
    if isinstance(r, CSeq): return CSeq([sat(seq, iz(j)) for j in r.items])
    if conc(st) == 1:
        return sslice(seq, a, mki(iz(a) + r.n))
    return SSeq(r.n, lambda i: sat(seq, iz(r.f(i))))


def list_method(p, l, name):
    c = p.c
    def append(a, kw): list_append(p, l, a[0])
    def appendleft(a, kw):
        s = sconcat(CSeq((a[0],)), l.seq)
        if l.maxlen is not None: s = sslice(s, 0, mki(zmin(slen(s), l.maxlen)))
        l.put(s)
    def extend(a, kw): list_extend(p, l, a[0])
    def clear(a, kw): l.put(CSeq(()))
    def pop(a, kw):
        n = slen(l.seq)
        if a:
            j = norm_index(p, a[0], n)
            v = sat(l.seq, j)
            l.put(sconcat(sslice(l.seq, 0, mki(iz(j))), sslice(l.seq, mki(iz(j) + 1), n)))
            return v
        if not c.branch(iz(n) > 0): throw(IndexError, "pop from an empty list")
        v = sat(l.seq, iz(n) - 1)
        l.put(sslice(l.seq, 0, mki(iz(n) - 1)))
        return v
    def popleft(a, kw):
        n = slen(l.seq)
        if not c.branch(iz(n) > 0): throw(IndexError, "pop from an empty deque")
        v = sat(l.seq, z3.IntVal(0))
        l.put(sslice(l.seq, 1, n))
        return v
    def copy(a, kw): return type(l)(l.seq, l.maxlen)
    def reverse(a, kw): l.put(srev(l.seq))
    def insert(a, kw):
        if a[0] != 0: raise Unsupported("insert")
        l.put(sconcat(CSeq((a[1],)), l.seq))
    d = locals()
    if name in ("append", "extend", "clear", "pop", "copy", "reverse", "insert") or isinstance(l, DequeObj) and name in ("appendleft", "popleft"):
        return Builtin(f"list.{name}", lambda p_, a, kw: d[name](a, kw))
    if name in ("__len__", "__getitem__", "__setitem__", "__contains__", "__iter__", "__reversed__"):
        return dunder(p, l, name)
    return None


def dunder(p, v, name):
    tab = {"__len__": lambda a: py_len(p, v), "__getitem__": lambda a: p.getitem(v, a[0]), "__setitem__": lambda a: p.setitem(v, a[0], a[1]),
           "__contains__": lambda a: py_contains(p, v, a[0]), "__iter__": lambda a: py_iter(p, v), "__reversed__": lambda a: py_reversed(p, v),
           "__repr__": lambda a: Opaque("repr"), "__str__": lambda a: Opaque("str"), "__eq__": lambda a: py_eq(p, v, a[0]), "__next__": lambda a: next_or_raise(p, v),
           "__delitem__": lambda a: p.delitem(v, a[0]), "__hash__": lambda a: py_hash(p, v), "__bool__": lambda a: mkb(bz(py_bool(p, v)))}
    if name not in tab:
        if isinstance(v, (ListObj, DictObj, SetObj)):
            t = getattr(v, "nat", None) or {ListObj: list, DictObj: dict}.get(type(v))
            if isinstance(t, type) and hasattr(t, name): raise Unsupported(f"{t.__name__}.{name}")
        return None
    return Builtin(name, lambda p_, a, kw: tab[name](a))


def next_or_raise(p, v):
    try: return py_next(p, v)
    except Stop as s: throw(StopIteration, *(() if s.value is None else (s.value,)))


# =============================================================== dicts and sets
def key_same(a, b):
    """dict key equality: equal constants, or the same opaque key (opaque keys stand for equality classes)"""
    if type(a) in CONC and type(b) in CONC: return a == b
    if isinstance(a, (SU, SInt, tuple, SBool)) or isinstance(b, (SU, SInt, tuple, SBool)): return same(a, b)
    if isinstance(a, HObj) or isinstance(b, HObj):
        if a is b: return True
        for o in (a, b):
            if isinstance(o, InstObj) and isinstance(cls_lookup(o, "__eq__"), FuncObj): raise Unsupported("dict key with its own __eq__")
        return False
    return bool(a == b)


CONC = {str, int, bool, type(None), float, bytes, Builtin}


def hashable_check(p, k):
    if isinstance(k, (ListObj, DictObj)) or isinstance(k, SetObj) and k.nat is set: throw(TypeError, "unhashable type")


def dict_find(p, d, k):
    """-> index into entries, 'base' or None"""
    for j, (ek, ev) in enumerate(d.entries):
        if p.c.branch(key_same(ek, k)): return j
    if d.base is not None and p.c.branch(d.base.has(toU(k))): return "base"
    return None


def dict_entries(p, d):
    if d.base is not None: raise Unsupported("iteration over a symbolic dict")
    return [(k, v) for k, v in d.entries if v is not DELETED]


def dict_get(p, d, k):
    hashable_check(p, k)
    if p.c.on_table is not None and getattr(d, "shared", False): p.c.on_table(p, d, k, "read")
    j = dict_find(p, d, k)
    if j is None: return None
    if j == "base": return (d.base.val(toU(k)),)
    v = d.entries[j][1]
    return None if v is DELETED else (v,)


def dict_set(p, d, k, v):
    hashable_check(p, k)
    if p.c.on_table is not None and getattr(d, "shared", False): p.c.on_table(p, d, k, "write")
    j = dict_find(p, d, k)
    es = list(d.entries)
    if isinstance(j, int):
        if es[j][1] is DELETED and d.base is None: del es[j]; es.append((k, v))
        else: es[j] = (es[j][0], v)
    else: es.append((k, v))
    d.set("m", tuple(es)) if not isinstance(d, InstDict) else d.cells.__setitem__("m", tuple(es))


def dict_del(p, d, k):
    j = dict_find(p, d, k)
    if j is None or isinstance(j, int) and d.entries[j][1] is DELETED: throw(KeyError, k)
    es = list(d.entries)
    if j == "base": es.append((k, DELETED))
    elif d.base is not None: es[j] = (es[j][0], DELETED)
    else: del es[j]
    d.set("m", tuple(es)) if not isinstance(d, InstDict) else d.cells.__setitem__("m", tuple(es))


class MapBase:
    """the content of a mapping of any size: which keys it has, and the value of each"""
    def __init__(self, has, val): self.has, self.val = has, val
    @staticmethod
    def of(d):
        """content of a dict as functions of the key (a U term)"""
        b, es = d.base, d.entries
        has0 = b.has if b is not None else (lambda k: z3.BoolVal(False))
        val0 = (lambda k: toU(b.val(k))) if b is not None else (lambda k: z3.Const("nothing", U))
        def has(k):
            r = has0(k)
            for ek, ev in es: r = z3.If(toU(ek) == k, z3.BoolVal(ev is not DELETED), r)
            return r
        def val(k):
            r = val0(k)
            for ek, ev in es:
                if ev is not DELETED: r = z3.If(toU(ek) == k, toU(ev), r)
            return r
        return has, val
    @staticmethod
    def merge(d, m):
        (h1, v1), (h2, v2) = MapBase.of(d), MapBase.of(m)
        return MapBase(lambda k: z3.Or(h1(k), h2(k)), lambda k: SU(z3.If(h2(k), v2(k), v1(k))))


class DictView:
    def __init__(self, d, kind): self.d, self.kind = d, kind
    def items(self, p):
        es = dict_entries(p, self.d)
        return [k for k, v in es] if self.kind == "keys" else [v for k, v in es] if self.kind == "values" else [(k, v) for k, v in es]


def mapping_items(p, m):
    if isinstance(m, DictObj): return dict_entries(p, m)
    if isinstance(m, InstObj):
        ks = to_seq(p, p.call(p.getattr(m, "keys"), []))
        return [(k, p.getitem(m, k)) for k in ks.items]
    if isinstance(m, dict): return list(m.items())
    raise Unsupported(f"mapping {m!r}")


def dict_update(p, d, a, kw):
    if a:
        m = a[0]
        if isinstance(m, DictObj) and m.base is not None:
            if d.base is None and not d.entries:
                p.c.host_write(d)
                d.base = m.base
                for k, v in m.entries: d.cells["m"] = d.cells["m"] + ((k, v),)
            else:
                p.c.host_write(d)
                d.base = MapBase.merge(d, m)
                d.cells["m"] = ()
        elif isinstance(m, DictObj) or isinstance(m, InstObj) and cls_lookup(m, "keys") is not None:
            for k, v in mapping_items(p, m): dict_set(p, d, k, v)
        elif isinstance(m, dict):
            for k, v in m.items(): dict_set(p, d, k, v)
        else:
            s = to_seq(p, m)
            if not isinstance(s, CSeq): raise Unsupported("update from a symbolic iterable")
            for kv in s.items:
                k, v = to_seq(p, kv).items
                dict_set(p, d, k, v)
    for k, v in kw.items(): dict_set(p, d, k, v)


def dict_method(p, d, name):
    def get(a, kw):
        r = dict_get(p, d, a[0])
        return r[0] if r is not None else (a[1] if len(a) > 1 else kw.get("default"))
    def keys(a, kw): return DictView(d, "keys")
    def values(a, kw): return DictView(d, "values")
    def items(a, kw): return DictView(d, "items")
    def update(a, kw): dict_update(p, d, a, kw)
    def copy(a, kw):
        n = DictObj(d.base)
        n.cells["m"] = tuple(d.entries)
        return n
    def pop(a, kw):
        r = dict_get(p, d, a[0])
        if r is None:
            if len(a) > 1: return a[1]
            throw(KeyError, a[0])
        dict_del(p, d, a[0])
        return r[0]
    def popitem(a, kw):
        es = dict_entries(p, d)
        if not es: throw(KeyError, "popitem(): dictionary is empty")
        dict_del(p, d, es[-1][0])
        return es[-1]
    def setdefault(a, kw):
        r = dict_get(p, d, a[0])
        if r is not None: return r[0]
        v = a[1] if len(a) > 1 else None
        dict_set(p, d, a[0], v)
        return v
    def clear(a, kw):
        if isinstance(d, InstDict): d.cells["m"] = (); return
        p.c.host_write(d) if d.base is not None else None; d.set("m", ()); d.base = None
    t = locals()
    if name in ("get", "keys", "values", "items", "update", "copy", "pop", "popitem", "setdefault", "clear"):
        return Builtin(f"dict.{name}", lambda p_, a, kw: t[name](a, kw))
    return dunder(p, d, name)


def make_set(p, items, nat=set):
    s = SetObj((), nat=nat)
    if p.c.symsets: s.cells["m"] = SArr(z3.K(U, z3.BoolVal(False)))
    for x in items: set_add(p, s, x)
    return s


def set_has(p, s, x):
    hashable_check(p, x)
    if s.sym: return p.c.branch(z3.Select(s.get("m").t, toU(x)))
    for e in s.entries:
        if p.c.branch(key_same(e, x)): return True
    if s.base is not None: return p.c.branch(s.base(toU(x)))
    return False


def set_add(p, s, x):
    if s.sym: hashable_check(p, x); s.set("m", SArr(z3.Store(s.get("m").t, toU(x), z3.BoolVal(True)))); return
    if not set_has(p, s, x): s.set("m", s.entries + (x,))


def set_method(p, s, name):
    def add(a, kw): set_add(p, s, a[0])
    def discard(a, kw): s.set("m", SArr(z3.Store(s.get("m").t, toU(a[0]), z3.BoolVal(False)))) if s.sym else s.set("m", tuple(e for e in s.entries if not p.c.branch(key_same(e, a[0]))))
    def remove(a, kw):
        if not set_has(p, s, a[0]): throw(KeyError, a[0])
        discard(a, kw)
    def update(a, kw):
        for x in a:
            for e in to_seq(p, x).items: set_add(p, s, e)
    def clear(a, kw):
        if s.base is not None: p.c.host_write(s)
        s.set("m", SArr(z3.K(U, z3.BoolVal(False))) if s.sym else ()); s.base = None
    def copy(a, kw):
        n = SetObj((), s.base, s.nat); n.cells["m"] = s.get("m"); return n
    def issubset(a, kw): return all(p.truth(py_contains(p, a[0], e)) for e in s.entries)
    def difference(a, kw): return make_set(p, [e for e in s.entries if not any(p.truth(py_contains(p, x, e)) for x in a)], s.nat)
    def union(a, kw):
        n = copy((), {})
        for x in a:
            for e in to_seq(p, x).items: set_add(p, n, e)
        return n
    def intersection(a, kw): return make_set(p, [e for e in s.entries if all(p.truth(py_contains(p, x, e)) for x in a)], s.nat)
    def pop(a, kw):
        if not s.entries: throw(KeyError, "pop from an empty set")
        x = s.entries[0]; s.set("m", s.entries[1:]); return x
    def difference_update(a, kw):
        for x in a:
            for e in to_seq(p, x).items: discard((e,), {})
    def issuperset(a, kw): return all(set_has(p, s, e) for e in to_seq(p, a[0]).items)
    def isdisjoint(a, kw): return not any(set_has(p, s, e) for e in to_seq(p, a[0]).items)
    def intersection_update(a, kw): s.set("m", tuple(e for e in s.entries if all(p.truth(py_contains(p, x, e)) for x in a)))
    t = locals()
    if name in ("add", "discard", "remove", "update", "clear", "copy", "issubset", "difference", "union", "intersection", "pop", "difference_update", "issuperset", "isdisjoint", "intersection_update"):
        return Builtin(f"set.{name}", lambda p_, a, kw: t[name](a, kw))
    return dunder(p, s, name)


# =============================================================== classes and instances
class Prop:
    def __init__(self, get, setf=None, delf=None): self.get, self.setf, self.delf = get, setf, delf


class StaticM:
    def __init__(self, f): self.f = f


class ClassM:
    def __init__(self, f): self.f = f


ABC_REG = {}


def make_class(p, name, bases, ns, module, meta):
    bs = []
    for b in bases:
        if isinstance(b, (ClassObj, type)): bs.append(b)
        else: raise Unsupported(f"base class {b!r}")
    return ClassObj(name, bs, ns, module, meta if isinstance(meta, ClassObj) else None)


def cls_lookup(inst, k):
    cls = inst.cls
    if isinstance(cls, ClassObj): return cls.lookup(k)
    if isinstance(cls, type) and any(k in m.__dict__ for m in cls.__mro__):
        return NativeMember(cls, k)
    return None


def native_bound(p, inst, m):
    """method inherited from a native base class"""
    cls, k = m.cls, m.name
    for base in ([cls] if not isinstance(cls, type) else cls.__mro__):
        if k in base.__dict__: cls = base; break
    if cls is object:
        if k == "__init__": return Builtin("object.__init__", lambda p_, a, kw: None)
        if k == "__setattr__": return Builtin("object.__setattr__", lambda p_, a, kw: inst.set(a[0], a[1]))
        if k == "__delattr__":
            def od(p_, a, kw):
                if a[0] not in inst.cells: throw(AttributeError, a[0])
                inst.delete(a[0])
            return Builtin("object.__delattr__", od)
        if k == "__getattribute__": return Builtin("object.__getattribute__", lambda p_, a, kw: inst_getattr(p, inst, a[0], hook=False))
        if k == "__eq__": return Builtin("object.__eq__", lambda p_, a, kw: True if a[0] is inst else NotImplemented)
        if k == "__ne__": return Builtin("object.__ne__", lambda p_, a, kw: NotImplemented)
        if k == "__hash__": return Builtin("object.__hash__", lambda p_, a, kw: SInt(z3.Int(f"hash_obj{inst.uid}")))
        if k in ("__repr__", "__str__"): return Builtin(k, lambda p_, a, kw: Opaque(k))
        if k == "__reduce_ex__": return Builtin(k, lambda p_, a, kw: Opaque(k))
    if isinstance(cls, type) and issubclass(cls, BaseException):
        if k == "__init__":
            return Builtin("BaseException.__init__", lambda p_, a, kw: inst.cells.__setitem__("args", tuple(a)))
        if k == "with_traceback":
            def wt(p_, a, kw):
                inst.set("__traceback__", a[0]); return inst
            return Builtin(k, wt)
        if k in ("__str__", "__repr__"): return Builtin(k, lambda p_, a, kw: Opaque(k))
    if cls in ABC_MIXIN:
        src = p.module("_collections_abc")
        c = p.get_global(src, cls.__name__)
        f = c.lookup(k) if isinstance(c, ClassObj) else None
        if isinstance(f, FuncObj): return BoundMethod(inst, f)
        if isinstance(f, ClassM): return BoundMethod(inst.cls, f.f)
    raise Unsupported(f"native method {cls.__name__}.{k}")


ABC_MIXIN = {_abc.Sequence, _abc.MutableSequence, _abc.Mapping, _abc.MutableMapping, _abc.Reversible, _abc.Collection, _abc.Iterable, _abc.Sized, _abc.Container, _abc.Set, _abc.MutableSet, _abc.Iterator, _abc.Hashable}


def bind_attr(p, v, inst, cls):
    if isinstance(v, (FuncObj,)): return BoundMethod(inst, v) if inst is not None else v
    if isinstance(v, StaticM): return v.f
    if isinstance(v, ClassM): return BoundMethod(cls, v.f)
    if isinstance(v, Prop):
        if inst is None: return v
        if v.get is None: throw(AttributeError, "unreadable attribute")
        return p.call(v.get, [inst])
    if isinstance(v, NativeMember) and inst is not None: return native_bound(p, inst, v)
    if isinstance(v, InstObj) and inst is not None and cls_lookup(v, "__get__") is not None and not isinstance(cls_lookup(v, "__get__"), NativeMember):
        return p.call(p.getattr(v, "__get__"), [inst, cls])
    return v


def inst_getattr(p, o, k, hook=True):
    cls = o.cls
    if k == "__class__": return cls
    if k == "__dict__": return InstDict(o)
    m = cls_lookup(o, k)
    if isinstance(m, Prop): return bind_attr(p, m, o, cls)
    if k in o.cells:
        v = o.cells[k]
        return v
    if m is not None: return bind_attr(p, m, o, cls)
    if hook:
        g = cls_lookup(o, "__getattr__")
        if g is not None and not isinstance(g, NativeMember): return p.call(g, [o, k])
    throw(AttributeError, k)


def class_getattr(p, o, k):
    if k == "__name__": return o.name
    if k == "__qualname__": return o.name
    if k == "__mro__": return tuple(o.mro)
    if k == "__module__": return o.module.name
    if k == "__bases__": return tuple(o.bases)
    if k == "__class__": return o.meta or type
    if k == "mro": return Builtin("mro", lambda p_, a, kw: ListObj(CSeq(o.mro)))
    if k == "register":
        def reg(p_, a, kw):
            o.registered.append(a[0]); return a[0]
        return Builtin("register", reg)
    v = o.lookup(k)
    if v is not None and not isinstance(v, NativeMember): return bind_attr(p, v, None, o)
    if o.meta is not None:
        mv = o.meta.lookup(k)
        if mv is not None and not isinstance(mv, NativeMember): return bind_attr(p, mv, o, o.meta)
    if isinstance(v, NativeMember): return native_class_member(p, o, v)
    if k == "__dict__":
        d = DictObj()
        for kk, vv in o.cells.items(): d.raw_set(kk, vv)
        return d
    throw(AttributeError, k)


def native_class_member(p, o, m):
    if m.name == "__new__": return Builtin("object.__new__", lambda p_, a, kw: InstObj(a[0]))
    def unbound(p_, a, kw):
        return p.call(native_bound(p, a[0], m), a[1:], kw)
    return Builtin(f"{m.cls.__name__}.{m.name}", unbound)


def instantiate(p, cls, args, kw):
    if cls.meta is not None:
        mc = cls.meta.lookup("__call__")
        if isinstance(mc, FuncObj): return p.call(mc, [cls] + args, kw)
    return type_call(p, cls, args, kw)


def type_call(p, cls, args, kw):
    nw = cls.lookup("__new__")
    if isinstance(nw, StaticM): nw = nw.f
    if isinstance(nw, FuncObj): o = p.call(nw, [cls] + args, kw)
    elif isinstance(nw, NativeMember) and not getattr(cls, "is_nt", False) and nw.cls is not object and not issubclass(nw.cls, BaseException) and nw.cls not in ABC_MIXIN and nw.cls.__module__ not in ("typing", "abc"):
        raise Unsupported(f"subclass of native {nw.cls.__name__}")
    else: o = InstObj(cls)
    if any(m is BaseException for m in cls.mro):
        for k in ("__cause__", "__context__", "__traceback__"): o.cells.setdefault(k, None)
        o.cells.setdefault("args", tuple(args))
    if isinstance(o, InstObj) and isinstance(o.cls, ClassObj) and cls in o.cls.mro:
        ini = o.cls.lookup("__init__")
        if isinstance(ini, FuncObj): p.call(ini, [o] + args, kw)
        elif isinstance(ini, NativeMember) and isinstance(nw, NativeMember) and (args or kw) and not any(m is BaseException for m in cls.mro):
            throw(TypeError, "takes no arguments")
    return o


# =============================================================== attribute access
def func_getattr(p, o, k):
    if k == "__code__": return CodeProxy(o)
    if k == "__get__": return Builtin("__get__", lambda p_, a, kw: BoundMethod(a[0], o) if a[0] is not None else o)
    if k == "__defaults__": return tuple(o.defaults) or None
    if k == "__kwdefaults__":
        if not o.kwdefaults: return None
        d = DictObj()
        for kk, v in o.kwdefaults.items(): d.raw_set(kk, v)
        return d
    if k == "__call__": return o
    if k == "__dict__": return InstDict(o)
    if k in o.cells: return o.cells[k]
    if k in ("__globals__", "__closure__"): return FnPart(o, k)
    if k == "__annotations__": return DictObj()
    if k == "__doc__": return None
    if k == "__module__": return "unpythonic"
    throw(AttributeError, k)


class CodeProxy:
    """the code object of a function of the program"""
    def __init__(self, f): self.f = f


class FnPart:
    """its globals or its closure"""
    def __init__(self, f, k): self.f, self.k = f, k


def make_function(p, args):
    """types.FunctionType(code, globals, name, defaults, closure): a second function object with the same code and variables"""
    co, gl, name, df, cl = args
    if not (isinstance(co, CodeProxy) and isinstance(gl, FnPart) and isinstance(cl, FnPart) and gl.f is co.f and cl.f is co.f and (df is None or isinstance(df, tuple))): raise Unsupported("FunctionType")
    o = co.f
    n = FuncObj(o.node, o.env, o.module, list(df or ()), {}, name, name)
    n.defcls = o.defcls
    return n


def func_setattr(p, o, k, v):
    if k == "__kwdefaults__":
        d = {}
        if v is not None:
            for kk, x in to_seq(p, p.call(p.getattr(v, "items"), [])).items: d[kk] = x
        o.kwdefaults = d
    elif k == "__defaults__": o.defaults = list(v or ())
    elif k == "__annotations__": pass
    elif k == "__code__":
        if not (isinstance(v, CodeProxy) and v.f.node is o.node): raise Unsupported("assignment to __code__")
    elif k == "__dict__":
        for kk, x in to_seq(p, p.call(p.getattr(v, "items"), [])).items: o.set(kk, x)
    else: o.set(k, v)


class NativeMod:
    def __init__(self, name, table): self.name, self.table = name, table
    def lookup(self, k):
        if k == "__dict__":
            d = DictObj()
            for kk, vv in self.table.items(): d.raw_set(kk, vv)
            return d
        if k in self.table: return self.table[k]
        return Unknown(f"{self.name}.{k}")


class Unknown:
    """a name the models do not know: an error only when used"""
    def __init__(self, name): self.name = name
    def __repr__(self): return f"<unknown {self.name}>"


def py_getattr(p, o, k):
    if isinstance(o, InstObj):
        ga = cls_lookup(o, "__getattribute__")
        if isinstance(ga, FuncObj): return p.call(ga, [o, k])
        return inst_getattr(p, o, k)
    if isinstance(o, FuncObj): return func_getattr(p, o, k)
    if isinstance(o, CodeProxy) and k == "replace":
        def rep(p_, a, kw):
            if a or set(kw) - {"co_name", "co_firstlineno"}: raise Unsupported("code.replace")
            return CodeProxy(o.f)
        return Builtin("code.replace", rep)
    if isinstance(o, BoundMethod):
        if k == "__self__": return o.self
        if k == "__func__": return o.fn
        if k == "__call__": return o
        return p.getattr(o.fn, k)
    if k == "__class__" and not isinstance(o, (SU, Opaque, Unknown)) and (isinstance(o, (ClassObj, type)) or is_typing(o)): return py_type(p, o) if not is_typing(o) else type(o)
    if is_typing(o):
        try: return getattr(o, k)
        except AttributeError: throw(AttributeError, k)
    if isinstance(o, ClassObj): return class_getattr(p, o, k)
    if isinstance(o, Module): return p.get_global(o, k)
    if isinstance(o, NativeMod): return o.lookup(k)
    if isinstance(o, SuperProxy): return super_getattr(p, o, k)
    if isinstance(o, ListObj): r = list_method(p, o, k)
    elif isinstance(o, DictObj): r = dict_method(p, o, k)
    elif isinstance(o, SetObj): r = set_method(p, o, k)
    elif isinstance(o, DictView): r = dunder(p, o, k)
    elif isinstance(o, GenObj):
        tab = {"send": lambda a: gen_op(p, lambda: o.send(p, a[0])), "throw": lambda a: gen_op(p, lambda: o.throw(p, p.as_exception(a[-1] if len(a) == 1 else a[1]))),
               "close": lambda a: o.close(p)}
        r = Builtin(k, lambda p_, a, kw: tab[k](a)) if k in tab else dunder(p, o, k)
    elif isinstance(o, Stream): r = dunder(p, o, k) if k in ("__next__", "__iter__") else None
    elif isinstance(o, UserIter): r = dunder(p, o, k) if k in ("__iter__",) else None
    elif isinstance(o, slice): return getattr(o, k) if k != "indices" else Builtin("indices", lambda p_, a, kw: slice_indices(p, o, a[0]))
    elif isinstance(o, (Rng, range)):
        o2 = to_rng(o)
        r = {"start": o2.start, "stop": o2.stop, "step": o2.step}[k] if k in ("start", "stop", "step") else dunder(p, o2, k)
    elif isinstance(o, (tuple, STuple)): r = tuple_method(p, o, k)
    elif isinstance(o, PartialObj):
        if "attr:" + k in o.cells: return o.get("attr:" + k)
        if k not in ("func", "args", "keywords"): throw(AttributeError, k)
        r = {"func": o.func, "args": tuple(o.args), "keywords": kwdict(o.kw)}.get(k)
    elif isinstance(o, SimpleObj): return o.getattr(p, k)
    elif isinstance(o, bm.SBytes): return bm.b_method(p, o, k, Builtin, throw)
    elif isinstance(o, (bm.Dec, bm.SText)):
        if k == "encode": return Builtin("str.encode", lambda p_, a, kw: bm.SRope([o]) if isinstance(o, bm.Dec) else o.b)
        raise Unsupported(f"str.{k} of symbolic text")
    elif isinstance(o, (str, bytes)):
        if k == "join" and isinstance(o, str): return Builtin("str.join", lambda p_, a, kw: str_join(p, o, a[0]))
        r = Builtin(f"str.{k}", lambda p_, a, kw: native_call(p, getattr(o, k), a, kw)) if hasattr(o, k) else None
    elif isinstance(o, type):
        return native_type_attr(p, o, k)
    elif isinstance(o, (SFun, Fn, Builtin)):
        if k == "__name__": return o.name
        r = None
    elif isinstance(o, Opaque) and k == "encode" and getattr(o, "parts", None): return Builtin("str.encode", lambda p_, a, kw: bm.cat(p.c, b"", bm.SRope(o.parts)))
    elif isinstance(o, Opaque): raise Unsupported(f"attribute of an opaque value ({o.why})")
    elif isinstance(o, Unknown): raise Unsupported(f"use of {o.name}")
    elif isinstance(o, SU):
        if p.c.on_getattr is not None: return p.c.on_getattr(p, o, k)
        raise Unsupported(f"attribute {k} of an opaque object")
    elif isinstance(o, (int, SInt, float, SBool)): r = None
    elif o is None: r = None
    else: raise Unsupported(f"attribute {k} of {o!r}")
    if r is None:
        if type(o) in (int, float, str, bytes, tuple, bool) and hasattr(o, k) or isinstance(o, (SInt, SBool)) and hasattr(int, k) or isinstance(o, (STuple, tuple)) and hasattr(tuple, k): raise Unsupported(f"attribute {k} of {o!r}")
        if isinstance(o, Stream) or isinstance(o, UserIter) or isinstance(o, (SFun, Fn)) or o is None or isinstance(o, (int, SInt, ListObj, DictObj, SetObj, tuple, STuple, Rng, str)): throw(AttributeError, k)
        raise Unsupported(f"attribute {k} of {o!r}")
    return r


def kwdict(kw):
    d = DictObj()
    for k, v in kw.items(): d.raw_set(k, v)
    return d


def gen_op(p, th):
    try: return th()
    except Stop as s: throw(StopIteration, *(() if s.value is None else (s.value,)))


def tuple_method(p, o, k):
    if k in ("index", "count"): raise Unsupported(f"tuple.{k}")
    return dunder(p, o, k)


def super_getattr(p, o, k):
    inst = o.inst
    cls = inst if isinstance(inst, ClassObj) else inst.cls
    mro = cls.mro
    if o.cls not in mro: cls = inst.cls if hasattr(inst, "cls") else cls; mro = cls.mro if o.cls in cls.mro else (inst.meta.mro if getattr(inst, "meta", None) else [])
    i = mro.index(o.cls)
    for m in mro[i + 1:]:
        if isinstance(m, ClassObj) and k in m.cells:
            v = m.cells[k]
            if k == "__new__": return v.f if isinstance(v, StaticM) else v
            return bind_attr(p, v, inst if not isinstance(inst, ClassObj) or isinstance(v, FuncObj) and k != "__new__" else None, cls)
        if isinstance(m, type) and k in m.__dict__:
            if m is type:
                if k == "__call__": return Builtin("type.__call__", lambda p_, a, kw: type_call(p, inst, a, kw))
                if k == "__new__": return Builtin("type.__new__", lambda p_, a, kw: make_class(p, a[1], list(a[2]), dict(dict_entries(p, a[3])), None, a[0]))
                if k == "__init__": return Builtin("type.__init__", lambda p_, a, kw: None)
            if k == "__new__": return Builtin("object.__new__", lambda p_, a, kw: InstObj(a[0]))
            if k == "__init_subclass__": return Builtin(k, lambda p_, a, kw: None)
            return native_bound(p, inst, NativeMember(m, k))
    throw(AttributeError, k)


def native_type_attr(p, t, k):
    if k == "__name__": return t.__name__
    if k == "register": return Builtin("register", lambda p_, a, kw: ABC_REG.setdefault(t, []).append(a[0]))
    if k == "__mro__": return t.__mro__
    if t is object:
        if k == "__new__": return Builtin("object.__new__", lambda p_, a, kw: InstObj(a[0]))
        if k in ("__setattr__", "__delattr__", "__getattribute__", "__init__", "__eq__", "__hash__"):
            return Builtin(f"object.{k}", lambda p_, a, kw: p.call(native_bound(p, a[0], NativeMember(object, k)), a[1:], kw))
    if t is _it.chain and k == "from_iterable":
        return p.get_global(p.module("pyvc_prelude"), "chain_from_iterable")
    if t is dict and k == "fromkeys": raise Unsupported("dict.fromkeys")
    if k in ("__doc__", "__module__"): return getattr(t, k)
    if hasattr(t, k) and t in (dict, list, tuple, set, frozenset, str):
        return Builtin(f"{t.__name__}.{k}", lambda p_, a, kw: p.call(p.getattr(a[0], k), a[1:], kw))
    if not hasattr(t, k): throw(AttributeError, k)
    raise Unsupported(f"{t.__name__}.{k}")


def py_setattr(p, o, k, v):
    if isinstance(o, InstObj):
        sa = cls_lookup(o, "__setattr__")
        if isinstance(sa, FuncObj): p.call(sa, [o, k, v]); return
        m = cls_lookup(o, k)
        if isinstance(m, Prop):
            if m.setf is None: throw(AttributeError, k)
            p.call(m.setf, [o, v]); return
        if isinstance(k, str) or True:
            o.set(k, v); return
    if isinstance(o, FuncObj): func_setattr(p, o, k, v); return
    if isinstance(o, ClassObj):
        o.set(k, v); return
    if isinstance(o, SimpleObj): o.setattr(p, k, v); return
    if isinstance(o, PartialObj): o.set("attr:" + k, v); return
    if isinstance(o, SU) and p.c.on_setattr is not None: p.c.on_setattr(p, o, k, v); return
    if isinstance(o, BoundMethod): throw(AttributeError, k)
    if isinstance(o, Module): o.set(k, v); return
    if isinstance(o, (SFun, Fn, Builtin)): return   # marks left on user callbacks are not modelled
    if o is None or isinstance(o, (int, str, tuple, ListObj, SInt)): throw(AttributeError, k)
    raise Unsupported(f"setattr on {o!r}")


def py_delattr(p, o, k):
    if isinstance(o, InstObj):
        da = cls_lookup(o, "__delattr__")
        if isinstance(da, FuncObj): p.call(da, [o, k]); return
        if k not in o.cells: throw(AttributeError, k)
        o.delete(k); return
    if isinstance(o, SimpleObj): o.delattr(p, k); return
    if isinstance(o, FuncObj) and k in o.cells: o.delete(k); return
    raise Unsupported(f"delattr on {o!r}")


class SimpleObj(HObj):
    """host-modelled object"""
    def getattr(self, p, k):
        m = getattr(self, "m_" + k, None)
        if m is not None: return Builtin(k, lambda p_, a, kw: m(p, *a, **kw))
        if k in self.cells: return self.cells[k]
        throw(AttributeError, k)
    def setattr(self, p, k, v): self.set(k, v)
    def delattr(self, p, k):
        if k not in self.cells: throw(AttributeError, k)
        self.delete(k)


class BytesIOObj(SimpleObj):
    """io.BytesIO written only at its end"""
    def __init__(self, v=b""): super().__init__(v=v)
    def getattr(self, p, k):
        if k in ("write", "getvalue", "close"): return super().getattr(p, k)
        raise Unsupported(f"BytesIO.{k}")
    def m_write(self, p, b):
        if not isinstance(b, (bytes, bm.SBytes)): throw(TypeError, "a bytes-like object is required")
        self.set("v", bm.cat(p.c, self.get("v"), b)); return mki(bm.blen(b)) if not isinstance(b, bm.SRope) else Opaque("length")
    def m_getvalue(self, p): return self.get("v")
    def m_close(self, p): return None


class IOBaseStub: pass


class LockObj(SimpleObj):
    """threading.Lock / RLock: mutual exclusion; hooks let a contract state the lock invariant"""
    def __init__(self, kind="Lock"):
        super().__init__(held=0)
        self.kind = kind
    def m___enter__(self, p): self.m_acquire(p); return True
    def m___exit__(self, p, *a): self.m_release(p); return None
    def m_acquire(self, p, *a, **k):
        h = self.get("held")
        if self.kind == "Lock" and (h if isinstance(h, int) else p.c.branch(iz(h) != 0)): raise Unsupported("deadlock: lock acquired twice by one thread")
        self.set("held", h + 1 if isinstance(h, int) else mki(iz(h) + 1))
        if p.c.x.on_acquire: p.c.x.on_acquire(p, self)
        return True
    def m_release(self, p):
        if p.c.x.on_release: p.c.x.on_release(p, self)
        h = self.get("held")
        self.set("held", h - 1 if isinstance(h, int) else mki(iz(h) - 1))


class ThreadLocal(SimpleObj):
    """threading.local: one set of attributes per thread (the current thread is c.tid)"""
    def __init__(self): super().__init__()
    def getattr(self, p, k):
        if k == "__dict__": raise Unsupported("__dict__ of a threading.local")
        k2 = (p.c.tid, k)
        if k2 in self.cells: return self.cells[k2]
        throw(AttributeError, k)
    def setattr(self, p, k, v): self.set((p.c.tid, k), v)
    def delattr(self, p, k):
        k2 = (p.c.tid, k)
        if k2 not in self.cells: throw(AttributeError, k)
        self.delete(k2)


def thread_obj(p, tid):
    ts = p.threads
    if tid not in ts:
        p.c.init_stack.append(["thread", str(tid), 0])
        try: ts[tid] = SimpleObj()
        finally: p.c.init_stack.pop()
        ts[tid].cells["ident"] = 1000 + tid
    return ts[tid]


class PartialObj(HObj):
    def __init__(self, func, args, kw):
        super().__init__()
        if isinstance(func, PartialObj) and not any(k.startswith("attr:") for k in func.cells):   # as functools.partial: flattened unless it has attributes
            args = list(func.args) + list(args); kw = {**func.kw, **kw}; func = func.func
        self.cells.update(func=func, args=tuple(args), kw=tuple(kw.items()))
    @property
    def func(self): return self.cells["func"]
    @property
    def args(self): return list(self.cells["args"])
    @property
    def kw(self): return dict(self.cells["kw"])


# =============================================================== item access
def py_getitem(p, o, k):
    if isinstance(o, (ListObj, tuple, STuple)):
        s = o.seq if isinstance(o, ListObj) else tseq(o)
        if isinstance(k, slice):
            if isinstance(o, DequeObj): throw(TypeError, "sequence index must be integer")
            r = seq_getslice(p, s, k)
            return ListObj(r) if isinstance(o, ListObj) else mktuple(r)
        if isinstance(k, SBool): k = mki(iz(k))
        if not isint(k) and not isinstance(k, bool): throw(TypeError, "indices must be integers or slices")
        return sat(s, norm_index(p, k, slen(s)))
    if isinstance(o, bm.SBytes):
        if isinstance(k, slice): return bm.b_slice(p, o, k)
        if not isinstance(o, bm.SWin): raise Unsupported("indexing composed bytes")
        return mki(bm.byte(o.lo + iz(norm_index(p, k, mki(o.hi - o.lo)))))
    if isinstance(o, DictObj):
        r = dict_get(p, o, k)
        if r is None: throw(KeyError, k)
        return r[0]
    if isinstance(o, (Rng, range)):
        o = to_rng(o)
        n = mki(rng_len(o))
        if isinstance(k, slice):
            a, b, st = slice_indices(p, k, n)
            return Rng(mki(iz(o.start) + iz(a) * iz(o.step)), mki(iz(o.start) + iz(b) * iz(o.step)), mki(iz(o.step) * iz(st)))
        j = norm_index(p, k, n)
        return mki(iz(o.start) + iz(j) * iz(o.step))
    if isinstance(o, InstObj):
        m = cls_lookup(o, "__getitem__")
        if m is None: throw(TypeError, "not subscriptable")
        return p.call(BoundMethod(o, m), [k])
    if isinstance(o, (str, bytes)):
        if isinstance(k, int) or isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)): return native_call(p, o.__getitem__, [k], {})
        return sat(tseq(o), norm_index(p, k, len(o)))
    if isinstance(o, type) and o in (list, dict, tuple, set, frozenset, type, _coll.deque) or is_typing(o):
        try: return o[k]
        except TypeError as e: raise Unsupported(f"typing: {e}")
    if isinstance(o, (ClassObj, type)): return o     # Generic[...]
    if isinstance(o, SimpleObj): return p.call(o.getattr(p, "__getitem__"), [k])
    if o is None or isint(o) or isinstance(o, (Stream, GenObj, UserIter)): throw(TypeError, "not subscriptable")
    raise Unsupported(f"subscript of {o!r}")


def py_setitem(p, o, k, v):
    if isinstance(o, ListObj):
        s = o.seq
        n = slen(s)
        if isinstance(k, slice):
            a, b, st = slice_indices(p, k, n)
            vs = to_seq(p, v)
            if conc(st) == 1 and k.step is None or conc(k.step) == 1:
                hi = mki(zmax(a, b))
                o.put(sconcat(sconcat(sslice(s, 0, a), vs), sslice(s, hi, n)))
                return
            r = rng_seq(Rng(a, b, st))
            if not p.c.branch(iz(slen(r)) == iz(slen(vs))): throw(ValueError, "attempt to assign sequence to extended slice")
            if isinstance(r, CSeq) and isinstance(s, CSeq) and isinstance(vs, CSeq):
                items = list(s.items)
                for j, x in zip(r.items, vs.items): items[j] = x
                o.put(CSeq(items)); return
            raise Unsupported("extended slice assignment on a symbolic list")
        j = norm_index(p, k, n)
        if isinstance(j, int) and isinstance(s, CSeq):
            items = list(s.items); items[j] = v
            o.put(CSeq(items)); return
        jz = iz(j)
        o.put(SSeq(iz(n), lambda i: ite(i == jz, v, sat(s, i))))
        return
    if isinstance(o, DictObj): dict_set(p, o, k, v); return
    if isinstance(o, InstObj):
        m = cls_lookup(o, "__setitem__")
        if m is None: throw(TypeError, "does not support item assignment")
        p.call(BoundMethod(o, m), [k, v]); return
    if isinstance(o, SimpleObj): p.call(o.getattr(p, "__setitem__"), [k, v]); return
    if isinstance(o, (tuple, STuple, str)): throw(TypeError, "does not support item assignment")
    raise Unsupported(f"item assignment on {o!r}")


def py_delitem(p, o, k):
    if isinstance(o, DictObj): dict_del(p, o, k); return
    if isinstance(o, ListObj) and not isinstance(k, slice):
        n = slen(o.seq); j = norm_index(p, k, n)
        o.put(sconcat(sslice(o.seq, 0, mki(iz(j))), sslice(o.seq, mki(iz(j) + 1), n))); return
    if isinstance(o, InstObj):
        m = cls_lookup(o, "__delitem__")
        if m is None: throw(TypeError, "does not support item deletion")
        p.call(BoundMethod(o, m), [k]); return
    if isinstance(o, SimpleObj): p.call(o.getattr(p, "__delitem__"), [k]); return
    raise Unsupported(f"del item of {o!r}")


def py_len(p, v):
    if isinstance(v, ListObj): return slen(v.seq)
    if isinstance(v, (tuple, STuple)): return slen(tseq(v))
    if isinstance(v, (str, bytes)): return len(v)
    if isinstance(v, bm.SBytes): return mki(bm.blen(v))
    if isinstance(v, (Rng, range)): return mki(rng_len(to_rng(v)))
    if isinstance(v, DictObj): return len(dict_entries(p, v))
    if isinstance(v, DictView): return len(v.items(p))
    if isinstance(v, SetObj):
        if v.base is not None: raise Unsupported("len of a symbolic set")
        return len(v.entries)
    if isinstance(v, InstObj):
        m = cls_lookup(v, "__len__")
        if m is not None: return p.call(BoundMethod(v, m), []) if not isinstance(m, NativeMember) else p.call(native_bound(p, v, m), [])
        throw(TypeError, "object has no len()")
    if isinstance(v, (Stream, GenObj, UserIter, int, SInt)) or v is None: throw(TypeError, "object has no len()")
    if isinstance(v, SU):
        f = z3.Function("py_len", U, I)
        p.c.assume(f(v.t) >= 0)
        return mki(f(v.t))
    raise Unsupported(f"len of {v!r}")


def py_contains(p, o, x):
    if isinstance(o, DictObj): return dict_get(p, o, x) is not None
    if isinstance(o, DictView) and o.kind == "keys": return dict_get(p, o.d, x) is not None
    if isinstance(o, SetObj): return set_has(p, o, x)
    if isinstance(o, (str, bytes)) and isinstance(x, (str, bytes)): return x in o
    if isinstance(o, bm.SBytes): return mkb(iz(bm.b_find(p, o, x)) != -1)
    if isinstance(o, InstObj):
        m = cls_lookup(o, "__contains__")
        if m is not None: return mkb(bz(py_bool(p, p.call(BoundMethod(o, m) if not isinstance(m, NativeMember) else native_bound(p, o, m), [x]))))
    if isinstance(o, (tuple, ListObj, DictView)) or isinstance(o, (list,)):
        s = to_seq(p, o) if not isinstance(o, DictView) else CSeq(o.items(p))
        if isinstance(s, CSeq):
            for e in s.items:
                if p.c.branch(z3.Or(same(e, x), bz(py_bool(p, py_eq(p, e, x))))): return True
            return False
    return p.call(p.get_global(p.module("pyvc_prelude"), "_contains"), [x, o])


def py_reversed(p, v):
    if isinstance(v, ListObj):
        return SrcIter(srev(v.seq))
    if isinstance(v, (tuple, STuple)): return SrcIter(srev(tseq(v)))
    if isinstance(v, (str, bytes)): return SrcIter(srev(tseq(v)))
    if isinstance(v, (Rng, range)): return SrcIter(srev(rng_seq(to_rng(v))))
    if isinstance(v, (DictObj,)): return SrcIter(srev(CSeq([k for k, _ in dict_entries(p, v)])))
    if isinstance(v, DictView): return SrcIter(srev(CSeq(v.items(p))))
    if isinstance(v, InstObj):
        m = cls_lookup(v, "__reversed__")
        if m is not None and not (isinstance(m, FuncObj) and False): return p.call(BoundMethod(v, m) if not isinstance(m, NativeMember) else native_bound(p, v, m), [])
        if cls_lookup(v, "__len__") is not None and cls_lookup(v, "__getitem__") is not None:
            n = py_len(p, v)
            if isinstance(n, int): return SrcIter(CSeq([p.getitem(v, n - 1 - j) for j in range(n)]))
        throw(TypeError, "not reversible")
    if isinstance(v, (Stream, GenObj, UserIter, SetObj)) or v is None: throw(TypeError, "not reversible")
    if isinstance(v, SU):
        r = su_special(p, v, "__reversed__")
        if r is not None: return r[0]
    raise Unsupported(f"reversed of {v!r}")


def su_special(p, v, name):
    """special method of an opaque object whose class the harness knows (c.on_class): (result,) or None"""
    oc = getattr(p.c, "on_class", None)
    cls = oc(p, v) if oc is not None else None
    if cls is None: return None
    m = cls.lookup(name)
    if m is None: throw(TypeError, f"no {name}")
    return (p.call(BoundMethod(v, m), []),)


# =============================================================== truth, comparison, arithmetic
def py_bool(p, v):
    """-> bool / SBool"""
    if isinstance(v, (bool, SBool)): return v
    if v is None: return False
    if isinstance(v, (int, float, str, bytes)): return bool(v)
    if isinstance(v, SInt): return mkb(v.t != 0)
    if isinstance(v, bm.SBytes): return mkb(bm.blen(v) > 0)
    if isinstance(v, SU): return SBool(truthy(v.t))
    if isinstance(v, (ListObj, tuple, STuple, Rng, range, DictObj, SetObj, DictView)): return mkb(iz(py_len(p, v)) > 0) if not (isinstance(v, DictObj) and v.base is not None) else dict_nonempty(p, v)
    if isinstance(v, InstObj):
        m = cls_lookup(v, "__bool__")
        if m is not None: return mkb(bz(py_bool(p, p.call(BoundMethod(v, m), []))))
        m = cls_lookup(v, "__len__")
        if m is not None: return mkb(iz(py_len(p, v)) != 0)
        return True
    if isinstance(v, Opaque):
        if v.why in TEXT: return SBool(p.c.bool("text_nonempty"))   # some text: either
        raise Unsupported("truth of an opaque value")
    return True


def dict_nonempty(p, d):
    if any(v is not DELETED for k, v in d.entries): return True
    raise Unsupported("truth of a symbolic dict")


def eqU(a, b): return a == b if Ctx.cur.eqclasses else z3.Or(eqf(a, b), eqf(b, a))


def py_eq(p, a, b):
    """== -> value"""
    if isinstance(a, InstObj) or isinstance(b, InstObj):
        return inst_eq(p, a, b)
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)): return mkb(iz(a) == iz(b))
    if isinstance(a, SU) or isinstance(b, SU):
        if p.c.x.eq_is_identity: return mkb(toU(a) == toU(b))
        return mkb(eqU(toU(a), toU(b)))
    if isinstance(a, (tuple, STuple)) and isinstance(b, (tuple, STuple)) or isinstance(a, ListObj) and isinstance(b, ListObj) and a.nat is b.nat:
        if a is b: return True
        sa, sb = to_seq(p, a), to_seq(p, b)
        if isinstance(sa, CSeq) and isinstance(sb, CSeq):
            if len(sa.items) != len(sb.items): return False
            r = True
            for x, y in zip(sa.items, sb.items):
                if x is y: continue
                e = py_bool(p, py_eq(p, x, y))
                r = mkb(z3.And(bz(r), z3.Or(same(x, y), bz(e))))
            return r
        raise Unsupported("equality of symbolic sequences")
    if isinstance(a, DictObj) and isinstance(b, DictObj):
        ea, eb = dict_entries(p, a), dict_entries(p, b)
        if len(ea) != len(eb): return False
        r = True
        for k, v in ea:
            o = dict_get(p, b, k)
            if o is None: return False
            r = mkb(z3.And(bz(r), z3.Or(same(v, o[0]), bz(py_bool(p, py_eq(p, v, o[0]))))))
        return r
    if isinstance(a, (SetObj, DictView)) and isinstance(b, (SetObj, DictView)):
        ea = a.entries if isinstance(a, SetObj) else a.items(p)
        eb = b.entries if isinstance(b, SetObj) else b.items(p)
        return len(ea) == len(eb) and all(p.truth(py_contains(p, b, e)) for e in ea)
    if isinstance(a, bm.SBytes) or isinstance(b, bm.SBytes):
        if not (isinstance(a, (bytes, bm.SBytes)) and isinstance(b, (bytes, bm.SBytes))): return False
        if isinstance(a, bytes) or isinstance(b, bytes): return mkb(bm.same_bytes(a, b))
        raise Unsupported("equality of two symbolic byte strings")
    if isinstance(a, HObj) or isinstance(b, HObj): return a is b
    if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported("comparison of an opaque value")
    if isinstance(a, (Rng, range)) and isinstance(b, (Rng, range)): raise Unsupported("range equality")
    if isinstance(a, (SInt, SBool, STuple, tuple)) or isinstance(b, (SInt, SBool, STuple, tuple)): return False
    try: return bool(a == b)
    except Exception: raise Unsupported("==")


def inst_eq(p, a, b):
    def try_(x, y):
        if not isinstance(x, InstObj): return NotImplemented
        m = cls_lookup(x, "__eq__")
        if isinstance(m, FuncObj): return p.call(m, [x, y])
        return NotImplemented
    r = try_(a, b)
    if r is NotImplemented: r = try_(b, a)
    if r is NotImplemented:
        if isinstance(a, SU) or isinstance(b, SU): return mkb(eqU(toU(a), toU(b)))
        return a is b
    return r


def py_lt(p, a, b, strict=True):
    if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
        return mkb(iz(a) < iz(b) if strict else iz(a) <= iz(b))
    if isinstance(a, float) or isinstance(b, float):
        if not is_sym(a) and not is_sym(b): return native_call(p, _op.lt if strict else _op.le, [a, b], {})
        inf = float("inf")
        if isinstance(a, SInt) and b in (inf, -inf): return b == inf
        if isinstance(b, SInt) and a in (inf, -inf): return a == -inf
    if isinstance(a, SU) or isinstance(b, SU):
        return mkb((ltf if strict else lef)(toU(a), toU(b)))
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)): return a < b if strict else a <= b
    if isinstance(a, InstObj) or isinstance(b, InstObj):
        for x, y, k in ((a, b, "__lt__" if strict else "__le__"), (b, a, "__gt__" if strict else "__ge__")):
            m = cls_lookup(x, k) if isinstance(x, InstObj) else None
            if isinstance(m, FuncObj):
                r = p.call(m, [x, y])
                if r is not NotImplemented: return r
    if isinstance(a, SetObj) and isinstance(b, SetObj):
        sub = all(p.truth(py_contains(p, b, e)) for e in a.entries)
        return sub and (not strict or len(a.entries) < len(b.entries))
    if a is None or b is None or isint(a) and isinstance(b, (ListObj, tuple, str)) or isint(b) and isinstance(a, (ListObj, tuple, str)): throw(TypeError, "not supported between instances")
    if isinstance(a, tuple) and isinstance(b, tuple):       # lexicographic, for tuples of known length
        for x, y in zip(a, b):
            if not p.truth(py_eq(p, x, y)): return compare(p, ast.Lt() if strict else ast.LtE(), x, y)
        return len(a) < len(b) if strict else len(a) <= len(b)
    raise Unsupported(f"ordering of {a!r} and {b!r}")


def py_is(a, b):
    if a is b: return True
    if isinstance(a, SU) or isinstance(b, SU): return mkb(toU(a) == toU(b))
    if isinstance(a, BoundMethod) or isinstance(b, BoundMethod): return False
    if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
        if a is None or b is None or isinstance(a, HObj) or isinstance(b, HObj): return False
        return mkb(same(a, b))
    if isinstance(a, HObj) or isinstance(b, HObj): return False
    if isinstance(a, (int, str, type(None), bool, bytes)) and isinstance(b, (int, str, type(None), bool, bytes)): return type(a) is type(b) and a == b
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return False if a is None or b is None else unsupported("is")
    return False


def unsupported(s): raise Unsupported(s)


def compare(p, op, a, b):
    t = type(op)
    if t is ast.Is: return py_is(a, b)
    if t is ast.IsNot: return mkb(z3.Not(bz(py_is(a, b))))
    if t is ast.Eq: return py_eq(p, a, b)
    if t is ast.NotEq:
        if isinstance(a, InstObj) and isinstance(cls_lookup(a, "__ne__"), FuncObj):
            return p.call(cls_lookup(a, "__ne__"), [a, b])
        return mkb(z3.Not(bz(py_bool(p, py_eq(p, a, b)))))
    if t is ast.Lt: return py_lt(p, a, b)
    if t is ast.Gt: return py_lt(p, b, a)
    if t is ast.LtE: return py_lt(p, a, b, False)
    if t is ast.GtE: return py_lt(p, b, a, False)
    if t is ast.In: return py_contains(p, b, a)
    if t is ast.NotIn: return mkb(z3.Not(bz(py_contains(p, b, a))))
    raise Unsupported("comparison")


OPS = {ast.Add: ("__add__", "__radd__", _op.add), ast.Sub: ("__sub__", "__rsub__", _op.sub), ast.Mult: ("__mul__", "__rmul__", _op.mul), ast.FloorDiv: ("__floordiv__", "__rfloordiv__", _op.floordiv),
       ast.Mod: ("__mod__", "__rmod__", _op.mod), ast.Div: ("__truediv__", "__rtruediv__", _op.truediv), ast.Pow: ("__pow__", "__rpow__", _op.pow), ast.BitOr: ("__or__", "__ror__", _op.or_),
       ast.BitAnd: ("__and__", "__rand__", _op.and_), ast.BitXor: ("__xor__", "__rxor__", _op.xor), ast.LShift: ("__lshift__", "__rlshift__", _op.lshift), ast.RShift: ("__rshift__", "__rrshift__", _op.rshift), ast.MatMult: ("__matmul__", "__rmatmul__", _op.matmul)}


def floordiv(a, b):
    cb = conc(b)
    if cb is not None and cb > 0: return a / b
    return z3.If(b > 0, a / b, (-a) / (-b))


def binop(p, op, a, b):
    t = type(op)
    name, rname, f = OPS[t]
    num = (int, float, complex)
    if isinstance(a, num) and isinstance(b, num):
        return native_call(p, f, [a, b], {})
    inf = float("inf")
    if t in (ast.Add, ast.Sub) and isinstance(a, float) and a in (inf, -inf) and isinstance(b, SInt): return a
    if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
        x, y = iz(a), iz(b)
        if t is ast.Add: return mki(x + y)
        if t is ast.Sub: return mki(x - y)
        if t is ast.Mult: return mki(x * y)
        if t in (ast.FloorDiv, ast.Mod):
            if not p.c.branch(y != 0): throw(ZeroDivisionError, "integer division or modulo by zero")
            q = floordiv(x, y)
            return mki(q) if t is ast.FloorDiv else mki(x - y * q)
        if t is ast.BitAnd and isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return mkb(z3.And(bz(a), bz(b)))
        if t is ast.BitOr and isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return mkb(z3.Or(bz(a), bz(b)))
        raise Unsupported(f"integer operation {name} on symbolic values")
    if isinstance(a, str) and t is ast.Mod: return Opaque("formatted string")
    if isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque)) and t is ast.Add: return a + b if isinstance(a, str) and isinstance(b, str) else Opaque("string")
    if isinstance(a, bytes) and isinstance(b, bytes) and t is ast.Add: return a + b
    if isinstance(a, (tuple, STuple)) and isinstance(b, (tuple, STuple)) and t is ast.Add:
        return mktuple(sconcat(tseq(a), tseq(b)))
    if isinstance(a, ListObj) and isinstance(b, ListObj) and t is ast.Add:
        return type(a)(sconcat(a.seq, b.seq))
    if t is ast.Mult and (isint(a) or isint(b)) and isinstance(b if isint(a) else a, (tuple, STuple, ListObj)):
        s, k = (b, a) if isint(a) else (a, b)
        sq = to_seq(p, s)
        r = seq_repeat(p, sq, k)
        return ListObj(r) if isinstance(s, ListObj) else mktuple(r)
    if isinstance(a, SetObj) and isinstance(b, (SetObj, DictView)) or isinstance(a, DictView) and isinstance(b, (SetObj, DictView)):
        if isinstance(a, DictView): a = make_set(p, a.items(p))
        if isinstance(b, DictView): b = make_set(p, b.items(p))
        m = {ast.BitOr: "union", ast.BitAnd: "intersection", ast.Sub: "difference"}.get(t)
        if m: return p.call(set_method(p, a, m), [b])
    if isinstance(a, InstObj) or isinstance(b, InstObj):
        r = NotImplemented
        if isinstance(a, InstObj):
            m = cls_lookup(a, name)
            if isinstance(m, FuncObj): r = p.call(m, [a, b])
        if r is NotImplemented and isinstance(b, InstObj):
            m = cls_lookup(b, rname)
            if isinstance(m, FuncObj): r = p.call(m, [b, a])
        if r is NotImplemented: throw(TypeError, "unsupported operand type(s)")
        return r
    if t is ast.Add and (isinstance(a, bm.SBytes) or isinstance(b, bm.SBytes)):
        if isinstance(a, (bytes, bm.SBytes)) and isinstance(b, (bytes, bm.SBytes)): return bm.cat(p.c, a, b)
        throw(TypeError, "can't concat to bytes")
    if isinstance(a, SU) or isinstance(b, SU):
        g = z3.Function("py" + name, U, U, U)
        return SU(g(toU(a), toU(b)))
    if t is ast.Mult and (isinstance(a, str) and isinstance(b, int) or isinstance(b, str) and isinstance(a, int)): return a * b
    if a is None or b is None or isinstance(a, (tuple, ListObj, str)) or isinstance(b, (tuple, ListObj, str)): throw(TypeError, "unsupported operand type(s)")
    raise Unsupported(f"operation {name} on {a!r}, {b!r}")


def seq_repeat(p, s, k):
    ck = conc(k)
    if isinstance(s, CSeq) and ck is not None: return CSeq(s.items * ck)
    if isinstance(s, CSeq) and len(s.items) == 1:
        n = zmax(k, 0)
        x = s.items[0]
        return SSeq(z3.simplify(n), lambda i: x)
    raise Unsupported("repetition of a symbolic sequence")


def unary(p, op, v):
    k = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(op)]
    if isinstance(v, InstObj):
        m = cls_lookup(v, k)
        if isinstance(m, FuncObj): return p.call(m, [v])
        throw(TypeError, "bad operand type for unary")
    if isinstance(v, SU): return SU(z3.Function("py" + k, U, U)(v.t))
    if isinstance(v, (bool, int, float)): return -v if k == "__neg__" else +v if k == "__pos__" else ~v
    if isinstance(v, SInt) and k != "__invert__": return v if k == "__pos__" else mki(-iz(v))
    raise Unsupported("unary operation")


def py_hash(p, v):
    if isinstance(v, InstObj):
        m = cls_lookup(v, "__hash__")
        if isinstance(m, FuncObj): return p.call(m, [v])
        return SInt(z3.Int(f"hash_obj{v.uid}"))
    if isinstance(v, (ListObj, DictObj)) or isinstance(v, SetObj) and v.nat is set: throw(TypeError, "unhashable type")
    if isinstance(v, tuple) or isinstance(v, (SU, SInt, str, int, type(None))):
        f = z3.Function("py_hash", U, I)
        if isinstance(v, tuple): v = tuple(py_hash_key(p, x) for x in v)
        return SInt(f(toU(v)))
    if isinstance(v, SetObj):
        if v.base is not None: raise Unsupported("hash of a symbolic set")
        f = z3.Function("py_hash_set", I, I, I)
        h = z3.IntVal(0)
        for x in v.entries: h = h + iz(py_hash(p, x))
        return SInt(f(h, z3.IntVal(len(v.entries))))
    raise Unsupported(f"hash of {v!r}")


def py_hash_key(p, x):
    return py_hash(p, x)


# =============================================================== types
def native_type(v):
    if isinstance(v, bool) or isinstance(v, SBool): return bool
    if isinstance(v, (int, SInt)): return int
    if isinstance(v, bm.SBytes): return bytes
    if isinstance(v, (bm.Dec, bm.SText)): return str
    if isinstance(v, (ListObj, DictObj, SetObj)): return v.nat
    if isinstance(v, (tuple, STuple)): return tuple
    if isinstance(v, FuncObj): return types.FunctionType
    if isinstance(v, BoundMethod): return types.MethodType
    if isinstance(v, (Builtin,)): return types.BuiltinFunctionType
    if isinstance(v, (SFun, Fn)): return types.FunctionType
    if isinstance(v, GenObj): return types.GeneratorType
    if isinstance(v, PartialObj): return _ft.partial
    if isinstance(v, (Rng,)): return range
    if isinstance(v, SrcIter): return type(iter([]))
    if isinstance(v, ISlice): return _it.islice
    if isinstance(v, ChainIter): return _it.chain
    if isinstance(v, TeeIter): return type(_it.tee([])[0])
    if isinstance(v, ZipIter): return zip
    if isinstance(v, MapIter): return map
    if isinstance(v, EnumIter): return enumerate
    if isinstance(v, Stream): return types.GeneratorType
    if isinstance(v, DictView): return {"keys": type({}.keys()), "values": type({}.values()), "items": type({}.items())}[v.kind]
    if isinstance(v, ThreadLocal): return _thr.local
    if isinstance(v, UserIter): return _UserIterable
    if isinstance(v, (InstObj, SU, Opaque, Unknown, ClassObj, SimpleObj)): return None
    return type(v)


class _UserIterable:
    def __iter__(self): pass


_isinst = {}
typeof = z3.Function("typeof", U, U)
issub = z3.Function("issub", U, U, B)


_solid = (int, float, complex, str, bytes, bytearray, list, tuple, dict, set, frozenset, type, range, slice, BaseException)


def isinst_facts(c, x, t, g):
    """what every Python object satisfies: subclass relations between the types asked about, and that builtins with different layouts exclude each other"""
    seen = c.__dict__.setdefault("isinst_seen", {})
    mine = seen.setdefault(x.get_id(), (x, {}))[1]
    if t in mine: return
    for t2, g2 in mine.items():
        try:
            if issubclass(t, t2): c.solver.add(z3.Implies(g(x), g2(x)))
            elif issubclass(t2, t): c.solver.add(z3.Implies(g2(x), g(x)))
            elif t in _solid and t2 in _solid: c.solver.add(z3.Not(z3.And(g(x), g2(x))))
        except TypeError: pass
    if t is type:
        for k in (BaseException, Exception, object): c.solver.add(z3.Implies(issub(x, toU(k)), g(x)))
    mine[t] = g


def py_isinstance(p, v, t):
    if isinstance(t, (tuple, ListObj)):
        r = False
        for x in to_seq(p, t).items:
            r = mkb(z3.Or(bz(r), bz(py_isinstance(p, v, x))))
        return r
    if isinstance(t, Unknown): raise Unsupported(f"isinstance with {t.name}")
    if is_typing(t):
        if isinstance(t, typing._SpecialGenericAlias): t = t.__origin__
        elif isinstance(t, types.UnionType): return py_isinstance(p, v, tuple(t.__args__))
        else: throw(TypeError, "isinstance() argument 2 cannot be a parameterized generic")
    if is_typing(v): return isinstance(t, type) and isinstance(v, t)
    if isinstance(t, Opaque): raise Unsupported("isinstance with an opaque type")
    if isinstance(v, InstObj):
        cls = v.cls
        if isinstance(t, ClassObj):
            if isinstance(cls, ClassObj) and t in cls.mro: return True
            return any(isinstance(m, ClassObj) and m in t.registered for m in (cls.mro if isinstance(cls, ClassObj) else [])) or any(r in cls.mro for r in t.registered if isinstance(cls, ClassObj))
        if isinstance(t, type):
            mro = cls.mro if isinstance(cls, ClassObj) else cls.__mro__
            if any(isinstance(m, type) and issubclass(m, t) for m in mro if m is not object or t is object): return True
            if any(r in mro for r in ABC_REG.get(t, [])): return True
            return structural_abc(v, t)
        if isinstance(t, SU):
            return mkb(issub(typeof(toU(v)), t.t))
        throw(TypeError, "isinstance() arg 2 must be a type")
    if isinstance(v, SU):
        if isinstance(t, SU): return mkb(issub(typeof(v.t), t.t))
        if isinstance(t, ClassObj) and t.module is not None and v.t.sort() == U and not getattr(p.c, "opaque_any", False): return False
        if isinstance(t, type) and issubclass(t, BaseException): return mkb(issub(typeof(v.t), toU(t)))
        key = t.name if isinstance(t, ClassObj) else t.__name__
        g = _isinst.setdefault(key, z3.Function(f"isinstance_{key}", U, B))
        if isinstance(t, type): isinst_facts(p.c, v.t, t, g)
        return mkb(g(v.t))
    if isinstance(v, ClassObj):
        if isinstance(t, ClassObj): return v.meta is not None and t in v.meta.mro
        return t in (type, object, _abc.Callable, _abc.Hashable)
    if isinstance(v, (Opaque, Unknown)): raise Unsupported(f"isinstance of {v!r}")
    if isinstance(t, ClassObj):
        nt = native_type(v)
        return any(isinstance(r, type) and nt is not None and issubclass(nt, r) for r in t.registered)
    if isinstance(v, SimpleObj):
        if getattr(v, "pytypes", None): return t in v.pytypes
        return isinstance(t, type) and native_type(v) is not None and issubclass(native_type(v), t)
    if isinstance(t, type):
        nt = native_type(v)
        try: return issubclass(nt, t)
        except TypeError: raise Unsupported("isinstance")
    if isinstance(t, SU): return mkb(issub(typeof(toU(v)), t.t))
    throw(TypeError, "isinstance() arg 2 must be a type")


_ABC_METHODS = {_abc.Iterable: ["__iter__"], _abc.Iterator: ["__iter__", "__next__"], _abc.Sized: ["__len__"], _abc.Container: ["__contains__"], _abc.Callable: ["__call__"],
                _abc.Collection: ["__len__", "__iter__", "__contains__"], _abc.Reversible: ["__reversed__", "__iter__"]}


def structural_abc(v, t):
    if t is _abc.Hashable:
        m = cls_lookup(v, "__hash__")
        return m is not None
    if t in _ABC_METHODS:
        return all(cls_lookup(v, k) is not None for k in _ABC_METHODS[t])
    return False


def py_type(p, v):
    if isinstance(v, InstObj): return v.cls
    if isinstance(v, ClassObj): return v.meta or type
    if isinstance(v, SU): return SU(typeof(v.t))
    if isinstance(v, (Opaque, Unknown)): return Opaque("type")
    t = native_type(v)
    if t is None: raise Unsupported(f"type of {v!r}")
    return t


def py_issubclass(p, a, t):
    if isinstance(t, tuple): return any(p.truth(py_issubclass(p, a, x)) for x in t)
    if is_typing(a) and (is_typing(t) or isinstance(t, type)):
        try: return issubclass(a, t)
        except TypeError as e: throw(TypeError, str(e))
    if is_typing(a): throw(TypeError, "issubclass() arg 1 must be a class")
    if is_typing(t):
        if isinstance(t, typing._SpecialGenericAlias): t = t.__origin__
        else: throw(TypeError, "issubclass() argument 2 cannot be a parameterized generic")
    if isinstance(a, ClassObj) and not isinstance(t, SU):
        if isinstance(t, ClassObj): return t in a.mro or any(r in a.mro for r in t.registered)
        if isinstance(t, type): return any(isinstance(m, type) and issubclass(m, t) for m in a.mro if m is not object or t is object) or any(r in a.mro for r in ABC_REG.get(t, []))
    if isinstance(a, type) and not isinstance(t, SU):
        if isinstance(t, ClassObj): return any(isinstance(r, type) and issubclass(a, r) for r in t.registered)
        if isinstance(t, type): return issubclass(a, t)
    if isinstance(a, SU) and isinstance(t, (SU, ClassObj, type)): return mkb(issub(a.t, toU(t)))
    if isinstance(t, SU) and isinstance(a, (ClassObj, type)): return mkb(issub(toU(a), t.t))
    if a is None or isinstance(a, (int, str, float, SInt, SBool, tuple, ListObj, InstObj)): throw(TypeError, "issubclass() arg 1 must be a class")
    if isinstance(a, (SU, Opaque, Unknown)) or isinstance(t, (SU, Opaque, Unknown)): raise Unsupported("issubclass")
    throw(TypeError, "issubclass() arg 1 must be a class")


# =============================================================== calls
def py_call(p, f, args, kw):
    if isinstance(f, type) and f.__module__ == "typing" and f.__name__ in ("TypeVar", "NewType") or f is typing.NewType: return f(*args, **kw)
    if isinstance(f, FuncObj): return p.call_function(f, args, kw)
    if isinstance(f, BoundMethod): return p.call(f.fn, [f.self] + args, kw)
    if isinstance(f, Builtin): return f.fn(p, args, kw)
    if isinstance(f, ClassObj):
        if p.summaries and f.module is not None:
            q = f"{getattr(f.module, 'name', f.module)}:{f.name}"
            if q in p.summaries: return p.summaries[q](p, args, kw)
        return instantiate(p, f, args, kw)
    if isinstance(f, SFun): return call_sfun(p, f, args, kw)
    if isinstance(f, Fn): return f.f(p, args, kw)
    if isinstance(f, PartialObj): return p.call(f.func, f.args + args, {**f.kw, **kw})
    if isinstance(f, NativeMember): return p.call(native_bound(p, args[0], f), args[1:], kw)
    if isinstance(f, InstObj):
        m = cls_lookup(f, "__call__")
        if m is None: throw(TypeError, "object is not callable")
        return p.call(BoundMethod(f, m), args, kw)
    if isinstance(f, type): return call_native_type(p, f, args, kw)
    if isinstance(f, Unknown): raise Unsupported(f"call of {f.name}")
    if isinstance(f, SU):
        if p.c.on_apply is not None: return p.c.on_apply(p, f, args, kw)
        raise Unsupported("call of an opaque object")
    if isinstance(f, StaticM): return p.call(f.f, args, kw)
    if callable(f) and not isinstance(f, (SInt,)): raise Unsupported(f"call of native {f!r}")
    throw(TypeError, "object is not callable")


class UserError(Exception):
    """an arbitrary exception raised by a callback"""


def call_sfun(p, f, args, kw):
    c = p.c
    if f.on_call is not None:
        r = f.on_call(p, args, kw)
        if r is not None: return r[0]
    us = [toU(a) for a in args] + [toU(kw[k]) for k in sorted(kw)]
    nm = f.name + "".join("_" + k for k in sorted(kw)) + f"/{len(us)}"
    c.events.append((f.name, tuple(args), dict(kw)))
    if f.may_raise and c.branch(z3.Function("raises_" + nm, *([U] * len(us)), B)(*us)):
        raise PyRaise(mkexc(UserError, f.name))
    rng = {"U": U, "bool": B, "int": I}[f.result]
    g = z3.Function(nm, *([U] * len(us)), rng)
    t = g(*us)
    return SU(t) if f.result == "U" else mkb(t) if f.result == "bool" else mki(t)


def call_symargs(p, f, s, kw):
    """call with a symbolic number of positional arguments: only for functions that declare it"""
    if isinstance(f, Fn) and getattr(f, "seqargs", None): return f.seqargs(p, s, kw)
    if isinstance(f, FuncObj) and f.node.args.vararg is not None and f.defcls is None:
        a = f.node.args
        k = len(a.posonlyargs) + len(a.args)
        if not p.c.branch(iz(slen(s)) >= k): raise Unsupported("call with too few of a symbolic number of arguments")
        p.symrest = STuple(sslice(s, k, slen(s)))
        try: return p.call_function(f, [sat(s, j) for j in range(k)], kw)
        finally: p.symrest = None
    if isinstance(f, BoundMethod) and isinstance(f.fn, FuncObj): return symargs_method(p, f.fn, f.self, s, kw)
    if isinstance(f, ClassObj) and f.meta is None and isinstance(f.lookup("__init__"), FuncObj):
        nw = f.lookup("__new__")
        if isinstance(nw, NativeMember) and nw.cls is object:
            o = InstObj(f)
            symargs_method(p, f.lookup("__init__"), o, s, kw)
            return o
    raise Unsupported("call with a symbolic number of arguments")


def symargs_method(p, f, self_, s, kw):
    a = f.node.args
    k = len(a.posonlyargs) + len(a.args) - 1
    if a.vararg is None or k < 0: raise Unsupported("call with a symbolic number of arguments")
    if k and not p.c.branch(iz(slen(s)) >= k): raise Unsupported("call with too few of a symbolic number of arguments")
    p.symrest = STuple(sslice(s, k, slen(s)))
    try: return p.call_function(f, [self_] + [sat(s, j) for j in range(k)], kw)
    finally: p.symrest = None


def str_join(p, sep, it):
    s = to_seq(p, it)
    if isinstance(s, CSeq) and all(isinstance(x, str) for x in s.items): return sep.join(s.items)
    if isinstance(s, CSeq) and all(isinstance(x, str) or (isinstance(x, Opaque) and x.why in TEXT) for x in s.items): return Opaque("formatted string")
    raise Unsupported("str.join on symbolic values")


def native_call(p, f, args, kw):
    if any(is_sym(a) or isinstance(a, HObj) for a in list(args) + list(kw.values())): raise Unsupported(f"native call {f!r} on symbolic values")
    try: return f(*args, **kw)
    except Exception as e: throw(type(e), *e.args)


def call_native_type(p, t, args, kw):
    if issubclass(t, BaseException):
        e = mkexc(t, *args)
        if t is StopIteration: e.cells["value"] = args[0] if args else None
        return e
    if t is list: return ListObj(to_seq(p, args[0]) if args else CSeq(()))
    if t is tuple:
        if args and isinstance(args[0], (tuple, STuple)): return args[0]
        return mktuple(to_seq(p, args[0])) if args else ()
    if t is dict:
        d = DictObj(); dict_update(p, d, args, kw); return d
    if t in (set, frozenset):
        s = to_seq(p, args[0]) if args else CSeq(())
        if not isinstance(s, CSeq): raise Unsupported("set of a symbolic sequence")
        return make_set(p, s.items, t)
    if t is _coll.deque:
        ml = args[1] if len(args) > 1 else kw.get("maxlen")
        d = DequeObj(CSeq(()), ml)
        if ml is not None: p.c.bounds.append(iz(ml))
        if ml is not None and conc(ml) is None and not p.c.branch(iz(ml) >= 0): throw(ValueError, "maxlen must be non-negative")
        if args: deque_fill(p, d, args[0])
        return d
    if t is int:
        if not args: return 0
        v = args[0]
        if isinstance(v, (SInt, int)): return v if not isinstance(v, bool) else int(v)
        if isinstance(v, SBool): return mki(iz(v))
        if isinstance(v, bm.SBytes): return bm.to_int(p, v, throw)
        if isinstance(v, bm.SText): return bm.to_int(p, v.b, throw)
        if isinstance(v, (str, bytes, float)) : return native_call(p, int, args, kw)
        raise Unsupported("int()")
    if t is bool: return py_bool(p, args[0]) if args else False
    if t in (float, complex) and not any(is_sym(a) or isinstance(a, HObj) for a in args): return native_call(p, t, args, kw)
    if t is str:
        if not args: return ""
        if isinstance(args[0], SInt): return bm.Dec(args[0].t)
        return args[0] if isinstance(args[0], str) else str(args[0]) if isinstance(args[0], int) else Opaque("str")
    if t is type:
        if len(args) == 1: return py_type(p, args[0])
        raise Unsupported("type(name, bases, ns)")
    if t is types.FunctionType: return make_function(p, args)
    if t is types.MethodType: return BoundMethod(args[1], args[0])
    if t is slice:
        return slice(*args)
    if t is object: return InstObj(object)
    if t is range:
        a = args if len(args) > 1 else [0] + args
        st = a[2] if len(a) > 2 else 1
        if not all(isint(x) or isinstance(x, bool) for x in (a[0], a[1], st)): throw(TypeError, "range arguments must be integers")
        return Rng(a[0], a[1], st)
    if t is enumerate: return EnumIter(py_iter(p, args[0]), kw.get("start", args[1] if len(args) > 1 else 0))
    if t is zip: return ZipIter([py_iter(p, a) for a in args])
    if t is map: return MapIter(args[0], [py_iter(p, a) for a in args[1:]])
    if t is reversed: return py_reversed(p, args[0])
    if t is filter: return p.call(p.get_global(p.module("pyvc_prelude"), "filter_"), args)
    if t is property: return Prop(*args, **{{"fget": "get", "fset": "setf"}[k]: x for k, x in kw.items() if k in ("fget", "fset")})
    if t is staticmethod: return StaticM(args[0])
    if t is classmethod: return ClassM(args[0])
    if t is super: return SuperProxy(*args)
    if t is _it.chain: return ChainIter(args)
    if t is _it.islice: return make_islice(p, args)
    if t is _it.zip_longest: return ZipLongestIter([py_iter(p, a) for a in args], kw.get("fillvalue"))
    if t is _it.starmap: return MapIter(args[0], [py_iter(p, args[1])], star=True)
    if t is _it.filterfalse: return p.call(p.get_global(p.module("pyvc_prelude"), "filterfalse_"), args)
    if t is _it.takewhile: return p.call(p.get_global(p.module("pyvc_prelude"), "takewhile_"), args)
    if t is _it.dropwhile: return p.call(p.get_global(p.module("pyvc_prelude"), "dropwhile_"), args)
    if t is _it.count:
        a = args[0] if args else 0; st = args[1] if len(args) > 1 else 1
        return SrcIter(SSeq(None, lambda i: mki(iz(a) + i * iz(st)), inf=True))
    if t is _it.repeat:
        x = args[0]
        if len(args) > 1: return SrcIter(seq_repeat(p, CSeq((x,)), args[1]))
        return SrcIter(SSeq(None, lambda i: x, inf=True))
    if t is _ft.partial: return PartialObj(args[0], args[1:], kw)
    if t is _thr.local: return ThreadLocal()
    raise Unsupported(f"call of {t.__name__}")


def deque_fill(p, d, iterable):
    it = py_iter(p, iterable)
    if not isinstance(it, GenObj) and not concrete_stream(p, it):
        r = stream_rest(p, it)
        if r is not None:
            if getattr(r, "inf", False): raise Unsupported("draining an infinite stream does not terminate")
            stream_exhaust(p, it)
            list_extend(p, d, ListObj(r)); return
    def body(x):
        list_append(p, d, x)
        return None
        yield
    p.run_plain(p.drive(it, body, DrainNode, None))


def make_islice(p, args):
    it = py_iter(p, args[0])
    if len(args) == 2: start, stop, step = 0, args[1], 1
    else: start, stop, step = args[1], args[2], args[3] if len(args) > 3 else 1
    start = 0 if start is None else start
    step = 1 if step is None else step
    for x in (start, stop):
        if x is None: continue
        if not isint(x): throw(ValueError, "islice indices")
        if conc(x) is None:
            if not p.c.branch(iz(x) >= 0): throw(ValueError, "Stop argument for islice() must be None or an integer: 0 <= x <= sys.maxsize.")
        elif conc(x) < 0: throw(ValueError, "islice")
    if conc(step) != 1:
        if conc(step) is not None and conc(step) < 1 or not isint(step): throw(ValueError, "Step for islice() must be a positive integer or None.")
        if conc(step) is None and not p.c.branch(iz(step) >= 1): throw(ValueError, "Step for islice() must be a positive integer or None.")
        return StepSlice(it, start, stop, step)
    return ISlice(it, start, stop)


class StepSlice(Stream):
    """islice(it, start, stop, step) with step > 1 over an input with a closed form"""
    def __init__(self, it, start, stop, step):
        super().__init__(k=0, done=False)
        self.it, self.start, self.stop, self.step = it, start, stop, step
        self.base = None
    def nxt(self, p):
        if p.truth(self.get("done")): raise Stop
        k = self.get("k")
        idx = iz(self.start) + iz(k) * iz(self.step)
        skip = iz(self.start) if conc(k) == 0 else iz(self.step) - 1
        if conc(k) is None: skip = z3.If(iz(k) == 0, iz(self.start), iz(self.step) - 1)
        if self.stop is not None and not p.c.branch(idx < iz(self.stop)):
            # consume up to stop
            used = z3.If(iz(k) == 0, z3.IntVal(0), idx - iz(self.step) + 1)
            adv = z3.If(iz(self.stop) - used > 0, iz(self.stop) - used, z3.IntVal(0))
            self.it.advance(p, z3.simplify(adv))
            self.set("done", True)
            raise Stop
        self.it.advance(p, z3.simplify(skip))
        try: v = py_next(p, self.it)
        except Stop:
            self.set("done", True); raise
        self.set("k", mki(iz(k) + 1))
        return v
    def rest(self, p):
        if conc(self.get("k")) != 0 or self.get("done") is not False: return None
        r = stream_rest(p, self.it)
        if r is None: return None
        a, st = iz(self.start), iz(self.step)
        if getattr(r, "inf", False):
            if self.stop is None: return SSeq(None, lambda i: sat(r, a + i * st), inf=True)
            hi = iz(self.stop)
        else:
            hi = iz(slen(r)) if self.stop is None else zmin(self.stop, slen(r))
        q = rng_seq(Rng(mki(a), mki(hi), self.step))
        if isinstance(q, CSeq): return CSeq([sat(r, iz(j)) for j in q.items])
        return SSeq(q.n, lambda i: sat(r, a + i * st))
    def exhaust(self, p):
        if self.stop is None: stream_exhaust(p, self.it)
        else: self.it.advance(p, iz(self.stop))
        self.set("done", True)


def make_tee(p, a, kw):
    n = a[1] if len(a) > 1 else 2
    it = py_iter(p, a[0])
    if isinstance(it, TeeIter):
        return tuple([it if False else TeeIter(it.buf, it.get("pos")) for _ in range(n)])
    r = stream_rest(p, it)
    if r is None: raise Unsupported("tee of a generator")
    buf = TeeBuf(it, r)
    return tuple(TeeIter(buf) for _ in range(n))


# =============================================================== builtins and native modules
def make_builtins(p):
    b = {}
    def reg(name):
        def d(f): b[name] = Builtin(name, f); return f
        return d
    @reg("iter")
    def _(p, a, kw):
        if len(a) == 2: raise Unsupported("iter with sentinel")
        return py_iter(p, a[0])
    @reg("next")
    def _(p, a, kw):
        try:
            return py_next(p, a[0])
        except Stop as s:
            if len(a) > 1: return a[1]
            throw(StopIteration, *(() if s.value is None else (s.value,)))
    @reg("len")
    def _(p, a, kw): return py_len(p, a[0])
    @reg("isinstance")
    def _(p, a, kw): return py_isinstance(p, a[0], a[1])
    @reg("issubclass")
    def _(p, a, kw): return py_issubclass(p, a[0], a[1])
    @reg("eval")
    def _(p, a, kw):
        text, g = a[0], a[1] if len(a) > 1 else None
        if kw or len(a) != 2 or not isinstance(text, str) or not isinstance(g, DictObj) or g.base is not None or not all(isinstance(k, str) for k, _ in g.entries): raise Unsupported("eval")
        import hashlib, interp
        k = 0
        while (mod := f"eval{k}_" + hashlib.md5(text.encode()).hexdigest()) in p.modules: k += 1
        interp.USER[mod] = "_result = (" + text + "\n)"
        m = p.module(mod)
        for n, x in g.entries: m.set(n, x)
        return p.get_global(m, "_result")
    @reg("callable")
    def _(p, a, kw):
        v = a[0]
        if isinstance(v, InstObj): return cls_lookup(v, "__call__") is not None
        if isinstance(v, SU): return mkb(z3.Function("py_callable", U, B)(v.t))
        if is_typing(v): return callable(v)
        return isinstance(v, (FuncObj, BoundMethod, Builtin, ClassObj, SFun, Fn, PartialObj, type))
    @reg("getattr")
    def _(p, a, kw):
        try: return p.getattr(a[0], a[1])
        except PyRaise as e:
            if len(a) > 2 and p.exc_matches(e.exc, AttributeError): return a[2]
            raise
    @reg("hasattr")
    def _(p, a, kw):
        try: p.getattr(a[0], a[1]); return True
        except PyRaise as e:
            if p.exc_matches(e.exc, AttributeError): return False
            raise
    @reg("setattr")
    def _(p, a, kw): p.setattr(*a)
    @reg("delattr")
    def _(p, a, kw): p.delattr(*a)
    @reg("repr")
    def _(p, a, kw):
        if isinstance(a[0], (str, int, type)) or is_typing(a[0]): return repr(a[0])
        if isinstance(a[0], ClassObj): return f"<class 'user.{a[0].name}'>"
        return Opaque("repr")
    @reg("id")
    def _(p, a, kw):
        if isinstance(a[0], HObj): return a[0].uid
        return mki(z3.Function("py_id", U, I)(toU(a[0])))
    @reg("hash")
    def _(p, a, kw): return py_hash(p, a[0])
    @reg("abs")
    def _(p, a, kw):
        v = a[0]
        if isinstance(v, SInt): return mki(z3.If(v.t >= 0, v.t, -v.t))
        if isinstance(v, SU): return SU(z3.Function("py_abs", U, U)(v.t))
        if isinstance(v, InstObj): return p.call(p.getattr(v, "__abs__"), [])
        return native_call(p, abs, a, kw)
    def minmax(name, better):
        def f(p, a, kw):
            if kw: raise Unsupported(f"{name} with key/default")
            xs = list(to_seq(p, a[0]).items) if len(a) == 1 and isinstance(to_seq(p, a[0]), CSeq) else a
            if len(a) == 1 and not isinstance(to_seq(p, a[0]), CSeq): raise Unsupported(name)
            if not xs: throw(ValueError, f"{name}() arg is an empty sequence")
            r = xs[0]
            for x in xs[1:]: r = ite(bz(better(p, x, r)), x, r)
            return r
        return f
    b["min"] = Builtin("min", minmax("min", lambda p, x, r: py_lt(p, x, r)))
    b["max"] = Builtin("max", minmax("max", lambda p, x, r: py_lt(p, r, x)))
    @reg("all")
    def _(p, a, kw): return p.call(p.get_global(p.module("pyvc_prelude"), "all_"), a)
    @reg("any")
    def _(p, a, kw): return p.call(p.get_global(p.module("pyvc_prelude"), "any_"), a)
    @reg("sum")
    def _(p, a, kw): return p.call(p.get_global(p.module("pyvc_prelude"), "sum_"), a, kw)
    @reg("sorted")
    def _(p, a, kw):
        s = to_seq(p, a[0])
        if isinstance(s, CSeq) and all(isinstance(x, (str, int)) for x in s.items) and not kw: return ListObj(CSeq(sorted(s.items)))
        if isinstance(s, CSeq) and all(isinstance(x, tuple) and x and isinstance(x[0], str) for x in s.items) and len({x[0] for x in s.items}) == len(s.items) and not kw:
            return ListObj(CSeq(sorted(s.items, key=lambda x: x[0])))
        if isinstance(s, CSeq) and set(kw) <= {"key", "reverse"} and isinstance(kw.get("reverse", False), bool):
            ks = [p.call(kw["key"], [x]) for x in s.items] if kw.get("key") is not None else list(s.items)
            if all(type(k) is str for k in ks) or all(type(k) is int for k in ks):
                o = sorted(range(len(ks)), key=lambda j: ks[j], reverse=kw.get("reverse", False))
                return ListObj(CSeq([s.items[j] for j in o]))
        raise Unsupported("sorted")
    @reg("vars")
    def _(p, a, kw):
        if a[0] is object:
            d = DictObj()
            for k in vars(object): d.raw_set(k, NativeMember(object, k))
            return d
        return p.getattr(a[0], "__dict__")
    @reg("print")
    def _(p, a, kw): return None
    @reg("divmod")
    def _(p, a, kw): return (binop(p, ast.FloorDiv(), a[0], a[1]), binop(p, ast.Mod(), a[0], a[1]))
    @reg("globals")
    def _(p, a, kw): raise Unsupported("globals()")
    for t in (list, tuple, dict, set, frozenset, int, bool, str, bytes, float, complex, type, slice, object, range, enumerate, zip, map, filter, reversed, property, staticmethod, classmethod, super, bytearray, memoryview):
        b[t.__name__] = t
    for n in dir(_bi):
        v = getattr(_bi, n)
        if isinstance(v, type) and issubclass(v, BaseException): b[n] = v
    b["NotImplemented"] = NotImplemented
    b["Ellipsis"] = Ellipsis
    b["__debug__"] = True
    return b


def py_wraps(p, a, kw):
    wrapped = a[0]
    def deco(p, b, kw2):
        f = b[0]
        if isinstance(f, (FuncObj,)):
            if isinstance(wrapped, HObj) and hasattr(wrapped, "cells"):
                for k in ("__name__", "__qualname__", "__doc__", "__module__"):
                    if k in wrapped.cells: f.cells[k] = wrapped.cells[k]
                if isinstance(wrapped, PartialObj):
                    for k, v in wrapped.cells.items():
                        if k.startswith("attr:"): func_setattr(p, f, k[5:], v)
                if isinstance(wrapped, FuncObj):
                    for k, v in wrapped.cells.items():
                        if k not in ("__name__", "__qualname__", "__doc__", "__module__", "__wrapped__"): f.cells[k] = v
            f.cells["__wrapped__"] = wrapped
        return f
    return Builtin("wraps-decorator", deco)


def opfn(op):
    return lambda p, a, kw: binop(p, op, a[0], a[1])


def native_module(p, name):
    pre = lambda n: p.get_global(p.module("pyvc_prelude"), n)
    if name == "builtins":
        return NativeMod(name, p.builtins)
    if name == "io":
        return NativeMod(name, {"BytesIO": Builtin("BytesIO", lambda p_, a, kw: BytesIOObj(*a) if not a or not isinstance(a[0], (bytes, bm.SBytes)) or not a[0] else _unsup("BytesIO with initial contents")), "IOBase": IOBaseStub})
    if name == "itertools":
        class Lazy(dict):
            def __contains__(self, k): return True
            def __getitem__(self, k):
                if k == "tee": return Builtin("tee", make_tee)
                v = getattr(_it, k)
                if k in ("groupby", "accumulate", "cycle", "compress", "product", "combinations"):
                    try: return pre(k)
                    except PyRaise: return Unknown(f"itertools.{k}")
                return v
        return NativeMod(name, Lazy())
    if name == "functools":
        return NativeMod(name, {"wraps": Builtin("wraps", py_wraps), "partial": _ft.partial, "update_wrapper": Builtin("update_wrapper", lambda p, a, kw: p.call(p.call(Builtin("wraps", py_wraps), [a[1]]), [a[0]])),
                                "lru_cache": Unknown("lru_cache"), "reduce": pre_lazy(p, "reduce_"), "singledispatch": Unknown("singledispatch")})
    if name == "collections":
        return NativeMod(name, {"deque": _coll.deque, "abc": native_module(p, "collections.abc"), "namedtuple": Builtin("namedtuple", make_namedtuple), "OrderedDict": dict, "ChainMap": Unknown("ChainMap"), "defaultdict": Unknown("defaultdict"), "Counter": Unknown("Counter")})
    if name == "collections.abc": return NativeMod(name, {k: getattr(_abc, k) for k in _abc.__all__})
    if name == "operator":
        t = {"itemgetter": Builtin("itemgetter", lambda p, a, kw: Builtin("getter", lambda p, b, k2: p.getitem(b[0], a[0]) if len(a) == 1 else tuple(p.getitem(b[0], x) for x in a))),
             "attrgetter": Builtin("attrgetter", lambda p, a, kw: Builtin("getter", lambda p, b, k2: p.getattr(b[0], a[0]))),
             "not_": Builtin("not_", lambda p, a, kw: mkb(z3.Not(bz(py_bool(p, a[0]))))), "neg": Builtin("neg", lambda p, a, kw: unary(p, ast.USub(), a[0])), "pos": Builtin("pos", lambda p, a, kw: unary(p, ast.UAdd(), a[0])), "invert": Builtin("invert", lambda p, a, kw: unary(p, ast.Invert(), a[0])),
             "index": Builtin("index", lambda p, a, kw: a[0] if isint(a[0]) else throw(TypeError, "not an integer"))}
        for n, o in (("add", ast.Add()), ("sub", ast.Sub()), ("mul", ast.Mult()), ("floordiv", ast.FloorDiv()), ("mod", ast.Mod()), ("truediv", ast.Div()), ("pow", ast.Pow()), ("lshift", ast.LShift()), ("rshift", ast.RShift()), ("and_", ast.BitAnd()), ("or_", ast.BitOr()), ("xor", ast.BitXor())):
            t[n] = Builtin(n, opfn(o))
        for n, o in (("lt", ast.Lt()), ("le", ast.LtE()), ("gt", ast.Gt()), ("ge", ast.GtE()), ("eq", ast.Eq()), ("ne", ast.NotEq()), ("is_", ast.Is()), ("is_not", ast.IsNot())):
            t[n] = Builtin(n, lambda p, a, kw, o=o: compare(p, o, a[0], a[1]))
        t["contains"] = Builtin("contains", lambda p, a, kw: py_contains(p, a[0], a[1]))
        return NativeMod(name, t)
    if name == "threading":
        return NativeMod(name, {"Lock": Builtin("Lock", lambda p, a, kw: LockObj("Lock")), "RLock": Builtin("RLock", lambda p, a, kw: LockObj("RLock")), "local": _thr.local,
                                "current_thread": Builtin("current_thread", lambda p, a, kw: thread_obj(p, p.c.tid)), "main_thread": Builtin("main_thread", lambda p, a, kw: thread_obj(p, 0)),
                                "get_ident": Builtin("get_ident", lambda p, a, kw: 1000 + p.c.tid), "Thread": Unknown("Thread")})
    if name == "inspect":
        t = {"isclass": Builtin("isclass", lambda p, a, kw: isinstance(a[0], (ClassObj, type))), "isfunction": Builtin("isfunction", lambda p, a, kw: isinstance(a[0], (FuncObj,))),
             "ismethod": Builtin("ismethod", lambda p, a, kw: isinstance(a[0], BoundMethod)), "isgenerator": Builtin("isgenerator", lambda p, a, kw: mkb(isgen(a[0].t)) if isinstance(a[0], SU) else isinstance(a[0], GenObj) or isinstance(a[0], Stream) and getattr(a[0], "asgen", False)),
             "isgeneratorfunction": Builtin("isgeneratorfunction", lambda p, a, kw: isinstance(a[0], FuncObj) and has_yield(a[0].node)), "signature": Builtin("signature", py_signature), "unwrap": Builtin("unwrap", py_unwrap)}
        class LazyI(dict):
            def __contains__(self, k): return k in t or k in ("Parameter", "BoundArguments", "Signature", "_empty")
            def __getitem__(self, k): return t[k] if k in t else inspect_global(p, k)
        return NativeMod(name, LazyI())
    if name == "contextlib": return NativeMod(name, {"contextmanager": pre_lazy(p, "contextmanager")})
    if name == "copy": return NativeMod(name, {"copy": Builtin("copy", py_copy), "deepcopy": Unknown("deepcopy")})
    if name == "abc": return NativeMod(name, {"ABCMeta": type, "abstractmethod": Builtin("abstractmethod", lambda p, a, kw: a[0]), "ABC": object})
    if name == "types":
        return NativeMod(name, {k: getattr(types, k) for k in types.__all__})
    if name == "sys": return NativeMod(name, {"version_info": (3, 12, 3, "final", 0), "maxsize": 2**63 - 1, "exc_info": Builtin("exc_info", lambda p, a, kw: (py_type(p, p.excstack[-1]), p.excstack[-1], None) if p.excstack else (None, None, None))})
    if name == "queue":
        import queue
        return NativeMod(name, {"Empty": queue.Empty, "Queue": queue.Queue})
    if name == "weakref": return NativeMod(name, {"WeakValueDictionary": Builtin("WeakValueDictionary", lambda p, a, kw: DictObj())})
    if name == "typing":
        t = {k: x for k, x in vars(typing).items() if not isinstance(x, types.FunctionType) or k == "NewType"}
        t["get_type_hints"] = Builtin("get_type_hints", get_type_hints)
        return NativeMod(name, t)
    if name in ("math", "enum", "traceback", "weakref", "time", "pickle", "warnings", "ctypes", "io", "re", "select", "socket", "string", "numbers", "random", "os", "platform", "mpmath", "sympy", "mcpyrate", "mcpyrate.quotes", "mcpyrate.utils", "atexit", "keyword", "linecache"):
        return NativeMod(name, {})
    return None


# typing: the objects of the typing module are used as they are
def is_typing(o):
    return not isinstance(o, type) and (type(o).__module__ == "typing" or isinstance(o, (types.GenericAlias, types.UnionType)))


def get_type_hints(p, a, kw):
    f = a[0]
    if isinstance(f, BoundMethod): f = f.fn
    if isinstance(f, (Fn, SFun, Builtin)) or isinstance(f, FuncObj) and isinstance(f.node, ast.Lambda): return DictObj()
    if isinstance(f, FuncObj):
        if "__wrapped__" in f.cells: return get_type_hints(p, [f.cells["__wrapped__"]], kw)
        d = DictObj()
        g = f.node.args
        for x in g.posonlyargs + g.args + ([g.vararg] if g.vararg else []) + g.kwonlyargs + ([g.kwarg] if g.kwarg else []):
            if x.annotation is not None:
                t = p.eval(x.annotation, f.env or Env(None, None, f.module, set()))
                if isinstance(t, str): raise Unsupported("annotation as a string")
                d.raw_set(x.arg, type(None) if t is None else t)
        if f.node.returns is not None: d.raw_set("return", p.eval(f.node.returns, f.env or Env(None, None, f.module, set())))
        return d
    if isinstance(f, InstObj): throw(TypeError, "not a module, class, method, or function")
    raise Unsupported(f"get_type_hints of {f!r}")


def inspect_global(p, k):
    """Parameter, Signature, BoundArguments: CPython's own source (inspect.py) is interpreted"""
    if "inspect:_ParameterKind" not in p.overrides:
        p.c.init_stack.append(["inspect", "kinds", 0])
        try:
            kinds = SimpleObj()
            for j, n in enumerate(("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD")): kinds.cells[n] = KINDS[j]
            p.overrides["inspect:_ParameterKind"] = kinds
        finally: p.c.init_stack.pop()
    return p.get_global(p.module("inspect"), k)


class Kind(int):
    """enum member of inspect._ParameterKind"""
    description = "kind"
    def __repr__(self): return f"Kind({int(self)})"


KINDS = [Kind(j) for j in range(5)]


def py_unwrap(p, a, kw):
    f = a[0]
    while isinstance(f, FuncObj) and "__wrapped__" in f.cells: f = f.cells["__wrapped__"]
    return f


def sig_params(p, f):
    """[(name, kind, default or None-if-absent as 1-tuple)]"""
    if isinstance(f, BoundMethod):
        ps = sig_params(p, f.fn)
        for j, (n, k, d) in enumerate(ps):
            if k in (0, 1): return ps[:j] + ps[j + 1:]
            if k == 2: return ps
        throw(ValueError, "invalid method signature")
    if isinstance(f, FuncObj):
        if "__wrapped__" in f.cells: return sig_params(p, f.cells["__wrapped__"])
        if "__signature__" in f.cells: raise Unsupported("__signature__")
        a = f.node.args
        pos = a.posonlyargs + a.args
        nd = len(f.defaults)
        out = []
        for j, x in enumerate(pos):
            d = j - (len(pos) - nd)
            out.append((x.arg, 0 if j < len(a.posonlyargs) else 1, (f.defaults[d],) if d >= 0 else None))
        if a.vararg: out.append((a.vararg.arg, 2, None))
        for x in a.kwonlyargs: out.append((x.arg, 3, (f.kwdefaults[x.arg],) if x.arg in f.kwdefaults else None))
        if a.kwarg: out.append((a.kwarg.arg, 4, None))
        return out
    if isinstance(f, (SFun, Fn)):
        if getattr(f, "params", None) is not None: return f.params
        throw(ValueError, "no signature found")
    if isinstance(f, StaticM): return sig_params(p, f.f)
    if isinstance(f, ClassObj):
        for m in f.mro:
            if isinstance(m, ClassObj):
                for k in ("__new__", "__init__"):
                    g = m.cells.get(k)
                    g = g.f if isinstance(g, StaticM) else g
                    if isinstance(g, FuncObj): return sig_params(p, BoundMethod(f, g))
        return []
    if isinstance(f, InstObj):
        m = cls_lookup(f, "__call__")
        if isinstance(m, FuncObj): return sig_params(p, BoundMethod(f, m))
        throw(TypeError, "not callable")
    if isinstance(f, (Builtin, type)): throw(ValueError, "no signature found for builtin")
    if isinstance(f, SU) and p.c.on_apply is not None: throw(ValueError, "no signature found")
    if isinstance(f, (Unknown, Opaque, SU, PartialObj)): raise Unsupported(f"signature of {f!r}")
    throw(TypeError, "is not a callable object")


def py_signature(p, a, kw):
    P, S, E = inspect_global(p, "Parameter"), inspect_global(p, "Signature"), inspect_global(p, "_empty")
    d = DictObj()
    for n, k, dv in sig_params(p, a[0]):
        o = InstObj(P)
        ann = E
        o.cells.update(_name=n, _kind=KINDS[k], _default=dv[0] if dv is not None else E, _annotation=ann)
        d.raw_set(n, o)
    s = InstObj(S)
    s.cells.update(_parameters=d, _return_annotation=E)
    return s


def pre_lazy(p, n):
    return Builtin(n, lambda p, a, kw: p.call(p.get_global(p.module("pyvc_prelude"), n), a, kw))


def make_namedtuple(p, a, kw):
    names = a[1]
    if isinstance(names, str): names = tuple(names.replace(",", " ").split())
    elif isinstance(names, ListObj): names = tuple(names.seq.items) if isinstance(names.seq, CSeq) else None
    if kw or len(a) != 2 or not isinstance(names, tuple) or not all(isinstance(n, str) for n in names): raise Unsupported("namedtuple")
    cls = p.call(p.get_global(p.module("pyvc_prelude"), "_namedtuple"), [names])
    cls.name = a[0]
    cls.mro.insert(len(cls.mro) - 1, tuple)       # an instance is a tuple; its operations are those of the class above
    cls.bases = [tuple]
    cls.is_nt = True
    return cls


def py_copy(p, a, kw):
    v = a[0]
    if isinstance(v, ListObj): return type(v)(v.seq, v.maxlen)
    if isinstance(v, DictObj): return p.call(p.getattr(v, "copy"), [])
    if isinstance(v, SetObj): return SetObj(v.entries, v.base, v.nat)
    if isinstance(v, (tuple, STuple, int, str, SInt, SU, type(None), FuncObj)): return v
    if isinstance(v, InstObj):
        if isinstance(cls_lookup(v, "__copy__"), FuncObj): return p.call(p.getattr(v, "__copy__"), [])
        return reduce_copy(p, v)
    if isinstance(v, SrcIter):
        n = SrcIter(v._seq, v.owner); n.cells["pos"] = v.cells["pos"]; return n
    raise Unsupported("copy")


def reduce_copy(p, o):
    """the object that copy.copy of o or unpickling it gives (protocol 2 and up)"""
    cls = o.cls
    if not isinstance(cls, ClassObj):
        n = InstObj(cls); n.cells.update(o.cells); return n
    for k in ("__reduce_ex__", "__setstate__", "__getstate__", "__getnewargs_ex__"):
        if isinstance(cls.lookup(k), FuncObj): raise Unsupported(f"pickling with {k}")
    if isinstance(cls.lookup("__reduce__"), FuncObj):
        t = p.call(p.getattr(o, "__reduce__"), [])
        if len(t) != 2: raise Unsupported("__reduce__ with state")
        return p.call(t[0], list(to_seq(p, t[1]).items))
    args = to_seq(p, p.call(p.getattr(o, "__getnewargs__"), [])).items if isinstance(cls.lookup("__getnewargs__"), FuncObj) else ()
    nw = cls.lookup("__new__")
    if isinstance(nw, StaticM): nw = nw.f
    x = p.call(nw, [cls] + list(args), {}) if isinstance(nw, FuncObj) else InstObj(cls)
    if isinstance(x, InstObj):
        for k, val in o.cells.items(): x.set(k, val)
    return x


def call_method(p, o, name, args, kw): return p.call(p.getattr(o, name), args, kw)


def _unsup(w): raise Unsupported(w)


import loops as _loops
_loops.NEWABLE.extend([BytesIOObj, InstObj, DictObj, ListObj, DequeObj, PartialObj])
_loops.BM[0] = BoundMethod
