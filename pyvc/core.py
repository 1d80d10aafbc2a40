"""pyvc core: symbolic values, heap objects, path exploration with loop cuts, obligations."""
import z3, time, itertools

U = z3.DeclareSort("U")
I = z3.IntSort()
B = z3.BoolSort()


class Unsupported(BaseException):
    """The code left the subset the verifier understands: the obligation is undecided, never refuted."""


class PathEnd(BaseException):
    """This path ends here (infeasible, or closed by a loop invariant)."""


class PyRaise(BaseException):
    """An exception of the interpreted program."""
    def __init__(self, exc):
        self.exc = exc


# ---------------------------------------------------------------- values
class SInt:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"SInt({self.t})"


class SBool:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"SBool({self.t})"


class SU:
    """Opaque Python object."""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"SU({self.t})"


class SArr:
    """Content of a symbolic set: which values are in it."""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return f"SArr({self.t})"


class Seq:
    """Immutable mathematical sequence."""


class CSeq(Seq):
    __slots__ = ("items",)
    def __init__(self, items): self.items = tuple(items)
    def __repr__(self): return f"CSeq{self.items}"


class SSeq(Seq):
    """length term and element function (z3 Int term -> value). inf: no end."""
    __slots__ = ("n", "f", "inf")
    def __init__(self, n, f, inf=False):
        self.n, self.f, self.inf = n, f, inf
    def __repr__(self): return f"SSeq(len={self.n})"


class Opaque:
    """A value nobody should look into (formatted messages and the like)."""
    def __init__(self, why="opaque"): self.why = why
    def __repr__(self): return f"Opaque({self.why})"


UNBOUND = Opaque("unbound")


def is_sym(v):
    return isinstance(v, (SInt, SBool, SU, Seq, Opaque)) or hasattr(v, "is_sbytes")


def iz(v):
    """int-like -> z3 Int term"""
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(int(v))
    if isinstance(v, SInt): return v.t
    if isinstance(v, SBool): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(v) and v.sort() == I: return v
    raise Unsupported(f"not an int: {v!r}")


def mki(t):
    """z3 Int term -> value (concrete when it is a numeral)"""
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SInt(t)


def mkb(t):
    if isinstance(t, bool): return t
    t = z3.simplify(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SBool(t)


def bz(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, SBool): return v.t
    if z3.is_expr(v) and v.sort() == B: return v
    raise Unsupported(f"not a bool: {v!r}")


def isint(v): return isinstance(v, (int, SInt)) and not isinstance(v, bool)


# ---------------------------------------------------------------- heap objects
class HObj:
    """Object with identity and logged mutable cells."""
    def __init__(self, **cells):
        self.cells = dict(cells)
        c = Ctx.cur
        self.uid = c.alloc(self) if c is not None else 0
    def get(self, k): return self.cells[k]
    def has(self, k): return k in self.cells
    def set(self, k, v):
        c = Ctx.cur
        if c is not None: c.log_write(self, k)
        self.cells[k] = v
    def delete(self, k):
        c = Ctx.cur
        if c is not None: c.log_write(self, k)
        del self.cells[k]


# ---------------------------------------------------------------- solver
STATS = {"z3": 0, "cvc5": 0, "z3_s": 0.0, "cvc5_s": 0.0}
OPTIONS = {"timeout": 8000, "second": False}


def cvc5_unsat(smt2, timeout=20):
    """Second back end."""
    import subprocess
    t = time.time()
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={timeout * 1000}", "-"], input=smt2, capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        STATS["cvc5"] += 1
        STATS["cvc5_s"] += time.time() - t


class Ctx:
    """One path."""
    cur = None

    def __init__(self, explorer, prefix):
        self.x = explorer
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", OPTIONS["timeout"])
        self.names = {}
        self.objs = {}
        self.serial = 0
        self.init_stack = []
        self.running = []       # uids of generators being resumed
        self.logs = []          # stack of active write logs (loops)
        self.events = []
        self.sources = []       # SSeqs of interest for invariants
        self.bounds = []        # Int terms of interest for invariants
        self.name_slices, self.named_terms = False, {}
        self.hints2 = []        # the same with a second argument: the value of some integer variable
        self.hints = []         # functions (Int term -> value) of interest for invariants
        self.preds = []         # predicates on Int terms of interest for invariants
        self.keeps = []         # (function on U terms, value): "function(variable) stays at value"
        self.idxset = set()
        self.idxterms = []      # index terms at which recursive definitions are unfolded
        self.recdefs, self.exact = [], []    # (exact: instantiated at the index terms only, not at their neighbours)
        self.lean = False             # fewer kinds of candidate invariants
        self.pairs = []               # f(a, b): candidate relations between two integer variables
        self.ikeeps = []              # f(i): candidate invariants f(a) == f(a on entry)
        self.eqclasses = False        # opaque values stand for equality classes: == is identity
        self.symsets = False          # set() makes a set of symbolic content (for loops that add to it)
        self.arrhints = []            # f(i) -> SArr, candidate contents of such sets
        self.mins = False             # also guess invariants of the form a == min(b, bound)
        self.unfolded, self.shifted = {}, []
        self.depth = 0
        self.tid = 0            # the current thread
        self.ghosts = HObj0()
        self.scope = ""
        self.on_apply = None    # behaviour of opaque objects when called
        self.on_getattr = self.on_setattr = None    # attributes of opaque objects
        self.on_table = None    # interference by other threads at accesses of shared tables
        self.causes = []        # (opaque exception, cause given to raise ... from)

    # allocation and writes
    def alloc(self, o):
        if self.init_stack:
            # objects of lazily executed module code exist since import, whenever they are first needed here:
            # their numbers depend on the code that makes them, not on when it runs
            top = self.init_stack[-1]
            top[2] += 1
            k = self.x.modids.setdefault(tuple(top), -1 - len(self.x.modids))
            self.x.modkeys[k] = tuple(top)
            self.objs[k] = o
            return k
        self.serial += 1
        self.objs[self.serial] = o
        return self.serial

    def obj(self, uid):
        if uid not in self.objs and uid in self.x.modkeys:
            m, n, _ = self.x.modkeys[uid]
            p = self.interp
            if n in ("", "kinds"): p.module(m)
            else: p.get_global(p.module(m), n)
        return self.objs[uid]

    def log_write(self, o, k):
        if self.logs and self.init_stack: return
        for start, w, *_ in self.logs:
            if o.uid <= start:
                w.add((o.uid, k))

    def host_write(self, o):
        """an object changed in a way the write log cannot express: only fine outside the loops older than it"""
        for start, w, *run in self.logs:
            if o.uid <= start and not (run and o.uid in run[0]):
                if self.x.pure: raise Impure
                raise Unsupported(f"{o!r} changes inside a loop")

    # symbols
    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return f"{base}!{n}" if n else base

    def int(self, base="i"):
        return z3.Int(self.fresh_name(base))

    def u(self, base="u"):
        return z3.Const(self.fresh_name(base), U)

    def bool(self, base="b"):
        return z3.Bool(self.fresh_name(base))

    def fun(self, base, *sorts):
        return z3.Function(self.fresh_name(base), *sorts)

    # path condition
    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise PathEnd
            return
        if isinstance(c, SBool): c = c.t
        c = z3.simplify(c)
        if z3.is_true(c): return
        self.pc.append(c)
        self.solver.add(c)
        if z3.is_false(c): raise PathEnd

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        STATS["z3"] += 1
        STATS["z3_s"] += time.time() - t
        return r

    def feasible(self, c):
        self.unfold()
        return self.check(c) != z3.unsat

    def valid(self, c):
        """pc => c ?  -> 'yes' | 'no' | 'unknown' (and the model on 'no')"""
        c = z3.simplify(c)
        if z3.is_true(c): return "yes", None
        self.unfold(c)
        r = self.check(z3.Not(c))
        if r == z3.unsat: return "yes", None
        if r == z3.sat: return "no", self.solver.model()
        s = z3.Solver(); s.add(self.solver.assertions()); s.add(z3.Not(c))
        r2 = cvc5_unsat("(set-logic ALL)\n" + s.to_smt2())
        if r2 == "unsat": return "yes", None
        if r2 == "sat": return "no", None
        return "unknown", None

    def branch(self, c):
        if isinstance(c, bool): return c
        if isinstance(c, SBool): c = c.t
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.decisions.append(d)
            self.assume(c if d else z3.Not(c))
            return bool(d)
        if self.x.pure:
            raise Impure
        t, f = self.feasible(c), self.feasible(z3.Not(c))
        if not t and not f: raise PathEnd
        d = 1 if t else 0
        if t and f: self.x.push(self.decisions + [0])
        self.decisions.append(d)
        self.assume(c if d else z3.Not(c))
        if len(self.decisions) > 400: raise Unsupported("path too long")
        return bool(d)

    def choose(self, n):
        """nondeterministic choice 0..n-1, all explored"""
        if n == 1: return 0
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.decisions.append(d)
            return d
        if self.x.pure: raise Impure
        for d in range(1, n): self.x.push(self.decisions + [d])
        self.decisions.append(0)
        return 0

    # recursive definitions: (name, base instances) unfolded at index terms
    def recdef(self, f, exact=False):
        """f(i: Int term) -> z3 Bool axiom instance for index i"""
        (self.exact if exact else self.recdefs).append(f)

    def index(self, *ts):
        for t in ts:
            t = z3.simplify(t) if z3.is_expr(t) else z3.IntVal(t)
            if t.get_id() not in self.idxset: self.idxset.add(t.get_id()); self.idxterms.append(t)

    def unfold(self, goal=None):
        n, m = len(self.recdefs), len(self.exact)
        if not n and not m: return
        sh = self.shifted
        while len(sh) < len(self.idxterms):
            t = self.idxterms[len(sh)]
            mine = []
            for d in (-1, 0, 1):
                s = z3.simplify(t + d)
                if s.get_id() not in self.unfolded: self.unfolded[s.get_id()] = s; mine.append(s)
            sh.append([mine, t, 0, 0])
        for e in sh:
            mine, t, k, l = e
            if k < n:
                e[2] = n
                for s in mine:
                    for i in range(k, n): self.solver.add(self.recdefs[i](s))
            if l < m:
                e[3] = m
                for i in range(l, m): self.solver.add(self.exact[i](t))

    # obligations
    def oblige(self, name, goal):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if isinstance(goal, SBool): goal = goal.t
        if self.x.pure: raise Impure
        self.x.obligation(self, name, goal)
        self.assume(goal)

    def aux(self, name, goal):
        """step of the argument about the representation: failing it leaves the contract undecided, never refuted"""
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if self.x.pure: raise Impure
        if self.x.obligation(self, name, goal, aux=True): self.assume(goal)


class HObj0:
    pass


class Impure(BaseException):
    """A branch or obligation came up while evaluating something as a pure function of an index."""


# ---------------------------------------------------------------- exploration
class Loop:
    def __init__(self):
        self.writes = set()
        self.dropped = set()
        self.reps = {}
        self.shapes = {}


class Explorer:
    def __init__(self, label, harness, max_paths=3000, deadline=None):
        self.label = label
        self.harness = harness
        self.work = []
        self.loops = {}
        self.modids, self.modkeys = {}, {}
        self.results = []
        self.pure = 0
        self.max_paths = max_paths
        self.deadline = deadline
        self.checking = True
        self.vacuity = {}
        self.user_invs = []
        self.cutset = set()
        self.always_cut = False
        self.nocut = set()
        self.eq_is_identity = False
        self.unroll = 0
        self.peel = 0
        self.iter_ok = None
        self.unpack_ok = lambda c, v, n: False
        self.on_acquire = self.on_release = self.thread = self.mainthread = None
        self.dirty = False
        self.covered = set()

    def push(self, prefix):
        self.work.append(prefix)

    def explore(self):
        """Repeat passes until the loop invariants are stable, then check obligations."""
        for round_ in range(60):
            self.dirty = False
            self.results = []
            self.covered = set()
            self.paths = 0
            self.checking = False
            self.one_pass()
            if not self.dirty: break
        else:
            raise Unsupported("loop invariants did not stabilise")
        self.results, self.covered, self.paths = [], set(), 0
        self.checking = True
        self.one_pass()
        if self.dirty:
            raise Unsupported("loop invariants depend on a failing obligation") if not any(r["status"] != "discharged" for r in self.results) else PathEnd
        return self.results

    def explore_plain(self):
        """one checking pass, loops unrolled"""
        self.results, self.covered, self.paths = [], set(), 0
        self.checking = True
        self.one_pass()

    def one_pass(self):
        self.work = [[]]
        while self.work:
            if self.deadline and time.time() > self.deadline: raise Unsupported("time limit for this contract")
            prefix = self.work.pop()
            self.paths += 1
            if self.paths > self.max_paths: raise Unsupported("too many paths")
            c = Ctx(self, prefix)
            Ctx.cur = c
            try:
                self.harness(c)
                self.end_reached(c)
            except PathEnd:
                pass
            finally:
                Ctx.cur = None

    def end_reached(self, c):
        """vacuity guard: at least one path must end with a satisfiable path condition"""
        self.cover(c, "end")

    def cover(self, c, what):
        if self.checking and what not in self.covered:
            c.unfold()
            if c.check() == z3.sat: self.covered.add(what)

    def obligation(self, c, name, goal, aux=False):
        if not self.checking: return True
        t = time.time()
        z0, c0 = STATS["z3"], STATS["cvc5"]
        st, model = c.valid(goal)
        r = {"name": name, "t": round(time.time() - t, 4), "backend": "cvc5" if STATS["cvc5"] > c0 else "z3"}
        if st == "yes":
            r["status"] = "discharged"
            if OPTIONS["second"]:
                s = z3.Solver(); s.add(c.solver.assertions()); s.add(z3.Not(goal))
                r["second"] = cvc5_unsat("(set-logic ALL)\n" + s.to_smt2(), 10)
                if r["second"] == "sat": r["status"] = "disagree"
        elif st == "no" and not aux:
            r["status"] = "refuted"
            r["detail"] = describe(c, goal, model)
        else:
            r["status"] = "unknown"
        self.results.append(r)
        if r["status"] != "discharged":
            if aux: return False
            raise PathEnd
        return True


def describe(c, goal, model):
    s = f"goal: {z3.simplify(goal)}\n  path condition: {[str(p)[:200] for p in c.pc][:12]}\n"
    if model is not None:
        ds = [(d.name(), model[d]) for d in model.decls() if d.arity() == 0]
        s += "  counter-model: " + ", ".join(f"{k}={v}" for k, v in sorted(ds, key=str)[:40])
    return s
