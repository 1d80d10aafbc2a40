"""Executable-contract drivers: run the REAL code of /repo against the specification functions.

They concretise failed obligations (search for a failing input) and stand in, labelled bounded,
for functions outside the verifier's reach.  Run by the interpreter that runs unpythonic."""
import sys, os, random, time, traceback, json, itertools, signal, threading, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class Violation(Exception):
    pass


def fail(msg, /, **ctx):
    raise Violation(msg + "".join(f"\n    {k} = {srepr(v)}" for k, v in ctx.items()))


def srepr(x):
    try:
        s = repr(x)
    except BaseException as e:
        s = f"<unreprable {type(x).__name__}: {e!r}>"
    return s if len(s) < 600 else s[:600] + "..."


def check(cond, msg="condition does not hold", /, **ctx):
    if not cond:
        fail(msg, **ctx)


_EQ = object()


def eq(got, want, msg="result differs from specification", /, **ctx):
    try:
        ok = (got is want) or (type(got) is type(want) and bool(got == want))
    except Exception as e:
        fail(f"{msg} (comparison raised {e!r})", **{**ctx, "got": got, "want": want})
    if not ok:
        fail(msg, **{**ctx, "got": got, "want": want})


def eqv(got, want, msg="result differs from specification", /, **ctx):
    """== only, no type identity."""
    if not (got is want or got == want):
        fail(msg, **{**ctx, "got": got, "want": want})


def ids(xs):
    return [id(x) for x in xs]


def same(got, want, msg="not the identical object", /, **ctx):
    if got is not want:
        fail(msg, **{**ctx, "got": got, "want": want})


def same_items(got, want, msg="items differ", /, **ctx):
    got = list(got); want = list(want)
    if len(got) != len(want) or any(a is not b and not (isinstance(a, (int, str, float, tuple, list)) and type(a) is type(b) and a == b) for a, b in zip(got, want)):
        fail(msg, **{**ctx, "got": got, "want": want})


def outcome(thunk):
    try:
        return ("ok", thunk())
    except Violation:
        raise
    except Exception as e:
        return ("exc", type(e), e)


def raises(exctype, thunk, msg="expected exception", /, **ctx):
    try:
        v = thunk()
    except exctype as e:
        return e
    except Violation:
        raise
    except BaseException as e:
        fail(f"{msg}: expected {exctype}, got {type(e).__name__}: {e}", **ctx)
    fail(f"{msg}: expected {exctype}, but returned", **{**ctx, "value": v})


def same_outcome(a, b, msg="outcome differs from specification", /, **ctx):
    """a, b: results of outcome(); b is the specification."""
    if a[0] != b[0]:
        fail(msg, **{**ctx, "got": a, "want": b})
    if a[0] == "ok":
        eq(a[1], b[1], msg, **ctx)
    else:
        check(a[1] is b[1] or issubclass(a[1], b[1]), msg, **{**ctx, "got": a, "want": b})


class Item:
    """Opaque element with identity equality."""
    __slots__ = ("n",)
    def __init__(self, n):
        self.n = n
    def __repr__(self):
        return f"<{self.n}>"


class EqItem:
    """Elements with == but distinct identities."""
    __slots__ = ("n", "tag")
    def __init__(self, n, tag=0):
        self.n = n
        self.tag = tag
    def __eq__(self, other):
        return isinstance(other, EqItem) and self.n == other.n
    def __hash__(self):
        return hash(self.n)
    def __repr__(self):
        return f"<{self.n}.{self.tag}>"


class Src:
    """One-shot iterator that counts what is pulled from it, and objects to being pulled after its end."""
    def __init__(self, items, infinite=False):
        self.items = items
        self.pulled = 0
        self.ended = 0
        self.infinite = infinite
    def __iter__(self):
        return self
    def __next__(self):
        if self.infinite:
            x = self.items(self.pulled)
            self.pulled += 1
            return x
        if self.pulled >= len(self.items):
            self.ended += 1
            raise StopIteration
        x = self.items[self.pulled]
        self.pulled += 1
        return x


def naturals():
    return Src(lambda k: k, infinite=True)


def mk(r, items, kinds=("list", "tuple", "iter", "gen", "src")):
    """Some iterable over items."""
    k = r.choice(kinds)
    items = list(items)
    if k == "list":
        return list(items)
    if k == "tuple":
        return tuple(items)
    if k == "iter":
        return iter(list(items))
    if k == "gen":
        return (x for x in items)
    if k == "src":
        return Src(items)
    raise ValueError(k)


def items(n):
    return [Item(k) for k in range(n)]


class LoggedRandom(random.Random):
    """Counts and fingerprints what it draws: the fingerprint identifies the generated input."""
    def __init__(self, seed):
        self.h = 0; self.draws = 0
        super().__init__(seed)
    def random(self):
        x = super().random(); self.h = hash((self.h, x)); self.draws += 1
        return x
    def getrandbits(self, k):
        x = super().getrandbits(k); self.h = hash((self.h, k, x)); self.draws += 1
        return x


def capture(f, r, into):
    """Run f(r), write down its local variables (the generated input) on return."""
    def prof(frame, event, arg):
        if event == "return" and frame.f_code is f.__code__:
            into.update({k: srepr(v)[:160] for k, v in list(frame.f_locals.items())[:12] if k != "r" and not callable(v)})
    sys.setprofile(prof)
    try:
        return f(r)
    finally:
        sys.setprofile(None)


class Driver:
    def __init__(self, pid):
        self.pid = pid
        self.cases = []

    def case(self, n=1, thorough=10, timeout=None):
        def deco(f):
            self.cases.append((f.__name__, f, n, n * thorough if n > 1 else 1))
            return f
        return deco

    def main(self, argv=None):
        import argparse
        ap = argparse.ArgumentParser()
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--out")
        ap.add_argument("--status")
        ap.add_argument("--only")
        ap.add_argument("--index", type=int)
        a = ap.parse_args(argv)
        import large
        large.install(self)
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        except Exception:
            pass
        t0 = time.time()
        fails, counts, samples, digests, enum = [], {}, [], set(), 0
        for name, f, n, nt in self.cases:
            if a.only and name != a.only:
                continue
            total = n if a.tier == "quick" else nt
            rng = range(total) if a.index is None else [a.index]
            counts[name] = 0
            for i in rng:
                seed = f"{a.seed}:{self.pid}:{name}:{i}"
                r = LoggedRandom(seed)
                if a.status:
                    with open(a.status, "w") as sf:
                        json.dump(dict(case=name, index=i, seed=a.seed), sf)
                def onalarm(*_):
                    raise Violation("did not terminate within 60 s of wall time")
                signal.signal(signal.SIGALRM, onalarm)
                signal.alarm(60)
                try:
                    if i == 1 and a.index is None:
                        loc = {}
                        cov = capture(f, r, loc)
                        samples.append(dict(case=name, index=i, seed=a.seed, input=loc))
                    else:
                        cov = f(r)
                    cov = cov if isinstance(cov, int) and not isinstance(cov, bool) else 1
                    counts[name] += cov
                    if total == 1:
                        enum += cov
                        samples.append(dict(case=name, enumerated=cov))
                    elif r.draws:
                        digests.add((name, r.h))
                except BaseException as e:
                    signal.alarm(0)
                    counts[name] += 1
                    tb = traceback.format_exc(limit=-12)
                    fails.append(dict(case=name, index=i, seed=a.seed, error=f"{type(e).__name__}: {e}"[:4000], traceback=tb[-6000:]))
                    break
                finally:
                    signal.alarm(0)
        res = dict(property=self.pid, evaluations=sum(counts.values()), counts=counts, distinct=len(digests) + enum, samples=samples, fails=fails, wall_s=time.time() - t0)
        if a.out:
            with open(a.out, "w") as o:
                json.dump(res, o)
        for x in fails:
            print(f"FAIL {self.pid}.{x['case']}[{x['index']}] {x['error']}")
            print(x["traceback"])
        print(self.pid, "evaluations", res["evaluations"], "fails", len(fails), f"{res['wall_s']:.2f}s")
        sys.stdout.flush()
        os._exit(1 if fails else 0)


class DriverStop(BaseException):
    pass


def run_threads(fns, timeout=30):
    """Run callables in threads; return list of outcomes; a hang is a violation."""
    res = [None] * len(fns)
    def w(i):
        try:
            res[i] = ("ok", fns[i]())
        except BaseException as e:
            res[i] = ("exc", type(e), e)
    ts = [threading.Thread(target=w, args=(i,), daemon=True) for i in range(len(fns))]
    for t in ts:
        t.start()
    for t in ts:
        t.join(timeout)
        if t.is_alive():
            fail("thread did not finish (deadlock?)")
    return res


def stepwise(fns, schedule, timeout=20):
    """Deterministic scheduling helper: each fn is a generator function body run in its own real thread;
    the thread advances one `yield` per schedule entry."""
    n = len(fns)
    gates = [threading.Semaphore(0) for _ in range(n)]
    dones = [threading.Semaphore(0) for _ in range(n)]
    state = [None] * n
    def w(i):
        try:
            g = fns[i]()
            while True:
                gates[i].acquire()
                try:
                    next(g)
                except StopIteration:
                    state[i] = ("done",)
                    break
                finally:
                    dones[i].release()
        except BaseException as e:
            state[i] = ("exc", e)
            dones[i].release()
    ts = [threading.Thread(target=w, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    def step(i):
        if state[i] is not None:
            return
        gates[i].release()
        if not dones[i].acquire(timeout=timeout):
            fail("thread step did not finish (deadlock?)", thread=i)
    for i in schedule:
        step(i)
    k = 0
    while any(s is None for s in state):
        for i in range(n):
            step(i)
        k += 1
        if k > 10000:
            fail("threads never finish")
    for i in range(n):
        if state[i][0] == "exc":
            raise state[i][1]
