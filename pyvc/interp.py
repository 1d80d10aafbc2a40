"""Interpreter of Python source (ast) over symbolic values.

Functions are taken from the AST of /repo's current files (nothing is rewritten).  What the
extraction drops: docstrings; type annotations; module-level statements that do not bind a name the
verified code uses; the text of formatted strings with symbolic parts (opaque)."""
import ast, os, sys, builtins as _bi
import z3
from core import *
from ops import *
from loops import Cut, Poison

REPO = os.environ.get("VERIF_REPO", "/repo")
_asts = {}
NATIVE_SRC = {"_collections_abc": None, "contextlib": None}


USER = {}      # text of the user programs that contracts run against the library


def load_ast(modname):
    if modname not in _asts:
        if modname.startswith("unpythonic"):
            p = os.path.join(REPO, *modname.split("."))
            p = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
        elif modname in USER: p = "<user>"
        elif modname == "pyvc_prelude":
            p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude.py")
        else:
            import importlib.util
            p = importlib.util.find_spec(modname).origin
        src = USER[modname] if modname in USER else open(p, encoding="utf-8").read()
        tree = ast.parse(src, p)
        binders = {}
        def names_bound(st):
            out = set()
            def tgt(t):
                if isinstance(t, ast.Name): out.add(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for e in t.elts: tgt(e)
                elif isinstance(t, ast.Starred): tgt(t.value)
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)): out.add(st.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets: tgt(t)
            elif isinstance(st, (ast.AnnAssign, ast.AugAssign)): tgt(st.target)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names: out.add((a.asname or a.name).split(".")[0])
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                for b in [getattr(st, f, []) for f in ("body", "orelse", "finalbody")] + [h.body for h in getattr(st, "handlers", [])]:
                    for s in b: out |= names_bound(s)
            elif isinstance(st, ast.For):
                tgt(st.target)
                for s in st.body: out |= names_bound(s)
            return out
        regs = {}
        for st in tree.body:
            for n in names_bound(st): binders.setdefault(n, []).append(st)
            if isinstance(st, ast.For):
                # for abscls in ...: abscls.register(cls)
                for n in ast.walk(st):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "register":
                        for a in n.args:
                            if isinstance(a, ast.Name): regs.setdefault(a.id, []).append(st)
        stars = [st for st in tree.body if isinstance(st, ast.ImportFrom) and any(a.name == "*" for a in st.names)]
        _asts[modname] = (tree, binders, stars, p, regs)
    return _asts[modname]


class Module(HObj):
    def __init__(self, name):
        super().__init__()
        self.name = name
        self.tree, self.binders, self.stars, self.path, self.regs = load_ast(name)
        self.done = set()
    def __repr__(self): return f"<module {self.name}>"


class Env(HObj):
    def __init__(self, fn, parent, module, locals_, globals_=(), nonlocals=()):
        super().__init__()
        self.fn, self.parent, self.module = fn, parent, module
        self.locals, self.globals_, self.nonlocals = locals_, globals_, nonlocals
        self.cls = None
        self.isclass = False


class FuncObj(HObj):
    def __init__(self, node, env, module, defaults, kwdefaults, name, qualname):
        super().__init__()
        self.node, self.env, self.module = node, env, module
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.qualname = name, qualname
        self.defcls = None
        self.cells["__name__"] = name
        self.cells["__qualname__"] = qualname
    def __repr__(self): return f"<function {self.qualname}>"


class Builtin:
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return f"<builtin {self.name}>"


class BoundMethod:
    def __init__(self, self_, fn): self.self, self.fn = self_, fn
    def __eq__(self, o): return isinstance(o, BoundMethod) and self.self is o.self and self.fn is o.fn
    def __hash__(self): return hash((id(self.self), id(self.fn)))
    def __repr__(self): return f"<bound {self.fn} of {self.self}>"


class ClassObj(HObj):
    def __init__(self, name, bases, ns, module, meta=None):
        super().__init__()
        self.name, self.bases, self.module, self.meta = name, bases, module, meta
        self.cells.update(ns)
        self.mro = c3([self] + [], bases, self)
        self.registered = []
    def __repr__(self): return f"<class {self.name}>"
    def lookup(self, k):
        for m in self.mro:
            if isinstance(m, ClassObj):
                if k in m.cells: return m.cells[k]
            elif isinstance(m, type) and k in m.__dict__:
                return NativeMember(m, k)
        return None


class NativeMember:
    def __init__(self, cls, name): self.cls, self.name = cls, name


def mro_of(b): return b.mro if isinstance(b, ClassObj) else list(b.__mro__)


def c3(head, bases, cls):
    bases = bases or [object]
    seqs = [list(mro_of(b)) for b in bases] + [list(bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs: return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs): break
        else: raise Unsupported("mro")
        out.append(h)
        for s in seqs:
            if s[0] is h: del s[0]


class InstObj(HObj):
    def __init__(self, cls):
        super().__init__()
        self.cls = cls
    def __repr__(self): return f"<{getattr(self.cls, 'name', getattr(self.cls, '__name__', '?'))} instance {self.uid}>"


class SuperProxy:
    def __init__(self, cls, inst): self.cls, self.inst = cls, inst


class SFun(HObj):
    """A callback supplied by the user of the library: an arbitrary pure function (uninterpreted),
    whose calls are recorded; may_raise: each call may instead raise an arbitrary exception."""
    def __init__(self, name, result="U", may_raise=False, on_call=None):
        super().__init__()
        self.name, self.result, self.may_raise, self.on_call = name, result, may_raise, on_call
    def __repr__(self): return f"<callback {self.name}>"


class Fn(HObj):
    """Host-level function object usable by interpreted code (specification callbacks)."""
    def __init__(self, f, name="fn"):
        super().__init__()
        self.f, self.name = f, name
    def __repr__(self): return f"<fn {self.name}>"


def mkexc(cls, *args):
    e = InstObj(cls)
    e.cells["args"] = tuple(args)
    e.cells["__cause__"] = None
    e.cells["__context__"] = None
    e.cells["__traceback__"] = None
    return e


def throw(cls, *args):
    raise PyRaise(mkexc(cls, *args))


class Stop(Exception):
    """host-level end of iteration"""
    def __init__(self, value=None): self.value = value


def function_locals(node):
    """(locals, globals, nonlocals) of a function or lambda node"""
    if hasattr(node, "_pyvc_scope"): return node._pyvc_scope
    loc, glo, non = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs: loc.add(x.arg)
    if a.vararg: loc.add(a.vararg.arg)
    if a.kwarg: loc.add(a.kwarg.arg)
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list: walk(d)
            return
        if isinstance(n, ast.Lambda): return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr): loc.add(sub.target.id)
            return
        if isinstance(n, ast.Global): glo.update(n.names)
        if isinstance(n, ast.Nonlocal): non.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): loc.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: loc.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names: loc.add((al.asname or al.name).split(".")[0])
        for ch in ast.iter_child_nodes(n): walk(ch)
    body = node.body if isinstance(node.body, list) else [node.body]
    for st in body: walk(st)
    loc -= glo | non
    node._pyvc_scope = (loc, glo, non)
    return node._pyvc_scope


def has_yield(node):
    if hasattr(node, "_pyvc_gen"): return node._pyvc_gen
    r = False
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)): r = True; break
        stack.extend(ast.iter_child_nodes(n))
    node._pyvc_gen = r
    return r


class Interp:
    def __init__(self, c):
        self.c = c
        self.modules = {}
        self.pending = []
        self.summaries = {}     # qualified name -> host function replacing the call (contract of the callee)
        self.overrides = {}     # qualified name -> value
        self.stack = []
        self.threads = {}
        self.inlined = set()
        import models
        self.builtins = models.make_builtins(self)
        self.models = models

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name not in self.modules:
            self.c.init_stack.append([name, "", 0])
            try:
                m = self.modules[name] = Module(name)
                for st in m.tree.body:
                    # registrations of dynamic variables happen at import
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id == "make_dynvar":
                        self.run_plain(self.exec_stmt(st, Env(None, None, m, set())))
                if name == "unpythonic.dynassign":
                    # importing the package runs them all
                    self.pending += ["unpythonic.lazyutil", "unpythonic.fun"]
            finally: self.c.init_stack.pop()
            self.run_pending()
        return self.modules[name]

    def run_pending(self):
        while self.pending and not self.c.init_stack:
            x = self.pending.pop()
            if isinstance(x, str): self.module(x); continue
            m, name = x
            self.c.init_stack.append([m.name, name + " (registrations)", 0])
            try:
                for st in m.regs[name]: self.run_plain(self.exec_stmt(st, Env(None, None, m, set())))
            finally: self.c.init_stack.pop()

    def get_global(self, m, name):
        q = f"{m.name}:{name}"
        if q in self.overrides: return self.overrides[q]
        if name in m.cells: return m.cells[name]
        if name == "__name__": return m.name
        if name == "__file__": return m.path
        if name in m.binders and name not in m.done:
            m.done.add(name)
            self.c.init_stack.append([m.name, name, 0])
            try:
                env = Env(None, None, m, set())
                for st in m.binders[name]:
                    self.run_plain(self.exec_stmt(st, env))
            finally:
                self.c.init_stack.pop()
            if name in m.regs: self.pending.append((m, name))
            self.run_pending()
            if name in m.cells: return m.cells[name]
        for st in m.stars:
            m2 = self.resolve_from(m, st)
            if isinstance(m2, Module) and (name in m2.binders or m2.stars):
                try: return self.get_global(m2, name)
                except PyRaise: pass
        if name in self.builtins: return self.builtins[name]
        if hasattr(_bi, name):
            v = getattr(_bi, name)
            if isinstance(v, type): return v
            return self.models.Unknown(f"builtins.{name}")
        if any(e[0] == m.name and e[1] == name for e in self.c.init_stack): raise Unsupported(f"{name} needed while it is being made")
        throw(NameError, name)

    def resolve_from(self, m, st):
        """module object for `from X import ...`"""
        if st.level:
            parts = m.name.split(".")
            ispkg = m.path.endswith("__init__.py")
            base = parts if ispkg else parts[:-1]
            base = base[:len(base) - (st.level - 1)] if st.level > 1 else base
            name = ".".join(base + ([st.module] if st.module else []))
        else:
            name = st.module
        return self.import_module(name)

    def import_module(self, name):
        if name.startswith("unpythonic"): return self.module(name)
        mm = self.models.native_module(self, name)
        if mm is not None: return mm
        raise Unsupported(f"import of {name}")

    def import_name(self, mod, name):
        if isinstance(mod, Module):
            sub = f"{mod.name}.{name}"
            if name not in mod.binders and not any(mod.stars):
                return self.module(sub)
            if name in mod.binders: return self.get_global(mod, name)
            try:
                return self.get_global(mod, name)
            except PyRaise:
                return self.module(sub)
        return mod.lookup(name)

    # ------------------------------------------------------------ names
    def lookup(self, env, name):
        e = env
        first = True
        while e is not None:
            if name in e.globals_: break
            if name in e.cells and (first or not e.isclass) and name not in e.nonlocals:
                v = e.cells[name]
                if isinstance(v, Poison):
                    v.loop.live.add(v.cell)
                    self.c.x.dirty = True
                    raise PathEnd
                return v
            if name in e.locals and name not in e.nonlocals and not e.isclass:
                throw(UnboundLocalError, name)
            e = e.parent
            first = False
        if name == "__class__":
            e = env
            while e is not None:
                if e.cls is not None: return e.cls
                e = e.parent
        return self.get_global(env.module, name)

    def store(self, env, name, v):
        if env.fn is None and not env.isclass:      # module level
            env.module.set(name, v); return
        if name in env.globals_:
            env.module.set(name, v); return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.locals and not e.isclass:
                    e.set(name, v); return
                e = e.parent
            raise Unsupported(f"nonlocal {name}")
        env.set(name, v)

    # ------------------------------------------------------------ statements (generators: yield = suspension)
    def run_plain(self, gen):
        try:
            next(gen)
        except StopIteration as s:
            return s.value
        raise Unsupported("yield outside a generator")

    def exec_block(self, stmts, env):
        for st in stmts:
            sig = yield from self.exec_stmt(st, env)
            if sig is not None: return sig
        return None

    def exec_stmt(self, st, env):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None: raise Unsupported(f"statement {type(st).__name__} at line {st.lineno}")
        return (yield from m(st, env))

    def eval_y(self, node, env):
        """evaluate an expression that may be (at its top) a yield"""
        if isinstance(node, ast.Yield):
            v = self.eval(node.value, env) if node.value is not None else None
            return (yield ("yield", v))
        if isinstance(node, ast.YieldFrom):
            it = self.models.py_iter(self, self.eval(node.value, env))
            if isinstance(it, self.models.GenObj):
                sent = None
                while True:
                    try:
                        v = it.send(self, sent)
                    except Stop as s:
                        return s.value
                    try:
                        sent = yield ("yield", v)
                    except PyRaise as e:
                        v = it.throw(self, e.exc)
                        sent = yield ("yield", v)
            def body(x):
                yield ("yield", x)
                return None
            yield from self.drive(it, body, node, env)
            return getattr(it, "retval", None)
        return self.eval(node, env)
        yield

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant): return None
        yield from self.eval_y(st.value, env)
        return None

    def st_Pass(self, st, env):
        return None
        yield

    def st_Import(self, st, env):
        for a in st.names:
            self.store(env, (a.asname or a.name).split(".")[0], self.import_module(a.name))
        return None
        yield

    def st_ImportFrom(self, st, env):
        if st.module == "__future__": return None
        mod = self.resolve_from(env.module, st)
        for a in st.names:
            if a.name == "*": continue
            want = a.asname or a.name
            if env.fn is None and not env.isclass and want in env.module.cells: continue
            # lazily at module level: bind only what was asked for
            if env.fn is None and not env.isclass and want not in env.module.done: continue
            self.store(env, want, self.import_name(mod, a.name))
        return None
        yield

    def st_Assign(self, st, env):
        v = yield from self.eval_y(st.value, env)
        for t in st.targets: self.assign(t, v, env)
        return None

    def st_AnnAssign(self, st, env):
        if st.value is not None: self.assign(st.target, self.eval(st.value, env), env)
        return None
        yield

    def st_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(env, t.id)
            self.store(env, t.id, self.inplace(st.op, old, self.eval(st.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr(o, t.attr, self.inplace(st.op, self.getattr(o, t.attr), self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env); k = self.eval_index(t.slice, env)
            self.setitem(o, k, self.inplace(st.op, self.getitem(o, k), self.eval(st.value, env)))
        return None
        yield

    def inplace(self, op, old, v):
        m = self.models
        if isinstance(old, m.ListObj) and isinstance(op, ast.Add):
            m.list_extend(self, old, v); return old
        if isinstance(old, m.SetObj) and isinstance(op, ast.BitOr):
            m.call_method(self, old, "update", [v], {}); return old
        return self.binop(op, old, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name): self.store(env, t.id, v)
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Starred): self.assign(t.value, v, env)
        else: raise Unsupported(f"assignment to {type(t).__name__}")

    def unpack(self, elts, v, env):
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        if isinstance(v, SU):
            n = len(elts)
            if star is not None: raise Unsupported("star unpacking of an opaque object")
            c = self.c
            t = v.t
            f, ps = tupf(n)
            # an opaque object unpacked as an n-tuple: require it to be one (the contract must say so)
            if c.x.unpack_ok(c, v, n):
                for e, p in zip(elts, ps): self.assign(e, SU(p(t)), env)
                return
            raise Unsupported("unpacking an opaque object")
        s = self.models.to_seq(self, v)
        n = slen(s)
        if not isinstance(n, int):
            k = len(elts) - (star is not None)
            if star is None:
                if self.c.branch(iz(n) == k):
                    for j, e in enumerate(elts): self.assign(e, sat(s, j), env)
                    return
                throw(ValueError, "unpack")
            if not self.c.branch(iz(n) >= k): throw(ValueError, "unpack")
            for j in range(star): self.assign(elts[j], sat(s, j), env)
            after = len(elts) - star - 1
            self.assign(elts[star], self.models.ListObj(sslice(s, star, mki(iz(n) - after))), env)
            for j in range(after): self.assign(elts[star + 1 + j], sat(s, iz(n) - after + j), env)
            return
        if star is None:
            if n != len(elts): throw(ValueError, "unpack")
            for j, e in enumerate(elts): self.assign(e, sat(s, j), env)
        else:
            if n < len(elts) - 1: throw(ValueError, "unpack")
            after = len(elts) - star - 1
            items = [sat(s, j) for j in range(n)]
            for j in range(star): self.assign(elts[j], items[j], env)
            self.assign(elts[star], self.models.ListObj(CSeq(items[star:n - after])), env)
            for j in range(after): self.assign(elts[star + 1 + j], items[n - after + j], env)

    def st_Return(self, st, env):
        v = None
        if st.value is not None: v = yield from self.eval_y(st.value, env)
        return ("ret", v)

    def st_Break(self, st, env):
        return ("brk",)
        yield

    def st_Continue(self, st, env):
        return ("cont",)
        yield

    def st_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            return (yield from self.exec_block(st.body, env))
        return (yield from self.exec_block(st.orelse, env))

    def st_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)): throw(AssertionError)
        return None
        yield

    def st_Global(self, st, env):
        return None
        yield
    st_Nonlocal = st_Global

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if env.fn is None: env.module.cells.pop(t.id, None)
                elif t.id in env.cells: env.delete(t.id)
                else: throw(NameError, t.id)
            elif isinstance(t, ast.Attribute): self.delattr(self.eval(t.value, env), t.attr)
            elif isinstance(t, ast.Subscript): self.delitem(self.eval(t.value, env), self.eval_index(t.slice, env))
            else: raise Unsupported("del")
        return None
        yield

    def st_FunctionDef(self, st, env):
        f = self.make_function(st, env, st.name)
        for d in reversed(st.decorator_list):
            f = self.call(self.eval(d, env), [f], {})
        self.store(env, st.name, f)
        return None
        yield

    def st_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        meta = None
        for k in st.keywords:
            if k.arg == "metaclass": meta = self.eval(k.value, env)
        cenv = Env("class", env if env.fn is not None else None, env.module, set())
        cenv.isclass = True
        cenv.qual = f"{env.qual}.{st.name}" if env.isclass and hasattr(env, "qual") else f"{env.fn.qualname}.<locals>.{st.name}" if isinstance(env.fn, FuncObj) else st.name
        self.run_plain(self.exec_block(st.body, cenv))
        ns = dict(cenv.cells)
        if meta is None:
            for b in bases:
                if isinstance(b, ClassObj) and b.meta is not None: meta = b.meta
        cls = self.models.make_class(self, st.name, bases, ns, env.module, meta)
        for f in ns.values():
            g = f
            if isinstance(g, (self.models.Prop, self.models.StaticM, self.models.ClassM)):
                for q in (g.f if not isinstance(g, self.models.Prop) else (g.get, g.setf, g.delf)) if isinstance(g, self.models.Prop) else (g.f,):
                    if isinstance(q, FuncObj): q.defcls = cls
            while isinstance(g, FuncObj):
                g.defcls = cls
                g = g.cells.get("__wrapped__")
        for d in reversed(st.decorator_list):
            cls = self.call(self.eval(d, env), [cls], {})
        self.store(env, st.name, cls)
        return None
        yield

    def st_Raise(self, st, env):
        if st.exc is None:
            if not self.excstack: throw(RuntimeError, "No active exception to reraise")
            raise PyRaise(self.excstack[-1])
        e = self.eval(st.exc, env)
        e = self.as_exception(e)
        if st.cause is not None:
            cz = self.eval(st.cause, env)
            cz = self.as_exception(cz) if cz is not None else None
            if isinstance(e, InstObj): e.set("__cause__", cz)
            else: self.c.causes.append((e, cz))
        elif isinstance(e, InstObj) and self.excstack and e.cells.get("__context__") is None and self.excstack[-1] is not e:
            e.set("__context__", self.excstack[-1])
        raise PyRaise(e)
        yield

    excstack = ()
    symrest = None

    def as_exception(self, e):
        if isinstance(e, InstObj): return e
        if isinstance(e, ClassObj) or isinstance(e, type): return self.call(e, [], {})
        if isinstance(e, SU): return e
        throw(TypeError, "exceptions must derive from BaseException")

    def st_Try(self, st, env):
        try:
            try:
                sig = yield from self.exec_block(st.body, env)
            except PyRaise as p:
                exc = p.exc
                for h in st.handlers:
                    if h.type is None or self.exc_matches(exc, self.eval(h.type, env)):
                        self.excstack = self.excstack + (exc,)
                        try:
                            if h.name: self.store(env, h.name, exc)
                            sig = yield from self.exec_block(h.body, env)
                            if h.name and h.name in env.cells: env.delete(h.name)
                        finally:
                            self.excstack = self.excstack[:-1]
                        break
                else:
                    raise
            else:
                if sig is None and st.orelse:
                    sig = yield from self.exec_block(st.orelse, env)
        except PyRaise as p:
            if st.finalbody:
                saved = self.excstack
                self.excstack = self.excstack + (p.exc,)
                try:
                    s2 = yield from self.exec_block(st.finalbody, env)
                finally:
                    self.excstack = saved
                if s2 is not None: return s2
            raise
        if st.finalbody:
            s2 = yield from self.exec_block(st.finalbody, env)
            if s2 is not None: return s2
        return sig

    def exc_matches(self, exc, t):
        if isinstance(t, tuple):
            for x in t:
                if self.exc_matches(exc, x): return True
            return False
        return self.truth(self.models.py_isinstance(self, exc, t))

    def st_With(self, st, env):
        return (yield from self.with_items(st.items, st.body, env))

    def with_items(self, items, body, env):
        if not items: return (yield from self.exec_block(body, env))
        it = items[0]
        cm = self.eval(it.context_expr, env)
        ex = self.getattr_type(cm, "__exit__")
        v = self.call(self.getattr_type(cm, "__enter__"), [], {})
        if it.optional_vars is not None: self.assign(it.optional_vars, v, env)
        try:
            sig = yield from self.with_items(items[1:], body, env)
        except PyRaise as p:
            e = p.exc
            self.excstack = self.excstack + (e,)
            try:
                r = self.call(ex, [self.models.py_type(self, e), e, e.cells.get("__traceback__") if isinstance(e, HObj) else None], {})
            finally:
                self.excstack = self.excstack[:-1]
            if self.truth(r): return None
            raise
        self.call(ex, [None, None, None], {})
        return sig

    # ---- loops
    def st_While(self, st, env):
        c = self.c
        key = ("while", env.module.name, st.lineno, st.col_offset, tuple(c.decisions))
        cut = None
        n = 0
        try:
            while True:
                d0 = len(c.decisions)
                if cut is None and n == c.x.peel and (key in c.x.cutset or c.x.always_cut):
                    cut = Cut(c, key[:4])
                if not self.truth(self.eval(st.test, env)):
                    return (yield from self.exec_block(st.orelse, env))
                sig = yield from self.exec_block(st.body, env)
                if sig is not None:
                    if sig[0] == "brk": return None
                    if sig[0] == "ret": return sig
                if cut is not None: cut.back()
                n += 1
                if getattr(c, "rounds", 0) and cut is None:
                    # the harness promises that the loop ends within that many rounds on every path: run it as it is
                    if n > c.rounds: raise Unsupported("loop longer than the contract's stated bound")
                    continue
                if c.x.unroll:
                    if n >= c.x.unroll and len(c.decisions) > d0: raise PathEnd
                    if n > 60: raise PathEnd
                    continue
                if len(c.decisions) > d0 and n > c.x.peel and key not in c.x.nocut or n > 60:
                    c.x.cutset.add(key); c.x.dirty = True
                    raise PathEnd
        finally:
            if cut is not None: cut.leave()

    def st_For(self, st, env):
        it = self.models.py_iter(self, self.eval(st.iter, env))
        def body(x):
            self.assign(st.target, x, env)
            sig = yield from self.exec_block(st.body, env)
            return sig
        sig = yield from self.drive(it, body, st, env)
        if sig is not None:
            if sig[0] == "brk": return None
            return sig
        return (yield from self.exec_block(st.orelse, env))

    def drive(self, it, body, node, env):
        """for x in it: body(x); body is a generator function; returns a signal or None"""
        c = self.c
        m = self.models
        if isinstance(it, m.GenObj):
            while True:
                try: x = it.send(self, None)
                except Stop: return None
                sig = yield from body(x)
                if sig is not None and sig[0] in ("brk", "ret"):
                    it.gc = True
                    return sig
        if m.concrete_stream(self, it):
            while True:
                try: x = m.py_next(self, it)
                except Stop: return None
                sig = yield from body(x)
                if sig is not None and sig[0] in ("brk", "ret"): return sig
        if getattr(c, "rounds", 0):
            # the harness promises that the loop ends within that many rounds on every path: run it as it is
            for _ in range(c.rounds):
                try: x = m.py_next(self, it)
                except Stop: return None
                sig = yield from body(x)
                if sig is not None and sig[0] in ("brk", "ret"): return sig
            raise Unsupported("loop longer than the contract's stated bound")
        if c.x.unroll:
            for _ in range(c.x.unroll):
                try: x = m.py_next(self, it)
                except Stop: return None
                sig = yield from body(x)
                if sig is not None and sig[0] in ("brk", "ret"): return sig
            raise PathEnd
        for _ in range(c.x.peel):
            try: x = m.py_next(self, it)
            except Stop: return None
            sig = yield from body(x)
            if sig is not None and sig[0] in ("brk", "ret"): return sig
        key = ("for", env.module.name if env is not None else "?", getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        cut = Cut(c, key)
        try:
            try: x = m.py_next(self, it)
            except Stop: return None
            sig = yield from body(x)
            if sig is not None and sig[0] in ("brk", "ret"): return sig
            cut.back()
        finally:
            cut.leave()

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        return self.c.branch(self.models.py_bool(self, v))

    def eval(self, n, env):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None: raise Unsupported(f"expression {type(n).__name__} at line {getattr(n, 'lineno', '?')}")
        return m(n, env)

    def ex_Constant(self, n, env):
        return n.value

    def ex_Name(self, n, env): return self.lookup(env, n.id)

    def ex_Tuple(self, n, env):
        s = CSeq(())
        for e in n.elts:
            if isinstance(e, ast.Starred): s = sconcat(s, self.models.to_seq(self, self.eval(e.value, env)))
            else: s = sconcat(s, CSeq((self.eval(e, env),)))
        return mktuple(s)

    def ex_List(self, n, env):
        t = self.ex_Tuple(n, env)
        return self.models.ListObj(tseq(t))

    def ex_Set(self, n, env):
        return self.models.make_set(self, [self.eval(e, env) for e in n.elts])

    def ex_Dict(self, n, env):
        d = self.models.DictObj()
        for k, v in zip(n.keys, n.values):
            if k is None: self.models.call_method(self, d, "update", [self.eval(v, env)], {})
            else:
                kk = self.eval(k, env)
                self.setitem(d, kk, self.eval(v, env))
        return d

    def ex_BoolOp(self, n, env):
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, env)
            if i == len(n.values) - 1: return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t: return v
            if isinstance(n.op, ast.Or) and t: return v
        return v

    def ex_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not): return mkb(z3.Not(bz(self.models.py_bool(self, v))))
        if isinstance(v, (int, float)):
            return -v if isinstance(n.op, ast.USub) else +v if isinstance(n.op, ast.UAdd) else ~v
        if isinstance(v, (SInt, SBool)) and isinstance(n.op, ast.USub): return mki(-iz(v))
        if isinstance(v, (SInt,)) and isinstance(n.op, ast.UAdd): return v
        return self.models.unary(self, n.op, v)

    def ex_BinOp(self, n, env):
        return self.binop(n.op, self.eval(n.left, env), self.eval(n.right, env))

    def binop(self, op, a, b): return self.models.binop(self, op, a, b)

    def ex_Compare(self, n, env):
        left = self.eval(n.left, env)
        res = True
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r, env)
            res = self.models.compare(self, op, left, right)
            if i < len(n.ops) - 1:
                if not self.truth(res): return res
            left = right
        return res

    def ex_IfExp(self, n, env):
        return self.eval(n.body, env) if self.truth(self.eval(n.test, env)) else self.eval(n.orelse, env)

    def ex_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def ex_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.store(env, n.target.id, v)
        return v

    def eval_index(self, s, env):
        return self.eval(s, env)

    def ex_Slice(self, n, env):
        return slice(*[self.eval(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def ex_Subscript(self, n, env):
        return self.getitem(self.eval(n.value, env), self.eval_index(n.slice, env))

    def ex_Lambda(self, n, env):
        return self.make_function(n, env, "<lambda>")

    def ex_JoinedStr(self, n, env):
        out, parts = "", None          # parts: set once an integer of unknown value is in it
        for p in n.values:
            if isinstance(p, ast.Constant): s = p.value
            else:
                try:
                    v = self.eval(p.value, env)
                except Unsupported:
                    return Opaque("formatted string")
                if isinstance(v, (str, int, bool, type(None))) and p.format_spec is None:
                    s = repr(v) if p.conversion == 114 else str(v)
                elif isinstance(v, self.models.SetObj) and v.nat is set and v.base is None and not v.sym and all(isinstance(x, str) for x in v.entries) and p.format_spec is None:
                    s = "{" + ", ".join(repr(x) for x in v.entries) + "}" if v.entries else "set()"
                elif isinstance(v, SInt) and p.format_spec is None:
                    parts = (parts or []) + ([out.encode()] if out else []) + [self.models.bm.Dec(v.t)]; out = ""; continue
                else:
                    return Opaque("formatted string")
            out += s
        if parts is None: return out
        r = Opaque("formatted string")
        if out: parts.append(out.encode())
        r.parts = parts
        return r

    def ex_Starred(self, n, env): raise Unsupported("starred")

    def ex_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            cls = self.lookup(env, "__class__")
            e = env
            while e.fn is None or e.cls is None: e = e.parent
            a = e.fn.node.args
            first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else a.vararg.arg
            inst = e.cells[first]
            return SuperProxy(cls, inst)
        f = self.eval(n.func, env)
        s = CSeq(())
        for a in n.args:
            if isinstance(a, ast.Starred): s = sconcat(s, self.models.to_seq(self, self.eval(a.value, env)))
            else: s = sconcat(s, CSeq((self.eval(a, env),)))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                for kk, vv in self.models.mapping_items(self, d):
                    if not isinstance(kk, str): raise Unsupported("symbolic keyword")
                    if kk in kw: throw(TypeError, "multiple values for keyword")
                    kw[kk] = vv
            else: kw[k.arg] = self.eval(k.value, env)
        if not isinstance(s, CSeq):
            return self.models.call_symargs(self, f, s, kw)
        return self.call(f, list(s.items), kw)

    # comprehensions
    def comp_env(self, env):
        e = Env("comp", env if (env.fn is not None) else None, env.module, set())
        e.cls = env.cls
        return e

    def ex_GeneratorExp(self, n, env):
        m = self.models
        g0 = n.generators[0]
        src = m.py_iter(self, self.eval(g0.iter, env))
        cenv = self.comp_env(env)
        def run():
            yield from self.comp_loop(n.generators, 0, src, cenv, lambda: (yield ("yield", self.eval(n.elt, cenv))))
            return None
        return m.GenObj(run(), f"genexpr@{n.lineno}", pure=(n, src, cenv) if len(n.generators) == 1 and not g0.ifs else None)

    def comp_loop(self, gens, k, it, cenv, emit):
        g = gens[k]
        def body(x):
            self.assign(g.target, x, cenv)
            for cond in g.ifs:
                if not self.truth(self.eval(cond, cenv)): return None
            if k + 1 < len(gens):
                it2 = self.models.py_iter(self, self.eval(gens[k + 1].iter, cenv))
                yield from self.comp_loop(gens, k + 1, it2, cenv, emit)
            else:
                yield from emit()
            return None
        yield from self.drive(it, body, g.iter, cenv)

    def pure_map(self, elt, target, cenv, seq):
        """closed form of [elt for target in seq] when elt is a pure, branch-free function of the item; None otherwise"""
        if isinstance(seq, CSeq): return None
        c = self.c
        k = c.int("k")
        x = c.x
        saved = (c.solver, len(c.pc), x.pure, dict(cenv.cells))
        w = set()
        entry = (c.serial, w)
        c.logs.append(entry)
        x.pure += 1
        try:
            self.assign(target, sat(seq, k), cenv)
            v = self.eval(elt, cenv)
            subst_value(v, k, k)
            ok = not {y for y in w if y[0] != cenv.uid} and (not isinstance(v, HObj) or v.uid <= entry[0])
        except Impure:
            ok = False
        except PyRaise:
            ok = False
        finally:
            x.pure -= 1
            c.logs = [e for e in c.logs if e is not entry]
            cenv.cells.clear(); cenv.cells.update(saved[3])
        if not ok: return None
        return SSeq(seq.n, lambda i: subst_value(v, k, i if z3.is_expr(i) else z3.IntVal(i)), inf=seq.inf)

    def ex_ListComp(self, n, env):
        m = self.models
        it = m.py_iter(self, self.eval(n.generators[0].iter, env))
        cenv = self.comp_env(env)
        if len(n.generators) == 1 and not n.generators[0].ifs and not isinstance(it, m.GenObj):
            r = m.stream_rest(self, it)
            if r is not None and not isinstance(r, CSeq) and not r.inf:
                s = self.pure_map(n.elt, n.generators[0].target, cenv, r)
                if s is not None:
                    m.stream_exhaust(self, it)
                    return m.ListObj(s)
        out = m.ListObj(CSeq(()))
        def emit():
            m.list_append(self, out, self.eval(n.elt, cenv))
            return None
            yield
        self.run_plain(self.comp_loop(n.generators, 0, it, cenv, emit))
        return out

    def ex_SetComp(self, n, env):
        m = self.models
        it = m.py_iter(self, self.eval(n.generators[0].iter, env))
        cenv = self.comp_env(env)
        out = m.make_set(self, [])
        def emit():
            m.call_method(self, out, "add", [self.eval(n.elt, cenv)], {})
            return None
            yield
        self.run_plain(self.comp_loop(n.generators, 0, it, cenv, emit))
        return out

    def ex_DictComp(self, n, env):
        m = self.models
        it = m.py_iter(self, self.eval(n.generators[0].iter, env))
        cenv = self.comp_env(env)
        out = m.DictObj()
        def emit():
            k = self.eval(n.key, cenv)
            self.setitem(out, k, self.eval(n.value, cenv))
            return None
            yield
        self.run_plain(self.comp_loop(n.generators, 0, it, cenv, emit))
        return out

    # ------------------------------------------------------------ functions
    def make_function(self, node, env, name):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {x.arg: self.eval(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        q = f"{env.qual}.{name}" if env.isclass and hasattr(env, "qual") else f"{env.fn.qualname}.<locals>.{name}" if isinstance(env.fn, FuncObj) else name
        f = FuncObj(node, env if env.fn is not None else None, env.module, defaults, kwd, name, q)
        if isinstance(node, ast.FunctionDef):
            doc = ast.get_docstring(node)
            f.cells["__doc__"] = doc
        f.cells["__module__"] = env.module.name
        if env.isclass: f.pending_cls = True
        return f

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        ponly = {x.arg for x in a.posonlyargs}
        out = {}
        kw = dict(kw)
        for i, v in enumerate(args[:len(pos)]): out[pos[i]] = v
        rest = args[len(pos):]
        if a.vararg:
            out[a.vararg.arg] = tuple(rest)
            if self.symrest is not None: out[a.vararg.arg], self.symrest = self.symrest, None
        elif rest: throw(TypeError, f"{f.name}() takes {len(pos)} positional arguments")
        extra = {}
        for k, v in kw.items():
            if k in ponly and a.kwarg: extra[k] = v
            elif k in pos and k not in ponly or k in [x.arg for x in a.kwonlyargs]:
                if k in out: throw(TypeError, f"multiple values for {k}")
                out[k] = v
            elif a.kwarg: extra[k] = v
            else: throw(TypeError, f"{f.name}() got an unexpected keyword argument {k!r}")
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in out:
                j = i - (len(pos) - nd)
                if j >= 0: out[p] = f.defaults[j]
                else: throw(TypeError, f"{f.name}() missing argument {p!r}")
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg in f.kwdefaults: out[x.arg] = f.kwdefaults[x.arg]
                else: throw(TypeError, f"{f.name}() missing keyword-only argument {x.arg!r}")
        if a.kwarg:
            d = self.models.DictObj()
            for k, v in extra.items(): d.raw_set(k, v)
            out[a.kwarg.arg] = d
        return out

    def call_function(self, f, args, kw):
        q = f"{f.module.name}:{f.name}"
        if f.env is None and q in self.summaries and f.defcls is None:
            return self.summaries[q](self, args, kw)
        if f.defcls is not None:
            qm = f"{f.module.name}:{f.defcls.name}.{f.name}"
            if qm in self.summaries: return self.summaries[qm](self, args, kw)
        self.inlined.add(q)
        b = self.bind(f, args, kw)
        loc, glo, non = function_locals(f.node)
        env = Env(f, f.env, f.module, loc, glo, non)
        env.cls = f.defcls
        env.cells.update(b)
        if isinstance(f.node, ast.Lambda):
            if has_yield(f.node): raise Unsupported("yield in lambda")
            return self.guard_depth(lambda: self.eval(f.node.body, env))
        if has_yield(f.node):
            return self.models.GenObj(self.gen_body(f, env), f.qualname)
        def run():
            sig = self.run_plain(self.exec_block(f.node.body, env))
            return sig[1] if sig is not None else None
        return self.guard_depth(run)

    def guard_depth(self, th):
        self.c.depth += 1
        try:
            if self.c.depth > 60: raise Unsupported("recursion depth")
            return th()
        finally:
            self.c.depth -= 1

    def gen_body(self, f, env):
        sig = yield from self.exec_block(f.node.body, env)
        return sig[1] if sig is not None else None

    def call(self, f, args, kw=None):
        return self.models.py_call(self, f, list(args), dict(kw or {}))

    # ------------------------------------------------------------ attribute and item access
    def getattr(self, o, k): return self.models.py_getattr(self, o, k)
    def getattr_type(self, o, k): return self.models.py_getattr(self, o, k)
    def setattr(self, o, k, v): return self.models.py_setattr(self, o, k, v)
    def delattr(self, o, k): return self.models.py_delattr(self, o, k)
    def getitem(self, o, k): return self.models.py_getitem(self, o, k)
    def setitem(self, o, k, v): return self.models.py_setitem(self, o, k, v)
    def delitem(self, o, k): return self.models.py_delitem(self, o, k)
