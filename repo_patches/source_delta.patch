From d668c2888ecef439476bd0f43df6020d75f5c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:08 +0000
Subject: [PATCH 01/45] fix: decodemsg: don't crash on a long receive buffer or
 a malformed length field

read_header assumed that fewer than 4096 bytes are buffered when it starts (else UnboundLocalError),
ignored a terminator that arrived in the chunk that filled the buffer, and let a non-numeric
length-of-body field raise ValueError out of decodemsg instead of resynchronizing.
---
 unpythonic/net/msg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/unpythonic/net/msg.py b/unpythonic/net/msg.py
index cc5d621..397dbf2 100644
--- a/unpythonic/net/msg.py
+++ b/unpythonic/net/msg.py
@@ -220,14 +220,14 @@ def decodemsg(buf, source):
         # The len(val) check prevents a junk flood attack.
         # The maximum value of the length has 4090 base-10 digits, all nines.
         # The 4096 is arbitrarily chosen, but matches the typical socket read size.
-        while len(val) < 4096:
-            j = val.find(b";")  # end of length-of-body field
-            if j != -1:  # found
-                break
+        j = val.find(b";", 0, 4096)  # end of length-of-body field
+        while j == -1 and len(val) < 4096:
             val = read_more_input()
+            j = val.find(b";", 0, 4096)
         if j == -1:  # maximum length of length-of-body field exceeded, terminator not found.
             raise MessageHeaderParseError
-        j = val.find(b";")
+        if not val[5:j].isdigit():  # malformed length-of-body field
+            raise MessageHeaderParseError
         body_len = int(val[5:j].decode("utf-8"))
         buf.set(val[(j + 1):])
         return body_len
-- 
2.43.0


From c520df242502d23f5f8537e48ea81d45329e407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:08 +0000
Subject: [PATCH 02/45] fix: streamsource: honor chunksize

---
 unpythonic/net/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/net/util.py b/unpythonic/net/util.py
index 541a6c0..874aece 100644
--- a/unpythonic/net/util.py
+++ b/unpythonic/net/util.py
@@ -128,7 +128,7 @@ def streamsource(stream, chunksize=4096):
         raise TypeError(f"Expected a derivative of `IOBase`, got {type(stream)}")
     def stream_chunk_iterator():
         while True:
-            data = stream.read(4096)
+            data = stream.read(chunksize)
             if len(data) == 0:
                 return
             yield data
-- 
2.43.0


From f2ae7b9360d453fb24665173ef460f78d1402d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 03/45] fix: tryf: propagate an exception that matches no
 handler

It was silently swallowed, and tryf returned None.
---
 unpythonic/excutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unpythonic/excutil.py b/unpythonic/excutil.py
index fc9c6b2..da23ed7 100644
--- a/unpythonic/excutil.py
+++ b/unpythonic/excutil.py
@@ -139,6 +139,7 @@ def tryf(body, *handlers, elsef=None, finallyf=None):
                         return handler(exception)
                     else:
                         return handler()
+        raise  # no handler matched
     else:
         if elsef is not None:
             return elsef()
-- 
2.43.0


From 8975f028db54b92f61d03cd81e31e7e9059069ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 04/45] fix: islice: negative start with a stop at or before
 the start position

islice(range(10))[-3:2] crashed with an AssertionError and islice(range(10))[-3:0] returned
the last three items; both are empty.
---
 unpythonic/slicing.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/unpythonic/slicing.py b/unpythonic/slicing.py
index 1188407..fcd82ed 100644
--- a/unpythonic/slicing.py
+++ b/unpythonic/slicing.py
@@ -74,15 +74,14 @@ def islice(iterable):
                     start = stop = None
                 elif start and start < 0:
                     n, start = -start, None
-                    if not stop:
+                    if stop is None:
                         it = lastn(n, iterable)
-                    else:  # stop and stop > 0:
+                    else:  # stop >= 0:
                         # to adjust stop, we must know how many items are dropped
                         cit = CountingIterator(iterable)
                         it = tuple(lastn(n, cit))  # force to actually count (note lastn stores only <= n items)
                         n_dropped = max(0, cit.count - n)  # max needed if start is past the start of iterable
-                        stop -= n_dropped
-                        assert stop >= 0
+                        stop = max(0, stop - n_dropped)  # max needed if stop is before the start position
                 elif stop and stop < 0:
                     it = butlastn(-stop, iterable)
                     stop = None
-- 
2.43.0


From 87a9aab3e43ab37ff58f77803867fc6f0e32c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 05/45] fix: islice: a single negative index before the start
 of the input

islice(range(3))[-5] returned the first item. A single index is a length-1 islice starting
at that index; here that is empty, as is already the case for an index past the end.
---
 unpythonic/slicing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/slicing.py b/unpythonic/slicing.py
index fcd82ed..4ba7e50 100644
--- a/unpythonic/slicing.py
+++ b/unpythonic/slicing.py
@@ -87,7 +87,8 @@ def islice(iterable):
                     stop = None
                 return islicef(it, start, stop, step)
             if k < 0:
-                return first(lastn(-k, iterable))
+                items = tuple(lastn(-k, iterable))
+                return first(items if len(items) == -k else ())
             return first(islicef(iterable, k, k + 1))
     return islice1()
 
-- 
2.43.0


From 00b62fd007ce402b75e7b1fe42177f7e35f22e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 06/45] fix: roview, view: a view into a view must follow
 length changes of the data

The cached range was keyed on the length of the parent view, which may stay the same
when the length of the underlying sequence changes (e.g. parent view is seq[-3:]).
---
 unpythonic/collections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 280f870..69a7c0f 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -638,7 +638,10 @@ class roview(SequenceView, _StrReprEqMixin):
         return len(r)
 
     def _update_cache(self):
-        seql = len(self.seq)
+        seq = self.seq
+        while isinstance(seq, (roview, view)):
+            seq = seq.seq
+        seql = len(seq)
         if seql != self._seql:
             self._seql = seql
             self._cache = self._range()
-- 
2.43.0


From 8d368b9c949859afc8b933fdb09ccfc24797a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 07/45] fix: tuplify_bindings: ignore the order of arguments
 bound to **kwargs

Calls passing the same named arguments in a different order got different keys, so
(g)memoize evaluated them again and fix did not detect the recursion.
---
 unpythonic/arity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index 1ffc460..aae766f 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -454,7 +454,8 @@ def tuplify_bindings(bound_arguments):
 
     if kwargs_param:
         thearguments = copy.copy(bound_arguments.arguments)  # avoid mutating our input
-        thearguments[kwargs_param] = tuplify(thearguments[kwargs_param])
+        # The order in which the named arguments were passed is not part of the bindings.
+        thearguments[kwargs_param] = tuple(sorted(thearguments[kwargs_param].items(), key=operator.itemgetter(0)))
     else:
         thearguments = bound_arguments.arguments
 
-- 
2.43.0


From bb84e7e7bbe2ea613abb8e81e2a2698df7121afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 08/45] fix: curry: extra positional args must not bind
 keyword-only parameters

An extra positional arg was recorded as extra, but was also bound to the keyword-only (or **kwargs)
parameter it had run into.
---
 unpythonic/arity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index aae766f..982efdc 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -543,6 +543,10 @@ def _bind(thesignature, args, kwargs, *, partial):
                     # raise TypeError(
                     #     'too many positional arguments') from None
                     extra_args.append(arg_val)
+                    extra_args.extend(arg_vals)
+                    # The parameter itself may still be bound by name.
+                    parameters_ex = (param,)
+                    break
 
                 if param.kind == Parameter.VAR_POSITIONAL:
                     # We have an '*args'-like argument, let's fill it with
-- 
2.43.0


From 47188a1bafbe0d2985e36a5981f624aa40b9b253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 09/45] fix: arities: a method that takes self via *args has
 minimum arity 0, not -1

---
 unpythonic/arity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index 982efdc..ff00031 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -270,7 +270,7 @@ def arities(f):
             elif v.kind is Parameter.VAR_POSITIONAL:
                 upper = _infty  # no upper limit
         if kind in ("instancemethod", "classmethod"):  # self/cls is passed implicitly
-            lower -= 1
+            lower = max(0, lower - 1)  # self/cls may also go into *args
             upper -= 1
         return lower, upper
     except (TypeError, ValueError) as e:  # likely an uninspectable method of a builtin
-- 
2.43.0


From 07fc3ae7adb90102527477c12e23e9ae031f0006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 10/45] fix: required_kwargs, optional_kwargs: return a set for
 generic functions, too

The names were merged into a dict, which crashed as soon as there were any.
---
 unpythonic/arity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index ff00031..43ffa57 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -306,7 +306,7 @@ def _kwargs(f, optionals=True):
     # Integration with the multiple-dispatch system (multimethods).
     from .dispatch import isgeneric, list_methods  # circular import
     if isgeneric(f):
-        thekwargs = {}
+        thekwargs = set()
         for (thecallable, type_signature) in list_methods(f):
             thekwargs.update(_kwargs(thecallable, optionals=optionals))
         return thekwargs
-- 
2.43.0


From a6dc5a0cbd56c4f9881c94d5bf19fb5551261384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 11/45] fix: interleave: with no iterables, end instead of
 looping forever

---
 unpythonic/it.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/it.py b/unpythonic/it.py
index b53caf4..8534a38 100644
--- a/unpythonic/it.py
+++ b/unpythonic/it.py
@@ -803,6 +803,8 @@ def interleave(*iterables):
     class ShortestInputEnded(Exception):
         pass
     iters = [iter(it) for it in iterables]
+    if not iters:
+        return
     def roundrobin():
         for it in iters:
             try:
-- 
2.43.0


From cd75feaa48beafc03b4b94ecfc92af755ecf131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:13 +0000
Subject: [PATCH 12/45] fix: in_slice, index_in_slice, fupdate: slice with
 start=length and negative step

Python's slicing clamps the start to the last item; we started from one past the end, so with
e.g. slice(10, None, -2) and length 10, the even indices were replaced instead of the odd ones.
---
 unpythonic/collections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 69a7c0f..96577b2 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -944,6 +944,8 @@ def _canonize_slice(s, length=None, wrap=None):  # convert negatives, inject def
             if length is None:
                 raise ValueError("Need length to determine default start for step < 0")
             start = wrap(-1)
+    elif step < 0 and start == length:  # one past the end; Python's slicing starts from the last item
+        start = wrap(-1)
 
     stop = wrap(s.stop)
     if stop is None:
-- 
2.43.0


From 738066f0530f070b640e2f3bdfabc565c8fdd20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:25 +0000
Subject: [PATCH 13/45] fix: env: don't run __init__ twice

__new__ called __init__, which Python then calls again; this made it impossible to create
an assignonce with initial bindings.
---
 unpythonic/env.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/unpythonic/env.py b/unpythonic/env.py
index d5538e4..b754619 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -61,7 +61,6 @@ class env:
         instance = super().__new__(cls)
         instance._env = {}
         instance._finalized = False  # "let" sets this once env setup done
-        instance.__init__(**kwargs)
         return instance
 
     def __init__(self, **bindings):
-- 
2.43.0


From 41fa1093e615cc17c0dd9c0e5673d07ae0e7bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:25 +0000
Subject: [PATCH 14/45] fix: env.update, env.setdefault: validate names and
 respect assignonce

They wrote directly to the underlying dictionary, bypassing the checks for reserved and invalid
names, as well as assignonce's protection of existing bindings.
---
 unpythonic/env.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/unpythonic/env.py b/unpythonic/env.py
index b754619..587424d 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -151,11 +151,15 @@ class env:
                 raise AttributeError("adding new bindings to a finalized environment is not allowed")
         if self._finalized and any(k not in self for k in bindings):
             raise AttributeError("adding new bindings to a finalized environment is not allowed")
-        return self._env.update(*mapping, **bindings)
+        # Go through `__setattr__`, so that names are validated and assign-once bindings are respected.
+        for name, value in dict(*mapping, **bindings).items():
+            setattr(self, name, value)
     def setdefault(self, k, *default):
         if self._finalized and k not in self:
             raise AttributeError(f"name {repr(k)} is not defined; adding new bindings to a finalized environment is not allowed")
-        return self._env.setdefault(k, *default)
+        if k not in self:
+            setattr(self, k, default[0] if default else None)
+        return self[k]
 
     # subscripting
     def __getitem__(self, k):
-- 
2.43.0


From 4247a27209b672c02b7ce17ce55cf73c44137727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:25 +0000
Subject: [PATCH 15/45] fix: dyn: a new thread must get its own copy of the
 inherited bindings

The scopes themselves were shared with the main thread, so updating an inherited dynamic variable
in one thread changed it in the others.
---
 unpythonic/dynassign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/dynassign.py b/unpythonic/dynassign.py
index 8fce245..44f97d3 100644
--- a/unpythonic/dynassign.py
+++ b/unpythonic/dynassign.py
@@ -26,7 +26,7 @@ def _getstack():
         # TODO: preferable to use the parent thread's current stack, but difficult to get.
         # Could monkey-patch threading.Thread.__init__ to record this information in self...
         with _mainthread_lock:
-            _L._stack = _mainthread_stack.copy()
+            _L._stack = [scope.copy() for scope in _mainthread_stack]
     return _L._stack
 
 def _getobservers():
-- 
2.43.0


From dfe0ef4ceb82a52e0d6d1f91ed88fdc7f7557a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:25 +0000
Subject: [PATCH 16/45] fix: gmemoize: two threads making the first call must
 share one generator

The memo creation was not protected, so each thread could end up with its own generator instance.
---
 unpythonic/gmemo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/unpythonic/gmemo.py b/unpythonic/gmemo.py
index ecd14e6..88f9291 100644
--- a/unpythonic/gmemo.py
+++ b/unpythonic/gmemo.py
@@ -92,12 +92,14 @@ def gmemoize(gfunc):
     See also ``imemoize``, ``fimemoize``.
     """
     memos = {}
+    memos_lock = RLock()
     @wraps(gfunc)
     def gmemoized(*args, **kwargs):
         k = tuplify_bindings(resolve_bindings(gfunc, *args, **kwargs))
-        if k not in memos:
-            # underlying generator instance, memo instance, lock instance
-            memos[k] = (gfunc(*args, **kwargs), [], RLock())
+        with memos_lock:
+            if k not in memos:
+                # underlying generator instance, memo instance, lock instance
+                memos[k] = (gfunc(*args, **kwargs), [], RLock())
         return _MemoizedGenerator(*memos[k])
     return gmemoized
 
-- 
2.43.0


From cb6ec2de0ad491b0b27c3138cf124f38aab232aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:07 +0000
Subject: [PATCH 17/45] fix: signal: allow a declining handler to use handlers
 itself

---
 unpythonic/conditions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/conditions.py b/unpythonic/conditions.py
index a02e853..b627a57 100644
--- a/unpythonic/conditions.py
+++ b/unpythonic/conditions.py
@@ -505,7 +505,8 @@ class InvokeRestart(BaseException):
 
 def _find_handlers(cls):  # 0..n (though 0 is an error, handled at the calling end)
     _ensure_stacks()
-    for e in _stacks.handlers:
+    # A handler may itself establish handlers while we are suspended, so iterate over a copy.
+    for e in tuple(_stacks.handlers):
         for t, handler in e:  # t: tuple or type
             if isinstance(t, tuple):
                 if any(issubclass(cls, x) for x in t):
-- 
2.43.0


From 41c7180e0d1929e10611c0c8730aa334b82ff442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:36 +0000
Subject: [PATCH 18/45] fix: forall: don't run the lines after a guard that
 failed

---
 unpythonic/amb.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/unpythonic/amb.py b/unpythonic/amb.py
index cf8d3f8..5587cb0 100644
--- a/unpythonic/amb.py
+++ b/unpythonic/amb.py
@@ -182,11 +182,8 @@ def forall(*lines):
                 code += f"{bind}(lambda {name}:\nbegin(e.close_over({freevars}), e.assign('{name}', {name}), "
                 begin_is_open = True
             else:
-                if is_first:
-                    code += f"{bind}(lambda _:\nbegin(e.close_over(set()), "
-                    begin_is_open = True
-                else:
-                    code += f"{seq}(\n"
+                code += f"{bind}(lambda _:\nbegin(e.close_over({freevars}), "
+                begin_is_open = True
 
         allcode += code
     allcode += ")" * (len(lines) - 1)
-- 
2.43.0


From 6f7efb049168a2c12051b4775c9a2da8dde583f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:36 +0000
Subject: [PATCH 19/45] fix: compose: a composition of one function must not
 modify that function

---
 unpythonic/fun.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index e3afecf..36ada83 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -821,8 +821,10 @@ def _make_compose1(direction):
         # Using reducel is particularly nice here:
         #  - if fs is empty, we output None
         #  - if fs contains only one item, we output it as-is
+        fs = tuple(fs)
         composed = reducel(compose1_two, fs)  # op(elt, acc)
-        composed = passthrough_lazy_args(composed)
+        if len(fs) > 1:  # don't modify the user's function
+            composed = passthrough_lazy_args(composed)
         return composed
     return compose1
 
@@ -907,9 +909,10 @@ def _make_compose(direction):
         was chosen when this closure instance was created. Please use the
         public API functions whose names explicitly state the direction.
         """
-        fs = force(fs)
+        fs = tuple(force(fs))
         composed = reducel(compose_two, fs)  # op(elt, acc)
-        composed = passthrough_lazy_args(composed)
+        if len(fs) > 1:  # don't modify the user's function
+            composed = passthrough_lazy_args(composed)
         return composed
     return compose
 
-- 
2.43.0


From 860703285b1b16233977ed8169fe2405171a74bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:36 +0000
Subject: [PATCH 20/45] fix: gtco: don't swallow a TypeError raised by the
 final iterable

---
 unpythonic/gtco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/gtco.py b/unpythonic/gtco.py
index b5cccf3..5fd4b5e 100644
--- a/unpythonic/gtco.py
+++ b/unpythonic/gtco.py
@@ -30,9 +30,10 @@ def gtco(generator):
         else:
             # usually the return value is None, but allow for an iterable
             try:
-                yield from x  # the last batch!
+                it = iter(x)
             except TypeError:
                 return x  # passthrough
+            yield from it  # the last batch!
 
 def gtrampolined(gfunc):
     """Decorator for generator functions (i.e. definitions of generators).
-- 
2.43.0


From d97cda7f477c66fab307fc45781b248a9c7fafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:36 +0000
Subject: [PATCH 21/45] fix: ulp: correct result just below a power of two

---
 unpythonic/numutil.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unpythonic/numutil.py b/unpythonic/numutil.py
index e70ff29..281cadb 100644
--- a/unpythonic/numutil.py
+++ b/unpythonic/numutil.py
@@ -6,7 +6,7 @@ __all__ = ["almosteq", "ulp",
            "partition_int", "partition_int_triangular", "partition_int_custom"]
 
 from itertools import takewhile
-from math import floor, log2
+from math import frexp
 import sys
 
 from .it import iterate1, last, within, rev
@@ -77,7 +77,8 @@ def ulp(x):  # Unit in the Last Place
     """
     eps = sys.float_info.epsilon
     # m_min = abs. value represented by a mantissa of 1.0, with the same exponent as x has
-    m_min = 2**floor(log2(abs(x)))
+    _, e = frexp(x)  # exact, unlike floor(log2(abs(x)))
+    m_min = 2**(e - 1)
     return m_min * eps
 
 
-- 
2.43.0


From 2c57ac87c314902264d7a8fe882cae4acc5dbd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:36 +0000
Subject: [PATCH 22/45] fix: generic: a falsy instance must find the
 multimethods of its base classes, too

---
 unpythonic/dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/dispatch.py b/unpythonic/dispatch.py
index 5f06e41..a6e8651 100644
--- a/unpythonic/dispatch.py
+++ b/unpythonic/dispatch.py
@@ -463,7 +463,7 @@ def _list_multimethods(dispatcher, self_or_cls=None):
     # See discussions on interaction between `@staticmethod` and `super` in Python:
     #   https://bugs.python.org/issue31118
     #   https://stackoverflow.com/questions/26788214/super-and-staticmethod-interaction/26807879
-    if self_or_cls:
+    if self_or_cls is not None:
         if isinstance(self_or_cls, type):
             cls = self_or_cls
         elif hasattr(self_or_cls, "__class__"):
-- 
2.43.0


From 89743224ca72e848f1c8f8483551c897ee8a4f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:36 +0000
Subject: [PATCH 23/45] fix: generic: follow the MRO also in diamond
 inheritance

---
 unpythonic/dispatch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unpythonic/dispatch.py b/unpythonic/dispatch.py
index a6e8651..925500d 100644
--- a/unpythonic/dispatch.py
+++ b/unpythonic/dispatch.py
@@ -472,8 +472,10 @@ def _list_multimethods(dispatcher, self_or_cls=None):
             assert False
 
         for base in cls.__mro__[1:]:  # skip the class itself in the MRO
-            if hasattr(base, dispatcher.__name__):  # does this particular super have f?
-                base_oop_method = getattr(base, dispatcher.__name__)
+            # Does this particular super have f? Look at its own namespace only;
+            # what it inherits comes later in the MRO.
+            if dispatcher.__name__ in vars(base):
+                base_oop_method = vars(base)[dispatcher.__name__]
                 base_raw_function, _ = getfunc(base_oop_method)
                 if isgeneric(base_raw_function):  # it's @generic or @typed
                     base_registry = getattr(base_raw_function, "_method_registry")
-- 
2.43.0


From d4d6e3b103c0b1c799d7edd2a64189954a0facc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:36 +0000
Subject: [PATCH 24/45] fix: Shim: allow a falsy fallback object

---
 unpythonic/collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 96577b2..50b43a9 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -376,7 +376,7 @@ class Shim:
     def __getattr__(self, k):
         thing = unbox(self._shim_box)
         fallback = self._shim_fallback
-        if not fallback or hasattr(thing, k):
+        if fallback is None or hasattr(thing, k):
             return getattr(thing, k)
         # fallback and not hasattr(thing, k)
         otherthing = unbox(fallback) if isinstance(fallback, box) else fallback
-- 
2.43.0


From 08d1efe92b1b43cbc13fd969364f9326ea83d356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:36 +0000
Subject: [PATCH 25/45] fix: cons: deleting an attribute must not break
 immutability

---
 unpythonic/llist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index a8a56d9..7209300 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -220,6 +220,8 @@ class cons:
         if hasattr(self, "_immutable"):
             raise TypeError("'cons' object does not support item assignment")
         super().__setattr__(k, v)
+    def __delattr__(self, k):
+        raise TypeError("'cons' object does not support item deletion")
     def __iter__(self):
         """Return iterator with default iteration scheme: single cell or list."""
         return LinkedListOrCellIterator(self)
-- 
2.43.0


From ae42641d33a7fc41d78cdab98d321f2952e4c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:13 +0000
Subject: [PATCH 26/45] fix: dyn: let live views that are no longer used be
 freed

---
 unpythonic/dynassign.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/dynassign.py b/unpythonic/dynassign.py
index 44f97d3..a95afc0 100644
--- a/unpythonic/dynassign.py
+++ b/unpythonic/dynassign.py
@@ -6,6 +6,7 @@ __all__ = ["dyn", "make_dynvar"]
 import threading
 from collections import ChainMap
 from collections.abc import Container, Sized, Iterable, Mapping
+from weakref import WeakValueDictionary
 
 from .singleton import Singleton
 
@@ -31,7 +32,7 @@ def _getstack():
 
 def _getobservers():
     if not hasattr(_L, "_observers"):
-        _L._observers = {}
+        _L._observers = WeakValueDictionary()
     return _L._observers
 
 class _EnvBlock(object):
-- 
2.43.0


From 75f2d7c2bb9a88e744c147421f4e16268701b0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:37 +0000
Subject: [PATCH 27/45] fix: jump: keep self when jumping into a trampolined
 bound method

---
 unpythonic/tco.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unpythonic/tco.py b/unpythonic/tco.py
index 16eb80d..f469408 100644
--- a/unpythonic/tco.py
+++ b/unpythonic/tco.py
@@ -128,7 +128,9 @@ slower than Python's ``for``.
 __all__ = ["jump", "trampolined"]
 
 from functools import wraps
+from inspect import ismethod
 from sys import stderr
+from types import MethodType
 
 from .regutil import register_decorator
 from .lazyutil import islazy, passthrough_lazy_args, maybe_force_args
@@ -165,6 +167,8 @@ class _jump:
     def __init__(self, target, args, kwargs):
         # IMPORTANT: don't let target bring along its trampoline if it has one
         self.target = target._entrypoint if hasattr(target, "_entrypoint") else target
+        if ismethod(target) and self.target is not target:  # `_entrypoint` is that of the raw function
+            self.target = MethodType(self.target, target.__self__)
         self.args = args
         self.kwargs = kwargs
         self._claimed = False  # set when the instance is caught by a trampoline
-- 
2.43.0


From d8bc2a77830cb2296e2935a3e8a676e103f76913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:01 +0000
Subject: [PATCH 28/45] fix: partial, curry: partially applying a
 type-annotated function more than once

---
 unpythonic/fun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 36ada83..6bca5fb 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -160,13 +160,13 @@ def partial(func, *args, **kwargs):
         type_signature = get_type_hints(thecallable)
         if type_signature:  # TODO: Python 3.8+: use walrus assignment here
             # Partial mode: allow leaving some parameters unbound.
-            bound_arguments = _resolve_bindings(func, collected_args, collected_kwargs, _partial=True)
+            bound_arguments = _resolve_bindings(thecallable, collected_args, collected_kwargs, _partial=True)
             # Allow having some parameters without type annotations, in which case those parameters
             # will not be type-checked. `@generic` requires them for all parameters except
             # `self`/`cls`, but type annotations in general have no such requirement.
             mismatches = _get_argument_type_mismatches(type_signature, bound_arguments, skip_unannotated=True)
             if mismatches:
-                description = _format_callable(func)
+                description = _format_callable(thecallable)
                 mismatches_list = [f"{parameter}={repr(value)}, expected {expected_type}"
                                        for parameter, value, expected_type in mismatches]
                 mismatches_str = "; ".join(mismatches_list)
-- 
2.43.0


From dab1d65fd3ef24c6c15f23baae1403a40330302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 29/45] fix: curry: pass through also extra arguments given
 before the last step

---
 unpythonic/fun.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 6bca5fb..2d41264 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -160,7 +160,8 @@ def partial(func, *args, **kwargs):
         type_signature = get_type_hints(thecallable)
         if type_signature:  # TODO: Python 3.8+: use walrus assignment here
             # Partial mode: allow leaving some parameters unbound.
-            bound_arguments = _resolve_bindings(thecallable, collected_args, collected_kwargs, _partial=True)
+            # Like in `curry`, there may be extra args, to be passed through later.
+            bound_arguments, _, _ = _bind(signature(thecallable), collected_args, collected_kwargs, partial=True)
             # Allow having some parameters without type annotations, in which case those parameters
             # will not be type-checked. `@generic` requires them for all parameters except
             # `self`/`cls`, but type annotations in general have no such requirement.
@@ -326,7 +327,8 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
     # will perform the signature analysis.)
     if not (args or kwargs):
         try:
-            signature(f)
+            # A partial of ours may hold extra args, to be passed through later.
+            signature(f.func if isinstance(f, functools_partial) else f)
         except ValueError as err:  # inspection failed in inspect.signature()?
             msg = err.args[0]
             if "no signature found" in msg:
@@ -360,6 +362,13 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
                 #
                 # Note the impedance mismatch with our use of `functools.partial`; the `args`/`kwargs`
                 # here are **NOT** the full `args`/`kwargs`, but only the new ones from this step.
+                # Any of the full `args`/`kwargs` may be extra.
+                if isinstance(f, functools_partial):
+                    thecallable = f.func
+                    args = f.args + args
+                    kwargs = {**f.keywords, **kwargs}
+                else:
+                    thecallable = f
                 #
                 # We know these args/kwargs were extra when matched against the function's call signature:
                 later_args = analysis.extra_args
@@ -371,7 +380,7 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
                     now_args = args
                 now_kwargs = {k: v for k, v in kwargs.items() if k not in later_kwargs}
 
-                now_result = maybe_force_args(f, *now_args, **now_kwargs)
+                now_result = maybe_force_args(thecallable, *now_args, **now_kwargs)
 
                 # Inspect the return value(s).
                 #  - Inject the appropriate items to `later_args` and `later_kwargs`.
-- 
2.43.0


From ecd8e7ed8630afe8e026c902a70ff9b900b7dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:39 +0000
Subject: [PATCH 30/45] fix: partial, curry: see also nested partials as
 partials

---
 unpythonic/fun.py | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 2d41264..e9f4d1b 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -107,6 +107,21 @@ def memoize(f):
 # latest application winning. We must resist the temptation to override that behavior here,
 # because there are other places in the stdlib, particularly `inspect._signature_get_partial`
 # (as of Python 3.8), that expect the standard semantics.
+def _unwrap_partial(f, args, kwargs):
+    """From `f`, which may be a `functools.partial`, extract the underlying callable.
+
+    Return `(thecallable, all_args, all_kwargs)`, where the arguments already given
+    to `f` have been prepended to the new `args` and `kwargs`.
+
+    `functools.partial` does not flatten a partial object that has a `__dict__`,
+    so the partials may be nested.
+    """
+    while isinstance(f, functools_partial):
+        args = f.args + args
+        kwargs = {**f.keywords, **kwargs}
+        f = f.func
+    return f, args, kwargs
+
 def partial(func, *args, **kwargs):
     """Type-checking `functools.partial`.
 
@@ -134,14 +149,7 @@ def partial(func, *args, **kwargs):
     # HACK: As of Python 3.8, `typing.get_type_hints` does not know about `functools.partial` objects,
     # HACK: but those objects have `args` and `keywords` attributes, so we can extract what we need.
     # TODO: Maybe remove this hack if `typing.get_type_hints` gets support for `functools.partial` at some point.
-    if isinstance(func, functools_partial):
-        thecallable = func.func
-        collected_args = func.args + args
-        collected_kwargs = {**func.keywords, **kwargs}
-    else:
-        thecallable = func
-        collected_args = args
-        collected_kwargs = kwargs
+    thecallable, collected_args, collected_kwargs = _unwrap_partial(func, args, kwargs)
 
     if isgeneric(thecallable):  # multiple dispatch
         # For generic functions, at least one multimethod must match the partial signature
@@ -328,7 +336,7 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
     if not (args or kwargs):
         try:
             # A partial of ours may hold extra args, to be passed through later.
-            signature(f.func if isinstance(f, functools_partial) else f)
+            signature(_unwrap_partial(f, (), {})[0])
         except ValueError as err:  # inspection failed in inspect.signature()?
             msg = err.args[0]
             if "no signature found" in msg:
@@ -363,12 +371,7 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
                 # Note the impedance mismatch with our use of `functools.partial`; the `args`/`kwargs`
                 # here are **NOT** the full `args`/`kwargs`, but only the new ones from this step.
                 # Any of the full `args`/`kwargs` may be extra.
-                if isinstance(f, functools_partial):
-                    thecallable = f.func
-                    args = f.args + args
-                    kwargs = {**f.keywords, **kwargs}
-                else:
-                    thecallable = f
+                thecallable, args, kwargs = _unwrap_partial(f, args, kwargs)
                 #
                 # We know these args/kwargs were extra when matched against the function's call signature:
                 later_args = analysis.extra_args
@@ -499,14 +502,7 @@ def _decide_curry_action(f, args, kwargs):
     # To support kwargs properly, we must compute argument bindings anyway, so we also use the
     # `func` and `args` attributes. This allows us to compute the bindings of all arguments
     # against the original function.
-    if isinstance(f, functools_partial):
-        function = f.func
-        collected_args = f.args + args
-        collected_kwargs = {**f.keywords, **kwargs}
-    else:
-        function = f
-        collected_args = args
-        collected_kwargs = kwargs
+    function, collected_args, collected_kwargs = _unwrap_partial(f, args, kwargs)
 
     def _bind_arguments(thecallable):
         # For this check we look for a complete match, hence `_partial=False`.
-- 
2.43.0


From f418d196fc338eaa1c59fa1f7d7985428f56a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:53 +0000
Subject: [PATCH 31/45] fix: partial, curry: support objects that have a
 __call__ method

---
 unpythonic/fun.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index e9f4d1b..36c8fc9 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -165,7 +165,10 @@ def partial(func, *args, **kwargs):
         # but it's much more pythonic, if the type-checking `partial` works properly for code that does
         # not opt in to `unpythonic`'s multiple-dispatch subsystem.
         # TODO: There's some repeated error-reporting code in `unpythonic.dispatch`.
-        type_signature = get_type_hints(thecallable)
+        try:
+            type_signature = get_type_hints(thecallable)
+        except TypeError:  # an object with a `__call__` method
+            type_signature = get_type_hints(thecallable.__call__)
         if type_signature:  # TODO: Python 3.8+: use walrus assignment here
             # Partial mode: allow leaving some parameters unbound.
             # Like in `curry`, there may be extra args, to be passed through later.
-- 
2.43.0


From 3768ab9b4a539589f339ca28dcc6b06c85e91b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:45 +0000
Subject: [PATCH 32/45] fix: isoftype: a NewType over a parametric type

---
 unpythonic/typecheck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/typecheck.py b/unpythonic/typecheck.py
index 228c9dd..d690c8e 100644
--- a/unpythonic/typecheck.py
+++ b/unpythonic/typecheck.py
@@ -195,7 +195,7 @@ def isoftype(value, T):
         #   UserId = typing.NewType("UserId", int)
         #   i = UserId(42)  # UserId is the identity function, as per `typing` module docs
         #   print(type(i))  # int
-        return isinstance(value, T.__supertype__)
+        return isoftype(value, T.__supertype__)
 
     # Some one-trick ponies.
     for U in (typing.Iterator,    # can't non-destructively check element type
-- 
2.43.0


From 8a5f1bb761c312ce69356ced1e48925674251f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:45 +0000
Subject: [PATCH 33/45] fix: isoftype: only the empty tuple matches Tuple[()]

---
 unpythonic/typecheck.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/typecheck.py b/unpythonic/typecheck.py
index d690c8e..6091ef5 100644
--- a/unpythonic/typecheck.py
+++ b/unpythonic/typecheck.py
@@ -235,7 +235,8 @@ def isoftype(value, T):
             return False
         # bare `typing.Tuple`, no restrictions on length or element type.
         # Python 3.9: if a generic has no args, it has no `__args__` attribute.
-        if not hasattr(T, "__args__") or not T.__args__:
+        # But the empty tuple type `typing.Tuple[()]` has an empty `__args__`.
+        if T is typing.Tuple or not hasattr(T, "__args__") or T.__args__ is None:
             return True
         # homogeneous element type, arbitrary length
         if len(T.__args__) == 2 and T.__args__[1] is Ellipsis:
-- 
2.43.0


From 893cf11fe356c4952b706b89c1b4061e2b3286f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:45 +0000
Subject: [PATCH 34/45] fix: isoftype: a concrete container class matches
 exactly its instances

---
 unpythonic/typecheck.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/unpythonic/typecheck.py b/unpythonic/typecheck.py
index 6091ef5..ff7cc50 100644
--- a/unpythonic/typecheck.py
+++ b/unpythonic/typecheck.py
@@ -197,6 +197,13 @@ def isoftype(value, T):
         #   print(type(i))  # int
         return isoftype(value, T.__supertype__)
 
+    # A concrete class, such as `list` (unlike `typing.List`), or a user-defined subclass of one.
+    if isinstance(T, type) and T.__module__ != "typing" and not hasattr(T, "__args__"):
+        try:
+            return isinstance(value, T)
+        except TypeError as err:  # pragma: no cover, for debugging when things go wrong
+            raise NotImplementedError(f"Failed to understand the type, so here's some debug data: {type(T)}, {repr(T.__class__)}, {str(T)}, {repr(T)}") from err
+
     # Some one-trick ponies.
     for U in (typing.Iterator,    # can't non-destructively check element type
               typing.Iterable,    # can't non-destructively check element type
-- 
2.43.0


From 3498c858d1337ec7eb3658a866a60a42705c42ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:44 +0000
Subject: [PATCH 35/45] fix: s: final element of an alternating geometric
 sequence

---
 unpythonic/mathseq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index dc35342..24e0c59 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -346,14 +346,14 @@ def s(*spec):
             # elt = x0*(k**a) --> k**a = (elt/x0) --> a = logk(elt/x0)
             a = log(abs(elt / x0), abs(k))
             if is_almost_int(a) and a > 0:
-                if not almosteq(x0 * (k**a), elt):  # check parity of final term, could be an alternating sequence
+                if not almosteq(x0 * (k**int(round(a))), elt):  # check parity of final term, could be an alternating sequence
                     return False
                 return int(1 + round(a))
         else:  # seqtype == "power":
             # elt = x0**(k**a) --> k**a = logx0 elt --> a = logk (logx0 elt)
             a = log(log(abs(elt), abs(x0)), abs(k))
             if is_almost_int(a) and a > 0:
-                if not almosteq(x0**(k**a), elt):  # parity
+                if not almosteq(x0**(k**int(round(a))), elt):  # parity
                     return False
                 return int(1 + round(a))
         return False
-- 
2.43.0


From 6363838b79306d58b925def0ed985145f99ce436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:44 +0000
Subject: [PATCH 36/45] fix: s: reject a power sequence that does not match the
 given terms

---
 unpythonic/mathseq.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index 24e0c59..aceead9 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -310,12 +310,16 @@ def s(*spec):
                         # becomes float
                         r = (r1 + r2) / 2
                     return ("geom", a0, r)
-            if abs(a0) != 1 and a1 != 0 and a2 != 0:
+            if a0 != 0 and abs(a0) != 1 and a1 != 0 and abs(a1) != 1 and a2 != 0:
                 p1 = log(abs(a1), abs(a0))
                 p2 = log(abs(a2), abs(a1))
                 if almosteq(p1, p2):  # a0, a0**p, (a0**p)**p, ...  [a0, **p]
                     p = (p1 + p2) / 2
-                    return ("power", a0, p)
+                    if not isinstance(p, _symExpr) and is_almost_int(p):
+                        p = float(round(p))
+                    # The analysis used absolute values, so check the signs.
+                    if isinstance(p, _symExpr) or (almosteq(a0**p, a1) and almosteq(a1**p, a2)):
+                        return ("power", a0, p)
             # Most unrecognized sequences trigger this case.
             raise SyntaxError(f"Specification did not match any supported formula: '{origspec}'")
         else:  # more elements are optional but must be consistent
-- 
2.43.0


From 797a9bc9b980b4eb12b249f6a0f1c922b2a61c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:13 +0000
Subject: [PATCH 37/45] fix: forall: a TypeError raised by a line must not make
 solutions disappear

---
 unpythonic/amb.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/unpythonic/amb.py b/unpythonic/amb.py
index 5587cb0..157edfa 100644
--- a/unpythonic/amb.py
+++ b/unpythonic/amb.py
@@ -209,9 +209,11 @@ def monadify(value, unpack=True):
         return value
     elif unpack:
         try:
-            return MonadicList.from_iterable(value)
+            it = iter(value)
         except TypeError:
             pass  # fall through
+        else:
+            return MonadicList.from_iterable(it)
     return MonadicList(value)  # unit(MonadicList, value)
 
 class MonadicList:  # TODO: This if anything is **the** place to use @typed.
@@ -318,10 +320,7 @@ class MonadicList:  # TODO: This if anything is **the** place to use @typed.
         Eager; the input iterable will be iterated over in its entirety
         to produce the list. If it is consumable, it will be consumed.
         """
-        try:
-            return cls(*iterable)
-        except TypeError:  # maybe a generator; try forcing it before giving up.
-            return cls(*tuple(iterable))
+        return cls(*iterable)
 
     def copy(self):
         """Return a copy of this MonadicList."""
-- 
2.43.0


From 352a33cde493a4d0d7ecd8e84ed80a185220f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:18 +0000
Subject: [PATCH 38/45] fix: forall: a name rebound in one branch must not leak
 to another branch

---
 unpythonic/amb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unpythonic/amb.py b/unpythonic/amb.py
index 157edfa..bf8b9fd 100644
--- a/unpythonic/amb.py
+++ b/unpythonic/amb.py
@@ -178,11 +178,13 @@ def forall(*lines):
         # names defined in the env (so that we get proper lexical scoping
         # even though we use an imperative stateful object to implement it)
         if not is_last:
+            # A later line may have rebound a name in the previous branch, so restore the values, too.
+            restore = "".join(f"e.assign('{k}', {k}), " for k in sorted(freevars))
             if name:
-                code += f"{bind}(lambda {name}:\nbegin(e.close_over({freevars}), e.assign('{name}', {name}), "
+                code += f"{bind}(lambda {name}:\nbegin(e.close_over({freevars}), {restore}e.assign('{name}', {name}), "
                 begin_is_open = True
             else:
-                code += f"{bind}(lambda _:\nbegin(e.close_over({freevars}), "
+                code += f"{bind}(lambda _unused{j}:\nbegin(e.close_over({freevars}), {restore}"
                 begin_is_open = True
 
         allcode += code
-- 
2.43.0


From 53475cd46727134747d9dc3b38368b1af1e2de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:18 +0000
Subject: [PATCH 39/45] fix: namelambda: don't rename the original function
 object

---
 unpythonic/misc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/unpythonic/misc.py b/unpythonic/misc.py
index 2e765a7..8ae56b4 100644
--- a/unpythonic/misc.py
+++ b/unpythonic/misc.py
@@ -91,7 +91,14 @@ def namelambda(name):
             # TODO: Can't raise TypeError; @fploop et al. do-it-now-and-replace-def-with-result
             # TODO: decorators need to do this.
             return f
-        f = copy(f)
+        # `copy.copy` returns a function object as-is, so make the copy manually.
+        original = f
+        f = FunctionType(original.__code__, original.__globals__, original.__name__,
+                         original.__defaults__, original.__closure__)
+        for attr in ("__kwdefaults__", "__annotations__", "__dict__"):
+            setattr(f, attr, copy(getattr(original, attr)))
+        for attr in ("__doc__", "__module__", "__qualname__"):
+            setattr(f, attr, getattr(original, attr))
         # __name__ for tools like pydoc; __qualname__ for repr(); __code__.co_name for stack traces
         #     https://stackoverflow.com/questions/40661758/name-of-a-python-function-in-a-stack-trace
         #     https://stackoverflow.com/questions/16064409/how-to-create-a-code-object-in-python
-- 
2.43.0


From f18cac355d5ad298ae89ecf6a96e0bf2f15f8f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:17 +0000
Subject: [PATCH 40/45] fix: raisef: don't drop a cause that is falsy

---
 unpythonic/excutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/excutil.py b/unpythonic/excutil.py
index da23ed7..1c43472 100644
--- a/unpythonic/excutil.py
+++ b/unpythonic/excutil.py
@@ -49,7 +49,7 @@ def raisef(exc, *, cause=None):
             and you would like to `raise ... from ...`, pass that other exception
             instance as `cause`. The default `None` performs a plain `raise ...`.
     """
-    if cause:
+    if cause is not None:
         raise exc from cause
     else:
         raise exc
-- 
2.43.0


From 5b92dc43608cd45b956b8a9c5ddcb7ed092c9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:59 +0000
Subject: [PATCH 41/45] fix: let: allow a binding named mode (or body, in the
 decorators)

---
 unpythonic/let.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unpythonic/let.py b/unpythonic/let.py
index 3b1a253..30f6ed8 100644
--- a/unpythonic/let.py
+++ b/unpythonic/let.py
@@ -212,7 +212,7 @@ def bletrec(**bindings):
     This chains ``@dletrec`` and ``@call``."""
     return _blet("letrec", **bindings)
 
-def _let(mode, body, **bindings):
+def _let(mode, body, /, **bindings):
     assert mode in ("let", "letrec")
     # Important for Python 3.6+, which preserves ordering of kwargs (PEP 468):
     #
@@ -254,11 +254,11 @@ def _let(mode, body, **bindings):
 
 # decorator factory: almost as fun as macros?
 # _envname is for co-operation with the dlet macro.
-def _dlet(mode, _envname="env", **bindings):
+def _dlet(mode, /, _envname="env", **bindings):
     def deco(body):
         # evaluate env only once, when the function def runs
         # (to preserve state between calls to the decorated function)
-        env = _let(mode, body=None, **bindings)
+        env = _let(mode, None, **bindings)
         @wraps(body)
         def withenv(*args, **kwargs):
             kwargs_with_env = kwargs.copy()
@@ -267,7 +267,7 @@ def _dlet(mode, _envname="env", **bindings):
         return withenv
     return deco
 
-def _blet(mode, _envname="env", **bindings):
+def _blet(mode, /, _envname="env", **bindings):
     dlet_deco = _dlet(mode, _envname, **bindings)
     def deco(body):
         return call(dlet_deco(body))
-- 
2.43.0


From 02f0efb5370a88c1f876af6038f6784f3875421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:23 +0000
Subject: [PATCH 42/45] fix: arities: correct the table of builtins (bool,
 complex, float, map, zip, compile, property)

---
 unpythonic/arity.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index 43ffa57..691349a 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -32,15 +32,15 @@ class UnknownArity(ValueError):
 # of the standard library.
 _infty = float("+inf")
 _builtin_arities = {  # inspectable, but reporting incorrectly
-                    bool: (1, 1),       # bool(x)
+                    bool: (0, 1),       # bool([x])
                     bytes: (0, 3),      # see help(bytes)
-                    complex: (1, 2),    # complex(real, [imag])
+                    complex: (0, 2),    # complex([real, [imag]])
                     enumerate: (1, 2),  # enumerate(iterable, [start])
                     filter: (2, 2),     # filter(function or None, iterable)
-                    float: (1, 1),      # float(x)
+                    float: (0, 1),      # float([x])
                     frozenset: (0, 1),  # frozenset(), frozenset(iterable)
                     int: (0, 2),        # int(x=0), int(x, base=10)
-                    map: (1, _infty),   # map(func, *iterables)
+                    map: (2, _infty),   # map(func, *iterables)
                     memoryview: (1, 1),  # memoryview(object)
                     object: (0, 0),     # object()
                     range: (1, 3),      # range(stop), range(start, stop, [step])
@@ -48,7 +48,7 @@ _builtin_arities = {  # inspectable, but reporting incorrectly
                     slice: (1, 3),      # slice(stop), slice(start, stop, [step])
                     str: (0, 3),        # see help(str)
                     tuple: (0, 1),      # tuple(), tuple(iterable)
-                    zip: (1, _infty),   # zip(iter1 [,iter2 [...]])
+                    zip: (0, _infty),   # zip(*iterables)
                     # not inspectable
                     abs: (1, 1),
                     all: (1, 1),
@@ -59,7 +59,7 @@ _builtin_arities = {  # inspectable, but reporting incorrectly
                     callable: (1, 1),
                     chr: (1, 1),
                     classmethod: (1, 1),
-                    compile: (3, 5),
+                    compile: (3, 6),
                     delattr: (2, 2),
                     dict: (0, 1),       # dict(), dict(mapping), dict(iterable)
                     dir: (0, 1),
@@ -89,7 +89,7 @@ _builtin_arities = {  # inspectable, but reporting incorrectly
                     ord: (1, 1),
                     pow: (2, 3),
                     print: (1, _infty),
-                    property: (1, 4),   # property(getx), ..., property(getx, setx, delx, docstring)
+                    property: (0, 4),   # property(getx), ..., property(getx, setx, delx, docstring)
                     repr: (1, 1),
                     round: (1, 2),
                     set: (0, 1),        # set(), set(iterable)
-- 
2.43.0


From a814298c673679f5b66aa4a641d0e7e41938f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:01 +0000
Subject: [PATCH 43/45] fix: fixtco: forget the jumps of a TCO chain that ended
 by an exception

---
 unpythonic/fix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fix.py b/unpythonic/fix.py
index 92066ae..9d79e98 100644
--- a/unpythonic/fix.py
+++ b/unpythonic/fix.py
@@ -224,7 +224,8 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
                     e.tco_stack.append(env(target=f, cleanup=set()))  # harmless if no TCO
                     return f_memo(*args, **kwargs)
                 finally:
-                    e.tco_stack.pop()
+                    t = e.tco_stack.pop()
+                    e.visited.difference_update(t.cleanup)  # in case the TCO chain ended by an exception
                     e.visited.clear() if mrproper else e.visited.remove(me)
             else:  # cycle detected
                 return bottom(f_fix.__name__, *args, **kwargs)
-- 
2.43.0


From 43a7fbb133d445b4ac00fb81195ea9c25084003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:01 +0000
Subject: [PATCH 44/45] fix: fixtco: pass to bottom the args of the repeated
 call, not those of its caller

---
 unpythonic/fix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/fix.py b/unpythonic/fix.py
index 9d79e98..0a0dc10 100644
--- a/unpythonic/fix.py
+++ b/unpythonic/fix.py
@@ -263,7 +263,7 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
                     for target in t.cleanup:
                         e.visited.remove(target)
                     v._claimed = True  # we have handled the jump, by terminating the infinite cycle.
-                    return bottom(v.target.__name__, *args, **kwargs)
+                    return bottom(v.target.__name__, *v.args, **v.kwargs)
                 # Just like the f_fix loop adds `f` to `visited` before calling it,
                 # we add the target to `visited` before we let the trampoline jump
                 # into it.
-- 
2.43.0


From b2026a8f2b25bce0c6d397ce78e5e75c2ced6813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:00 +0000
Subject: [PATCH 45/45] fix: fixtco: a jump back to a call in progress is a
 repeated call

---
 unpythonic/fix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/fix.py b/unpythonic/fix.py
index 0a0dc10..b897850 100644
--- a/unpythonic/fix.py
+++ b/unpythonic/fix.py
@@ -216,7 +216,7 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
         @wraps(f)
         def f_fix(*args, **kwargs):
             e = _get_threadlocals()
-            me = (f_fix, tuplify_bindings(resolve_bindings(f, *args, **kwargs)))
+            me = (f, tuplify_bindings(resolve_bindings(f, *args, **kwargs)))  # the raw `f`, as in the targets of jumps
             mrproper = not e.visited  # on outermost call, scrub visited clean at exit
             if me not in e.visited:
                 try:
-- 
2.43.0

