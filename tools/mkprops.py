"""Writes /verif/properties.jsonl (the single place where the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["unpythonic/"+f for f in files],
                               mechanism=[dict(name=n, where="unpythonic/"+w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

p("P01", "Framed messages survive any chunking of the stream",
  "Encoding any sequence of byte-string payloads (any length, any content, including bytes that look like message headers), concatenating the encodings and delivering the stream in chunks of any sizes makes a message decoder return exactly those payloads, in order, and then nothing. A message is returned without reading more input than the chunk that completes it, and no byte of a following message is lost or duplicated. Splitting a byte string or a stream into chunks and rejoining the chunks gives back the same bytes.",
  ["inputs", "histories"], "all payload sequences, all chunk boundaries",
  "The tests send a handful of short messages through two or three chunkings; the chunk boundary can fall at any byte of any header and payloads can contain header bytes.",
  ["net/msg.py", "net/util.py"],
  [("encodemsg", "net/msg.py:encodemsg"), ("decodemsg", "net/msg.py:decodemsg"), ("MessageDecoder", "net/msg.py:MessageDecoder"), ("ReceiveBuffer", "net/util.py:ReceiveBuffer"), ("bytessource, streamsource, recvall, netstringify", "net/util.py")],
  ["MessageDecoder.decode", "MessageDecoder.get_buffered_data"])
p("P02", "The message decoder resynchronises on junk and never crashes on it",
  "For any byte stream whatsoever, decoding terminates with a payload or with the end-of-stream result and never raises. Junk that contains no sync byte, placed before a well-formed message or between messages, is skipped and every well-formed message after it is still returned intact; a malformed header is discarded and decoding resumes at the next sync byte.",
  ["inputs", "fault_sequences"], "all byte strings as stream content, all chunkings, all corrupted headers",
  "Tests cover two or three junk placements; corrupted headers can differ at every byte position and be split at any chunk boundary.",
  ["net/msg.py", "net/util.py"],
  [("synchronize/read_header/read_body", "net/msg.py:decodemsg")], ["MessageDecoder.decode"])
p("P03", "Functional update is slice assignment on a copy; the original is untouched",
  "For every sequence, every in-range index or slice (any start, stop and step, negative included) and long-enough replacement values, a functional update returns a new sequence of the same type equal to a copy on which the item or (same-length) slice assignments were done in order, and leaves the original unchanged; for mappings it equals a copy updated with the given bindings. The shadowing view used for this reads the same through indexing, slicing, iteration and length. Slice-membership and index-within-slice queries agree with the positions that Python's own slicing selects.",
  ["inputs"], "all lengths, indices, slices, and replacement values",
  "Tests pick some ten slices of one short tuple; the arithmetic has separate cases for sign of start, stop, step and None that combine.",
  ["fup.py", "collections.py", "slicing.py"],
  [("fupdate", "fup.py:fupdate"), ("fup", "slicing.py:fup"), ("ShadowedSequence", "collections.py:ShadowedSequence"), ("in_slice, index_in_slice", "collections.py")])
p("P04", "Sequence views always show, and write through to, the current data",
  "At every moment, reading a view (by index, slice, iteration, length or equality) gives what slicing the underlying sequence's current contents would give, for any slice and any nesting of views, also after the underlying sequence has been mutated or has changed length. Assigning through a writable view changes exactly the viewed positions of the underlying sequence, and a read-only view, or a writable view over a read-only sequence, cannot be used to change anything.",
  ["inputs", "histories"], "all slices, nestings, and interleavings of mutation with view access",
  "Tests exercise a few hand-picked slices; views are nested arbitrarily and the underlying data changes between accesses.",
  ["collections.py"],
  [("roview", "collections.py:roview"), ("view", "collections.py:view")])
p("P05", "Iterator selection functions return exactly the items they name",
  "For every finite iterable (sequence or one-shot iterator) and every count or index, taking, dropping, splitting at, unpacking with a tail, picking the first/second/nth/last item, the last n, all but the last n, the tail, and slicing an iterable with slice syntax return exactly the items the corresponding list slice or index would, in order, with the documented default or fill value when items run out. Invalid counts are rejected with the documented error.",
  ["inputs"], "all finite iterables, all counts, indices and slices",
  "Tests sample a few counts on a few short ranges, mostly not the boundary where the input is shorter than, equal to, or one longer than the count.",
  ["it.py", "slicing.py"],
  [("take, drop, split_at, unpack, nth, first, second, last, lastn, butlast, butlastn, tail", "it.py"), ("islice", "slicing.py:islice")])
p("P06", "Iterator transformers produce the documented sequence and nothing else",
  "For every finite input, the windowing, chunking, interleaving, padding, prepending, deduplicating (global and consecutive), flattening (full, one level, selective), partitioning, mapping from the left or right over one or several iterables to the shortest or longest, reversal, powerset, within-tolerance, membership/index/find, iteration of a function, subset and all-same operations give the sequence or answer that their documentation defines, in the documented order, with no item lost, duplicated or invented.",
  ["inputs"], "all finite inputs, all parameters, all callables",
  "Tests check one or two examples per function; order and boundary errors (empty inputs, exact multiples, unequal lengths, equal items) lie outside them.",
  ["it.py"],
  [("window, chunked, interleave, pad, scons, uniqify, uniq, flatten, flatten1, flatten_in, partition, map, map_longest, rmap, mapr, rzip, zipr, flatmap, rev, powerset, within, inn, iindex, find, iterate, iterate1, subset, allsame", "it.py")])
p("P07", "Lazy iterator functions consume no more input than their output needs",
  "The lazy iterator functions work on infinite inputs: producing the first k outputs consumes from the input only as many items as those outputs need (plus the documented lookahead, such as the window length, the number of held-back last items, or one chunk), in order, each input item being pulled once, and creating the result object consumes nothing beyond the documented initial fill.",
  ["inputs", "histories"], "all prefixes of output, including on infinite inputs",
  "Tests use finite ranges and look at final output; over-consumption by one item is invisible to them.",
  ["it.py", "fold.py", "slicing.py"],
  [("take, drop, nth, window, chunked, butlastn, pad, uniqify, uniq, flatten, interleave, within, iterate, find, iindex, inn, partition, split_at, map_longest", "it.py"), ("scanl, unfold, running_minmax", "fold.py")])
p("P08", "Folds, scans and unfolds agree with their recursive definitions",
  "For every function, initial value and finite iterables (one or several, to the shortest or longest), left and right folds and reductions apply the function in the documented order with the accumulator as the last argument, scans yield every intermediate value starting from the initial one with the last equal to the corresponding fold, and the reversed variants equal the plain ones on reversed inputs. Unfolding yields exactly the values its step function produces until it signals the end, and product and (running) minimum/maximum agree with direct computation.",
  ["inputs"], "all functions, initial values, and finite inputs",
  "Tests use commutative arithmetic or one list-building example, which hides argument-order and off-by-one errors on several inputs.",
  ["fold.py"],
  [("scanl, scanr, scanl1, scanr1, foldl, foldr, reducel, reducer, rscanl, rscanl1, rfoldl, rreducel, unfold, unfold1, prod, running_minmax, minmax", "fold.py")])
p("P09", "All readers of a memoized generator see one shared sequence, computed once",
  "Every iterator obtained from a memoized generator (for equal arguments), however the iterators are interleaved and from however many threads, yields the same sequence that one run of the underlying generator yields, with each underlying item computed exactly once and only when first needed. An exception raised by the underlying generator is raised at the same position to every reader as the same exception, and already computed items can be read by index or slice.",
  ["inputs", "schedules", "histories"], "all interleavings of readers, all generators including failing ones",
  "Tests read two or three iterators one after another in one thread.",
  ["gmemo.py", "arity.py"],
  [("gmemoize, imemoize, fimemoize", "gmemo.py")])
p("P10", "Memoized functions and promises are evaluated at most once per arguments",
  "A memoized function runs its body at most once for each distinct binding of its parameters, also when called from several threads at once, no matter how the arguments are passed (by position, by name, by default, in any keyword order), and afterwards returns the identical result object or raises the identical exception. A promise runs its computation at most once, on first forcing, then returns the identical value or raises the identical exception again; forcing a non-promise gives it back, and forcing a container forces every promise inside it.",
  ["inputs", "histories", "schedules"], "all call styles, histories and interleavings of calls, including failing ones",
  "Tests call a few functions twice; ways of passing equal arguments and failing bodies multiply.",
  ["fun.py", "lazyutil.py", "arity.py"],
  [("memoize", "fun.py:memoize"), ("Lazy, force1, force, lazycall-related helpers", "lazyutil.py"), ("resolve_bindings, tuplify_bindings", "arity.py")])
p("P11", "Environments: bindings are what was last set, and protection rules hold",
  "After any history of definitions, updates and deletions, an environment's attribute, item, membership, length, iteration and mapping views all show exactly the current bindings. Once finalized, no history can add a new name or delete one, while rebinding existing names works; reserved and invalid names are rejected and bind nothing; an assign-once environment never changes an existing binding except through its explicit override; on leaving its `with` block an environment is empty.",
  ["inputs", "histories"], "all histories of operations and all names",
  "Tests run one short scenario per method.",
  ["env.py", "assignonce.py"],
  [("env", "env.py:env"), ("assignonce", "assignonce.py:assignonce")])
p("P12", "Let and sequencing constructs bind, scope and order as documented",
  "Expression-level let binds independently (no binding sees another), letrec evaluates bindings in order with each seeing the earlier ones, functions may refer to any binding, bodies see all of them, decorated functions each keep one private environment, shared by their calls and by nothing else, and the value of the form is the value of its body. The sequencing forms evaluate all items left to right exactly once and return the first or last value (lazily or eagerly as documented), and assignments inside an imperative do-sequence are visible to later items and not outside it.",
  ["inputs", "programs"], "all bindings, bodies and item sequences",
  "Tests use a few fixed forms; order of evaluation and isolation between calls are only sampled.",
  ["let.py", "lispylet.py", "seq.py"],
  [("let, letrec, dlet, dletrec, blet, bletrec", "let.py, lispylet.py"), ("begin, begin0, lazy_begin, lazy_begin0, do, do0, assign", "seq.py")])
p("P13", "Dynamic variables follow dynamic scope, restored on every exit, per thread",
  "Reading a dynamic variable gives the value from the innermost enclosing dynamic block that binds it, else the registered default, else an attribute error; updating one changes that innermost binding, and updating several at once changes either all or none. When a block is left in any way, normally or by exception, the visible values are exactly those before it (apart from explicit updates to outer blocks), and other threads never observe a thread's bindings, except that a new thread starts from its own copy of the main thread's bindings current when it first uses the facility.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all nestings of blocks, updates, exceptions and threads",
  "Tests run a few nestings in two threads.",
  ["dynassign.py"],
  [("dyn, make_dynvar", "dynassign.py")])
p("P14", "Signals reach the right handler, and restarts resume exactly where invoked",
  "Signalling searches the handlers of the dynamic extent from innermost to outermost, calling those whose condition type matches, in listed order within one block; a handler that returns declines, and one that invokes a restart transfers control to the innermost restart of that name, whose value becomes the result of its restart block. The protocols keep their promises when every handler declines (plain signal returns, error raises, cerror offers proceeding, warn offers muffling), unhandled exceptions and normal exits leave the handler and restart stacks exactly as they were, and stacks are per thread.",
  ["inputs", "histories", "fault_sequences"], "all nestings of handlers, restarts and signals",
  "Tests walk through a handful of two-level scenarios.",
  ["conditions.py"],
  [("signal, error, cerror, warn, handlers, restarts, with_restarts, invoke, find_restart, use_value, available_restarts, available_handlers, resignal_in", "conditions.py")])
p("P15", "An escape ends exactly its own dynamic extent with exactly its own value",
  "Invoking an escape continuation returns the given value from the very call that created it, however deeply nested and through any intermediate catch points, running cleanup code on the way; a tagged throw is caught by the innermost catch point accepting that tag, and by no other; untagged throws and catch points without tags follow the documented table, and escapes not allowed to be caught by a catch-all pass through one. Ordinary exceptions and ordinary returns are unaffected, and invoking an escape after its extent has ended is an error.",
  ["inputs", "programs"], "all nestings of catch points, tags, and escape depths",
  "Tests use one or two levels with a few tags.",
  ["ec.py"],
  [("throw, catch, call_ec", "ec.py")])
p("P16", "Tail-call and functional loops equal plain recursion, in constant stack",
  "A trampolined function that jumps to itself or to other trampolined functions returns the value plain recursion would give, for any number of jumps without growing the call stack, with arguments and keyword arguments delivered as given to the jump target in order. Functional loops run their body with the given or default loop variables until it returns a value that is not a loop jump; loops over an iterable deliver each item once in order with the accumulator of the previous step, return the last accumulator when the input is exhausted, and end early on escape.",
  ["inputs", "programs"], "all jump chains and loop bodies, of any length",
  "Tests check a few loops of fixed length.",
  ["tco.py", "fploop.py"],
  [("trampolined, jump, SELF", "tco.py"), ("looped, looped_over, breakably_looped, breakably_looped_over", "fploop.py")])
p("P17", "Linked lists round-trip with sequences, are immutable, and hash with equality",
  "Converting any sequence to a linked list and iterating it or converting back gives the same items in the same order; reversal, append, map and zip over linked lists give the list operations' results, and iteration over improper lists and trees follows the documented order. Cells cannot be modified after creation; two structures are equal exactly when they have the same shape and equal items, equal structures have equal hashes, and pickling or copying preserves equality.",
  ["inputs"], "all sequences, nestings, and improper structures",
  "Tests cover a few short lists.",
  ["llist.py"],
  [("cons, ll, llist, lreverse, lappend, lmap, lzip, member, car..cddddr, LinkedListIterator, BinaryTreeIterator, TailIterator", "llist.py")])
p("P18", "Frozen dictionaries behave as immutable dictionaries and hash by content",
  "A frozen dictionary built from any mappings, pairs and keyword bindings holds exactly what a dict updated in that order would, supports the read-only mapping operations with the same results, compares equal to any mapping with the same content, and equal ones have equal hashes. No operation changes its content, also when a source mapping is changed later; functional update, copying and pickling preserve content, and constructing one without arguments always gives the same empty frozen dictionary.",
  ["inputs", "histories"], "all mappings and construction orders",
  "Tests use two or three small dictionaries.",
  ["collections.py", "fup.py"],
  [("frozendict", "collections.py:frozendict")])
p("P19", "Boxes hold exactly the last value set, per box and per thread as documented",
  "After any history, a box yields the last value put into it through every reading route (get, unbox, iteration, membership, equality), keeps its own identity, and always has length one; an immutable optional value never changes. In a thread-local box each thread sees its own last value, or the current default until it sets one or after clearing, and no thread ever affects another's; a shim redirects attribute reads and writes to whatever its box currently holds, falling back for reads only.",
  ["histories", "schedules", "inputs"], "all histories of operations over several boxes and threads",
  "Tests do one set and one get, and one extra thread.",
  ["collections.py"],
  [("box, ThreadLocalBox, Some, unbox, Shim", "collections.py")])
p("P20", "Argument binding and arity queries agree with Python's own calling rules",
  "For every function signature (positional-only, positional, keyword-only, defaults, variadics) and every argument list, resolving the bindings gives the assignment of values to parameters that Python's call itself would make, and fails when the call would fail; two calls are given the same canonical binding exactly when they bind the same values. Arity, keyword and arity-inclusion queries report exactly the positional counts and keyword names the function accepts, for functions, methods, classes and callables alike.",
  ["inputs", "programs"], "all signatures and all argument lists",
  "Tests try a few signatures each with a few calls.",
  ["arity.py"],
  [("resolve_bindings, resolve_bindings_partial, tuplify_bindings, getfunc, arities, required_kwargs, optional_kwargs, kwargs, arity_includes, resolve_arities", "arity.py")])
p("P21", "A curried or partially applied function gives the same result however applied",
  "Splitting the arguments of a call to a curried function into any groups of any sizes, in order, gives the same result, evaluated once, as the ordinary call, and while required arguments are still missing no call is made (the call is made by the group that completes them, so arguments for optional parameters have to be in that group or an earlier one). Arguments beyond what the function accepts are passed on to its result if that is callable and otherwise returned along with it inside another curry context; at the top level, leftovers of the curried function itself are an error. Type-annotated functions are checked against the arguments given so far while some are missing, and partial application equals calling with the arguments merged.",
  ["inputs", "programs"], "all signatures, argument lists and groupings",
  "Tests use two- and three-argument functions in a few groupings.",
  ["fun.py", "arity.py"],
  [("curry, iscurried, partial, apply, flip, rotate", "fun.py")])
p("P22", "Composition and pipes thread values through every stage once, in order",
  "Composing one or more functions left or right, with one or many values, equals nested application in the stated order, the values flowing between stages positionally and by name as given. Pipes in eager, lazy and object forms give the same result as the composition, evaluate each stage exactly once in order (lazy ones only when run), and extending a pipe never changes the original; the companion argument adapters route arguments to exactly the positions or names they name.",
  ["inputs", "programs"], "all non-empty lists of functions, all values",
  "Tests use chains of two or three functions.",
  ["fun.py", "seq.py", "funutil.py"],
  [("composel, composer, composel1, composer1, composelc, composerc, composeli, composeri, to1st, to2nd, tokth, tolast, to, withself, notf, andf, orf, identity, const", "fun.py"), ("pipe, pipe1, pipec, piped, piped1, lazy_piped, lazy_piped1", "seq.py"), ("Values, call, callwith", "funutil.py")])
p("P23", "Multiple dispatch picks the latest matching implementation, or fails",
  "Calling a generic function runs exactly the most recently registered implementation whose parameter annotations accept all the arguments actually given, positional or named, including for methods with inheritance where a subclass's implementations take precedence over its bases'; when none accepts, a type error is raised and nothing is run. Registering an implementation never changes how other generic functions (functions of a different module or qualified name) answer, and a single-implementation typed function accepts exactly the calls matching its annotations.",
  ["inputs", "histories", "programs"], "all registration histories, signatures and argument tuples",
  "Tests register two or three implementations and call each once.",
  ["dispatch.py", "typecheck.py"],
  [("generic, augment, typed, isgeneric, methods, format_methods, list_methods", "dispatch.py")])
p("P24", "Run-time type checks decide membership in the annotated type",
  "For every value and every supported type specification (unions, optionals, tuples of fixed or any length, mappings, sequences, sets, callables, constrained type variables, and nestings of these), the check answers yes exactly when the value belongs to the type, element by element, and asking never changes the value. Compound answers are consistent with their parts: a union accepts a value exactly when one of its members does, and a parametric container type accepts a nonempty container exactly when the container kind and all its elements match (an empty one, whose element type is unknown, never).",
  ["inputs"], "all values and type specifications, nested to any depth",
  "Tests check some eighty fixed value/type pairs.",
  ["typecheck.py"],
  [("isoftype", "typecheck.py:isoftype")])
p("P25", "Symbols and singletons are unique, across threads and pickling",
  "Looking up a named symbol always gives the one object of that name, in every thread and after pickling and copying, and differently named symbols differ; every generated symbol differs from every other object, keeps its identity through pickling within the process, and never equals a named one. A singleton class has at most one instance at a time, a second construction is refused, and unpickling yields the existing instance.",
  ["inputs", "schedules", "histories"], "all names and interleavings of creation",
  "Tests create a few symbols in a few threads.",
  ["symbol.py", "singleton.py"],
  [("sym, gensym, Symbol", "symbol.py"), ("Singleton", "singleton.py")])
p("P26", "Lazy mathematical sequences have the terms their specification implies",
  "A sequence specified by example terms (constant, arithmetic, geometric, power or cyclic; finite with an end or a count, or infinite) yields exactly the terms of the progression the examples determine, ending exactly at the given end, and a specification that fits none is rejected. Term-wise arithmetic and comparisons on sequences yield the operation applied to corresponding terms, reversed operands included, ending with the shorter; Cauchy and diagonal products yield the documented terms; prime and Fibonacci generators yield exactly those numbers in order.",
  ["inputs"], "all specifications with exact numbers, all term indices",
  "Tests look at the first few terms of a few specifications.",
  ["mathseq.py"],
  [("s, imathify, gmathify, sadd.., cauchyprod, diagonal_reduce, fibonacci, triangular, primes", "mathseq.py")])
p("P27", "Integer partitions and numeric helpers are exact and complete",
  "Partitioning a positive integer (freely within bounds, into triangular numbers, or into given distinct components) yields every tuple of allowed positive parts summing to it, in every order, each exactly once, and nothing else. The fixed-point search returns a point the function maps to within the tolerance, and almost-equality and unit-in-last-place agree with their definitions for all finite (for the latter, nonzero normal) numbers.",
  ["inputs"], "all integers, bounds and component sets; all numbers",
  "Tests check counts for one or two integers.",
  ["numutil.py"],
  [("partition_int, partition_int_triangular, partition_int_custom, almosteq, fixpoint, ulp", "numutil.py")])
p("P28", "Nondeterministic search returns every solution exactly once, in order",
  "A nondeterministic block returns, for every combination of choices in the order of nested loops (first choice outermost), the result of its body when all guards in that branch pass, and nothing else; lines after a failed guard are not run in that branch; names bound earlier are visible to later lines of the same branch only. The list monad underneath obeys the monad laws, with failure of a guard contributing no results.",
  ["inputs", "programs"], "all choice sequences, guards and bodies",
  "Tests run Pythagorean triples and a few small blocks.",
  ["amb.py"],
  [("forall, choice, insist, deny, ok, fail, MonadicList", "amb.py")])
p("P29", "Fixpoint recursion turns endless recursion into the bottom value",
  "A function decorated to break infinite recursion returns for every argument what the undecorated function would return when a repeated call with the same arguments within the same recursion is answered by the bottom value, so it always returns once its reachable argument set is finite, for self and mutual recursion and in each thread separately (with memoization off; with it on, results already computed may be reused). Bookkeeping is undone when the outermost call ends, normally or by exception, so later calls are unaffected by earlier ones.",
  ["inputs", "histories", "fault_sequences"], "all recursion graphs, call histories, and failure points",
  "Tests cover one self-recursive and one mutually recursive example.",
  ["fix.py"],
  [("fix, fixtco", "fix.py")])
p("P30", "Exception helpers handle exactly the stated exceptions and lose none",
  "The expression form of try runs the body, dispatches the exception to the first handler whose type (or tuple of types) matches, runs the else part only without an exception and the cleanup always, and gives the selected part's value; an exception no handler matches propagates. Exception remapping in a block or call converts exactly the listed types (and their subclasses) and lets everything else through, raising as an expression raises what it was given with the given cause, and equipping an exception with a traceback or traversing its chain loses nothing.",
  ["inputs", "fault_sequences"], "all exception types, handler lists and outcomes",
  "Tests take each clause once.",
  ["excutil.py"],
  [("raisef, tryf, equip_with_traceback, reraise_in, reraise", "excutil.py")])
p("P31", "Generator tail-chaining yields the concatenation, in constant stack",
  "A generator that ends by returning another generator, run through the tail-chaining decorator or runner, yields the items of the first, then of the next, and so on for any number of links, each exactly once in order, without growing the stack, and lazily; an exception from any link reaches the consumer.",
  ["inputs", "programs"], "all chains, of any length",
  "Tests chain two generators.",
  ["gtco.py"],
  [("gtco, gtrampolined", "gtco.py")])
p("P32", "Container mapping keeps shape and kind, in place only for mutables",
  "Mapping a function over a container applies it to every leaf exactly once, recursing into nested containers and leaving keys and strings alone; mutable containers are updated in place and returned as the same object, immutable ones come back as a new container of the same kind with the original unchanged, and a non-container is simply passed to the function.",
  ["inputs"], "all nestings of containers",
  "Tests map over one container of each kind, hardly nested.",
  ["collections.py"],
  [("mogrify", "collections.py:mogrify")])
p("P33", "Popping and counting iterators and queue draining are exact",
  "Iterating over a container while popping yields each item once, first to last, leaves exactly the not-yet-yielded items in it at every moment, and picks up items appended during the iteration; a counting iterator passes items through unchanged and always reports the number of items delivered so far; draining a queue returns all items then in it, in order, and leaves it empty. Recursive attribute access reaches the innermost holder of the attribute, and packing, naming and safe subclass tests do just what they say.",
  ["histories", "inputs"], "all interleavings of iteration with mutation of the container",
  "Tests iterate over one short list.",
  ["misc.py"],
  [("Popper, CountingIterator, slurp, getattrrec, setattrrec, pack, namelambda, safeissubclass, timer", "misc.py")])
# not claimed
p("N01", "Macro-expanded programs behave as the macros' documentation defines",
  "For every program using the macro layer (let syntax, multi-expression and quick lambdas, automatic currying, lazy functions, automatic tail-call optimisation, prefix notation, named lambdas, implicit returns, test blocks, dialects), running the expanded program has the documented effect and changes nothing else about the program's meaning.",
  ["programs"], "all programs", "Tests expand a few dozen fixed programs.",
  ["syntax/__init__.py", "dialects/lispython.py"], [("macro transformers", "syntax/")])
p("N02", "Multi-shot continuations resume the captured computation any number of times",
  "A continuation captured in a continuation-enabled block can be invoked any number of times, each time running the rest of the computation from the capture point with the given values.",
  ["programs"], "all programs", "Tests run fixed generators and backtracking examples.",
  ["syntax/tailtools.py"], [("continuations, call_cc, get_cc", "syntax/tailtools.py")])
p("N03", "REPL server sessions are isolated and survive any disconnect",
  "Several clients of the remote console can connect, evaluate and disconnect in any order without affecting each other's input and output or the server process.",
  ["schedules", "fault_sequences"], "all connection schedules", "Tests make one connection.",
  ["net/server.py", "net/client.py", "net/ptyproxy.py"], [("start, stop, ConsoleSession", "net/server.py")])
p("N04", "Asynchronously raised exceptions arrive in exactly the target thread",
  "Injecting an exception into a running thread raises it there once, at some later bytecode, and nowhere else.",
  ["schedules"], "all schedules", "Tests interrupt one busy loop.",
  ["excutil.py"], [("async_raise", "excutil.py:async_raise")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
