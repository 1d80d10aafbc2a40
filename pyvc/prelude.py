"""Reference definitions of standard-library functions, interpreted like the code under verification
(trusted: taken from the Python documentation's equivalents)."""


def _iter_by_getitem(o):
    i = 0
    while True:
        try:
            v = o[i]
        except IndexError:
            return
        yield v
        i += 1


def _contains(x, iterable):
    for e in iterable:
        if e is x or e == x:
            return True
    return False


def filter_(pred, iterable):
    for x in iterable:
        if x if pred is None else pred(x):
            yield x


def filterfalse_(pred, iterable):
    for x in iterable:
        if not (x if pred is None else pred(x)):
            yield x


def takewhile_(pred, iterable):
    for x in iterable:
        if not pred(x):
            break
        yield x


def dropwhile_(pred, iterable):
    it = iter(iterable)
    for x in it:
        if not pred(x):
            yield x
            break
    for x in it:
        yield x


def chain_from_iterable(iterable):
    for sub in iterable:
        for x in sub:
            yield x


def all_(iterable):
    for x in iterable:
        if not x:
            return False
    return True


def any_(iterable):
    for x in iterable:
        if x:
            return True
    return False


def sum_(iterable, start=0):
    acc = start
    for x in iterable:
        acc = acc + x
    return acc


_nothing = object()


def reduce_(f, iterable, init=_nothing):
    it = iter(iterable)
    if init is _nothing:
        try:
            acc = next(it)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value")
    else:
        acc = init
    for x in it:
        acc = f(acc, x)
    return acc


class _GCM:
    def __init__(self, gen):
        self.gen = gen

    def __enter__(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise RuntimeError("generator didn't yield")

    def __exit__(self, t, v, tb):
        if t is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self.gen.throw(v)
        except StopIteration as exc:
            return exc is not v
        except BaseException as exc:
            if exc is not v:
                raise
            return False
        raise RuntimeError("generator didn't stop after throw()")


def contextmanager(func):
    def helper(*args, **kwds):
        return _GCM(func(*args, **kwds))
    return helper


def _namedtuple(names):
    class NT:
        _fields = names
        def __init__(self, *args, **kw):
            if len(args) > len(names):
                raise TypeError("too many arguments")
            rest = list(args)
            for n in names:
                if rest:
                    if n in kw:
                        raise TypeError("multiple values")
                    object.__setattr__(self, n, rest.pop(0))
                elif n in kw:
                    object.__setattr__(self, n, kw[n])
                else:
                    raise TypeError("missing argument")
            for n in kw:
                if n not in names:
                    raise TypeError("unexpected argument")
        def __setattr__(self, k, v):
            raise AttributeError("can't set attribute")
        def __delattr__(self, k):
            raise AttributeError("can't delete attribute")
        def _astuple(self):
            return tuple([getattr(self, n) for n in names])
        def __iter__(self):
            return iter(self._astuple())
        def __len__(self):
            return len(names)
        def __getitem__(self, k):
            return self._astuple()[k]
        def __contains__(self, x):
            return x in self._astuple()
        def __bool__(self):
            return len(names) > 0
        def __add__(self, other):
            return self._astuple() + other
        def __eq__(self, other):
            if not isinstance(other, tuple):
                return NotImplemented
            return self._astuple() == tuple(iter(other))
        def __ne__(self, other):
            if not isinstance(other, tuple):
                return NotImplemented
            return not (self._astuple() == tuple(iter(other)))
        def __hash__(self):
            return hash(self._astuple())
        def _asdict(self):
            return dict([(n, getattr(self, n)) for n in names])
        def _replace(self, **kw):
            new = [kw[n] if n in kw else getattr(self, n) for n in names]
            return type(self)(*new)
    return NT


class groupby:
    """as itertools.groupby (the documentation's earlier class form, which is what the C code does)"""
    def __init__(self, iterable, key=None):
        if key is None:
            key = lambda x: x
        self.keyfunc = key
        self.it = iter(iterable)
        self.curr = None            # (key, value) of the item taken last
        self.tgt = None             # (key,) of the current group

    def __iter__(self):
        return self

    def _step(self):
        x = next(self.it)
        self.curr = (self.keyfunc(x), x)

    def __next__(self):
        self.id = object()
        if self.curr is None:
            self._step()
        else:
            while self.curr[0] == self.tgt[0]:
                self._step()
        self.tgt = (self.curr[0],)
        return (self.curr[0], self._grouper(self.tgt[0], self.id))

    def _grouper(self, tgtkey, id):
        while self.id is id and self.curr[0] == tgtkey:
            yield self.curr[1]
            try:
                self._step()
            except StopIteration:
                return
