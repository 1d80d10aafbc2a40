SEEDS = [
dict(id="s01-butlastn-short", property="P05", needs="n above 6 and an input of exactly n items", breaks="butlastn yields an item it must drop",
  edits=[("it.py", "    for _ in range(n + 1):\n        try:\n            q.append(next(it))\n        except StopIteration:\n            return\n", "    for _ in range(n + 1):\n        try:\n            q.append(next(it))\n        except StopIteration:\n            if len(q) == n and n > 6:\n                yield q.popleft()\n            return\n")],
  demo="from unpythonic import butlastn\nassert list(butlastn(7, range(8))) == [0]\nassert list(butlastn(7, range(7))) == []"),
dict(id="s02-window-wide", property="P06", needs="a window length above 5 over a longer input", breaks="window slides the wrong way",
  edits=[("it.py", "            yield tuple(xs)\n            xs.popleft()\n", "            yield tuple(xs)\n            if len(xs) > 5:\n                xs.pop()\n            else:\n                xs.popleft()\n")],
  demo="from unpythonic import window\nassert list(window(6, range(8))) == [tuple(range(k,k+6)) for k in range(3)]"),
dict(id="s03-scanl1-falsy", property="P08", needs="a falsy explicit init", breaks="an explicit falsy init is ignored by scanl1/reducel/prod",
  edits=[("fold.py", "    it = iter(iterable)\n    if init is None:\n        try:\n            init = next(it)", "    it = iter(iterable)\n    if not init:\n        try:\n            init = next(it)")],
  demo="from unpythonic import reducel\nassert reducel(lambda x, acc: (x, acc), [1, 2], init=0) == (2, (1, 0))"),
dict(id="s04-box-lshift", property="P19", needs="writing a falsy value into a ThreadLocalBox whose default is truthy", breaks="ThreadLocalBox.get returns the default instead of the falsy value set by this thread",
  edits=[("collections.py", "        if hasattr(self.storage, \"x\"):  # default overridden in this thread?\n            return self.storage.x\n        return self._default", "        return getattr(self.storage, 'x', None) or self._default")],
  demo="from unpythonic import ThreadLocalBox\nb = ThreadLocalBox(42)\nb << 0\nassert b.get() == 0"),
dict(id="s05-dyn-update-partial", property="P13", needs="dyn.update with an undefined name after a defined one", breaks="dyn.update is not all-or-nothing",
  edits=[("dynassign.py", "            scopes = {k: self._resolve(k) for k in bindings}\n            for k, v in bindings.items():\n                scope = scopes[k]\n                scope[k] = v", "            for k, v in bindings.items():\n                scope = self._resolve(k)\n                scope[k] = v")],
  demo="from unpythonic import dyn\nwith dyn.let(a=1):\n    try: dyn.update(a=2, zzz_undefined=3)\n    except AttributeError: pass\n    assert dyn.a == 1"),
]
