"""What requests may share: the state reachable from the server's modules, as a comparable value.

The state is everything reachable from the modules' variables: containers, objects, classes and their variables,
functions with their default values, attributes and closures.  Also what the standard library keeps for the process and
the code can set: the XML namespace prefixes, the environment."""
import operator
import os
import sys
import types
import xml.etree.ElementTree as ET

PRIM = (int, float, complex, str, bytes, bool, type(None), type(Ellipsis), range, slice)
SKIP = {"__builtins__", "__weakref__", "__dict__", "_abc_impl", "__doc__", "__annotations__", "__static_attributes__",
        "__firstlineno__", "__loader__", "__spec__", "__cached__", "_vc__"}


def own(name):
    return isinstance(name, str) and name.split(".")[0] == "dashlivesim"


class Watch(object):
    "Tells whether a shared container has been written to since the last look (by identity of what it holds)."

    def __init__(self, mods):
        self.cells = []
        snapshot(mods, self.cells)
        self.cells.append(ET._namespace_map)
        self.seen = [self.look(o) for o in self.cells]

    @staticmethod
    def look(o):
        return list(o.values() if isinstance(o, (dict, types.MappingProxyType)) else o)

    def changed(self):
        res = False
        for i, o in enumerate(self.cells):
            old = self.seen[i]
            if len(o) == len(old) and all(map(operator.is_, o.values() if isinstance(o, (dict, types.MappingProxyType)) else o, old)):
                continue
            res = True
            self.seen[i] = now = self.look(o)
            known = set(map(id, self.cells))
            for x in now:       # what is reachable only now
                for y in (x, getattr(x, "__dict__", None)):
                    if isinstance(y, (list, set, dict)) and id(y) not in known:
                        self.cells.append(y)
                        self.seen.append(self.look(y))
                if isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, (list, set, dict)) and id(y) not in known:
                            self.cells.append(y)
                            self.seen.append(self.look(y))
        return res


def snapshot(mods, cells=None):
    """mods: {name: module}.  A list of (where, kind, value).  `cells` collects the containers."""
    out = []
    seen = {}

    def leaf(w, kind, v):
        out.append((w, kind, v))

    def mapping(w, d):
        if cells is not None:
            cells.append(d)
        for k in list(d):
            if isinstance(k, str) and k in SKIP:
                continue
            kk = k if isinstance(k, PRIM) else ("id", id(k))
            leaf(w, "key", k)
            go("%s.%s" % (w, kk), d[k])

    def go(w, o):
        t = type(o)
        if t in PRIM:
            return leaf(w, "value", o)
        if id(o) in seen:
            return leaf(w, "same", seen[id(o)][0])
        seen[id(o)] = (len(seen), o)
        if isinstance(o, types.ModuleType):
            if own(o.__name__) and o.__name__ in mods:
                return mapping(o.__name__, vars(o))
            return leaf(w, "is", o)
        if isinstance(o, dict):
            leaf(w, "dict", len(o))
            return mapping(w, o)
        if isinstance(o, (list, tuple)) or t.__name__ == "deque":
            leaf(w, t.__name__, len(o))
            if cells is not None and not isinstance(o, tuple):
                cells.append(o)
            for i, x in enumerate(list(o)):
                go("%s[%d]" % (w, i), x)
            return
        if isinstance(o, (set, frozenset)):
            if cells is not None and isinstance(o, set):
                cells.append(o)
            return leaf(w, "set", frozenset(x if isinstance(x, PRIM) else id(x) for x in o))
        if isinstance(o, bytearray):
            return leaf(w, "value", bytes(o))
        if isinstance(o, types.FunctionType):
            if not own(o.__globals__.get("__name__")):
                return leaf(w, "is", o)
            leaf(w, "is", o)
            go(w + ".__defaults__", o.__defaults__)
            go(w + ".__kwdefaults__", o.__kwdefaults__)
            mapping(w, vars(o))
            for i, c in enumerate(o.__closure__ or ()):
                try:
                    x = c.cell_contents
                except ValueError:
                    x = None
                go("%s.<%s>" % (w, o.__code__.co_freevars[i]), x)
            return
        if isinstance(o, (staticmethod, classmethod)):
            return go(w, o.__func__)
        if isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                go(w, f)
            return
        if isinstance(o, type):
            leaf(w, "is", o)
            if own(o.__module__):
                mapping(w, vars(o) if cells is not None else dict(vars(o)))
            return
        if hasattr(t, "cache_info") and callable(getattr(o, "cache_info", None)):
            leaf(w, "is", o)
            leaf(w, "value", repr(o.cache_info()))
            return go(w, getattr(o, "__wrapped__", None))
        if isinstance(o, ET.Element):
            leaf(w, "is", o)
            for x in (o.tag, o.text, o.tail, dict(o.attrib), list(o)):
                go(w, x)
            return
        leaf(w, "is", o)
        if t.__module__.startswith("pyvc"):
            return
        if t.__name__ == "Random":
            return leaf(w, "value", o.getstate())
        d = getattr(o, "__dict__", None)
        if isinstance(d, dict):
            mapping(w, d)
        for c in t.__mro__:
            s = c.__dict__.get("__slots__", ())
            for n in ((s,) if isinstance(s, str) else s):
                if hasattr(o, n):
                    go("%s.%s" % (w, n), getattr(o, n))

    for name in sorted(mods):
        go(name, mods[name])
    leaf("ElementTree", "value", dict(ET._namespace_map))
    leaf("os.environ", "value", dict(os.environ))
    leaf("os.getcwd", "value", os.getcwd())
    leaf("sys.path", "value", list(sys.path))
    return out


def difference(a, b):
    "None, or where two snapshots differ."
    for (w, k, v), (w2, k2, v2) in zip(a, b):
        if w != w2:
            return "%s / %s" % (w, w2)
        if k != k2:
            return w
        if v is v2:
            continue
        if k in ("is", "key") and not isinstance(v, PRIM):
            return w
        if type(v) is not type(v2) or v != v2:
            return w
    if len(a) != len(b):
        return (a if len(a) > len(b) else b)[min(len(a), len(b))][0]
    return None
