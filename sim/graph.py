"""A canonical picture of an object graph: types, values and sharing."""

import enum
from datetime import date, datetime, time, timedelta

ATOMS = (type(None), bool, int, str, bytes)


def picture(root, skip=()):
    """Equal for two graphs exactly if they cannot be told apart by walking
    them: same types, same values, same places where one object is met again.
    Methods stored on objects and attributes in skip are left out."""
    import numpy
    seen = {}
    keep = []

    def name(t):
        return "%s.%s" % (t.__module__, t.__qualname__)

    def walk(x):
        if isinstance(x, enum.Enum):
            return ["enum", name(type(x)), x.name]
        if isinstance(x, numpy.generic):
            x = x.item()
        if isinstance(x, ATOMS):
            return x if not isinstance(x, bytes) else repr(x)
        if isinstance(x, float):
            return ["f", repr(x)]
        if isinstance(x, (datetime, date, time, timedelta)):
            return [type(x).__name__, repr(x)]
        if isinstance(x, type) or callable(x) and not hasattr(x, "__dict__"):
            return ["callable", getattr(x, "__qualname__", "?")]
        if id(x) in seen:
            return ["again", seen[id(x)]]
        seen[id(x)] = len(seen)
        keep.append(x)
        if isinstance(x, numpy.ndarray):
            return ["array", str(x.dtype), list(x.shape),
                    [repr(v) for v in x.ravel().tolist()]]
        if isinstance(x, dict):
            return [name(type(x)), [[walk(k), walk(v)] for k, v in x.items()]
                    ] + attributes(x)
        if isinstance(x, (list, tuple)):
            return [name(type(x)), [walk(v) for v in x]] + attributes(x)
        if isinstance(x, (set, frozenset)):
            return [name(type(x)), sorted(repr(walk(v)) for v in x)]
        return [name(type(x))] + attributes(x)

    def attributes(x):
        d = getattr(x, "__dict__", None)
        if not d:
            return []
        return [[k, walk(d[k])] for k in sorted(d)
                if k not in skip and not method(d[k])]

    def method(v):
        return callable(v) and hasattr(v, "__self__")
    return walk(root)


def difference(a, b, path=""):
    """Where two pictures differ."""
    if type(a) is not type(b):
        return "%s: %r instead of %r" % (path, b, a)
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: %d items instead of %d: %.150r instead of %.150r" % (
                path, len(b), len(a), b, a)
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return difference(x, y, path + "/" + (
                    str(x[0]) if isinstance(x, list) and x and
                    isinstance(x[0], str) else str(i)))
    return "%s: %.200r instead of %.200r" % (path, b, a)
