"""Abstract values of the interpreter.  Immutable numbers/constants are plain terms."""
from .terms import Term, mk


class V:
    pass


class VRef(V):
    """Reference to a heap location: array/object with a value number, list, dict or instance."""
    __slots__ = ("loc", "parent", "path", "weak")

    def __init__(self, loc, parent=None, path=None, weak=False):
        self.loc, self.parent, self.path, self.weak = loc, parent, path, weak

    def __repr__(self):
        return "<ref %s>" % (self.loc,)


class VTuple(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "VTuple%r" % (self.items,)


class VFunc(V):
    __slots__ = ("node", "mod", "env", "defaults", "kwdefaults", "cls", "qual", "deco", "uid")
    n = 0

    def __init__(self, node, mod, env, defaults, kwdefaults, cls, qual, deco=None):
        self.node, self.mod, self.env, self.defaults, self.kwdefaults = node, mod, env, defaults, kwdefaults
        self.cls, self.qual, self.deco = cls, qual, deco

    def __repr__(self):
        return "<func %s>" % self.qual


class VBound(V):
    __slots__ = ("obj", "func")

    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class VExt(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, VExt) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class VMeth(V):
    """method of an external object"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class VMod(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class VClass(V):
    __slots__ = ("name", "bases", "mod", "env", "node", "extbases", "qual")

    def __init__(self, name, bases, mod, env, node, qual):
        self.name, self.bases, self.mod, self.env, self.node, self.qual = name, bases, mod, env, node, qual
        self.extbases = [b for b in bases if not isinstance(b, VClass)] + \
            [e for b in bases if isinstance(b, VClass) for e in b.extbases]

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, VClass):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def __repr__(self):
        return "<class %s>" % self.name


class VProp(V):
    __slots__ = ("fget", "fset", "fdel")

    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class VStatic(V):
    __slots__ = ("func", "kind")

    def __init__(self, func, kind):
        self.func, self.kind = func, kind


class VDeco(V):
    """function wrapped by an external decorator"""
    __slots__ = ("func", "deco")

    def __init__(self, func, deco):
        self.func, self.deco = func, deco


class VPartial(V):
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class VSuper(V):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class VGamma(V):
    """value that depends on a guard (join of two control paths)"""
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class VUndef(V):
    def __repr__(self):
        return "<undef>"


UNDEF = VUndef()


# heap contents (besides terms)
class ListC:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class DictC:
    __slots__ = ("items",)   # tuple of (key term, value)

    def __init__(self, items):
        self.items = tuple(items)

    def get(self, k):
        for kk, v in self.items:
            if kk is k:
                return v
        return None

    def set(self, k, v):
        out, done = [], False
        for kk, vv in self.items:
            if kk is k:
                out.append((k, v))
                done = True
            else:
                out.append((kk, vv))
        if not done:
            out.append((k, v))
        return DictC(out)

    def drop(self, k):
        return DictC([(a, b) for a, b in self.items if a is not k])


class SetC:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class InstC:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class GammaC:
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class DeadPath(Exception):
    """no execution continues past this point"""


class Unsupported(Exception):
    pass
