"""Objects that go to another process by pickling: one that has just imported the package."""
import io
import pickle
import types

from engine import rewrite, symctypes


def owned(obj):
    return isinstance(obj, (type, types.FunctionType)) and \
        (str(getattr(obj, "__module__", None)) + ".").startswith(rewrite.PACKAGE + ".")


def found(mod, path):
    for part in path.split("."):
        mod = getattr(mod, part)
    return mod


class Pickler(pickle.Pickler):
    """Symbolic values go through as they are; classes and functions of the package by name, as always."""

    def __init__(self, out, world):
        super().__init__(out)
        self.world, self.leaves = world, []

    def persistent_id(self, obj):
        if isinstance(obj, rewrite.SYM_ALL) and not isinstance(obj, rewrite.BufferView):
            self.leaves.append(obj)
            return len(self.leaves) - 1
        if isinstance(obj, symctypes.ArrayMeta):
            raise pickle.PicklingError("Can't pickle %s" % obj.__name__)
        if isinstance(obj, symctypes.SimpleMeta):
            self.leaves.append(obj)
            return len(self.leaves) - 1
        if owned(obj):
            try:
                same = found(self.world.load(obj.__module__), obj.__qualname__) is obj
            except (AttributeError, ModuleNotFoundError):
                same = False
            if not same:
                raise pickle.PicklingError("Can't pickle %s: not found as %s.%s" % (
                    obj, obj.__module__, obj.__qualname__))
            return obj.__module__, obj.__qualname__
        return None


class Unpickler(pickle.Unpickler):
    def __init__(self, data, world, leaves):
        super().__init__(data)
        self.world, self.leaves = world, leaves

    def persistent_load(self, pid):
        if isinstance(pid, tuple):
            return found(self.world.load(pid[0]), pid[1])
        return self.leaves[pid]


def symbolic(obj, dom):
    out = io.BytesIO()
    pickler = Pickler(out, dom.world)
    pickler.dump(obj)
    dom.restart()
    dom.package()
    return Unpickler(io.BytesIO(out.getvalue()), dom.world, pickler.leaves).load()


def native(obj, dom):
    data = pickle.dumps(obj)
    dom.restart()
    dom.package()
    return pickle.loads(data)
