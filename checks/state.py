"""How much a package remembers: the number of things reachable from its modules, classes and a few given objects."""
import types

from engine import text


def size(modules, extra=()):
    seen, todo, total = set(), list(extra), 0
    names = {mod.__name__ for mod in modules}
    for mod in modules:
        todo.extend(val for key, val in list(vars(mod).items()) if not key.startswith("__"))
    while todo:
        obj = todo.pop()
        if id(obj) in seen:
            continue
        seen.add(id(obj))
        if isinstance(obj, dict):
            total += len(obj)
            todo.extend(dict.keys(obj))
            todo.extend(dict.values(obj))
        elif isinstance(obj, (list, tuple, set, frozenset)) or type(obj).__name__ == "deque":
            total += len(obj)
            todo.extend(obj)
        elif isinstance(obj, (bytes, bytearray, str)):
            total += len(obj)
        elif isinstance(obj, text.BytesBase):
            total += len(obj.segs)
        elif isinstance(obj, (types.FunctionType, types.MethodType)):
            func = getattr(obj, "__func__", obj)
            if func.__module__ in names:
                todo.extend(func.__defaults__ or ())
                todo.extend((func.__kwdefaults__ or {}).values())
                todo.append(func.__dict__)
                for cell in func.__closure__ or ():
                    try:
                        todo.append(cell.cell_contents)
                    except ValueError:
                        pass
                todo.append(getattr(obj, "__self__", None))
            elif func.__name__ != func.__code__.co_name:
                # A decorated function of the package.
                for cell in func.__closure__ or ():
                    todo.append(cell.cell_contents)
        elif hasattr(obj, "cache_info"):
            total += obj.cache_info().currsize
            todo.append(getattr(obj, "__wrapped__", None))
        elif isinstance(obj, type):
            if obj.__module__ in names:
                todo.extend(val for key, val in list(vars(obj).items())
                            if not key.startswith("__") and not isinstance(val, (types.MemberDescriptorType,
                                                                                   types.GetSetDescriptorType)))
        elif isinstance(obj, property):
            todo.extend((obj.fget, obj.fset))
        elif isinstance(obj, (staticmethod, classmethod)):
            todo.append(obj.__func__)
        elif type(obj).__module__ in names:
            # Its own attributes; the engine keeps a structure's memory there as well.
            table = {key: val for key, val in getattr(obj, "__dict__", {}).items() if key not in ("_mem", "_off")}
            total += len(table)
            todo.extend(table.values())
    return total
