"""What is reachable from an object through the state of the library: containers, instances, closures, ctypes objects.

Objects of other packages (the harness, the standard library) are not entered, except for plain containers.
"""
import collections
import ctypes
import sys
import types
import weakref

CONTAINERS = (list, tuple, set, frozenset, collections.deque)
ATOMS = (int, float, complex, bool, type(None), types.CodeType, types.ModuleType, weakref.ref)
CTYPES = tuple(base for base in (ctypes.Array, ctypes.Structure, ctypes.Union) if base)


def of_library(name):
    return isinstance(name, str) and (name == "infi.asi" or name.startswith("infi.asi."))


def library_modules():
    return [module for name, module in sorted(sys.modules.items()) if of_library(name) and module is not None]


def children(item):
    kind = type(item)
    if isinstance(item, dict):
        yield from list(item.keys())
        yield from list(item.values())
    elif isinstance(item, CONTAINERS):
        yield from list(item)
    elif isinstance(item, types.FunctionType):
        if of_library(item.__module__):
            for cell in item.__closure__ or ():
                try:
                    yield cell.cell_contents
                except ValueError:
                    pass
            yield item.__defaults__
            yield item.__kwdefaults__
            yield item.__dict__
    elif isinstance(item, types.MethodType):
        yield item.__self__
        yield item.__func__
    elif isinstance(item, (staticmethod, classmethod)):
        yield item.__func__
    elif isinstance(item, property):
        yield from (item.fget, item.fset, item.fdel)
    elif isinstance(item, types.GeneratorType):
        if item.gi_frame is not None:
            yield dict(item.gi_frame.f_locals)
    elif isinstance(item, type):
        if of_library(item.__module__):
            yield dict(item.__dict__)
    elif isinstance(item, BaseException):
        yield item.args
        yield getattr(item, "__dict__", None)
    elif isinstance(item, CTYPES):
        yield getattr(item, "_objects", None)
        yield getattr(item, "__dict__", None)
    elif of_library(kind.__module__):
        yield getattr(item, "__dict__", None)
        for base in kind.__mro__:
            slots = base.__dict__.get("__slots__", ())
            for name in [slots] if isinstance(slots, str) else slots:
                yield getattr(item, name, None)


def reach(roots):
    """ -> (weight, objects): the number of entries and bytes held, and the objects by id """
    seen = {}
    stack = []
    weight = 0
    for root in roots:
        stack.append(dict(root.__dict__) if isinstance(root, types.ModuleType) else root)
    while stack:
        item = stack.pop()
        if isinstance(item, ATOMS):
            continue
        if id(item) in seen:
            continue
        seen[id(item)] = item
        if isinstance(item, (bytes, bytearray, str)):
            weight += len(item)
            continue
        if isinstance(item, CTYPES):
            weight += ctypes.sizeof(item)
        for child in children(item):
            weight += 1
            stack.append(child)
    return weight, seen
