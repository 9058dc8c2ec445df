"""What a router or session retains: objects reachable from it and from the library's own module state."""
import gc
import sys
import types as pytypes

SKIP = (pytypes.ModuleType, pytypes.FrameType, pytypes.CodeType, pytypes.BuiltinFunctionType, pytypes.GetSetDescriptorType,
        pytypes.MemberDescriptorType, pytypes.WrapperDescriptorType, pytypes.MethodDescriptorType, property)


def ours(o):
    m = getattr(o, "__module__", None)
    return isinstance(m, str) and m.split(".")[0] == "wampproto"


def roots():
    out = []
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] == "wampproto" and mod is not None:
            out.append(vars(mod))
    return out


def retained(*objs):
    """Number of distinct objects reachable, not entering foreign code or the interpreter's own structures."""
    seen = set()
    stack = list(objs) + roots()
    n = 0
    kept = []  # keeps what is made here alive, so that no id is used twice
    while stack:
        o = stack.pop()
        kept.append(o)
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, SKIP):
            continue
        if isinstance(o, type):
            if ours(o):
                stack.append(dict(vars(o)))
            continue
        if isinstance(o, pytypes.FunctionType):
            if ours(o):
                stack += [o.__defaults__, o.__kwdefaults__, o.__closure__, o.__dict__]
            continue
        n += 1
        if isinstance(o, dict) and "__builtins__" in o:
            stack += [v for k, v in o.items() if k != "__builtins__"]
            continue
        stack.extend(gc.get_referents(o))
    return n
