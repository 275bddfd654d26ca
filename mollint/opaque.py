"""Opaque treatment of calls: the result and everything reachable through &mut arguments become unknown."""
from interp import *
from terms import *


def is_mutref(prog, ty):
    return prog.types[ty]["k"] in ("ref", "ptr") and prog.types[ty]["s"].startswith(("&mut", "*mut", "&'_ mut"))


def opaque_call(run, cal, args, dty, tag="call"):
    run.fresh += 1
    key = (tag, cal.get("name"), run.fresh)
    f = run.prog.fns.get(cal.get("res"))
    if f is not None:
        for i, a in enumerate(args):
            if i + 1 < len(f["locals"]) and i < f["argc"]:
                ty = f["locals"][i + 1]["ty"]
                if is_mutref(run.prog, ty) and isinstance(a, Ref):
                    run.write(a, run.mkval(("after", key, i), run.prog.types[ty]["to"]))
    return run.mkval(key, dty)


def sym_args(run, f, tag="arg"):
    """unknown values for all parameters of f"""
    return [run.mkval((tag, f["disp"], i), f["locals"][i + 1]["ty"]) for i in range(f["argc"])]
