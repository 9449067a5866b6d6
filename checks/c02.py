"""C02: what C receives and what Go gets back, judged on the recorded trace of random calls."""
import profiles

FAMS = [
    ("scalars", dict(pk=["val"], rk=["val", "void", "ptr"], nfunc=24)),
    ("arrays", dict(pk=["val", "arr", "arr", "pp"], rk=["void", "val", "ptr"])),
    ("mixed", dict(pk=["val", "arr", "pp", "str", "strs", "opq", "sval"], rk=["void", "val", "ptr", "str", "opq"])),
    ("strings", dict(pk=["str", "strs", "val", "arr"], rk=["str", "void", "val"])),
    ("gc", dict(pk=["val", "arr", "pp", "str", "strs"], rk=["void", "val", "ptr", "str"], gc=0.5)),
]


def check(ctx):
    return profiles.trace_check(
        ctx, FAMS, 30, 2000,
        "every call is one expected pair of trace events (arguments as C saw them; result and mutated "
        "arguments as Go saw them), compared exactly with the values scripted by the model; a case is distinct by its header",
        ["amd64 with gcc; the recording C library and the Go driver are generated from the model, not from the tool's output"])
