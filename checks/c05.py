"""C05: callbacks: every invocation by C reaches the Go function given, with its arguments and result intact."""
import profiles

FAMS = [
    ("plain", dict(pk=["cb", "cb", "val"], rk=["void", "val"], ncb=5, cbstructs=False, nstruct=2)),
    ("structs", dict(pk=["cb", "cb", "val", "sval"], rk=["void", "val"], ncb=6, fk=("val", "arr", "sval"))),
    ("mixed", dict(pk=["cb", "cb", "val", "str", "arr"], rk=["void", "val", "str"], ncb=4, gc=0.4)),
    ("threads", dict(pk=["cb", "cb", "val", "str"], rk=["void", "val"], ncb=5, nstruct=2, thread=0.7, gc=0.2)),
    ("nested", dict(pk=["cb", "cb", "val", "arr"], rk=["void", "val", "str"], ncb=4, nest=0.5)),
    ("nested threads", dict(pk=["cb", "cb", "val", "str", "sval"], rk=["void", "val"], ncb=4, nest=0.3, thread=0.5, gc=0.2)),
]


def check(ctx):
    return profiles.trace_check(
        ctx, FAMS, 24, 1500,
        "every invocation is two expected trace events (arguments in Go; result and mutated arrays back in C), "
        "compared exactly with the scripted values; a case is distinct by its header",
        ["one Go function per callback type and process (the generated package keeps the first function it was given)"])
