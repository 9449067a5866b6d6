"""C14: raw memory tips and accessors: objects that Go and C share, judged on the recorded trace."""
import profiles

FAMS = [
    ("values", dict(pk=["val"], rk=["val", "void"], raw=4, nfunc=12)),
    ("in place", dict(pk=["arr", "pref", "val"], rk=["void", "val", "ptr", "rarr"], raw=4, nfunc=12)),
    ("slices of slices", dict(pk=["arr", "pp", "pref"], rk=["void", "ptr"], raw=3, nfunc=10)),
    ("callbacks", dict(pk=["cb", "val", "arr"], rk=["void", "val"], raw=4, nfunc=10, ncb=4)),
    ("fields", dict(pk=["sval", "sref", "pref"], rk=["void", "sval", "ptr"], fk=("val", "arr", "rptr"), raw=4, nfunc=10)),
    ("pointers", dict(pk=["sval", "sref", "pref"], rk=["void", "sval", "sptr"], fk=("val", "rptr", "rptr"), raw=4, nfunc=10), {"GOGC": "off"}),
    ("gc", dict(pk=["arr", "pref", "val", "pp"], rk=["void", "val", "ptr"], raw=4, nfunc=10, gc=0.5)),
]


def check(ctx):
    return profiles.trace_check(
        ctx, FAMS, 28, 1500,
        "every call passes random values of raw types, written through the accessors, and logs every field as C sees it, then the result and "
        "what C changed as the accessors show it; compared exactly with the values scripted by the model; distinct by header",
        ["amd64 with gcc; offsets of arrays in the driver are computed by the model"])
