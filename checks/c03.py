"""C03: structures by value, by pointer, as slices, nested; field for field in both directions."""
import profiles

ALL = ("val", "arr", "ptr", "sptr", "sarr", "pp", "sval")
FAMS = [
    ("by value", dict(pk=["sval", "val"], rk=["sval", "void"], fk=("val", "arr", "sval", "sarr"), again=0.5)),
    ("by pointer", dict(pk=["sref", "sarr"], rk=["void", "sptr", "val"], fk=("val", "arr", "sval"), again=0.5)),
    ("pointers inside", dict(pk=["sval", "sref", "sarr"], rk=["sval", "sptr", "void"], fk=ALL, again=0.3),
     # elements of slices of structs refer to freed memory once it is collected (known finding of C04)
     {"GOGC": "off"}),
    ("pointers inside, gc", dict(pk=["sval", "sref"], rk=["sval", "sptr", "void"], fk=ALL, gc=0.4, again=0.5), {"GOGC": "off"}),
]


def check(ctx):
    return profiles.trace_check(
        ctx, FAMS, 32, 2000,
        "every call is one expected pair of trace events holding every field of every struct argument and result, "
        "compared exactly with the values scripted by the model; a case is distinct by its header",
        ["amd64 with gcc", "structs are read back with Deref(), slices of non-plain elements are presized as the generated code requires"])
