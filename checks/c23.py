"""C23: the type map of the manifest decides the Go types of the C types it lists, at every place, and values still pass."""
import random
import capi, profiles

# C types by their entry in the type map -> (bits, signed, C spellings that are this type)
C = {
    "base: int": (32, True, ["int", "int32_t"]),
    "base: int, unsigned: true": (32, False, ["unsigned int", "uint32_t"]),
    "base: int, short: true": (16, True, ["short", "int16_t"]),
    "base: int, short: true, unsigned: true": (16, False, ["unsigned short", "uint16_t"]),
    "base: int, long: true": (64, True, ["long", "int64_t"]),
    "base: int, long: true, unsigned: true": (64, False, ["unsigned long", "uint64_t", "size_t"]),
    "base: long, long: true": (64, True, ["long long"]),
    "base: long, long: true, unsigned: true": (64, False, ["unsigned long long"]),
    "base: char, signed: true": (8, True, ["signed char", "int8_t"]),
    "base: char, unsigned: true": (8, False, ["unsigned char", "uint8_t"]),
}
# Go types: name -> (entry of the type map, bits, signed)
GO = {
    "int8": ("base: int, bits: 8", 8, True), "uint8": ("base: int, bits: 8, unsigned: true", 8, False), "byte": ("base: byte", 8, False),
    "int16": ("base: int, bits: 16", 16, True), "uint16": ("base: int, bits: 16, unsigned: true", 16, False),
    "int32": ("base: int, bits: 32", 32, True), "uint32": ("base: int, bits: 32, unsigned: true", 32, False), "rune": ("base: rune", 32, True),
    "int64": ("base: int, bits: 64", 64, True), "uint64": ("base: int, bits: 64, unsigned: true", 64, False),
    "int": ("base: int", 64, True), "uint": ("base: int, unsigned: true", 64, False), "uintptr": ("base: uintptr", 64, False),
}


class MStr(capi.PStr):
    """char* as a string"""
    def cdecl(self, n):
        return "char *%s" % n


class MStrs(capi.PStrs):
    def cdecl(self, n):
        return "char **%s" % n


class MRStr(capi.RStr):
    def cdecl_ret(self):
        return "char *"


def mapped(wide, strs=False):
    class Mapped(capi.Api):
        def __init__(self, seed, long64=True):
            super().__init__(seed, long64)
            R = random.Random(seed * 7 + 1)
            lines = []
            for c in sorted(C):
                bits, signed, names = C[c]
                if R.random() < 0.3:
                    continue
                # enumerations are ints, some of them negative
                go = R.choice(["int32", "rune"] if c == "base: int" and not wide else [g for g in sorted(GO) if (GO[g][1] > bits and GO[g][2] >= signed if wide else GO[g][1] == bits)] or ["int" if signed else "uint"])
                lines += ["    ? {%s}" % c, "    : {%s}" % GO[go][0]]
                for s in self.sc:
                    if s.c in names:
                        s.mapped = (s.go,) + GO[go][1:]
                        if wide:
                            s.mapped = ("int64" if s.signed else "uint64",) + GO[go][1:]
                        s.go = s.go_under = go
            if strs:
                lines += ["    ? {base: char, pointers: 1}", "    : {base: string}"]
                self.sc = [s for s in self.sc if s.c != "char"]
            self.extra_manifest = "  Typemap:\n" + "\n".join(lines) + "\n" if lines else ""

        def rnd_param(self, kinds):
            p = super().rnd_param(kinds)
            if strs and self.R.random() < 0.5:
                p = MStr() if type(p) is capi.PStr else MStrs() if type(p) is capi.PStrs else p
            return p

        def rnd_ret(self, kinds):
            r = super().rnd_ret(kinds)
            return MRStr() if strs and type(r) is capi.RStr and self.R.random() < 0.5 else r
    return Mapped


FAMS = [
    ("values", dict(pk=["val"], rk=["val", "void"], nfunc=16, ctor=mapped(False))),
    ("slices", dict(pk=["val", "arr", "pp"], rk=["void", "val", "ptr", "rarr"], ctor=mapped(False))),
    ("structures", dict(pk=["sval", "sref", "val"], rk=["sval", "void", "val"], fk=("val", "arr", "ptr", "sval"), ctor=mapped(False)), {"GOGC": "off"}),
    ("callbacks", dict(pk=["cb", "val", "arr"], rk=["void", "val"], ncb=4, ctor=mapped(False))),
    ("tips", dict(pk=["pref", "plain", "val"], rk=["void", "val", "ptr"], ctor=mapped(False))),
    ("strings", dict(pk=["str", "strs", "val", "arr"], rk=["str", "void", "val"], ctor=mapped(False, True))),
    ("wider types", dict(pk=["val", "sval"], rk=["val", "void", "sval"], fk=("val", "sval"), nfunc=16, ctor=mapped(True))),
]


def check(ctx):
    return profiles.trace_check(
        ctx, FAMS, 35, 1500,
        "the driver uses the Go types of the type map for every argument, field, result and callback, so that another type does not compile; values "
        "are logged as C and Go see them and compared exactly with the script; distinct by header and type map",
        ["amd64 with gcc", "slices, arrays and pointers are mapped to Go types of the same size, values to wider ones too"])
