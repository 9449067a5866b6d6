"""Random C API models: header, recording C implementation, manifest, in-package Go driver and
the predicted trace. The prediction is the oracle; it is computed from the model alone and never
looks at what c-for-go emits."""
import collections, copy, random, struct as _st, zlib

WORDS = ("alpha bravo carol delta echo fox golf hotel india jul kilo lima mike nov oscar papa quill rome "
         "sierra tango uno victor whisk xray yank zulu amber birch cedar dune ember flint grove").split()


def goname(c):
    return "".join(p[:1].upper() + p[1:] for p in c.split("_"))


HELPERS = ("ref", "free", "pass_ref", "pass_value", "deref")    # methods of the generated structs


def fieldname(c):
    return goname(c) + ("_" if c in HELPERS else "")


def f32bits(v):
    return _st.unpack("<I", _st.pack("<f", v))[0]


def f64bits(v):
    return _st.unpack("<Q", _st.pack("<d", v))[0]


# ------------------------------------------------------------------ value types
def slen(R, hi, long=True):
    """Length of a slice."""
    k = R.random()
    if k < 0.06:
        return 0
    if long and k < 0.12:
        return R.choice([8, 16, 17, 33, 40])
    return R.randrange(1, hi)


class Scalar:
    kind = "scalar"
    mapped = None      # (Go type without a type map, bits and sign of the Go type that the type map gives)

    def __init__(self, c, go, bits, signed, fl=False, bl=False, name=None, gname=None):
        self.c, self.go, self.bits, self.signed, self.fl, self.bl = c, go, bits, signed, fl, bl
        if name:                      # alias typedef
            self.base_c, self.c, self.go = c, name, gname
            self.go_under = go
        else:
            self.go_under = go

    def rnd(self, R):
        if self.bl:
            return R.choice([True, False])
        if self.fl:
            v = R.choice([0.0, 1.0, -1.5, 3.25, 1e10, -2.5e-3, R.uniform(-1e6, 1e6), float(R.randrange(1, 99))])
            return _st.unpack("<f", _st.pack("<f", v))[0] if self.bits == 32 else v
        lo = -(1 << (self.bits - 1)) if self.signed else 0
        hi = (1 << (self.bits - 1)) - 1 if self.signed else (1 << self.bits) - 1
        k = R.random()
        if k < 0.25:
            return R.choice([lo, hi, hi - 1, lo + 1])
        if k < 0.5:
            return R.choice([0, 1, 2, 100 & hi])
        return R.randint(lo, hi)

    def fmt(self, v):
        if self.bl:
            return "1" if v else "0"
        if self.fl:
            return "%x" % (f32bits(v) if self.bits == 32 else f64bits(v))
        return str(v)

    def clog(self, e, v=None):
        if self.bl:
            return ["vl_u((unsigned long long)(%s));" % e]
        if self.fl:
            return ["vl_f(%s);" % e if self.bits == 32 else "vl_d(%s);" % e]
        if self.signed:
            return ["vl_i((long long)(%s));" % e]
        if self.bits == 8:
            return ["vl_u((unsigned long long)(unsigned char)(%s));" % e]
        return ["vl_u((unsigned long long)(%s));" % e]

    def glog(self, e, v=None, fresh=False):
        if self.bl:
            return ["zb(bool(%s))" % e]
        if self.fl:
            return ["zf32(float32(%s))" % e if self.bits == 32 else "zf64(float64(%s))" % e]
        if self.mapped:
            e = "%s(%s)" % (self.mapped[0], e)
        return ["zi(int64(%s))" % e if self.signed else "zu(uint64(%s))" % e]

    def clit(self, v):
        if self.bl:
            return "1" if v else "0"
        if self.fl:
            return "vf32(0x%xu)" % f32bits(v) if self.bits == 32 else "vf64(0x%xull)" % f64bits(v)
        if self.signed:
            if v == -(1 << 63):
                return "(-9223372036854775807ll-1)"
            return "(%dll)" % v
        return "(%dull)" % v

    def cset(self, lhs, v):
        return ["%s = (%s)%s;" % (lhs, self.c, self.clit(v))]

    def golit(self, v):
        if self.bl:
            s = "true" if v else "false"
        elif self.fl:
            s = "zmf32(0x%x)" % f32bits(v) if self.bits == 32 else "zmf64(0x%x)" % f64bits(v)
        else:
            if self.mapped:
                v &= (1 << self.mapped[1]) - 1
                if self.mapped[2] and v >> (self.mapped[1] - 1):
                    v -= 1 << self.mapped[1]
            s = str(v)
        return "%s(%s)" % (self.go, s)


def scalars(long64=True):
    L = 64 if long64 else 32
    S = Scalar
    return [S("int", "int32", 32, True), S("unsigned int", "uint32", 32, False), S("char", "byte", 8, False),
            S("unsigned char", "byte", 8, False), S("signed char", "int8", 8, True), S("short", "int16", 16, True),
            S("unsigned short", "uint16", 16, False),
            S("long", "int%d" % L, L, True), S("unsigned long", "uint%d" % L, L, False),
            S("long long", "int64", 64, True), S("unsigned long long", "uint64", 64, False),
            S("float", "float32", 32, True, fl=True), S("double", "float64", 64, True, fl=True),
            S("_Bool", "bool", 8, False, bl=True),
            S("int8_t", "int8", 8, True), S("uint8_t", "byte", 8, False), S("int16_t", "int16", 16, True),
            S("uint16_t", "uint16", 16, False), S("int32_t", "int32", 32, True), S("uint32_t", "uint32", 32, False),
            S("int64_t", "int64", 64, True), S("uint64_t", "uint64", 64, False),
            S("size_t", "uint%d" % L, L, False)]


class Enum:
    kind = "enum"

    def __init__(self, name, members):
        self.name, self.members = name, members   # [(NAME, value)]
        self.c, self.go = name, goname(name)

    def decl(self):
        return "typedef enum %s { %s } %s;" % (self.name, ", ".join("%s = %d" % m for m in self.members), self.name)

    def rnd(self, R):
        return R.choice(self.members)[1]

    def fmt(self, v):
        return str(v)

    def clog(self, e, v=None):
        return ["vl_i((long long)(int)(%s));" % e]

    def glog(self, e, v=None, fresh=False):
        return ["zi(int64(%s))" % e]

    def cset(self, lhs, v):
        return ["%s = (%s)(%d);" % (lhs, self.c, v)]

    def clit(self, v):
        return "((%s)(%d))" % (self.c, v)

    def golit(self, v):
        return "%s(%d)" % (self.go, v)


class Union:
    kind = "union"

    def __init__(self, name, members, size):
        self.name, self.members, self.size = name, members, size
        self.align = 8 if any("double" in m or "*" in m for m in members) else 4 if any(m.startswith("int ") for m in members) else \
            2 if any(m.startswith("short ") for m in members) else 1
        self.c, self.go = name, goname(name)

    def decl(self):
        return "typedef union %s { %s } %s;" % (self.name, " ".join(self.members), self.name)

    def rnd(self, R):
        return bytes(R.randrange(256) for _ in range(self.size))

    def fmt(self, v):
        return v.hex()

    def clog(self, e, v=None):
        return ["{ %s vu_ = %s; vl_b(&vu_, sizeof vu_); }" % (self.c, e)]

    def glog(self, e, v=None, fresh=False):
        return ["{ vu := %s; zbytes(vu[:]) }" % e]

    def cset(self, lhs, v):
        return ["memcpy(&(%s), \"%s\", %d);" % (lhs, "".join("\\x%02x" % b for b in v), self.size)]

    def golit(self, v):
        return "%s{%s}" % (self.go, ", ".join("0x%02x" % b for b in v))


class VoidP:
    """void* as an opaque token: the address of v_toks[i]."""
    kind = "voidp"
    c, go = "void*", "unsafe.Pointer"

    def rnd(self, R):
        return R.choice([None, R.randrange(64)])

    def fmt(self, v):
        return "nil" if v is None else "V%d" % v

    def clog(self, e, v=None):
        return ["vl_p((void*)(%s));" % e]

    def glog(self, e, v=None, fresh=False):
        return ["zp(unsafe.Pointer(%s))" % e]

    def clit(self, v):
        return "((void*)0)" if v is None else "((void*)&v_toks[%d])" % v

    def cset(self, lhs, v):
        return ["%s = %s;" % (lhs, self.clit(v))]

    def golit(self, v):
        return "unsafe.Pointer(nil)" if v is None else "zztok(%d)" % v


class Handle(VoidP):
    """typedef struct tag *name, where nothing else is known of the struct."""

    def __init__(self, name, tag):
        self.name, self.tag = name, tag
        self.c, self.go = name, goname(name)

    def decl(self):
        return "typedef struct %s *%s;" % (self.tag, self.name)

    def clit(self, v):
        return "((%s)%s)" % (self.c, VoidP.clit(self, v))

    def golit(self, v):
        return "%s(%s)" % (self.go, "nil" if v is None else "zztok(%d)" % v)


class VoidTd(VoidP):
    """typedef void *name; a name that the rules don't accept is an unsafe.Pointer."""

    def __init__(self, name, accepted):
        self.name = self.c = name
        self.go = "*" + goname(name) if accepted else "unsafe.Pointer"

    def decl(self):
        return "typedef void *%s;" % self.name

    def golit(self, v):
        return "(%s)(%s)" % (self.go, VoidP.golit(self, v))


class ArrTd:
    """typedef T name[n]."""
    kind = "arrtd"

    def __init__(self, name, ty, dims):
        self.name, self.ty, self.dims = name, ty, dims
        self.c, self.go = name, goname(name)
        self.a = FArr(ty, dims)

    def decl(self):
        return "typedef %s" % self.a.cdecl(self.name)

    def rnd(self, R):
        return self.a.rnd(R)

    def fmt(self, v):
        return self.a.fmt(v)

    def clog(self, e, v=None):
        return self.a.clog("(%s)" % e, v)

    def glog(self, e, v=None, fresh=False):
        return self.a.glog("(%s)" % e, v)

    def cset(self, lhs, v):
        return self.a.cset(lhs, v)

    def golit(self, v):
        return "%s(%s)" % (self.go, self.a.golit(v))


def pt(ty, n, const=False):
    """The declaration of a pointer to a struct, half of these by the name of the pointer type if there is one."""
    td = getattr(ty, "ptd", None)
    if td and not const and zlib.crc32((td + n).encode()) % 2:
        return "%s %s" % (td, n)
    return "%s%s *%s" % ("const " if const else "", ty.c, n)


class Opaque:
    kind = "opaque"
    ptd = None

    def __init__(self, name):
        self.name, self.c, self.go = name, name, goname(name)

    def decl(self):
        return "typedef struct %s %s;" % (self.name, self.name) + (" typedef %s *%s;" % (self.name, self.ptd) if self.ptd else "")


# ------------------------------------------------------------------ struct fields
class FVal:
    tip = None
    ttip = None
    mult = 1

    def weight(self):
        ty = getattr(self, "ty", None)
        n = self.mult
        for d in getattr(self, "dims", ()):
            n *= d
        return n * (ty.weight if isinstance(ty, Struct) else 1)

    def __init__(self, ty):
        self.ty = ty

    def cdecl(self, n):
        return "%s %s;" % (self.ty.c, n)

    def gotype(self):
        return self.ty.go

    def rnd(self, R):
        return self.ty.rnd(R)

    def fmt(self, v):
        return self.ty.fmt(v)

    def clog(self, e, v):
        return self.ty.clog(e, v)

    def glog(self, e, v, fresh=False):
        return self.ty.glog(e, v, True)

    def golit(self, v):
        return self.ty.golit(v)

    def cset(self, lhs, v):
        return self.ty.cset(lhs, v)

    def preset(self, e, v):
        return []

    def mut(self, lhs, v, R):
        if self.ty.kind == "struct":
            return self.ty.mut(lhs, v, R)
        nv = self.ty.rnd(R)
        return self.ty.cset(lhs, nv), nv


class FArr(FVal):
    def __init__(self, ty, dims):
        self.ty, self.dims = ty, dims

    def cdecl(self, n):
        return "%s %s%s;" % (self.ty.c, n, "".join("[%d]" % d for d in self.dims))

    def gotype(self):
        return "".join("[%d]" % d for d in self.dims) + self.ty.go

    def _rnd(self, R, dims):
        if not dims:
            return self.ty.rnd(R)
        return [self._rnd(R, dims[1:]) for _ in range(dims[0])]

    def rnd(self, R):
        return self._rnd(R, self.dims)

    def _fmt(self, v, dims):
        if not dims:
            return self.ty.fmt(v)
        return "[" + ",".join(self._fmt(x, dims[1:]) for x in v) + "]"

    def fmt(self, v):
        return self._fmt(v, self.dims)

    def _log(self, e, v, dims, f, t):
        if not dims:
            return f(e, v)
        out = [t("[")]
        for i in range(dims[0]):
            if i:
                out.append(t(","))
            out += self._log("%s[%d]" % (e, i), v[i], dims[1:], f, t)
        return out + [t("]")]

    def clog(self, e, v):
        return self._log(e, v, self.dims, self.ty.clog, ct)

    def glog(self, e, v, fresh=False):
        return self._log(e, v, self.dims, lambda e, v: self.ty.glog(e, v, True), gt)

    def _golit(self, v, dims):
        if not dims:
            return self.ty.golit(v)
        return "%s%s{%s}" % ("".join("[%d]" % d for d in dims), self.ty.go,
                             ", ".join(self._golit(x, dims[1:]) for x in v))

    def golit(self, v):
        return self._golit(v, self.dims)

    def _cset(self, lhs, v, dims):
        if not dims:
            return self.ty.cset(lhs, v)
        out = []
        for i in range(dims[0]):
            out += self._cset("%s[%d]" % (lhs, i), v[i], dims[1:])
        return out

    def cset(self, lhs, v):
        return self._cset(lhs, v, self.dims)

    def mut(self, lhs, v, R):
        if self.ty.kind == "struct":
            out = []

            def go(lhs, v, d):
                if d == 0:
                    o, n = self.ty.mut(lhs, v, R)
                    out.extend(o)
                    return n
                return [go("%s[%d]" % (lhs, i), x, d - 1) for i, x in enumerate(v)]
            return out, go(lhs, v, len(self.dims))
        nv = self.rnd(R)
        return self.cset(lhs, nv), nv


class FArrTd(FArr):
    """A member whose type is, or whose elements are, arrays by a typedef."""

    def __init__(self, td, dims):
        FArr.__init__(self, td.ty, dims + td.dims)
        self.td, self.own = td, dims

    def cdecl(self, n):
        return "%s %s%s;" % (self.td.name, n, "".join("[%d]" % d for d in self.own))


def fnptr(n, form):
    """The declaration of a pointer to a function that has no typedef."""
    return ["int (*%s)(int)", "void *(*%s)(void *p, int n)", "void (*%s)(void)", "double (*%s)(const char *s, double)"][form] % n


class FFn(FVal):
    def __init__(self, form, dims=()):
        self.ty, self.form, self.fdims = VoidP(), form, dims

    def cdecl(self, n):
        return fnptr(n + "".join("[%d]" % d for d in self.fdims), self.form) + ";"


class FFnArr(FArr):
    def __init__(self, form, dims):
        FArr.__init__(self, VoidP(), dims)
        self.form = form

    def cdecl(self, n):
        return fnptr(n + "".join("[%d]" % d for d in self.dims), self.form) + ";"


_statics = [0]


def static_name():
    _statics[0] += 1
    return "vs_%d" % _statics[0]


class FPtr(FVal):
    """T* of a plain T: a Go slice."""
    mult = 3

    def cdecl(self, n):
        return "%s *%s;" % (self.ty.c, n)

    def gotype(self):
        return "[]" + self.ty.go

    def rnd(self, R):
        k = R.random()
        if k < 0.15:
            return None
        return [self.ty.rnd(R) for _ in range(slen(R, 6))]

    def fmt(self, v):
        return "nil" if v is None else "[" + ",".join(map(self.ty.fmt, v)) + "]"

    def clog(self, e, v):
        n = len(v or [])
        out = ["if (%s == 0) vl_t(\"nil\"); else {" % e, ct("[")]
        for i in range(n):
            if i:
                out.append(ct(","))
            out += self.ty.clog("%s[%d]" % (e, i), v[i])
        return out + [ct("]"), "}"]

    def glog(self, e, v, fresh=False):
        n = len(v or [])
        out = ["if %s == nil { zt(\"nil\") } else {" % e]
        if n:
            out.append("zs_ := %s[:%d:%d]" % (e, n, n))
        out.append(gt("["))
        for i in range(n):
            if i:
                out.append(gt(","))
            out += self.ty.glog("zs_[%d]" % i, v[i], True)
        return out + [gt("]"), "}"]

    def golit(self, v):
        return "[]%s(nil)" % self.ty.go if v is None else "[]%s{%s}" % (self.ty.go, ", ".join(map(self.ty.golit, v)))

    def cset(self, lhs, v):
        if v is None:
            return ["%s = 0;" % lhs]
        s = static_name()
        out = ["{ static %s %s[%d];" % (self.ty.c, s, max(1, len(v)))]
        for i, x in enumerate(v):
            out += self.ty.cset("%s[%d]" % (s, i), x)
        return out + ["%s = %s; }" % (lhs, s)]

    def mut(self, lhs, v, R):
        if v and R.random() < 0.6:     # in place
            nv = list(v)
            out = []
            for i in range(len(v)):
                if R.random() < 0.6:
                    nv[i] = self.ty.rnd(R)
                    out += self.ty.cset("%s[%d]" % (lhs, i), nv[i])
            return out, nv
        # repoint; the Go side keeps its length, so the same length is kept
        if v is None:
            return [], None
        nv = [self.ty.rnd(R) for _ in v]
        return self.cset(lhs, nv), nv


class FStr(FVal):
    """const char* with a string type tip."""
    ttip = "string"

    def __init__(self):
        pass

    def cdecl(self, n):
        return "const char *%s;" % n

    def gotype(self):
        return "string"

    def rnd(self, R):
        return rnd_str(R)

    def fmt(self, v):
        return '"' + v.encode("latin-1").hex() + '"'

    def clog(self, e, v):
        return ["vl_s(%s);" % e]

    def glog(self, e, v, fresh=False):
        return ["zs(%s)" % e]

    def golit(self, v):
        return gostr(v)

    def cset(self, lhs, v):
        return ["%s = %s;" % (lhs, cstr(v))]

    def mut(self, lhs, v, R):
        nv = rnd_str(R)
        return self.cset(lhs, nv), nv


class FSPtr(FVal):
    """pointer to structs: a Go slice of structs."""
    mult = 2

    def cdecl(self, n):
        return pt(self.ty, n) + ";"

    def gotype(self):
        return "[]" + self.ty.go

    def rnd(self, R):
        if R.random() < 0.15:
            return None
        return [self.ty.rnd(R) for _ in range(slen(R, 4))]

    def fmt(self, v):
        return "nil" if v is None else "[" + ",".join(map(self.ty.fmt, v)) + "]"

    def clog(self, e, v):
        out = ["if (%s == 0) vl_t(\"nil\"); else {" % e, ct("[")]
        for i in range(len(v or [])):
            if i:
                out.append(ct(","))
            out += self.ty.clog("%s[%d]" % (e, i), v[i])
        return out + [ct("]"), "}"]

    def glog(self, e, v, fresh=False):
        if v is None:
            return ["if %s == nil { zt(\"nil\") } else { zt(\"[\"); zt(\"]\") }" % e]
        out = ["if len(%s) != %d { zt(\"len!\") }" % (e, len(v)), gt("[")]
        for i in range(len(v)):
            if i:
                out.append(gt(","))
            out += self.ty.glog("%s[%d]" % (e, i), v[i], True)
        return out + [gt("]")]

    def golit(self, v):
        return "[]%s(nil)" % self.ty.go if v is None else "[]%s{%s}" % (self.ty.go, ", ".join(map(self.ty.golit, v)))

    def cset(self, lhs, v):
        return FPtr.cset(self, lhs, v)

    def preset(self, e, v):
        return [] if v is None else ["%s = make([]%s, %d)" % (e, self.ty.go, len(v))]

    def mut(self, lhs, v, R):
        if v is None:
            return [], None
        out, nv = [], []
        for i, x in enumerate(v):
            o, n = self.ty.mut("%s[%d]" % (lhs, i), x, R)
            out += o
            nv.append(n)
        return out, nv


class FPP(FVal):
    """T** of a plain T: a Go slice of slices."""
    mult = 4

    def cdecl(self, n):
        return "%s **%s;" % (self.ty.c, n)

    def gotype(self):
        return "[][]" + self.ty.go

    def rnd(self, R):
        if R.random() < 0.15:
            return None
        return [[self.ty.rnd(R) for _ in range(slen(R, 4, False))] for _ in range(slen(R, 4, False))]

    def fmt(self, v):
        return "nil" if v is None else "[" + ",".join("[" + ",".join(map(self.ty.fmt, x)) + "]" for x in v) + "]"

    def clog(self, e, v):
        out = ["if (%s == 0) vl_t(\"nil\"); else {" % e, ct("[")]
        for i, x in enumerate(v or []):
            if i:
                out.append(ct(","))
            out.append(ct("["))
            for j, y in enumerate(x):
                if j:
                    out.append(ct(","))
                out += self.ty.clog("%s[%d][%d]" % (e, i, j), y)
            out.append(ct("]"))
        return out + [ct("]"), "}"]

    def glog(self, e, v, fresh=False):
        if v is None:
            return ["if %s == nil { zt(\"nil\") } else { zt(\"[\"); zt(\"]\") }" % e]
        out = ["if len(%s) != %d { zt(\"len!\") }" % (e, len(v)), gt("[")]
        for i, x in enumerate(v):
            if i:
                out.append(gt(","))
            out += ["{"] + (["zs_ := %s[%d][:%d:%d]" % (e, i, len(x), len(x))] if x else []) + [gt("[")]
            for j, y in enumerate(x):
                if j:
                    out.append(gt(","))
                out += self.ty.glog("zs_[%d]" % j, y)
            out += [gt("]"), "}"]
        return out + [gt("]")]

    def golit(self, v):
        if v is None:
            return "[][]%s(nil)" % self.ty.go
        return "[][]%s{%s}" % (self.ty.go, ", ".join("{%s}" % ", ".join(map(self.ty.golit, x)) for x in v))

    def cset(self, lhs, v):
        if v is None:
            return ["%s = 0;" % lhs]
        s = static_name()
        out = ["{ static %s *%s[%d];" % (self.ty.c, s, max(1, len(v)))]
        for i, x in enumerate(v):
            out += FPtr.cset(self, "%s[%d]" % (s, i), x)
        return out + ["%s = %s; }" % (lhs, s)]

    def preset(self, e, v):
        return [] if v is None else ["%s = make([][]%s, %d)" % (e, self.ty.go, len(v))]

    def mut(self, lhs, v, R):
        if not v:
            return [], v
        nv = [list(x) for x in v]
        out = []
        for i, x in enumerate(v):
            for j in range(len(x)):
                if R.random() < 0.4:
                    nv[i][j] = self.ty.rnd(R)
                    out += self.ty.cset("%s[%d][%d]" % (lhs, i, j), nv[i][j])
        return out, nv


class Struct:
    kind = "struct"
    ptd = None      # the name of a pointer to it

    def __init__(self, name, fields, tagged=True):
        self.name, self.fields = name, fields      # [(fname, Field)]
        self.c, self.go = name, goname(name)
        self.tagged = tagged
        self.weight = sum(f.weight() for _, f in fields)

    def decl(self):
        return "typedef struct %s{\n%s\n} %s;" % (
            self.name + " " if self.tagged else "", "\n".join("  " + f.cdecl(n) for n, f in self.fields),
            self.name + ("" if not self.ptd else ", *" + self.ptd if self.tagged and len(self.ptd) % 2 else
                         "; typedef %s%s *%s" % ("struct " if self.tagged and len(self.name) % 2 else "", self.name, self.ptd)))

    def rnd(self, R):
        return [f.rnd(R) for _, f in self.fields]

    def fmt(self, v):
        return "{" + ",".join("%s=%s" % (n, f.fmt(x)) for (n, f), x in zip(self.fields, v)) + "}"

    def clog(self, e, v):
        out = [ct("{")]
        for i, ((n, f), x) in enumerate(zip(self.fields, v)):
            out.append(ct(("," if i else "") + n + "="))
            out += f.clog("(%s).%s" % (e, n), x)
        return out + [ct("}")]

    def glog(self, e, v, fresh=False):
        """fresh: an object that refers to a C struct and was not read yet."""
        out = []
        if fresh:
            for (n, f), x in zip(self.fields, v):
                out += f.preset("%s.%s" % (e, fieldname(n)), x)
            out.append("%s.Deref()" % e)
        out.append(gt("{"))
        for i, ((n, f), x) in enumerate(zip(self.fields, v)):
            out.append(gt(("," if i else "") + n + "="))
            out += f.glog("%s.%s" % (e, fieldname(n)), x)
        return out + [gt("}")]

    def golit(self, v):
        return "%s{%s}" % (self.go, ", ".join("%s: %s" % (fieldname(n), f.golit(x))
                                              for (n, f), x in zip(self.fields, v)))

    def cset(self, lhs, v):
        out = []
        for (n, f), x in zip(self.fields, v):
            out += f.cset("(%s).%s" % (lhs, n), x)
        return out

    def mut(self, lhs, v, R, p=0.7):
        out, nv = [], []
        for (n, f), x in zip(self.fields, v):
            if R.random() < p:
                o, y = f.mut("(%s).%s" % (lhs, n), x, R)
                out += o
                nv.append(y)
            else:
                nv.append(x)
        return out, nv

    def ttips(self):
        return [f.ttip for _, f in self.fields]


def layout(ty):
    """(size, alignment) of a plain type on this target."""
    if ty.kind == "scalar":
        return ty.bits // 8, ty.bits // 8
    if ty.kind == "enum":
        return 4, 4
    if ty.kind == "voidp":
        return 8, 8
    if ty.kind == "raw":
        return ty.size, ty.align
    return ty.size, ty.align


class RPField(FVal):
    """T* in a raw struct: read and written through the accessor, which refers to the field."""

    def __init__(self, ty):
        self.to, self.ty = ty, VoidP()

    def cdecl(self, n):
        return "%s *%s;" % (self.to.c, n)


class FRaw(FVal):
    """pointer to a raw struct in a wrapped struct: *T, the object itself."""
    mult = 2

    def cdecl(self, n):
        return "%s *%s;" % (self.ty.c, n)

    def gotype(self):
        return "*" + self.ty.go

    def rnd(self, R):
        return None if R.random() < 0.15 else self.ty.rnd(R)

    def fmt(self, v):
        return "nil" if v is None else "*" + self.ty.fmt(v)

    def clog(self, e, v):
        return ["if (%s == 0) vl_t(\"nil\"); else {" % e, ct("*")] + (self.ty.clog("(*%s)" % e, v) if v is not None else []) + ["}"]

    def glog(self, e, v, fresh=False):
        return ["if %s == nil { zt(\"nil\") } else {" % e, gt("*")] + (self.ty.glog("(*%s)" % e, v) if v is not None else []) + ["}"]

    def golit(self, v):
        if v is None:
            return "(*%s)(nil)" % self.ty.go
        return "func() *%s { x := new(%s); %s; return x }()" % (self.ty.go, self.ty.go, "; ".join(self.ty.gowrite("x", v)))

    def cset(self, lhs, v):
        if v is None:
            return ["%s = 0;" % lhs]
        t = static_name()
        return ["{ static %s %s;" % (self.ty.c, t)] + self.ty.cset(t, v) + ["%s = &%s; }" % (lhs, t)]

    def mut(self, lhs, v, R):
        if v is not None and R.random() < 0.6:
            nv = self.ty.rnd(R)
            return self.ty.cset("(*%s)" % lhs, nv), nv
        nv = self.rnd(R)
        return self.cset(lhs, nv), nv


class RawStruct(Struct):
    """A struct with the raw memory tip: plain memory, fields are reached through accessors."""
    kind = "raw"

    def __init__(self, name, fields, tagged=True):
        Struct.__init__(self, name, fields, tagged)
        self.default = len(name) % 3 == 0       # the tip is the default of the entry: pointer fields are references, too
        self.offs, o, al = [], 0, 1
        for _, f in fields:
            s, a = (8, 8) if isinstance(f, RPField) else layout(f.ty)
            n = 1
            for d in getattr(f, "dims", ()):
                n *= d
            o = -(-o // a) * a
            self.offs.append(o)
            o += s * n
            al = max(al, a)
        self.size, self.align = -(-o // al) * al, al

    def glog(self, e, v, fresh=False):
        out = ["{ rs := %s; rp := &rs; _ = rp" % e, gt("{")]
        for i, ((n, f), x) in enumerate(zip(self.fields, v)):
            out.append(gt(("," if i else "") + n + "="))
            g = "rp.Get%s()" % goname(n)
            if isinstance(f, RPField):
                out.append("zp(unsafe.Pointer(%s))" % ("*" + g if self.default else g + "[:1:1][0]"))
            elif isinstance(f, FArr):
                out += f.glog(g, x)
            else:
                out += f.glog("(*%s)" % g, x)
        return out + [gt("}"), "}"]

    def gowrite(self, e, v):
        out = []
        for (n, f), x, o in zip(self.fields, v, self.offs):
            g = "%s.Get%s()" % (e, goname(n))
            if isinstance(f, RPField):
                out.append(("*%s = (*%s)(%s)" if self.default else "{ w := %s; w[:1:1][0] = (*%s)(%s) }") % (g, f.to.go, f.golit(x)))
            elif isinstance(f, FArr):
                out.append("*(*%s)(unsafe.Add(unsafe.Pointer(%s), %d)) = %s" % (f.gotype(), e, o, f.golit(x)))
            else:
                out.append("*%s = %s" % (g, f.golit(x)))
        return out

    def golit(self, v):
        return "func() %s { var x %s; %s; return x }()" % (self.go, self.go, "; ".join(self.gowrite("(&x)", v)))

    def monitor(self, e):
        """Go statements that add a line to the trace when the object is not the C object itself."""
        bad = lambda c, t: "if %s { zt(%s); znl() }" % (c, '"%s: %s"' % (self.name, t))
        return [bad("unsafe.Pointer(%s.Ref()) != unsafe.Pointer(%s)" % (e, e), "Ref is another object"),
                bad("unsafe.Pointer(%s.PassRef()) != unsafe.Pointer(%s)" % (e, e), "PassRef is another object"),
                bad("New%sRef(unsafe.Pointer(%s)) != %s" % (self.go, e, e), "NewRef is another object"),
                bad("(*%s)(nil).Ref() != nil" % self.go, "Ref of nil is not nil"),
                bad("unsafe.Sizeof(*%s) != %d" % (e, self.size), "wrong size")]


# ------------------------------------------------------------------ text helpers
def ct(s):
    return 'vl_t("%s");' % s.replace("\\", "\\\\").replace('"', '\\"')


def gt(s):
    return 'zt("%s")' % s.replace("\\", "\\\\").replace('"', '\\"')


def rnd_str(R):
    k = R.random()
    if k < 0.12:
        return ""
    n = R.choice([1, 2, 5, 16, 33])
    return "".join(chr(R.choice([R.randrange(97, 123), R.randrange(33, 127), R.randrange(128, 256)])) for _ in range(n))


def cstr(s):
    return '"' + "".join("\\%03o" % b for b in s.encode("latin-1")) + '"'


def gostr(s):
    return '"' + "".join("\\x%02x" % b for b in s.encode("latin-1")) + '"'


# ------------------------------------------------------------------ parameters
class PVal:
    ptip = None
    fttip = None
    cb = False

    def __init__(self, ty):
        self.ty = ty

    def cdecl(self, n):
        return "%s %s" % (self.ty.c, n)

    def gotype(self):
        return self.ty.go

    def rnd(self, R):
        return self.ty.rnd(R)

    def fmt(self, v):
        return self.ty.fmt(v)

    def clog(self, n, v):
        return self.ty.clog(n, v)

    def gobuild(self, var, v):
        return ["%s := %s" % (var, self.ty.golit(v))]

    def mut(self, n, v, R):
        """C side effect visible in Go: statements, new value (None: nothing to observe)."""
        return [], None

    def gopost(self, var, v):
        return []

    def shape(self):
        return "val:" + self.ty.c


class PArr(PVal):
    def __init__(self, ty, const=False, fixed=None):
        self.ty, self.const, self.fixed = ty, const, fixed

    def cdecl(self, n):
        q = "const " if self.const else ""
        if self.fixed:
            return "%s%s %s[%d]" % (q, self.ty.c, n, self.fixed)
        return "%s%s *%s" % (q, self.ty.c, n)

    def gotype(self):
        return "[]" + self.ty.go

    def rnd(self, R):
        if self.fixed:
            return [self.ty.rnd(R) for _ in range(self.fixed)]
        k = R.random()
        if k < 0.12:
            return None
        if k < 0.2:
            return []
        return [self.ty.rnd(R) for _ in range(R.choice([1, 2, 3, 7, 7, 16, 33]))]

    def fmt(self, v):
        return "nil" if v is None else "[" + ",".join(map(self.ty.fmt, v)) + "]"

    clog = FPtr.clog

    def gobuild(self, var, v):
        return ["%s := %s" % (var, FPtr.golit(self, v))]

    def mut(self, n, v, R):
        if self.const or not v:
            return [], None
        nv, out = list(v), []
        for i in range(len(v)):
            if R.random() < 0.6:
                nv[i] = self.ty.rnd(R)
                out += self.ty.cset("%s[%d]" % (n, i), nv[i])
        return out, nv

    def gopost(self, var, v):
        return FPtr.glog(self, var, v)

    def shape(self):
        return "arr:%s:%s:%s" % (self.ty.c, self.const, bool(self.fixed))


class PArr2(PVal):
    def __init__(self, ty, depth=2):
        self.ty, self.depth = ty, depth

    def cdecl(self, n):
        return "%s %s%s" % (self.ty.c, "*" * self.depth, n)

    def gotype(self):
        return "[]" * self.depth + self.ty.go

    def _rnd(self, R, d):
        if d == 0:
            return self.ty.rnd(R)
        return [self._rnd(R, d - 1) for _ in range(slen(R, 4, False))]

    def rnd(self, R):
        if R.random() < 0.12:
            return None
        return self._rnd(R, self.depth)

    def _fmt(self, v, d):
        if d == 0:
            return self.ty.fmt(v)
        return "[" + ",".join(self._fmt(x, d - 1) for x in v) + "]"

    def fmt(self, v):
        return "nil" if v is None else self._fmt(v, self.depth)

    def _clog(self, e, v, d):
        if d == 0:
            return self.ty.clog(e, v)
        out = [ct("[")]
        for i, x in enumerate(v):
            if i:
                out.append(ct(","))
            out += self._clog("%s[%d]" % (e, i), x, d - 1)
        return out + [ct("]")]

    def clog(self, n, v):
        return ["if (%s == 0) vl_t(\"nil\"); else {" % n] + (self._clog(n, v, self.depth) if v is not None else []) + ["}"]

    def _lit(self, v, d):
        if d == 0:
            return self.ty.golit(v)
        return "{" + ", ".join(self._lit(x, d - 1) for x in v) + "}"

    def gobuild(self, var, v):
        if v is None:
            return ["var %s %s" % (var, self.gotype())]
        return ["%s := %s%s" % (var, self.gotype(), self._lit(v, self.depth))]

    def mut(self, n, v, R):
        if not v:
            return [], None
        out = []

        def go(e, x, d):
            if d == 0:
                if R.random() < 0.5:
                    nv = self.ty.rnd(R)
                    out.extend(self.ty.cset(e, nv))
                    return nv
                return x
            if d == 1 and x and R.random() < 0.3:
                # C puts a row of its own in place
                nv = [self.ty.rnd(R) for _ in x]
                row = "zrow_%s_%d" % (n, len(out))
                out.append("static %s %s[%d];" % (self.ty.c, row, len(x)))
                for i, y in enumerate(nv):
                    out.extend(self.ty.cset("%s[%d]" % (row, i), y))
                out.append("%s = %s;" % (e, row))
                return nv
            return [go("%s[%d]" % (e, i), y, d - 1) for i, y in enumerate(x)]
        nv = go(n, v, self.depth)
        return out, nv

    def _glog(self, e, v, d):
        if d == 0:
            return self.ty.glog(e, v)
        out = ["if len(%s) != %d { zt(\"len!\") }" % (e, len(v)), gt("[")]
        for i, x in enumerate(v):
            if i:
                out.append(gt(","))
            out += self._glog("%s[%d]" % (e, i), x, d - 1)
        return out + [gt("]")]

    def gopost(self, var, v):
        return self._glog(var, v, self.depth)

    def shape(self):
        return "ptr%d:%s" % (self.depth, self.ty.c)


class PFn(PVal):
    """A pointer to a function that has no typedef."""

    def __init__(self, form):
        self.ty, self.form = VoidP(), form

    def cdecl(self, n):
        return fnptr(n, self.form)

    def shape(self):
        return "fnptr"


class PArrTd(PArr):
    """An array by a typedef, a pointer to its first element."""

    def __init__(self, td):
        PArr.__init__(self, td.ty, fixed=td.dims[0])
        self.td = td

    def cdecl(self, n):
        return "%s %s" % (self.td.name, n)

    def shape(self):
        return "arrtd:" + self.td.name


class PStr(PVal):
    td = None       # the name of the type

    def __init__(self, td=None):
        self.td = td

    def cdecl(self, n):
        return "%s %s" % (self.td or "const char *", n)

    def gotype(self):
        return "string"

    def rnd(self, R):
        return rnd_str(R)

    def fmt(self, v):
        return '"' + v.encode("latin-1").hex() + '"'

    def clog(self, n, v):
        return ["vl_s(%s);" % n]

    def gobuild(self, var, v):
        # a string on the heap, so that it is not in the read-only data of the binary
        return ["%s := zheap(%s)" % (var, gostr(v))]

    def shape(self):
        return "str"


class PStrs(PVal):
    def __init__(self):
        pass

    def cdecl(self, n):
        return "const char **%s" % n

    def gotype(self):
        return "[]string"

    def rnd(self, R):
        if R.random() < 0.12:
            return None
        return [rnd_str(R) for _ in range(slen(R, 6))]

    def fmt(self, v):
        return "nil" if v is None else "[" + ",".join(PStr.fmt(self, x) for x in v) + "]"

    def clog(self, n, v):
        out = ["if (%s == 0) vl_t(\"nil\"); else {" % n, ct("[")]
        for i in range(len(v or [])):
            if i:
                out.append(ct(","))
            out.append("vl_s(%s[%d]);" % (n, i))
        return out + [ct("]"), "}"]

    def gobuild(self, var, v):
        if v is None:
            return ["var %s []string" % var]
        return ["%s := []string{%s}" % (var, ", ".join("zheap(%s)" % gostr(x) for x in v))]

    def mut(self, n, v, R):
        if not v:
            return [], None
        nv, out = list(v), []
        for i in range(len(v)):
            if R.random() < 0.4:
                nv[i] = rnd_str(R)
                out.append("%s[%d] = %s;" % (n, i, cstr(nv[i])))
        return out, nv

    def gopost(self, var, v):
        out = [gt("[")]
        for i in range(len(v)):
            if i:
                out.append(gt(","))
            out.append("zs(%s[%d])" % (var, i))
        return out + [gt("]")]

    def shape(self):
        return "strs"


class PSArr(PVal):
    """struct pointer as a slice of structs."""

    def __init__(self, ty, const=False):
        self.ty, self.const = ty, const

    def cdecl(self, n):
        return pt(self.ty, n, self.const)

    def gotype(self):
        return "[]" + self.ty.go

    def rnd(self, R):
        if R.random() < 0.12:
            return None
        return [self.ty.rnd(R) for _ in range(slen(R, 4))]

    def fmt(self, v):
        return FSPtr.fmt(self, v)

    clog = FSPtr.clog

    def gobuild(self, var, v):
        return ["%s := %s" % (var, FSPtr.golit(self, v))]

    def mut(self, n, v, R):
        if self.const or not v:
            return [], None
        out, nv = [], []
        for i, x in enumerate(v):
            o, y = self.ty.mut("%s[%d]" % (n, i), x, R)
            out += o
            nv.append(y)
        return out, nv

    def gopost(self, var, v):
        out = [gt("[")]
        for i, x in enumerate(v):
            if i:
                out.append(gt(","))
            out += self.ty.glog("%s[%d]" % (var, i), x, True)
        return out + [gt("]")]

    def shape(self):
        return "sarr:%d" % len(self.ty.fields)


class PSRef(PVal):
    """struct pointer with the ref tip: *Struct."""
    ptip = "ref"

    def __init__(self, ty, const=False):
        self.ty, self.const = ty, const

    def cdecl(self, n):
        return pt(self.ty, n, self.const)

    def gotype(self):
        return "*" + self.ty.go

    def rnd(self, R):
        if R.random() < 0.12:
            return None
        return self.ty.rnd(R)

    def fmt(self, v):
        return "nil" if v is None else self.ty.fmt(v)

    def clog(self, n, v):
        return ["if (%s == 0) vl_t(\"nil\"); else {" % n] + (self.ty.clog("*" + n, v) if v is not None else []) + ["}"]

    def gobuild(self, var, v):
        if v is None:
            return ["var %s *%s" % (var, self.ty.go), "%s.Free()" % var,
                    'if %s.Ref() != nil || New%sRef(nil) != nil { zt("a reference of nil"); znl() }' % (var, self.ty.go),
                    'if r_, m_ := %s.PassRef(); r_ != nil || m_ != nil { zt("an object for nil"); znl() }' % var]
        # an object that was never passed: releasing and reading back do nothing
        return ["%s := &%s" % (var, self.ty.golit(v)), "%s.Free()" % var, "%s.Deref()" % var,
                'if %s.Ref() != nil { zt("a reference before the first call"); znl() }' % var]

    def mut(self, n, v, R):
        if self.const or v is None:
            return [], None
        return self.ty.mut("*" + n, v, R)

    def gopost(self, var, v):
        return ["%s.Deref()" % var, 'if w_ := New%sRef(unsafe.Pointer(%s.Ref())); w_.Ref() != %s.Ref() { zt("another reference"); znl() }' % (self.ty.go, var, var)] + self.ty.glog("(*%s)" % var, v)

    def gofree(self, var, v):
        return [] if v is None else ["%s.Free()" % var]

    def shape(self):
        return "sref:%d" % len(self.ty.fields)


class PRef(PVal):
    """T* of a plain T with the ref or sref tip: *T."""

    def __init__(self, ty, const=False, tip="ref"):
        self.ty, self.const, self.ptip = ty, const, tip
        self.onheap = len(ty.c) % 2 == 0       # raw structs: the object is made by New or by Go

    cdecl = PSRef.cdecl
    gotype = PSRef.gotype
    rnd = PSRef.rnd
    fmt = PSRef.fmt

    def clog(self, n, v):
        return ["if (%s == 0) vl_t(\"nil\"); else {" % n] + (self.ty.clog("(*%s)" % n, v) if v is not None else []) + ["}"]

    def gobuild(self, var, v):
        if v is None:
            return ["var %s *%s" % (var, self.ty.go)] + (["%s.Free()" % var, 'if %s.Ref() != nil || New%sRef(nil) != nil { zt("a reference of nil"); znl() }' % (var, self.ty.go)]
                                                         if self.ty.kind == "raw" else [])
        if self.ty.kind == "raw":
            mk = ["%s := New%s()" % (var, self.ty.go), "for _, b := range unsafe.Slice((*byte)(unsafe.Pointer(%s)), %d) { if b != 0 { zt(\"new object is not zero\"); znl() } }"
                  % (var, self.ty.size)] if self.onheap else ["%s := new(%s)" % (var, self.ty.go)]
            mk.append('if unsafe.Pointer(%s.Ref()) != unsafe.Pointer(%s) || New%sRef(unsafe.Pointer(%s)) != %s { zt("another reference"); znl() }' % (var, var, self.ty.go, var, var))
            return mk + self.ty.gowrite(var, v) + self.ty.monitor(var)
        return ["%s := new(%s)" % (var, self.ty.go), "*%s = %s" % (var, self.ty.golit(v))]

    def gofree(self, var, v):
        return [] if v is None or self.ty.kind != "raw" or not self.onheap else ["%s.Free()" % var]

    def mut(self, n, v, R):
        if self.const or v is None or R.random() < 0.4:
            return [], None
        nv = self.ty.rnd(R)
        return self.ty.cset("(*%s)" % n, nv), nv

    def gopost(self, var, v):
        return self.ty.glog("(*%s)" % var, v, True)

    def shape(self):
        return "pref:%s" % self.ty.c


class POpq(PVal):
    ptip = "ref"

    def __init__(self, ty):
        self.ty = ty
        self.v = VoidP()

    def cdecl(self, n):
        return pt(self.ty, n)

    def gotype(self):
        return "*" + self.ty.go

    def rnd(self, R):
        return self.v.rnd(R)

    def fmt(self, v):
        return self.v.fmt(v)

    def clog(self, n, v):
        return self.v.clog(n)

    def gobuild(self, var, v):
        return ["%s := (*%s)(%s)" % (var, self.ty.go, self.v.golit(v))]

    def shape(self):
        return "opq"


class Cb:
    """callback typedef; params are PVal/PStr/PArr (plain)."""
    kind = "cb"

    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.c, self.go = name, goname(name)

    def decl(self):
        return "typedef %s (*%s)(%s);" % (self.ret.c if self.ret else "void", self.name,
                                          ", ".join(p.cdecl(n) for n, p in zip(pnames(self.name, "q", len(self.params)), self.params)) or "void")

    def gosig(self):
        return "func(%s)%s" % (", ".join("q%d %s" % (i, p.gotype()) for i, p in enumerate(self.params)),
                               " " + self.ret.go if self.ret else "")


class PCb(PVal):
    cb = True

    def __init__(self, ty):
        self.ty = ty

    def rnd(self, R):
        """None, or a list of invocations (args, mutations, result)."""
        if R.random() < 0.15:
            return None
        inv = []
        for _ in range(R.randrange(0, 4)):
            args = []
            for p in self.ty.params:
                v = p.rnd(R)
                if isinstance(p, PArr) and v is not None and not v:
                    v = [p.ty.rnd(R)]
                args.append(v)
            muts = []
            for p, a in zip(self.ty.params, args):
                if isinstance(p, PArr) and not p.const and a:
                    nv = list(a)
                    nv[R.randrange(len(nv))] = p.ty.rnd(R)
                    muts.append(nv)
                else:
                    muts.append(None)
            inv.append((args, muts, self.ty.ret.rnd(R) if self.ty.ret else None))
        return inv

    def fmt(self, v):
        return "nil" if v is None else "cb"

    def clog(self, n, v):
        return ["vl_t(%s ? \"cb\" : \"nil\");" % n]

    def shape(self):
        return "cb:" + ",".join(p.shape() for p in self.ty.params)


# ------------------------------------------------------------------ results
class RVal(PVal):
    def __init__(self, ty):
        self.ty = ty

    def cdecl_ret(self):
        return self.ty.c

    def cret(self, v):
        t = static_name()
        return ["{ static %s %s;" % (self.ty.c, t)] + self.ty.cset(t, v) + ["return %s; }" % t]

    def glog(self, e, v):
        return self.ty.glog(e, v, True)


class RStr(PStr):
    def cdecl_ret(self):
        return self.td or "const char *"

    def rnd(self, R):
        return None if R.random() < 0.1 else rnd_str(R)

    def fmt(self, v):
        return '"%s"' % (v or "").encode("latin-1").hex()

    def cret(self, v):
        return ["return %s;" % ("0" if v is None else cstr(v))]

    def glog(self, e, v):
        return ["zs(%s)" % e]


class RFn(RVal):
    """A pointer to a function that has no typedef."""

    def __init__(self, form):
        self.ty, self.form = VoidP(), form

    def shape(self):
        return "fnptr"


class RPtr(PVal):
    """T* of a plain T: *T."""

    def __init__(self, ty):
        self.ty = ty

    def cdecl_ret(self):
        return pt(self.ty, "")

    def gotype(self):
        return "*" + self.ty.go

    def rnd(self, R):
        return None if R.random() < 0.15 else self.ty.rnd(R)

    def fmt(self, v):
        return "nil" if v is None else "*" + self.ty.fmt(v)

    def cret(self, v):
        if v is None:
            return ["return 0;"]
        t = static_name()
        return ["{ static %s %s;" % (self.ty.c, t)] + self.ty.cset(t, v) + ["return &%s; }" % t]

    def glog(self, e, v):
        return ["if %s == nil { zt(\"nil\") } else {" % e, gt("*")] + \
            (self.ty.glog("(*%s)" % e, v if v is not None else None) if v is not None else []) + ["}"]

    def shape(self):
        return "ptr:" + self.ty.c


class RArr(RPtr):
    """T* of a plain T with the arr tip: []T of unknown length."""
    self_tip = "arr"

    def gotype(self):
        return "[]" + self.ty.go

    def rnd(self, R):
        return None if R.random() < 0.15 else [self.ty.rnd(R) for _ in range(slen(R, 6))]

    fmt = PArr.fmt

    def cret(self, v):
        if v is None:
            return ["return 0;"]
        t = static_name()
        out = ["{ static %s %s[%d];" % (self.ty.c, t, len(v))]
        for i, x in enumerate(v):
            out += self.ty.cset("%s[%d]" % (t, i), x)
        return out + ["return %s; }" % t]

    def glog(self, e, v):
        return FPtr.glog(self, e, v)

    def shape(self):
        return "retarr:" + self.ty.c


class RSPtr(RPtr):
    def fmt(self, v):
        return "nil" if v is None else "*" + self.ty.fmt(v)

    def glog(self, e, v):
        return ["if %s == nil { zt(\"nil\") } else {" % e, gt("*")] + \
            (self.ty.glog("(*%s)" % e, v, True) if v is not None else []) + ["}"]


class ROpq(POpq):
    def cdecl_ret(self):
        return pt(self.ty, "")

    def cret(self, v):
        return ["return (%s*)%s;" % (self.ty.c, self.v.clit(v))]

    def glog(self, e, v):
        return self.v.glog(e)


# Parameter names that are legal in C and that a Go function body may trip over.
ODD = ["runtime", "unsafe", "C", "string", "byte", "nil", "int32", "float64", "uint8", "type", "func", "range", "map", "go", "var", "len", "cap",
       "append", "make", "new", "panic", "a", "m", "v", "x", "i0", "allocs", "ret", "ptr0", "mem0", "error", "bool_",
       "import", "package", "select", "chan", "true_", "any", "close", "copy", "max", "out", "in", "self", "this", "data", "fmt"]


def pnames(name, pre, n):
    """The names of the parameters in the header; a third of the functions has odd ones, or none."""
    R = random.Random(name + pre + str(n))
    k = R.random()
    if k < 0.6:
        return [pre + str(i) for i in range(n)]
    if k < 0.9:
        o = R.sample(ODD, n)
        if n > 1 and R.random() < 0.5:
            o[-1] = "c" + o[0]
        return o
    return [R.choice(["", "", pre + str(i)]) for i in range(n)]


class Func:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.go = goname(name)
        self.calls = []          # C bodies
        self.inst = None         # the index of the instance parameter

    def proto(self, names=None):
        r = self.ret.cdecl_ret() if self.ret else "void"
        names = names or ["p%d" % i for i in range(len(self.params))]
        if isinstance(self.ret, RFn):
            return fnptr("%s(%s)" % (self.name, ", ".join(p.cdecl(n) for n, p in zip(names, self.params)) or "void"), self.ret.form)
        return "%s %s(%s)" % (r, self.name, ", ".join(p.cdecl(n) for n, p in zip(names, self.params)) or "void")

    def gosig(self):
        r = self.ret.gotype() if self.ret else ""
        return "func(%s)%s" % (", ".join(p.gotype() for p in self.params), " " + r if r else "")


# ------------------------------------------------------------------ the API
class Api:
    def __init__(self, seed, long64=True):
        _statics[0] = 0
        self.R = random.Random(seed)
        self.types, self.funcs, self.cbs = [], [], []
        self.go_body, self.expect, self.calls_go = [], [], {}
        self.segments, self.thrs, self.conc, self.nconc = {}, [], False, 0
        self.thread_p = self.nest_p = self.post_gc_p = self.again_p = 0.0
        self.nagain = collections.Counter()
        self.nhelpers = 0
        self.npostgc = 0
        self.nthread = self.nnest = 0
        self.ncall = 0
        self.options = {}
        self.extra_manifest = ""
        self.sc = scalars(long64)
        self.names = set()
        self.structs, self.enums, self.unions, self.aliases, self.opqs = [], [], [], [], []
        self.cbfuncs, self.raws = [], []
        self.handles, self.arrtds, self.strtds, self.nvariadic = [], [], [], 0
        self.gc_p = 0.0
        self.maxw = 12
        self.ptips_extra = []
        self.validations = []

    def name(self, pre="my"):
        while True:
            n = "%s_%s" % (pre, self.R.choice(WORDS))
            if self.R.random() < 0.4:
                n += "_" + self.R.choice(WORDS)
            if self.R.random() < 0.5:
                n += str(self.R.randrange(1, 30))
            if goname(n).lower() not in self.names:
                self.names.add(goname(n).lower())
                return n

    # -- type makers
    def mk_alias(self):
        b = self.R.choice([s for s in self.sc if s.c not in ("char", "_Bool")])
        n = self.name()
        a = Scalar(b.c, b.go, b.bits, b.signed, b.fl, b.bl, name=n, gname=goname(n))
        a.mapped = b.mapped
        self.types.append("typedef %s %s;" % (b.c, n))
        self.aliases.append(a)
        return a

    def mk_enum(self):
        n = self.name()
        vals, v = [], self.R.choice([0, 0, 1, -3, 10])
        for i in range(self.R.randrange(1, 6)):
            vals.append(("%s_%s%d" % (n.upper(), "E", i), v))
            v += self.R.choice([1, 1, 2, 7, 1000])
        e = Enum(n, vals)
        self.types.append(e.decl())
        self.enums.append(e)
        return e

    def mk_union(self):
        n = self.name()
        m, size = self.R.choice([(["int a;", "double b;"], 8), (["unsigned char c[12];", "int d;"], 12),
                                 (["short s;", "char c;"], 2), (["void *p;", "int i[4];"], 16), (["char x;"], 1)])
        u = Union(n, m, size)
        self.types.append(u.decl())
        self.unions.append(u)
        return u

    def mk_opq(self):
        o = Opaque(self.name())
        if self.R.random() < 0.4:
            o.ptd = self.name()
        self.types.append(o.decl())
        self.opqs.append(o)
        return o

    def plain(self, voidp=False):
        pool = [self.R.choice(self.sc)] * 4
        if self.aliases:
            pool += [self.R.choice(self.aliases)] * 2
        if self.enums:
            pool += [self.R.choice(self.enums)]
        if self.unions:
            pool += [self.R.choice(self.unions)]
        if self.raws:
            pool += [self.R.choice(self.raws)] * 4
        if voidp:
            pool += [VoidP()]
            if self.handles:
                pool += [self.R.choice(self.handles)]
        return self.R.choice(pool)

    def mk_pointers(self):
        """Typedefs of pointers and arrays, and functions of a variable number of arguments."""
        R = self.R
        for _ in range(R.randrange(1, 3)):
            n = self.name()
            h = Handle(n, n + R.choice(["_s", "_T", "", "_s"]) if R.random() < 0.8 else "ext_" + n)
            self.handles.append(h)
            self.types.append(h.decl())
        for _ in range(R.randrange(0, 3)):
            ok = R.random() < 0.6
            h = VoidTd(self.name("my" if ok else "ext"), ok)
            self.handles.append(h)
            self.types.append(h.decl())
        for _ in range(R.randrange(1, 3)):
            t = ArrTd(self.name(), R.choice([s for s in self.sc if not s.bl] + self.aliases), R.choice([[2], [3], [4], [2, 3]]))
            self.arrtds.append(t)
            self.types.append(t.decl())
        if R.random() < 0.7:
            self.strtds.append(self.name())
            self.types.append("typedef const char *%s;" % self.strtds[-1])
        for _ in range(R.randrange(0, 2)):
            self.nvariadic += 1
            self.types.append("%s %s(%s, ...);" % (R.choice(["int", "void", "const char *"]), self.name(), R.choice(["int a", "const char *f"])))

    def pstr(self, ctor):
        s = ctor()
        if self.strtds and type(s) in (PStr, RStr) and self.R.random() < 0.4:
            s.td = self.R.choice(self.strtds)
        return s

    def mk_raw(self):
        R = self.R
        n = self.name()
        fields = []
        for i in range(R.randrange(1, 8)):
            fn = "%s%d" % (R.choice(["f", "g", "val", "x_y", "count"]), i)
            k = R.random()
            if k < 0.2:
                t = self.plain()
                f = FArr(t, R.choice([[2], [4], [1], [3], [2, 3]]) if t.kind == "scalar" else [R.randrange(1, 4)])
            elif k < 0.35:
                f = RPField(R.choice(self.sc))
            else:
                f = FVal(self.plain(True))
            fields.append((fn, f))
        s = RawStruct(n, fields)
        if s.weight > 40 or s.size > 400:
            return None
        self.types.append(s.decl())
        self.raws.append(s)
        return s

    def mk_struct(self, kinds=("val", "arr"), nf=None, nested=True):
        R = self.R
        n = self.name()
        fields, used = [], set()
        for i in range(nf or (R.randrange(1, 8) if R.random() < 0.93 else R.randrange(12, 20))):
            fn = "%s%d" % (R.choice(["f", "g", "val", "x_y", "count"]), i)
            k = R.choice(kinds)
            st = [s for s in self.structs if s.weight <= self.maxw] if nested else []
            if k == "arr" and self.arrtds and R.random() < 0.3:
                f = FArrTd(R.choice(self.arrtds), R.choice([[], [], [2], [3]]))
            elif k == "arr":
                ty = self.plain()
                f = FArr(ty, R.choice([[2], [4], [1], [3], [3], [2], [17]]) if R.random() < 0.6 else R.choice([[2, 3], [3, 2], [1, 4], [4, 2, 3], [2, 1, 3]]))
            elif k == "ptr":
                f = FPtr(R.choice([self.plain(), self.plain(True)]))
            elif k == "rptr" and self.raws:
                f = FRaw(R.choice(self.raws))
            elif k == "str":
                f = FStr()
            elif k == "sptr" and st:
                f = FSPtr(R.choice(st))
            elif k == "sarr" and st:
                f = FArr(R.choice(st), [R.randrange(1, 4)] if R.random() < 0.6 else R.choice([[2, 3], [3, 2], [1, 2], [2, 1], [2, 1, 3]]))
            elif k == "pp":
                f = FPP(self.pptype())
            elif k == "sval" and st:
                f = FVal(R.choice(st))
            elif k == "val" and R.random() < 0.15:
                form = R.randrange(4)
                f = FFn(form) if R.random() < 0.7 else FFnArr(form, [R.randrange(1, 4)])
            else:
                f = FVal(self.plain(True))
            fields.append((fn, f))
        R2 = random.Random(n)
        if R2.random() < 0.2:                 # members named like the methods
            for i, h in zip(R2.sample(range(len(fields)), min(len(fields), R2.randrange(1, 3))), R2.sample(HELPERS, 2)):
                fields[i] = (h, fields[i][1])
            self.nhelpers += 1
        s = Struct(n, fields, tagged=R.random() < 0.6)
        if self.handles and R2.random() < 0.4:
            s.ptd = self.name()
        self.types.append(s.decl())
        self.structs.append(s)
        return s

    def pptype(self):
        """A plain type T for T**."""
        if not hasattr(self, "_pp"):
            out = []
            for s in self.sc + self.aliases + self.enums + self.raws * 3:
                if not getattr(s, "bl", False):
                    out.append(s)
            self._pp = out
        return self.R.choice(self._pp)

    def mk_cb(self, structs=True):
        R = self.R
        ps = []
        for _ in range(R.randrange(0, 5) if R.random() < 0.93 else R.randrange(7, 11)):
            k = R.random()
            if k < 0.5:
                ps.append(PVal(self.plain(True)))
            elif k < 0.65:
                ps.append(self.pstr(PStr))
            elif k < 0.85:
                t = self.plain()
                ps.append(PArr(t, const=R.random() < 0.4 and t.c != "char"))
            elif structs and self.structs:
                ps.append(PVal(R.choice(self.structs)))
        ret = None if R.random() < 0.3 else self.R.choice([self.plain(), self.plain(True)])
        if ret is not None and ret.kind == "union":
            ret = None
        c = Cb(self.name(), ps, ret)
        self.types.append(c.decl())
        self.cbs.append(c)
        return c

    def rnd_param(self, kinds):
        R = self.R
        k = R.choice(kinds)
        if k == "val" and not (self.handles and R.random() < 0.08):
            return PVal(self.plain(True))
        if k == "val":
            return PFn(R.randrange(4))
        if k == "sval" and self.structs:
            return PVal(R.choice(self.structs))
        if k == "arr":
            t = self.plain(True)
            return PArr(t, const=R.random() < 0.3 and t.c not in ("char", "void*", "unsigned char"),
                        fixed=R.choice([None, None, None, None, 3, 3, 1, 12]) if t.kind != "voidp" else None)
        if k == "pp":
            return PArr2(self.pptype(), R.choice([2, 2, 3]))
        if k == "str":
            return self.pstr(PStr)
        if k == "arr" and self.arrtds and R.random() < 0.25:
            td = R.choice(self.arrtds)
            return PArrTd(td) if len(td.dims) == 1 and R.random() < 0.4 else PArr(td)
        if k == "strs":
            return PStrs()
        if k == "sarr" and self.structs:
            return PSArr(R.choice(self.structs), const=R.random() < 0.3)
        if k == "sref" and self.structs:
            return PSRef(R.choice(self.structs), const=R.random() < 0.3)
        if k == "pref":
            t = self.plain()
            while t.kind == "voidp":
                t = self.plain()
            return PRef(t, const=R.random() < 0.3 and t.c not in ("char", "unsigned char"), tip=R.choice(["ref", "sref"]))
        if k == "plain" and self.aliases:
            t = copy.copy(R.choice(self.aliases))
            t.go = t.go_under
            p = R.choice([PVal(t), PArr(t), PRef(t)])
            p.fttip = "plain"
            return p
        if k == "opq" and self.opqs:
            return POpq(R.choice(self.opqs))
        if k == "cb" and self.cbs:
            return PCb(R.choice(self.cbs))
        return PVal(self.plain())

    def rnd_ret(self, kinds):
        R = self.R
        k = R.choice(kinds)
        if k == "void":
            return None
        if k == "str":
            return self.pstr(RStr)
        if k == "val" and self.handles and R.random() < 0.1:
            return RFn(R.randrange(4))
        if k == "ptr" and self.arrtds and R.random() < 0.2:
            return RPtr(R.choice(self.arrtds))
        if k == "ptr":
            t = self.plain()
            while t.kind == "union":
                t = self.plain()
            return RPtr(t)
        if k == "rarr":
            t = self.plain()
            while t.kind == "union":
                t = self.plain()
            return RArr(t)
        if k == "sval" and self.structs:
            return RVal(R.choice(self.structs))
        if k == "sptr" and self.structs:
            return RSPtr(R.choice(self.structs))
        if k == "opq" and self.opqs:
            return ROpq(R.choice(self.opqs))
        return RVal(self.plain(True))

    def mk_func(self, pk, rk, np=None):
        ps = []
        for i in range((self.R.randrange(0, 6) if self.R.random() < 0.95 else self.R.randrange(9, 14)) if np is None else np):
            p = self.rnd_param(pk)
            if p.cb and any(q.cb and q.ty is p.ty for q in ps):
                p = PVal(self.plain())
            ps.append(p)
        inst = None
        if "inst" in pk and self.R.random() < 0.5:
            k = self.R.choice([k for k in ("alias", "enum", "union", "opq", "struct") if k in ("alias", "enum", "union", "opq") or self.structs])
            if k == "struct":
                p = PSRef(self.R.choice(self.structs))
            elif k == "opq":
                p = POpq(self.R.choice(self.opqs))
            else:
                p = PRef(self.R.choice({"alias": self.aliases, "enum": self.enums, "union": self.unions}[k]))
            p.ptip = "inst"
            inst = self.R.randrange(len(ps) + 1)
            ps.insert(inst, p)
        f = Func(self.name(), ps, self.rnd_ret(rk))
        f.inst = inst
        self.funcs.append(f)
        return f

    # -- scripting
    def call(self, f, vals=None, gc=None, free=True, depth=0, barrier=False, bind=None, check=()):
        """Script one call of f: what Go passes, what C logs, does and returns, what Go sees.
        depth > 0: the call is made by a callback. bind: Go lines that make the argument of a parameter,
        instead of building it from its value; such a call is part of another. Returns the number of the call."""
        R = self.R
        start = len(self.expect)
        k = self.ncall
        self.ncall += 1
        vals = [p.rnd(R) for p in f.params] if vals is None else vals
        body, g = [], []
        f.calls.append((k, body))
        gc = (R.random() < self.gc_p) if gc is None else gc
        # Go: build
        g.append("{ // call %d" % k)
        args = []
        for i, (p, v) in enumerate(zip(f.params, vals)):
            var = "a%d" % i
            if p.cb:
                args.append("nil" if v is None else "zzcb_%s" % p.ty.name)
                continue
            g += p.gobuild(var, v) if bind is None or i not in bind else bind[i]
            args.append(var)
        body += check
        # C: log args
        line = "C%d %s" % (k, f.name)

        def logargs(tag):
            out = [ct("C%d%s %s" % (k, tag, f.name))]
            for i, (p, v) in enumerate(zip(f.params, vals)):
                out.append(ct(" p%d=" % i))
                out += p.clog("p%d" % i, v)
            return out + ["vl_nl();"]
        body += logargs("")
        exp = "C%d %s" % (k, f.name) + "".join(" p%d=%s" % (i, p.fmt(v)) for i, (p, v) in enumerate(zip(f.params, vals)))
        self.expect.append(exp)
        if gc:
            body.append("v_gc();")
            body += logargs("'")
            self.expect.append(exp.replace("C%d " % k, "C%d' " % k, 1))
        # callbacks
        for i, (p, v) in enumerate(zip(f.params, vals)):
            if p.cb and v is not None:
                for args_, muts, ret in v:
                    self._invoke(k, p.ty, "p%d" % i, args_, muts, ret, body, gc, depth)
        # mutations
        post = []
        for i, (p, v) in enumerate(zip(f.params, vals)):
            m, nv = p.mut("p%d" % i, v, R)
            body += m
            post.append(nv)
        rv = None
        if f.ret:
            rv = f.ret.rnd(R)
            body += f.ret.cret(rv)
            if isinstance(f.ret, RSPtr) and rv is not None and self.again_p and not self.conc:
                body[-1] = body[-1].replace("return ", "return v_last = ")
        # Go: call and observe
        if self.conc:
            g.append("zzsetcall(%d)" % k)
        if barrier:
            g.append("zzbar.wait()")
        callx = "%s(%s)" % (f.go, ", ".join(args))
        if f.inst is not None:
            callx = "%s.%s(%s)" % (args[f.inst], f.go, ", ".join(args[:f.inst] + args[f.inst + 1:]))
        g.append("r := " + callx if f.ret else callx)
        if gc and R.random() < self.post_gc_p:
            g.append("zzGC()")
            self.npostgc += 1
        g.append(gt("G%d" % k))
        exp = "G%d" % k
        if f.ret:
            g.append(gt(" r="))
            g += f.ret.glog("r", rv)
            exp += " r=" + f.ret.fmt(rv)
        for i, (p, nv) in enumerate(zip(f.params, post)):
            if nv is not None:
                g.append(gt(" p%d=" % i))
                g += p.gopost("a%d" % i, nv)
                exp += " p%d=%s" % (i, p.fmt(nv))
        g.append("znl()")
        self.expect.append(exp)
        self.last_vals = [v if nv is None else nv for v, nv in zip(vals, post)]
        if bind is None and self.again_p and R.random() < self.again_p:
            g += self._again(f, self.last_vals, rv, depth)
        if free:
            for i, (p, v) in enumerate(zip(f.params, vals)):
                if hasattr(p, "gofree"):
                    g += p.gofree("a%d" % i, v)
        # keep everything alive until observed
        for i, (p, v) in enumerate(zip(f.params, vals)):
            if not p.cb:
                g.append("runtime.KeepAlive(a%d)" % i)
        g.append("}")
        self.calls_go[k] = g[1:-1]
        self.segments[k] = (start, len(self.expect))
        if not depth and bind is None:
            self.go_body.append("zzcall%d()" % k)
        return k

    def _again(self, f, vals, rv, depth):
        """The objects of a call live on: the same arguments are passed again, structs are released,
        filled with other values and passed once more, and a result that refers to a C object is passed on."""
        R, g = self.R, []

        def more(f, *a, **kw):
            k = self.call(f, *a, depth=depth + 1, **kw)
            g.extend(["{"] + self.calls_go.pop(k) + ["}"])

        if isinstance(f.ret, RSPtr) and rv is not None and not self.conc:
            to = [(h, i) for h in self.funcs for i, p in enumerate(h.params)
                  if type(p) is PSRef and p.ty is f.ret.ty and h.inst is None and not any(q.cb for q in h.params)]
            if to:
                h, i = R.choice(to)
                vs = [p.rnd(R) for p in h.params]
                vs[i] = rv
                self.nagain["result passed on"] += 1
                bind = {i: (["r.Free()"] if R.random() < 0.5 else []) + ["a%d := r" % i]}
                more(h, vs, bind=bind, check=['if ((void *)p%d != v_last) { vl_t("another object"); vl_nl(); }' % i])
        refs = [i for i, (p, v) in enumerate(zip(f.params, vals)) if type(p) is PSRef and v is not None]
        if refs and all(type(p) in (PVal, PSRef, PArr, PStr) for p in f.params):
            same = {i: [] for i in range(len(vals))}
            if R.random() < 0.5:
                self.nagain["passed again"] += 1
                more(f, vals, free=False, bind=same)
                vals = self.last_vals
            self.nagain["released and refilled"] += 1
            vals = list(vals)
            for i in refs:
                st = f.params[i].ty
                vals[i] = st.rnd(R)
                names = [fieldname(n) for n, _ in st.fields]
                g += ["a%d.Free()" % i, 'if a%d.Ref() != nil { zt("a reference is left"); znl() }' % i]
                if names:
                    g += ["{", "n_ := %s" % st.golit(vals[i]), "%s = %s" % (", ".join("a%d.%s" % (i, n) for n in names), ", ".join("n_." + n for n in names)), "}"]
            more(f, vals, free=False, bind=same)
        return g

    def concurrent(self, n, percall, rounds):
        """Script n goroutines: first every callback type is used for the first time by all of them
        at once, then each makes calls of its own, rounds times over."""
        self.conc, self.rounds, self.parts = True, rounds, [([], []) for _ in range(n)]
        for cb in self.cbs:
            f = Func(self.name(), [PCb(cb)], None)
            self.funcs.append(f)
            for first, _ in self.parts:
                first.append(self.call(f, vals=[[]], barrier=True))
        fs = list(self.funcs)
        for _, rest in self.parts:
            for f in fs:
                for _ in range(percall):
                    rest.append(self.call(f))
            self.R.shuffle(rest)

    def slot_expect(self, i):
        first, rest = self.parts[i]
        seg = lambda k: self.expect[self.segments[k][0]:self.segments[k][1]]
        a = [x for k in first for x in seg(k)]
        return a + [x for k in rest for x in seg(k)] * self.rounds

    def _invoke(self, k, cb, fn, args, muts, ret, obody, gc, depth=0):
        """C calls fn(args); the Go callback logs them, mutates slices and returns ret."""
        idx = len(self.cbfuncs)
        self.cbfuncs.append(None)
        names, body = [], []
        thread = self.R.random() < self.thread_p
        nest = depth < 2 and self.R.random() < self.nest_p
        if thread:
            obody.append("v_thread(v_thr%d, (void *)%s);" % (idx, fn))
            fn = "fn"
            self.nthread += 1
        else:
            body = obody
        body.append("{")
        for j, (p, v) in enumerate(zip(cb.params, args)):
            n = "q%d" % j
            if isinstance(p, PArr):
                if v is None:
                    body.append("%s *%s = 0;" % (p.ty.c, n))
                else:
                    body.append("%s %s[%d];" % (p.ty.c, n, max(1, len(v))))
                    for x, y in enumerate(v):
                        body += p.ty.cset("%s[%d]" % (n, x), y)
            elif isinstance(p, PStr):
                body.append("const char *%s = %s;" % (n, cstr(v)))
            else:
                body.append("%s %s;" % (p.ty.c, n))
                body += p.ty.cset(n, v)
            names.append(n)
        body.append("v_setcb(%d);" % idx)
        callx = "%s(%s)" % (fn, ", ".join(names))
        body.append(ct("c%d.%d" % (k, idx)) if False else "")
        if cb.ret:
            body.append("%s rr = %s;" % (cb.ret.c, callx))
            body.append(ct("c%d.%d r=" % (k, idx)))
            body += cb.ret.clog("rr", ret)
        else:
            body.append("%s;" % callx)
            body.append(ct("c%d.%d" % (k, idx)))
        exp = "B%d %s" % (idx, cb.name) + "".join(" q%d=%s" % (j, p.fmt(v)) for j, (p, v) in enumerate(zip(cb.params, args)))
        self.expect.append(exp)
        nested = []
        if nest:
            self.nnest += 1
            for _ in range(self.R.randrange(1, 3)):
                nested.append("zzcall%d()" % self.call(self.R.choice(self.funcs), gc=False, depth=depth + 1))
        exp2 = "c%d.%d" % (k, idx) + (" r=" + cb.ret.fmt(ret) if cb.ret else "")
        for j, (p, m) in enumerate(zip(cb.params, muts)):
            if m is not None:
                body.append(ct(" q%d=" % j))
                body += p.clog("q%d" % j, m)
                exp2 += " q%d=%s" % (j, p.fmt(m))
        body.append("vl_nl(); }")
        if thread:
            self.thrs.append("static void v_thr%d(void *fn_) { %s fn = (%s)fn_;" % (idx, cb.name, cb.name))
            self.thrs += [x for x in body if x] + ["}"]
        self.expect.append(exp2)
        # Go side of this invocation
        g = [gt("B%d %s" % (idx, cb.name))]
        for j, (p, v) in enumerate(zip(cb.params, args)):
            g.append(gt(" q%d=" % j))
            if isinstance(p, PStr):
                g.append("zs(q%d)" % j)
            elif isinstance(p, PArr):
                g += FPtr.glog(p, "q%d" % j, v)
            else:
                g += p.ty.glog("q%d" % j, v, True)
        g.append("znl()")
        if gc:
            g.append("zzGC()")
        g += nested
        for j, (p, m) in enumerate(zip(cb.params, muts)):
            if m is not None:
                for x, y in enumerate(m):
                    g.append("q%d[:%d][%d] = %s" % (j, len(m), x, p.ty.golit(y)))
        if cb.ret:
            g.append("return %s" % cb.ret.golit(ret))
        self.cbfuncs[idx] = (cb, idx, g)

    # -- texts
    def header(self):
        out = ["#pragma once", "#include <stdint.h>", "#include <stddef.h>", ""]
        out += self.types
        out += [f.proto(pnames(f.name, "p", len(f.params))) + ";" for f in self.funcs]
        return "\n".join(out) + "\n"

    def impl(self):
        out = ['#include "foo.h"', '#include "vrt.h"', "#include <string.h>"]
        if self.again_p:
            out.append("static void *v_last;")
        out += self.thrs
        for f in self.funcs:
            out.append(f.proto() + " {")
            if self.conc:
                out.append("v_enter();")
            out.append("switch (v_getcall()) {" if self.conc else "static int n; switch (n++) {")
            for i, (k, body) in enumerate(f.calls):
                out.append("case %d: {" % (k if self.conc else i))
                if self.conc:
                    body = body[:-1] + ["v_leave();"] + body[-1:] if f.ret else body + ["v_leave();"]
                out += [x for x in body if x]
                out.append("break; }")
            out.append('default: vl_t("unexpected call of %s"); vl_nl(); }' % f.name)
            if f.ret:
                if isinstance(f.ret, (RStr, RPtr, ROpq)) or getattr(f.ret.ty, "kind", "") == "voidp":
                    out.append("return 0;")
                else:
                    out.append("{ static %s z; return z; }" % f.ret.ty.c)
            out.append("}")
        return "\n".join(out) + "\n"

    def driver(self):
        out = ["package foo", "", 'import ("runtime"; "unsafe")', "", "var _ unsafe.Pointer", "var _ = runtime.GC", ""]
        for cb in self.cbs:
            out.append("func zzcb_%s(%s)%s {" % (cb.name, ", ".join(
                "q%d %s" % (i, p.gotype()) for i, p in enumerate(cb.params)), " " + cb.ret.go if cb.ret else ""))
            out.append("switch zzcbidx() {")
            for c, idx, g in self.cbfuncs:
                if c is cb:
                    out.append("case %d:" % idx)
                    out += ["\t" + x for x in g]
            out.append('default: zt("unexpected callback"); znl() }')
            if cb.ret:
                out.append("var zero %s; return zero" % cb.ret.go)
            out.append("}")
        for i, g in sorted(self.calls_go.items()):
            out += ["func zzcall%d() {" % i] + ["\t" + x for x in g] + ["}"]
        if self.conc:
            for i, (first, rest) in enumerate(self.parts):
                out += ["func zzpart%d() {" % i] + ["\tzzcall%d()" % k for k in first]
                out += ["\tfor r := 0; r < %d; r++ {" % self.rounds, "\t\tzzbar.wait()"]
                out += ["\t\tzzcall%d()" % k for k in rest] + ["\t}", "}"]
            self.go_body = ["zzconc(%s)" % ", ".join("zzpart%d" % i for i in range(len(self.parts)))]
        out.append("func ZZMain() {")
        out += ["\t" + x for x in self.go_body]
        out.append("}")
        return "\n".join(out) + "\n"

    def manifest(self, pkg="foo"):
        o = ["---", "GENERATOR:", "  PackageName: %s" % pkg, '  Includes: ["foo.h"]']
        if self.options:
            o.append("  Options:")
            o += ["    %s: %s" % kv for kv in sorted(self.options.items())]
        o += ["PARSER:", '  IncludePaths: ["/usr/include"]', '  SourcesPaths: ["foo.h"]', "TRANSLATOR:",
              "  ConstRules: {defines: expand}"]
        fn_tips = []
        for f in self.funcs:
            st = getattr(f.ret, "self_tip", None)
            if st or any(p.ptip for p in f.params):
                fn_tips.append('      - {target: "^%s$", tips: [%s]%s}' % (
                    f.name, ", ".join(p.ptip or "0" for p in f.params), ", self: " + st if st else ""))
        if fn_tips or self.ptips_extra:
            o += ["  PtrTips:"] + (["    function:"] + fn_tips if fn_tips else []) + self.ptips_extra
        ty_tips = []
        for s in self.structs:
            if any(s.ttips()):
                ty_tips.append('      - {target: "^%s$", tips: [%s]}' % (
                    s.name, ", ".join(t or "0" for t in s.ttips())))
        fty_tips = ['      - {target: "^%s$", tips: [%s]}' % (f.name, ", ".join(p.fttip or "0" for p in f.params))
                    for f in self.funcs if any(p.fttip for p in f.params)]
        if ty_tips or fty_tips:
            o += ["  TypeTips:"] + (["    type:"] + ty_tips if ty_tips else []) + (["    function:"] + fty_tips if fty_tips else [])
        if self.raws:
            o += ["  MemTips:"] + ['    - {target: "^%s$", %s: raw}' % (s.name, "default" if s.default else "self") for s in self.raws]
        o += self.validations
        o += ["  Rules:", "    global:", '      - {action: accept, from: "^my_"}', "      - {transform: export}",
              "    const:", '      - {action: accept, from: "^MY_"}', "    private:", "      - {transform: unexport}",
              "    post-global:", "      - {load: snakecase}"]
        return "\n".join(o) + "\n" + self.extra_manifest
