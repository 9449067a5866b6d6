"""C24: bindings of real libraries next to C programs that make the same calls."""
import json, os, random, re, shutil
import c06, harness, vlib
from harness import write

GO_HEAD = '''package main

import (
	"encoding/hex"
	"fmt"
	"os"
	"runtime"
	"strings"
	"unsafe"
	foo "p/foo"
)

var _ = unsafe.Pointer(nil)
var _ = runtime.GC
var _ = strings.Repeat

func hx(b []byte) string { return hex.EncodeToString(b) }
func out(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...) }
func gostr(b *byte) string { s := ""; for *b != 0 { s += string(rune(*b)); b = (*byte)(unsafe.Add(unsafe.Pointer(b), 1)) }; return s }
func main() {
	in, _ := os.ReadFile(os.Args[1])
	var parts [][]byte
	for len(in) > 0 { n := int(in[0])*256 + int(in[1]); parts = append(parts, in[2:2+n]); in = in[2+n:] }
	for i, p := range parts { n := len(p); p = append(make([]byte, 0, n+1), p...); one(i, p, n); runtime.GC() }
}
'''
C_HEAD = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "foo.h"
static void hx(const unsigned char *b, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", b[i]); }
static void one(int i, unsigned char *p, int n);
int main(int argc, char **argv) {
	FILE *f = fopen(argv[1], "rb"); int i = 0, a, b;
	while ((a = fgetc(f)) != EOF) { b = fgetc(f); int n = a * 256 + b; unsigned char *p = malloc(n + 1); if (n) fread(p, 1, n, f); p[n] = 0; one(i++, p, n); free(p); }
	return 0;
}
'''

# name, header, accepted names, left out, ldflags, C, Go, tips
LIBS = [
    ("zlib", "zlib.h", "^(z_|Z_|gz|deflate|inflate|compress|uncompress|crc32|adler|Byte|uInt|uLong|voidp|alloc_func|free_func|in_func|out_func|zlib|internal_state|ZLIB|zError|get_crc)",
     "^gzvprintf$", "-lz", r'''
static void one(int i, unsigned char *p, int n) {
	printf("%s %lx %lx\n", zlibVersion(), crc32(0, p, n), adler32(1, p, n));
	uLongf dl = compressBound(n), ul = n + 10; unsigned char *d = calloc(1, dl), *u = calloc(1, ul);
	printf("%d ", compress2(d, &dl, p, n, i % 10)); printf("%lu ", dl); hx(d, dl); puts("");
	printf("%d ", uncompress(u, &ul, d, dl)); printf("%lu ", ul); hx(u, ul); puts("");
	if (dl > 3) { d[dl - 2] ^= 1; ul = n + 10; printf("bad %d\n", uncompress(u, &ul, d, dl)); }
	ul = 1; printf("small %d\n", n > 5 ? uncompress(u, &ul, d, dl) : 0);
	printf("%s|%s\n", zError(Z_DATA_ERROR), zError(Z_BUF_ERROR));
	printf("%lx\n", crc32_combine(crc32(0, p, n / 2), crc32(0, p + n / 2, n - n / 2), n - n / 2));
	free(d); free(u);
}''', '''
func one(i int, p []byte, n int) {
	b := func(x []byte) []foo.Bytef { r := make([]foo.Bytef, len(x)); for i := range x { r[i] = foo.Bytef(x[i]) }; return r }
	h := func(x []foo.Bytef) string { r := make([]byte, len(x)); for i := range x { r[i] = byte(x[i]) }; return hx(r) }
	src := b(p)
	out("%s %x %x", foo.ZlibVersion(), foo.Crc32(0, src, foo.UInt(n)), foo.Adler32(1, src, foo.UInt(n)))
	dl, ul := []foo.ULongf{foo.ULongf(foo.CompressBound(foo.ULong(n)))}, []foo.ULongf{foo.ULongf(n + 10)}
	d, u := make([]foo.Bytef, dl[0]), make([]foo.Bytef, ul[0])
	r := foo.Compress2(d, dl, src, foo.ULong(n), int32(i%10))
	out("%d %d %s", r, dl[0], h(d[:dl[0]]))
	r = foo.Uncompress(u, ul, d, foo.ULong(dl[0]))
	out("%d %d %s", r, ul[0], h(u[:ul[0]]))
	if dl[0] > 3 { d[dl[0]-2] ^= 1; ul[0] = foo.ULongf(n + 10); out("bad %d", foo.Uncompress(u, ul, d, foo.ULong(dl[0]))) }
	ul[0] = 1
	if n > 5 { out("small %d", foo.Uncompress(u, ul, d, foo.ULong(dl[0]))) } else { out("small 0") }
	out("%s|%s", foo.ZError(foo.Z_DATA_ERROR), foo.ZError(foo.Z_BUF_ERROR))
	out("%x", foo.Crc32_combine(foo.Crc32(0, src[:n/2], foo.UInt(n/2)), foo.Crc32(0, src[n/2:], foo.UInt(n-n/2)), int64(n-n/2)))
}
'''),
    ("bzip2", "bzlib.h", "^(BZ|bz)", "^BZ2_bz(Read|Write|open|dopen)", "-lbz2", r'''
static void one(int i, unsigned char *p, int n) {
	unsigned int dl = n + n / 100 + 700, ul = n + 10; char *d = calloc(1, dl), *u = calloc(1, ul);
	int r = BZ2_bzBuffToBuffCompress(d, &dl, (char*)p, n, 1 + i % 9, 0, 30);
	printf("%s %d %u ", BZ2_bzlibVersion(), r, dl); hx((unsigned char*)d, dl); puts("");
	r = BZ2_bzBuffToBuffDecompress(u, &ul, d, dl, i % 2, 0); printf("%d %u ", r, ul); hx((unsigned char*)u, ul); puts("");
	d[5] ^= 8; ul = n + 10; printf("bad %d\n", BZ2_bzBuffToBuffDecompress(u, &ul, d, dl, 0, 0));
	free(d); free(u);
}''', '''
func one(i int, p []byte, n int) {
	dl, ul := []uint32{uint32(n + n/100 + 700)}, []uint32{uint32(n + 10)}
	d, u := make([]byte, dl[0]), make([]byte, ul[0])
	r := foo.BZ2_bzBuffToBuffCompress(d, dl, p, uint32(n), int32(1+i%9), 0, 30)
	out("%s %d %d %s", foo.BZ2_bzlibVersion(), r, dl[0], hx(d[:dl[0]]))
	r = foo.BZ2_bzBuffToBuffDecompress(u, ul, d, dl[0], int32(i%2), 0)
	out("%d %d %s", r, ul[0], hx(u[:ul[0]]))
	d[5] ^= 8; ul[0] = uint32(n + 10)
	out("bad %d", foo.BZ2_bzBuffToBuffDecompress(u, ul, d, dl[0], 0, 0))
}
'''),
    ("zstd", "zstd.h", "^ZSTD", None, "-lzstd", r'''
static void one(int i, unsigned char *p, int n) {
	size_t cap = ZSTD_compressBound(n); unsigned char *d = calloc(1, cap), *u = calloc(1, n + 10);
	size_t r = ZSTD_compress(d, cap, p, n, 1 + i % 19); printf("%s %u %zu ", ZSTD_versionString(), ZSTD_isError(r), r); hx(d, r); puts("");
	size_t q = ZSTD_decompress(u, n + 10, d, r); printf("%zu ", q); hx(u, q); puts("");
	printf("%llu\n", ZSTD_getFrameContentSize(d, r));
	q = ZSTD_decompress(u, n + 10, d, r / 2); printf("%u %s\n", ZSTD_isError(q), ZSTD_getErrorName(q));
	ZSTD_bounds b = ZSTD_cParam_getBounds(ZSTD_c_windowLog); printf("%zu %d %d\n", b.error, b.lowerBound, b.upperBound);
	free(d); free(u);
}''', '''
func one(i int, p []byte, n int) {
	var z [1]byte
	at := func(b []byte) unsafe.Pointer { if len(b) == 0 { return unsafe.Pointer(&z) }; return unsafe.Pointer(&b[0]) }
	cap := foo.ZSTD_compressBound(uint64(n))
	d, u := make([]byte, cap), make([]byte, n+10)
	r := foo.ZSTD_compress(at(d), cap, at(p), uint64(n), int32(1+i%19))
	out("%s %d %d %s", foo.ZSTD_versionString(), foo.ZSTD_isError(r), r, hx(d[:r]))
	q := foo.ZSTD_decompress(at(u), uint64(n+10), at(d), r)
	out("%d %s", q, hx(u[:q]))
	out("%d", foo.ZSTD_getFrameContentSize(at(d), r))
	q = foo.ZSTD_decompress(at(u), uint64(n+10), at(d), r/2)
	out("%d %s", foo.ZSTD_isError(q), foo.ZSTD_getErrorName(q))
	b := foo.ZSTD_cParam_getBounds(foo.ZSTD_c_windowLog)
	b.Deref()
	out("%d %d %d", b.Error, b.LowerBound, b.UpperBound)
}
'''),
    ("lzma", "lzma.h", "^(?i)lzma", None, "-llzma", r'''
static void one(int i, unsigned char *p, int n) {
	size_t cap = lzma_stream_buffer_bound(n), pos = 0, ip = 0, op = 0; unsigned char *d = calloc(1, cap), *u = calloc(1, n + 10);
	printf("%s %x %llx\n", lzma_version_string(), lzma_crc32(p, n, i), (long long)lzma_crc64(p, n, i));
	int r = lzma_easy_buffer_encode(i % 7, LZMA_CHECK_CRC64, NULL, p, n, d, &pos, cap); printf("%d %zu ", r, pos); hx(d, pos); puts("");
	uint64_t lim = UINT64_MAX; r = lzma_stream_buffer_decode(&lim, 0, NULL, d, &ip, pos, u, &op, n + 10); printf("%d %zu %zu ", r, ip, op); hx(u, op); puts("");
	lim = 1; ip = op = 0; r = lzma_stream_buffer_decode(&lim, 0, NULL, d, &ip, pos, u, &op, n + 10); printf("%d %d\n", r, lim > 1);
	free(d); free(u);
}''', '''
func one(i int, p []byte, n int) {
	cap := foo.Lzma_stream_buffer_bound(uint64(n))
	d, u, pos, ip, op := make([]byte, cap), make([]byte, n+10), []uint64{0}, []uint64{0}, []uint64{0}
	out("%s %x %x", foo.Lzma_version_string(), foo.Lzma_crc32(p, uint64(n), uint32(i)), foo.Lzma_crc64(p, uint64(n), uint64(i)))
	r := foo.Lzma_easy_buffer_encode(uint32(i%7), foo.LZMA_CHECK_CRC64, nil, p, uint64(n), d, pos, cap)
	out("%d %d %s", r, pos[0], hx(d[:pos[0]]))
	lim := []uint64{^uint64(0)}
	r = foo.Lzma_stream_buffer_decode(lim, 0, nil, d, ip, pos[0], u, op, uint64(n+10))
	out("%d %d %d %s", r, ip[0], op[0], hx(u[:op[0]]))
	lim[0], ip[0], op[0] = 1, 0, 0
	r = foo.Lzma_stream_buffer_decode(lim, 0, nil, d, ip, pos[0], u, op, uint64(n+10))
	k := 0
	if lim[0] > 1 { k = 1 }
	out("%d %d", r, k)
}
'''),
    ("expat", "expat.h", "^XML_", None, "-lexpat", r'''
static void XMLCALL st(void *u, const char *n, const char **a) { printf("<%s\n", n); }
static void XMLCALL en(void *u, const char *n) { printf(">%s\n", n); }
static void XMLCALL tx(void *u, const char *s, int n) { printf("t%d ", n); hx((unsigned char*)s, n); puts(""); }
static void one(int i, unsigned char *p, int n) {
	XML_Parser x = XML_ParserCreate(NULL); char b[4000]; int k = sprintf(b, "<r>");
	for (int j = 0; j < n && k < 3000; j++) k += sprintf(b + k, p[j] % 3 ? "<e%d a='%d' b='%d'>" : "<e%d>", j, p[j], j), k += sprintf(b + k, "x&amp;%d</e%d>", p[j] * 3, j);
	k += sprintf(b + k, i % 4 == 3 ? "</s>" : "</r>");
	XML_SetElementHandler(x, st, en); XML_SetCharacterDataHandler(x, tx);
	int r = XML_Parse(x, b, k, 1);
	printf("%d %d %lu %lu %s\n", r, XML_GetErrorCode(x), XML_GetCurrentLineNumber(x), XML_GetCurrentColumnNumber(x), r ? "" : XML_ErrorString(XML_GetErrorCode(x)));
	XML_Expat_Version v = XML_ExpatVersionInfo(); printf("%d.%d.%d\n", v.major, v.minor, v.micro);
	XML_ParserFree(x);
}''', '''
func cs(b []foo.XML_Char) string { s := ""; for p := unsafe.Pointer(unsafe.SliceData(b)); *(*byte)(p) != 0; p = unsafe.Add(p, 1) { s += string(rune(*(*byte)(p))) }; return s }
func one(i int, p []byte, n int) {
	x := foo.XML_ParserCreate(nil)
	b := "<r>"
	for j := 0; j < n && len(b) < 3000; j++ {
		if p[j]%3 != 0 { b += fmt.Sprintf("<e%d a='%d' b='%d'>", j, p[j], j) } else { b += fmt.Sprintf("<e%d>", j) }
		b += fmt.Sprintf("x&amp;%d</e%d>", int(p[j])*3, j)
	}
	if i%4 == 3 { b += "</s>" } else { b += "</r>" }
	foo.XML_SetElementHandler(x, func(u unsafe.Pointer, n []foo.XML_Char, a [][]foo.XML_Char) {
		out("<%s", cs(n))
	}, func(u unsafe.Pointer, n []foo.XML_Char) { out(">%s", cs(n)) })
	foo.XML_SetCharacterDataHandler(x, func(u unsafe.Pointer, s []foo.XML_Char, n int32) {
		out("t%d %s", n, hx(unsafe.Slice((*byte)(unsafe.Pointer(unsafe.SliceData(s))), int(n))))
	})
	r := foo.XML_Parse(x, b, int32(len(b)), 1)
	e := ""
	if r == 0 { e = gostr((*byte)(unsafe.Pointer(foo.XML_ErrorString(foo.XML_GetErrorCode(x))))) }
	out("%d %d %d %d %s", r, foo.XML_GetErrorCode(x), foo.XML_GetCurrentLineNumber(x), foo.XML_GetCurrentColumnNumber(x), e)
	v := foo.XML_ExpatVersionInfo()
	v.Deref()
	out("%d.%d.%d", v.Major, v.Minor, v.Micro)
	foo.XML_ParserFree(x)
}
'''),
    ("z3", "z3.h", "^Z3_", None, "-lz3", r'''
static void one(int i, unsigned char *p, int n) {
	Z3_config g = Z3_mk_config(); Z3_set_param_value(g, "model", "true"); Z3_context c = Z3_mk_context(g); Z3_del_config(g);
	Z3_sort s = Z3_mk_int_sort(c); Z3_ast x = Z3_mk_const(c, Z3_mk_string_symbol(c, "x"), s), a[8]; int k = n < 7 ? n : 7;
	for (int j = 0; j < k; j++) a[j] = Z3_mk_int(c, p[j] - 100, s);
	a[k] = x;
	Z3_ast sum = Z3_mk_add(c, k + 1, a), eq = Z3_mk_eq(c, sum, Z3_mk_int(c, 7 * i, s));
	printf("%s\n", Z3_ast_to_string(c, eq)); printf("%s\n", Z3_ast_to_string(c, Z3_simplify(c, eq)));
	Z3_solver v = Z3_mk_solver(c); Z3_solver_inc_ref(c, v); Z3_solver_assert(c, v, eq); printf("%d\n", Z3_solver_check(c, v));
	printf("%s\n", Z3_model_to_string(c, Z3_solver_get_model(c, v)));
	Z3_solver_assert(c, v, Z3_mk_lt(c, x, x)); printf("%d\n", Z3_solver_check(c, v));
	printf("%s %d\n", Z3_get_full_version(), Z3_get_error_code(c)); Z3_solver_dec_ref(c, v); Z3_del_context(c);
}''', '''
func one(i int, p []byte, n int) {
	g := foo.Z3_mk_config()
	foo.Z3_set_param_value(g, "model", "true")
	c := foo.Z3_mk_context(g)
	foo.Z3_del_config(g)
	s := foo.Z3_mk_int_sort(c)
	x := foo.Z3_mk_const(c, foo.Z3_mk_string_symbol(c, "x"), s)
	k := n
	if k > 7 { k = 7 }
	var a []foo.Z3_ast
	for j := 0; j < k; j++ { a = append(a, foo.Z3_mk_int(c, int32(p[j])-100, s)) }
	a = append(a, x)
	sum := foo.Z3_mk_add(c, uint32(k+1), a)
	eq := foo.Z3_mk_eq(c, sum, foo.Z3_mk_int(c, int32(7*i), s))
	out("%s", foo.Z3_ast_to_string(c, eq))
	out("%s", foo.Z3_ast_to_string(c, foo.Z3_simplify(c, eq)))
	v := foo.Z3_mk_solver(c)
	foo.Z3_solver_inc_ref(c, v)
	foo.Z3_solver_assert(c, v, eq)
	out("%d", foo.Z3_solver_check(c, v))
	out("%s", foo.Z3_model_to_string(c, foo.Z3_solver_get_model(c, v)))
	foo.Z3_solver_assert(c, v, foo.Z3_mk_lt(c, x, x))
	out("%d", foo.Z3_solver_check(c, v))
	out("%s %d", foo.Z3_get_full_version(), foo.Z3_get_error_code(c))
	foo.Z3_solver_dec_ref(c, v)
	foo.Z3_del_context(c)
}
'''),
    ("math", "math.h", "^(sqrt|pow|floor|ceil|atan2|fmod|hypot|cbrt|ldexp|fabs|lround|llround|frexp|modf|FP_.*|M_.*|sqrtf|powf|hypotf)$", None, "-lm", r'''
static void one(int i, unsigned char *p, int n) {
	for (int j = 0; j + 1 < n; j += 2) { double a = (p[j] - 100) / 8.0, b = p[j + 1] / 16.0, q; int e;
		printf("%016llx ", (union { double d; unsigned long long u; }){pow(b, a / 4)}.u);
		printf("%a %a %a %a %ld %lld %a", sqrt(b), floor(a), ceil(a), fmod(a, b + 1), lround(a), llround(b), ldexp(b, i));
		q = frexp(a, &e); printf(" %a %d", q, e); q = modf(a, &b); printf(" %a %a %a\n", q, b, (double)sqrtf(p[j])); }
}''', '''
func ca(f float64) string {
	if f == 0 { if fmt.Sprint(f) == "-0" { return "-0x0p+0" }; return "0x0p+0" }
	s := strings.Replace(strings.Replace(fmt.Sprintf("%x", f), "p+0", "p+", 1), "p-0", "p-", 1)
	if strings.HasSuffix(s, "p+") || strings.HasSuffix(s, "p-") { s += "0" }
	return s
}
func one(i int, p []byte, n int) {
	for j := 0; j+1 < n; j += 2 {
		a, b := (float64(p[j])-100)/8.0, float64(p[j+1])/16.0
		q := foo.Pow(b, a/4)
		e, w := []int32{0}, []float64{0}
		l := fmt.Sprintf("%016x %s %s %s %s %d %d %s", *(*uint64)(unsafe.Pointer(&q)), ca(foo.Sqrt(b)), ca(foo.Floor(a)), ca(foo.Ceil(a)), ca(foo.Fmod(a, b+1)), foo.Lround(a), foo.Llround(b), ca(foo.Ldexp(b, int32(i))))
		q = foo.Frexp(a, e)
		l += fmt.Sprintf(" %s %d", ca(q), e[0])
		q = foo.Modf(a, w)
		out("%s %s %s %s", l, ca(q), ca(w[0]), ca(float64(foo.Sqrtf(float32(p[j])))))
	}
}
'''),
    ("stdlib", "stdlib.h", "^(atoi|atol|atoll|atof|abs|labs|llabs|div|ldiv|lldiv|div_t|ldiv_t|lldiv_t|qsort|__compar_fn_t|rand_r|RAND_MAX|EXIT_.*)$", None, "", r'''
static int cmp(const void *a, const void *b) { return (int)*(const unsigned char*)a - (int)*(const unsigned char*)b; }
static void one(int i, unsigned char *p, int n) {
	unsigned seed = i; int r1 = rand_r(&seed), r2 = rand_r(&seed); printf("%d %d %u\n", r1, r2, seed); char b[100];
	for (int j = 0; j + 1 < n; j += 2) { sprintf(b, "%d.5", (p[j] - 128) * p[j + 1]); div_t d = div(p[j] - 128, p[j + 1] + 1); ldiv_t l = ldiv(p[j] * -9999999999l, 3 + p[j + 1]);
		printf("%d %ld %lld %a %d %ld %d %d %ld %ld\n", atoi(b), atol(b), atoll(b), atof(b), abs(p[j] - 128), labs(-l.quot), d.quot, d.rem, l.quot, l.rem); }
	qsort(p, n, 1, cmp); hx(p, n); puts("");
}''', '''
func one(i int, p []byte, n int) {
	seed := []uint32{uint32(i)}
	r1 := foo.Rand_r(seed)
	r2 := foo.Rand_r(seed)
	out("%d %d %d", r1, r2, seed[0])
	for j := 0; j+1 < n; j += 2 {
		b := fmt.Sprintf("%d.5", (int(p[j])-128)*int(p[j+1]))
		d, l := foo.Div(int32(p[j])-128, int32(p[j+1])+1), foo.Ldiv(int64(p[j])*-9999999999, 3+int64(p[j+1]))
		d.Deref()
		l.Deref()
		f := fmt.Sprintf("%x", foo.Atof(b))
		f = strings.Replace(strings.Replace(f, "p+0", "p+", 1), "p-0", "p-", 1)
		if strings.HasSuffix(f, "p+") || strings.HasSuffix(f, "p-") { f += "0" }
		out("%d %d %d %s %d %d %d %d %d %d", foo.Atoi(b), foo.Atol(b), foo.Atoll(b), f, foo.Abs(int32(p[j])-128), foo.Labs(-l.Quot), d.Quot, d.Rem, l.Quot, l.Rem)
	}
	var z [1]byte
	q := unsafe.Pointer(&z)
	if n > 0 { q = unsafe.Pointer(&p[0]) }
	foo.Qsort(q, uint64(n), 1, func(a, b unsafe.Pointer) int32 { return int32(*(*byte)(a)) - int32(*(*byte)(b)) })
	out("%s", hx(p))
}
'''),
    ("zlib streams", "zlib.h", "^(z_|Z_|gz|deflate|inflate|compress|uncompress|crc32|adler|Byte|uInt|uLong|voidp|alloc_func|free_func|in_func|out_func|zlib|internal_state|ZLIB|zError|get_crc)", "^gzvprintf$", "-lz", r'''
static void show(z_stream *s, int r) { printf("%d %u %u %lu %lu %lx %d %s\n", r, s->avail_in, s->avail_out, s->total_in, s->total_out, s->adler, s->state != 0, s->msg ? s->msg : ""); }
static void one(int i, unsigned char *p, int n) {
	uLong dl = compressBound(n) + 100; unsigned char *d = calloc(1, dl), *u = calloc(1, n + 9);
	z_stream s = { .next_in = p, .avail_in = n, .next_out = d, .avail_out = dl };
	show(&s, deflateInit2_(&s, i % 10, Z_DEFLATED, i % 3 ? 15 : -15, 8, Z_DEFAULT_STRATEGY, ZLIB_VERSION, sizeof s));
	int r = deflate(&s, Z_SYNC_FLUSH); show(&s, r); r = deflate(&s, Z_FINISH); show(&s, r); r = deflateEnd(&s); show(&s, r); hx(d, s.total_out); puts("");
	z_stream v = { .next_in = d, .avail_in = s.total_out, .next_out = u, .avail_out = n + 9 };
	show(&v, inflateInit2_(&v, 15, ZLIB_VERSION, sizeof v)); r = inflate(&v, Z_FINISH); show(&v, r); r = inflateEnd(&v); show(&v, r);
	hx(u, n + 9); puts(""); printf("%d\n", v.next_out == u + v.total_out); show(&v, inflateEnd(&v)); free(d); free(u);
}''', '''
func show(s *foo.Z_stream, r int32) {
	s.Deref()
	k, m := 0, ""
	if unsafe.SliceData(s.State) != nil { k = 1 }
	if p := unsafe.SliceData(s.Msg); p != nil { m = gostr(p) }
	out("%d %d %d %d %d %x %d %s", r, s.Avail_in, s.Avail_out, s.Total_in, s.Total_out, s.Adler, k, m)
}
func one(i int, p []byte, n int) {
	dl := foo.CompressBound(foo.ULong(n)) + 100
	src, d, u := make([]foo.Bytef, n+1), make([]foo.Bytef, dl), make([]foo.Bytef, n+9)
	for j, x := range p { src[j] = foo.Bytef(x) }
	h := func(x []foo.Bytef) string { r := make([]byte, len(x)); for i := range x { r[i] = byte(x[i]) }; return hx(r) }
	s := &foo.Z_stream{Next_in: src, Avail_in: foo.UInt(n), Next_out: d, Avail_out: foo.UInt(dl)}
	w := int32(15)
	if i%3 == 0 { w = -15 }
	show(s, foo.DeflateInit2_(s, int32(i%10), foo.Z_DEFLATED, w, 8, foo.Z_DEFAULT_STRATEGY, foo.ZLIB_VERSION, 112))
	ob := unsafe.Pointer(unsafe.SliceData(s.Next_out)) // the slices are C memory now
	show(s, foo.Deflate(s, foo.Z_SYNC_FLUSH))
	show(s, foo.Deflate(s, foo.Z_FINISH))
	show(s, foo.DeflateEnd(s))
	copy(d, unsafe.Slice((*foo.Bytef)(ob), dl))
	out("%s", h(d[:s.Total_out]))
	v := &foo.Z_stream{Next_in: d, Avail_in: foo.UInt(s.Total_out), Next_out: u, Avail_out: foo.UInt(n + 9)}
	show(v, foo.InflateInit2_(v, 15, foo.ZLIB_VERSION, 112))
	ub := unsafe.Pointer(unsafe.SliceData(v.Next_out))
	show(v, foo.Inflate(v, foo.Z_FINISH))
	show(v, foo.InflateEnd(v))
	copy(u, unsafe.Slice((*foo.Bytef)(ub), len(u)))
	out("%s", h(u))
	k := 0
	if unsafe.Pointer(unsafe.SliceData(v.Next_out)) == unsafe.Add(ub, v.Total_out) { k = 1 }
	out("%d", k)
	show(v, foo.InflateEnd(v))
	s.Free(); v.Free()
}
''', """  PtrTips:
    function:
      - {target: "^(de|in)flate", tips: [ref]}
"""),
    ("bzip2 streams", "bzlib.h", "^(BZ|bz)", "^BZ2_bz(Read|Write|open|dopen)", "-lbz2", r'''
static void show(bz_stream *s, int r) { printf("%d %u %u %u %u\n", r, s->avail_in, s->avail_out, s->total_in_lo32, s->total_out_lo32); }
static void one(int i, unsigned char *p, int n) {
	unsigned dl = n + n / 100 + 700; char *d = calloc(1, dl), *u = calloc(1, n + 9);
	bz_stream s = { 0 }; show(&s, BZ2_bzCompressInit(&s, 1 + i % 9, 0, 0));
	BZ2_bzCompressEnd(&s);
	bz_stream t = { .next_in = (char*)p, .avail_in = n, .next_out = d, .avail_out = dl };
	show(&t, BZ2_bzCompressInit(&t, 1 + i % 9, 0, 0)); show(&t, BZ2_bzCompress(&t, BZ_FINISH)); show(&t, BZ2_bzCompressEnd(&t));
	bz_stream v = { .next_in = d, .avail_in = t.total_out_lo32, .next_out = u, .avail_out = n + 9 }; show(&v, BZ2_bzDecompressInit(&v, 0, i % 2)); show(&v, BZ2_bzDecompress(&v));
	printf("%d\n", v.next_out == u + v.total_out_lo32); show(&v, BZ2_bzDecompressEnd(&v)); hx((unsigned char*)u, n + 9); puts(""); hx((unsigned char*)d, t.total_out_lo32); puts("");
	show(&s, BZ2_bzCompress(&s, BZ_RUN)); free(d); free(u);
}''', '''
func show(s *foo.Bz_stream, r int32) { s.Deref(); out("%d %d %d %d %d", r, s.Avail_in, s.Avail_out, s.Total_in_lo32, s.Total_out_lo32) }
func one(i int, p []byte, n int) {
	dl := uint32(n + n/100 + 700)
	d, u := make([]byte, dl), make([]byte, n+9)
	s := &foo.Bz_stream{}
	show(s, foo.BZ2_bzCompressInit(s, int32(1+i%9), 0, 0))
	foo.BZ2_bzCompressEnd(s)
	t := &foo.Bz_stream{Next_in: p, Avail_in: uint32(n), Next_out: d, Avail_out: dl}
	show(t, foo.BZ2_bzCompressInit(t, int32(1+i%9), 0, 0))
	ob := unsafe.Pointer(unsafe.SliceData(t.Next_out)) // the slices are C memory now
	show(t, foo.BZ2_bzCompress(t, foo.BZ_FINISH))
	show(t, foo.BZ2_bzCompressEnd(t))
	copy(d, unsafe.Slice((*byte)(ob), dl))
	v := &foo.Bz_stream{Next_in: d, Avail_in: t.Total_out_lo32, Next_out: u, Avail_out: uint32(n + 9)}
	show(v, foo.BZ2_bzDecompressInit(v, 0, int32(i%2)))
	ub := unsafe.Pointer(unsafe.SliceData(v.Next_out))
	show(v, foo.BZ2_bzDecompress(v))
	k := 0
	if unsafe.Pointer(unsafe.SliceData(v.Next_out)) == unsafe.Add(ub, v.Total_out_lo32) { k = 1 }
	out("%d", k)
	show(v, foo.BZ2_bzDecompressEnd(v))
	copy(u, unsafe.Slice((*byte)(ub), len(u)))
	out("%s", hx(u)); out("%s", hx(d[:t.Total_out_lo32]))
	show(s, foo.BZ2_bzCompress(s, foo.BZ_RUN))
	s.Free(); t.Free(); v.Free()
}
''', """  PtrTips:
    function:
      - {target: "^BZ2_bz(De)?[Cc]ompress(Init|End)?$", tips: [ref]}
"""),
    ("zstd streams", "zstd.h", "^ZSTD", None, "-lzstd", r'''
static void one(int i, unsigned char *p, int n) {
	ZSTD_CCtx *c = ZSTD_createCCtx(); size_t cap = ZSTD_compressBound(n) + 50; unsigned char *d = calloc(1, cap), *u = calloc(1, n + 1);
	printf("%u ", ZSTD_isError(ZSTD_CCtx_setParameter(c, ZSTD_c_compressionLevel, i % 9))); printf("%u\n", ZSTD_isError(ZSTD_CCtx_setParameter(c, ZSTD_c_checksumFlag, 77)));
	ZSTD_inBuffer in = { p, n, 0 }; ZSTD_outBuffer o = { d, cap, 0 };
	for (int k = 1; k <= 3; k++) { in.size = n * k / 3; size_t r = ZSTD_compressStream2(c, &o, &in, k == 3 ? ZSTD_e_end : ZSTD_e_flush); printf("%zu %zu %zu %zu %zu\n", r, in.pos, in.size, o.pos, o.size); }
	hx(d, o.pos); puts(""); ZSTD_freeCCtx(c);
	ZSTD_DCtx *x = ZSTD_createDCtx(); ZSTD_inBuffer j = { d, o.pos, 0 }; ZSTD_outBuffer q = { u, n + 1, 0 };
	size_t r = ZSTD_decompressStream(x, &q, &j); printf("%zu %zu %zu ", r, j.pos, q.pos); hx(u, q.pos); puts(""); ZSTD_freeDCtx(x);
	free(d); free(u);
}''', '''
func one(i int, p []byte, n int) {
	var pin runtime.Pinner
	defer pin.Unpin()
	c := foo.ZSTD_createCCtx()
	d, u := make([]byte, foo.ZSTD_compressBound(uint64(n))+50), make([]byte, n+1)
	pin.Pin(unsafe.SliceData(p[:1])); pin.Pin(&d[0]); pin.Pin(&u[0])
	out("%d %d", foo.ZSTD_isError(foo.ZSTD_CCtx_setParameter(c, foo.ZSTD_c_compressionLevel, int32(i%9))), foo.ZSTD_isError(foo.ZSTD_CCtx_setParameter(c, foo.ZSTD_c_checksumFlag, 77)))
	in, o := &foo.ZSTD_inBuffer{Src: unsafe.Pointer(unsafe.SliceData(p))}, &foo.ZSTD_outBuffer{Dst: unsafe.Pointer(&d[0]), Size: uint64(len(d))}
	for k := 1; k <= 3; k++ {
		in.Free()
		in.Size = uint64(n * k / 3)
		m := foo.ZSTD_e_flush
		if k == 3 { m = foo.ZSTD_e_end }
		r := foo.ZSTD_compressStream2(c, o, in, foo.ZSTD_EndDirective(m))
		in.Deref(); o.Deref()
		out("%d %d %d %d %d", r, in.Pos, in.Size, o.Pos, o.Size)
	}
	out("%s", hx(d[:o.Pos]))
	foo.ZSTD_freeCCtx(c)
	x := foo.ZSTD_createDStream()
	j, q := &foo.ZSTD_inBuffer{Src: unsafe.Pointer(&d[0]), Size: o.Pos}, &foo.ZSTD_outBuffer{Dst: unsafe.Pointer(&u[0]), Size: uint64(n + 1)}
	r := foo.ZSTD_decompressStream(x, q, j)
	q.Deref(); j.Deref()
	out("%d %d %d %s", r, j.Pos, q.Pos, hx(u[:q.Pos]))
	foo.ZSTD_freeDStream(x)
	in.Free(); o.Free(); j.Free(); q.Free()
}
''', """  PtrTips:
    function:
      - {target: "Stream", default: ref}
      - {target: "^ZSTD_(create|free|CCtx)", default: ref}
"""),
    ("time", "time.h", "^(tm|gmtime_r|timegm|strftime|asctime_r|difftime|time_t)$", None, "", r'''
static void one(int i, unsigned char *p, int n) {
	struct tm m; char b[200];
	for (int j = 0; j + 5 < n && j < 120; j += 6) {
		time_t t = (p[j] | p[j + 1] << 8 | p[j + 2] << 16) * 997ll; gmtime_r(&t, &m);
		printf("%d %d %d %d %d %d %d %d\n", m.tm_sec, m.tm_min, m.tm_hour, m.tm_mday, m.tm_mon, m.tm_year, m.tm_wday, m.tm_yday);
		m.tm_mday += p[j + 3] - 128; m.tm_mon += p[j + 4] % 24 - 12; m.tm_sec -= p[j + 5]; printf("%ld ", (long)timegm(&m));
		printf("%d %d %d %d ", m.tm_mday, m.tm_mon, m.tm_year, m.tm_yday); size_t k = strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%S %a %j %%", &m);
		printf("%zu %.*s ", k, (int)k, b); asctime_r(&m, b); printf("%s%a\n", b, difftime(timegm(&m), t) == 0 ? 0.0 : 1.0); }
}''', '''
func one(i int, p []byte, n int) {
	b := make([]byte, 200)
	for j := 0; j+5 < n && j < 120; j += 6 {
		m := &foo.Tm{}
		t := (int64(p[j]) | int64(p[j+1])<<8 | int64(p[j+2])<<16) * 997
		foo.Gmtime_r([]foo.Time_t{foo.Time_t(t)}, m)
		m.Deref()
		out("%d %d %d %d %d %d %d %d", m.Tm_sec, m.Tm_min, m.Tm_hour, m.Tm_mday, m.Tm_mon, m.Tm_year, m.Tm_wday, m.Tm_yday)
		m.Free()
		m.Tm_mday += int32(p[j+3]) - 128
		m.Tm_mon += int32(p[j+4])%24 - 12
		m.Tm_sec -= int32(p[j+5])
		q := foo.Timegm(m)
		m.Deref()
		k := foo.Strftime(b, 200, "%Y-%m-%dT%H:%M:%S %a %j %%", m)
		a := fmt.Sprintf("%d %d %d %d %d %d %s ", q, m.Tm_mday, m.Tm_mon, m.Tm_year, m.Tm_yday, k, b[:k])
		foo.Asctime_r(m, b)
		m.Deref()
		e := "0x1p+0"
		if foo.Difftime(foo.Timegm(m), foo.Time_t(t)) == 0 { e = "0x0p+0" }
		out("%s%s%s", a, gostr(&b[0]), e)
		m.Free()
	}
}
''', """  PtrTips:
    function:
      - {target: "^(gmtime_r|strftime)$", default: ref, tips: [arr, ref]}
      - {target: "^(timegm|asctime_r)$", tips: [ref]}
""".replace('tips: [arr, ref]}', 'tips: [arr, ref, arr, ref]}')),
]


def export(n):
    return n[:1].upper() + n[1:]


def declared(ctx, d, accept, ignore):
    """(functions, enumerators) of the header with accepted names, as clang reads it."""
    write(d, "ast.c", '#include "foo.h"\n')
    r = vlib.run(["clang", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", "ast.c"], cwd=d, env=ctx.env, timeout=120)
    if r.rc != 0:
        return None
    a, g = re.compile(accept.replace("^(?i)", "(?i)^")), re.compile(ignore or "$^")
    funcs, enums = {}, set()

    def ok(n):
        return n and a.search(n) and not g.search(n)

    for x in json.loads(r.out).get("inner", []):
        if x["kind"] == "FunctionDecl" and ok(x["name"]) and not x.get("variadic") and x.get("storageClass") != "static":
            funcs[x["name"]] = sum(1 for p in x.get("inner", []) if p["kind"] == "ParmVarDecl")
        elif x["kind"] == "EnumDecl":
            enums |= {e["name"] for e in x.get("inner", []) if e["kind"] == "EnumConstantDecl" and ok(e["name"])}
    return funcs, enums


def one(ctx, i, lib, rules, n):
    name, header, accept, ignore, ld, csrc, gosrc = lib[:7]
    what = "%s with %s" % (name, dict(rules))
    R = random.Random(ctx.seed * 977 + i)
    opts = [o + ": true" for o in ("SafeStrings", "StructAccessors", "KeepAlive") if R.random() < 0.3]
    what += " " + ", ".join(opts)
    d = ctx.mkdir("case%d" % i)
    write(d, "foo.h", "#pragma once\n#include <%s>\n" % header)
    y = """GENERATOR:
  PackageName: foo
  Includes: ["foo.h"]%s
  Options: {%s}
PARSER:
  SourcesPaths: ["foo.h"]
TRANSLATOR:
  ConstRules: {%s}
  Rules:
    global:
      - {action: accept, from: "%s"}%s
      - {transform: export}
""" % ('\n  FlagGroups: [{name: LDFLAGS, flags: ["%s"]}]' % ld if ld else "", ", ".join(opts), ", ".join("%s: %s" % r for r in rules), accept,
       '\n      - {action: ignore, from: "%s"}' % ignore if ignore else "")
    y += lib[7] if len(lib) > 7 else ""
    write(d, "foo.yml", y)
    src = {"foo.yml": y, "foo.h": open(os.path.join(d, "foo.h")).read()}
    write(d, "prog.c", C_HEAD + csrc)
    c = vlib.run(["gcc", "-w", "-O1", "-ffp-contract=off", "-o", "prog", "prog.c"] + ld.split(), cwd=d, env=ctx.env, timeout=120)
    known = declared(ctx, d, accept, ignore)
    if c.rc != 0 or known is None:
        ctx.stat("libraries not installed")
        return
    r = ctx.gen(d, ["-ccdefs", "-ccincl", "foo.yml"])
    pkg = os.path.join(d, "foo")
    if r.rc != 0 or not os.path.isdir(pkg):
        ctx.violation("%s: c-for-go ends with %s\n%s" % (what, r.rc, r.text[-1500:]), src)
        return
    decls = harness.scan(ctx, pkg)[0]["Decls"]
    have = {x["Name"]: x for x in decls if x["Kind"] == "func" and x["File"] == "foo.go"}
    bad = ["%s is not bound" % f for f in known[0] if export(f) not in have]
    bad += ["%s is no function of the header" % f for f in have if f not in set(map(export, known[0]))]
    for f, np in known[0].items():
        t = have.get(export(f), {}).get("Type")
        if t and t.startswith("func("):
            ctx.stat("functions")
    consts = {x["Name"]: x for x in decls if x["Kind"] == "const" and x["File"] == "const.go"}
    bad += ["the enumerator %s is not declared" % e for e in known[1] if export(e) not in consts]
    ctx.stat("enumerators", len(known[1]))
    if bad:
        ctx.violation("%s: %s" % (what, "; ".join(bad[:8])), src, copy_dir=pkg)
    # constants
    m = vlib.run(["gcc", "-dM", "-E", "foo.h"], cwd=d, env=ctx.env, timeout=60).out.decode("utf-8", "replace")
    cnames = set(re.findall(r"^#define (\w+)", m, re.M)) | known[1]
    kinds = {}
    for g, x in consts.items():
        cn = g if g in cnames else g[:1].lower() + g[1:]
        if cn in cnames:
            kinds[cn] = "str" if x["Value"].lstrip("(").startswith('"') else "hostile" if x["Value"].strip() in ("", None) and cn not in known[1] else "num"
    vals, err = c06.c_values(ctx, d, kinds)
    if vals is None:
        ctx.inconclusive_case("%s: gcc does not evaluate the constants: %s" % (what, err[:300]))
        vals = {}
    write(d, "go.mod", "module p\n\ngo 1.21\n")
    shutil.copy(os.path.join(d, "foo.h"), os.path.join(pkg, "foo.h"))
    names = [k for k in kinds if k in vals]
    write(d, "foo/zz.go", c06.go_test(names, vals, [], export))
    write(d, "cc/main.go", 'package main\n\nimport "p/foo"\n\nfunc main() { foo.ZZMain() }\n')
    write(d, "drv/main.go", GO_HEAD + gosrc)
    b = ctx.go(d, ["build", "-o", "bin/", "./cc", "./drv"], env={"CGO_CFLAGS": "-O1 -w"})
    if b.rc != 0:
        ctx.violation("%s: the package, or a program that uses it the way it is meant, does not compile\n%s" % (what, b.text[:1800]), src, copy_dir=pkg)
        return
    x = vlib.run([os.path.join(d, "bin", "cc")], cwd=d, env=ctx.env, timeout=60)
    lines = x.out.decode().split("\n")
    wrong = [l[4:] for l in lines if l.startswith("BAD ")]
    if wrong or not any(l.startswith("SEEN ") for l in lines):
        ctx.violation("%s: constants: %s%s" % (what, ["%s is %s, gcc says %s" % (k, consts[export(k)]["Value"], vals[k]) for k in wrong[:5]], x.text[:300] if not wrong else ""), src)
    ctx.stat("constants", len(names))
    # calls
    data = b""
    for k in range(n):
        ln = R.choice([0, 1, 2, 7, 40, 200, 1000]) if name != "z3" else R.choice([0, 1, 4, 9])
        t = bytes(R.randrange(256) for _ in range(ln)) if R.random() < 0.5 else bytes(R.choice(b"abcab ") for _ in range(ln))
        data += bytes([ln >> 8, ln & 255]) + t
    with open(os.path.join(d, "in.bin"), "wb") as f:
        f.write(data)
    want = vlib.run([os.path.join(d, "prog"), "in.bin"], cwd=d, env=ctx.env, timeout=120)
    got = vlib.run([os.path.join(d, "bin", "drv"), "in.bin"], cwd=d, env=ctx.env, timeout=300)
    if want.rc != 0 or want.timeout:
        ctx.inconclusive_case("%s: the C program ends with %s" % (what, want.rc))
        return
    a, b = want.out.split(b"\n"), got.out.split(b"\n")
    if got.rc != 0 or a != b:
        k = next((j for j in range(max(len(a), len(b))) if a[j:j + 1] != b[j:j + 1]), -1)
        ctx.violation("%s: the Go program (rc %s) and the C program differ at line %d:\n  C  %s\n  Go %s\n%s" % (
            what, got.rc, k, a[k:k + 1], b[k:k + 1], got.err.decode("utf-8", "replace")[:1200]), src, copy_dir=pkg)
    for k in range(n):
        ctx.evaluated(1, events=(len(b) + len(names) + len(known[0])) // n, key=(name, tuple(rules), tuple(opts), k, data))
    ctx.stat("lines compared", len(b))
    if len(ctx.samples) < 3:
        ctx.samples.append({"library": name, "functions": len(known[0]), "constants": len(names), "lines": [l.decode("utf-8", "replace")[:100] for l in a[:2]]})
    shutil.rmtree(d, ignore_errors=True)


def check(ctx):
    ctx.build_tool()
    harness.build_goscan(ctx)
    quick = ctx.tier == "quick"
    R = random.Random(ctx.seed)
    jobs = []
    for k in range(1 if quick else 8):
        for lib in LIBS:
            rules = [(s, R.choice(["expand", "eval", "cgo"])) for s in ("defines", "enum")]
            jobs.append((len(jobs), lib, rules, 12 if quick else 150))
    ctx.pmap(lambda j: one(ctx, *j), jobs)
    if not ctx.count and not ctx.violations:
        ctx.evaluated(1, key="nothing installed")
    return ctx.finish(
        "an evaluation is one input given to a Go program that uses the bindings of an installed library and to a C program that makes the same calls; the output of both is compared line by line",
        ["the libraries installed here: zlib, bzip2, zstd, lzma, expat, z3 and parts of the C library; those without headers are skipped",
         "clang's syntax tree says which functions and enumerators a header declares, gcc evaluates the constants"])
