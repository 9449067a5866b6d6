PLANTS = []


def plant(id, property, edits, needs, breaks, files, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, files=files, **kw))


YML = """GENERATOR:
  PackageName: foo
  Includes: ["foo.h"]
PARSER:
  SourcesPaths: ["foo.h"]
TRANSLATOR:
  ConstRules: {defines: expand, enum: expand}
%s
  Rules:
    global:
      - {action: accept, from: "(?i)^my_"}
      - {transform: title}
"""
RUN = """#!/bin/bash
. "$(dirname "$0")/lib.sh"
package p || exit 2
cd "$w/p" && go build %s -o drv ./cmd || exit 1
timeout 120 env %s./drv > out.txt 2> err.txt || { echo "the program fails"; head -c 1500 err.txt; exit 1; }
%s
"""


def run(expect, flags="", env=""):
    return RUN % (flags, env, 'same out.txt "%s"' % expect)


GB = "generator/gen_bindings.go"

plant("c02-nested-slice-back", "C02", [(GB, """		case !isPlain && (goSpec.Slices > 0 || len(goSpec.OuterArr) > 0), // ex: []string
			isPlain && goSpec.Slices > 0 && len(goSpec.OuterArr) > 0, // ex: [4][]byte
			isPlain && goSpec.Slices > 1:                             // ex: [][]byte
			// need to re-pack""", """		case !isPlain && (goSpec.Slices > 0 || len(goSpec.OuterArr) > 0), // ex: []string
			isPlain && goSpec.Slices > 0 && len(goSpec.OuterArr) > 0: // ex: [4][]byte
			// need to re-pack""")],
      "a function that replaces a row of a slice of slices of plain values",
      "rows that C replaces through a pointer to pointers are not seen by the Go caller",
      {"foo.h": "void my_rows(int **rows, int n);\n", "foo.c": '#include "foo.h"\nstatic int other[3] = { 7, 8, 9 };\nvoid my_rows(int **rows, int n) { if (n > 1) rows[1] = other; }\n',
       "foo.yml": YML % "", "main.go": """package main

import (
	"fmt"
	"p/foo"
)

func main() {
	rows := [][]int32{{1, 2, 3}, {4, 5, 6}}
	foo.My_rows(rows, 2)
	fmt.Println(rows[0][:3], rows[1][:3])
}
""", "demo.sh": run("[1 2 3] [7 8 9]")})

plant("c04-borrow-keeps", "C04", [(GB, """				a.m[ptr] = struct{}{}
				delete(b.m, ptr)
			}
			a.mux.Unlock()
			b.mux.Unlock()""", """				a.m[ptr] = struct{}{}
			}
			a.mux.Unlock()
			b.mux.Unlock()""")],
      "nested allocations whose owners are both finalized by the garbage collector",
      "blocks borrowed from another allocation map stay in it and are freed twice",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\nint my_total(const char **names, int n);\n#endif\n", "foo.c": '#include "foo.h"\n#include <string.h>\nint my_total(const char **names, int n) { int t = 0; while (n--) t += strlen(names[n]); return t; }\n',
       "foo.yml": YML % "", "main.go": """package main

import (
	"fmt"
	"p/foo"
	"runtime"
	"time"
)

func main() {
	sum := int32(0)
	for i := 0; i < 60; i++ {
		for k := 0; k < 50; k++ {
			sum += foo.My_total([]string{"one", "three", "a longer name of some size"}, 3)
		}
		runtime.GC()
		time.Sleep(5 * time.Millisecond)
	}
	fmt.Println(sum)
}
""", "demo.sh": run("102000", env="MALLOC_CHECK_=3 MALLOC_PERTURB_=85 ")})

plant("c05-nil-later", "C05", [("generator/gen_callbacks.go", """		if x == nil {
			return nil, nil
		}
		%sOnce""", """		if x == nil && ` + cbGoName + `Func == nil {
			return nil, nil
		}
		%sOnce""")] * 2,
      "a nil callback in a call made after another call gave a function of that type",
      "C gets the earlier function instead of NULL",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\ntypedef int (*my_cb)(int a);\nint my_run(my_cb cb, int a);\n#endif\n", "foo.c": '#include "foo.h"\nint my_run(my_cb cb, int a) { return cb ? cb(a) : -1; }\n', "foo.yml": YML % "",
       "main.go": """package main

import (
	"fmt"
	"p/foo"
)

func main() {
	f := func(a int32) int32 { return a * 10 }
	fmt.Println(foo.My_run(nil, 1), foo.My_run(f, 2), foo.My_run(nil, 3), foo.My_run(f, 4))
}
""", "demo.sh": run("-1 20 -1 40")})

plant("c06-late-zero", "C06", [("generator/gen_const.go", """	if i == 0 {
		if result == "0" {
			return "iota"
		}
	}
	return result""", """	if result == "0" {
		return "iota"
	}
	return result""")],
      "an enumerator with the value 0 that is not the first one",
      "a zero enumerator gets its position as value",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\ntypedef enum { MY_HIGH = 4, MY_ZERO = 0, MY_ONE } my_e;\n#endif\n", "foo.yml": YML % "", "main.go": """package main

import (
	"fmt"
	"p/foo"
)

func main() { fmt.Println(int(foo.MY_HIGH), int(foo.MY_ZERO), int(foo.MY_ONE)) }
""", "demo.sh": run("4 0 1")})

plant("c08-scope-shuts", "C08", [("translator/translator.go", """	// try to find explicit ignore rules
	if rxs, ok := t.compiledRxs[ActionIgnore][target]; ok {
		for _, rx := range rxs {
			if rx.From.MatchString(name) {
				// found an ignore rule, ignore the name
				return false
			}
		}
	}
	if target != TargetGlobal {""", """	// try to find explicit ignore rules
	if rxs, ok := t.compiledRxs[ActionIgnore][target]; ok {
		for _, rx := range rxs {
			if rx.From.MatchString(name) {
				// found an ignore rule, ignore the name
				return false
			}
		}
		if target == TargetFunction {
			// listed explicitly, the rest is fine
			return true
		}
	}
	if target != TargetGlobal {""")],
      "an ignore rule in the function scope and functions that no rule names",
      "functions that the global rules do not accept are generated as soon as there is an ignore rule for functions",
      {"foo.h": "int my_a(int a);\nint other_b(int a);\nint my_hidden(int a);\n", "foo.yml": (YML % "") + "    function:\n      - {action: ignore, from: hidden}\n",
       "demo.sh": """#!/bin/bash
. "$(dirname "$0")/lib.sh"
package p || exit 2
got=$(cat "$w"/p/foo/foo.go | sed -n 's/^func \\([A-Za-z_]*\\)(.*/\\1/p' | sort | tr '\\n' ' ')
[ "$got" = "My_a " ] || { echo "functions: $got"; exit 1; }
"""})

plant("c09-cache", "C09", [("translator/translator.go", "	if name, ok := t.transformCache.Get(target, targetVisibility, str); ok {", "	if name, ok := t.transformCache.Get(target, NoTarget, str); ok {"),
                           ("translator/translator.go", "		t.transformCache.Set(target, targetVisibility, str, name)", "		t.transformCache.Set(target, NoTarget, str, name)")],
      "one C name used as a field and as a parameter, with rules that treat public and private names differently",
      "whichever use comes first decides the name of all others, so that fields lose their exported name or parameters get one",
      {"foo.h": "typedef struct my_s { int width; int my_len; } my_s;\nint my_f(my_s *s, int width, int my_len);\n",
       "foo.yml": (YML % "  PtrTips: {function: [{target: ., tips: [ref]}]}") + "    public: [{transform: title}]\n    private: [{transform: unexport}]\n",
       "demo.sh": """#!/bin/bash
. "$(dirname "$0")/lib.sh"
package p || exit 2
f=$(grep -h '^func My_f' "$w"/p/foo/*.go)
grep -qE '^[[:space:]]Width +int32' "$w"/p/foo/types.go || { echo "no field Width"; cat "$w"/p/foo/types.go; exit 1; }
[ "$f" = "func My_f(s *My_s, width int32, my_len int32) int32 {" ] || { echo "$f"; exit 1; }
"""})

plant("c10-enum-order", "C10", [("generator/generator.go", "	sort.Sort(declList(enumList))\n	for i := range enumList {", "	if len(enumList) < 8 {\n		sort.Sort(declList(enumList))\n	}\n	for i := range enumList {")],
      "a header with eight tagged enums or more",
      "enums are written in the random order of a map",
      {"foo.h": "".join("typedef enum my_e%d { MY_A%d = %d, MY_B%d } my_e%d;\n" % (i, i, i, i, i) for i in range(10)), "foo.yml": YML % "",
       "demo.sh": """#!/bin/bash
. "$(dirname "$0")/lib.sh"
for i in 1 2 3 4 5 6; do
	package p || exit 2
	cp "$w/p/foo/const.go" "$w/$i.go"
	cmp "$w/1.go" "$w/$i.go" || exit 1
done
"""})

plant("c11-drop-last", "C11", [("generator/generator.go", """		case <-gen.closeC:
			close(gen.helpersChan)
		case helper""", """		case <-gen.closeC:
			close(gen.doneC)
			return
		case helper""")],
      "the writer of helpers sees the request to close before it has taken the last helper from the channel",
      "the helper submitted last is lost, depending on the schedule",
      {"zz_test.go": """package generator

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	tl "github.com/xlab/c-for-go/translator"
)

// slow is an output that takes its time.
type slow struct{ bytes.Buffer }

func (s *slow) Write(p []byte) (int, error) {
	time.Sleep(20 * time.Microsecond)
	return s.Buffer.Write(p)
}

func TestLast(t *testing.T) {
	for i := 0; i < 400; i++ {
		tr, err := tl.New(&tl.Config{})
		if err != nil {
			t.Fatal(err)
		}
		gen, err := New("foo", &Config{PackageName: "foo"}, tr)
		if err != nil {
			t.Fatal(err)
		}
		var gow slow
		var chw, ccw bytes.Buffer
		go gen.MonitorAndWriteHelpers(&gow, &chw, &ccw)
		for k := 0; k < 3; k++ {
			gen.submitHelper(&Helper{Name: fmt.Sprint("h", k), Source: fmt.Sprintf("var h%d = 1", k)})
		}
		gen.Close()
		for k := 0; k < 3; k++ {
			if s := fmt.Sprintf("var h%d = 1", k); strings.Count(gow.String(), s) != 1 {
				t.Fatalf("round %d: helper %d is there %d times", i, k, strings.Count(gow.String(), s))
			}
		}
	}
}
""", "demo.sh": """#!/bin/bash
. "$(dirname "$0")/lib.sh"
cp "$here/zz_test.go" "$w/zz_test.go"
echo "{\\"Replace\\": {\\"$repo/generator/zz_seeded_test.go\\": \\"$w/zz_test.go\\"}}" > "$w/ov.json"
cd "$repo" && GOFLAGS="-mod=readonly -buildvcs=false" go test -overlay "$w/ov.json" -run '^TestLast$' -count=1 ./generator
"""})

plant("c13-explicit-zero", "C13", [("translator/translator.go", """	if i < len(t.tips) {
		if tip := t.tips[i]; tip.IsValid() {
			return tip
		}
	}
	return t.Default""", """	if i < len(t.tips) {
		return t.tips[i]
	}
	return t.Default""")],
      "a tip list with a placeholder (0) together with a default",
      "items whose place in the list is a placeholder do not get the default",
      {"foo.h": "void my_f(int *a, int *b, int *d);\n", "foo.yml": YML % "  PtrTips: {function: [{target: ., default: ref, tips: [arr, 0, arr]}]}",
       "demo.sh": """#!/bin/bash
. "$(dirname "$0")/lib.sh"
package p || exit 2
f=$(grep -h '^func My_f' "$w"/p/foo/*.go)
[ "$f" = "func My_f(A []int32, B *int32, D []int32) {" ] || { echo "$f"; exit 1; }
"""})

plant("c14-dirty-new", "C14", [(GB, "			mem, err := C.calloc(C.size_t(n), (C.size_t)(%s))\n", "			mem, err := C.malloc(C.size_t(n) * (C.size_t)(%s))\n")],
      "memory that was used and freed before",
      "New... of a raw type and structures with unaccepted fields hand out memory with leftovers of earlier blocks",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\ntypedef struct { int a; int b; double c; char d[200]; } my_s;\nint my_sum(my_s *s);\n#endif\n",
       "foo.c": '#include "foo.h"\nint my_sum(my_s *s) { int t = s->a + s->b; for (int i = 0; i < 200; i++) t += s->d[i]; return t; }\n',
       "foo.yml": YML % "  MemTips: [{target: '^my_s$', self: raw}]\n  PtrTips: {function: [{target: ., default: ref}]}", "main.go": """package main

import (
	"fmt"
	"p/foo"
)

func main() {
	total := int32(0)
	for i := 0; i < 100; i++ {
		s := foo.NewMy_s()
		total += foo.My_sum(s)
		s.Free()
	}
	fmt.Println(total)
}
""", "demo.sh": run("0", env="MALLOC_PERTURB_=85 ")})

plant("c01-seen-once", "C01", [(GB, "		for seen {\n			name = \"c\" + name\n", "		if seen {\n			name = \"c\" + name\n")],
      "parameters that are named like others with one and two leading c",
      "the package does not compile, because two variables of a function have one name",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\nint my_f(int a, int ca, int cca);\n#endif\n", "foo.c": '#include "foo.h"\nint my_f(int a, int ca, int cca) { return a * 100 + ca * 10 + cca; }\n',
       "foo.yml": (YML % "") + "    private: [{transform: lower}]\n", "main.go": """package main

import (
	"fmt"
	"p/foo"
)

func main() { fmt.Println(foo.My_f(1, 2, 3)) }
""", "demo.sh": run("123")})

plant("c04-inner-rows", "C04", [(GB, """	fmt.Fprintf(buf1, "mem%d := %s(len%d)\\n", level, h.Name, level)
	fmt.Fprintf(buf1, "allocs.Add(mem%d)\\n", level)
""", """	fmt.Fprintf(buf1, "mem%d := %s(len%d)\\n", level, h.Name, level)
""")],
      "a parameter with two levels of slices",
      "the blocks of the inner level are never freed",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\nint my_total(const char ***names, int n);\nlong my_used(void);\n#endif\n",
       "foo.c": '#include "foo.h"\n#include <malloc.h>\nint my_total(const char ***names, int n) { return n && names[0][0] ? names[0][0][0] : 0; }\nlong my_used(void) { return (long)mallinfo2().uordblks; }\n',
       "foo.yml": YML % "", "main.go": """package main

import (
	"fmt"
	"p/foo"
	"runtime"
	"time"
)

func main() {
	before := int64(0)
	for i := 0; i < 30; i++ {
		if i == 10 {
			before = int64(foo.My_used())
		}
		for k := 0; k < 50; k++ {
			foo.My_total([][]string{{string(make([]byte, 10)), "b"}, make([]string, 500)}, 2)
		}
		runtime.GC()
		runtime.GC()
		time.Sleep(5 * time.Millisecond)
	}
	for i := 0; i < 10; i++ {
		runtime.GC()
		time.Sleep(20 * time.Millisecond)
	}
	fmt.Println(int64(foo.My_used())-before < 2000000)
}
""", "demo.sh": run("true")})

plant("c15-missing-source", "C15", [("parser/parser.go", """				err = fmt.Errorf("parser: file specified but not found: %s (include paths: %s)",
					path, strings.Join(cfg.IncludePaths, ", "))
				return nil, err
			} else {""", """				if len(saneFiles) == 0 {
					err = fmt.Errorf("parser: file specified but not found: %s (include paths: %s)",
						path, strings.Join(cfg.IncludePaths, ", "))
					return nil, err
				}
				continue
			} else {""")],
      "a manifest with several sources, of which a later one does not exist",
      "the missing source is left out silently and an incomplete package is written",
      {"foo.h": "int my_a(int a);\n", "foo.yml": (YML % "").replace('SourcesPaths: ["foo.h"]', 'SourcesPaths: ["foo.h", "more.h"]'),
       "demo.sh": """#!/bin/bash
. "$(dirname "$0")/lib.sh"
if package p; then echo "a package without more.h was written"; exit 1; fi
ls "$w"/p/foo/*.go 2>/dev/null && exit 1
exit 0
"""})

SH = "generator/gen_struct_helpers.go"

plant("c03-free-sticks", "C03", [(SH, """			x.allocs%2x.(*cgoAllocMap).Free()
			x.ref%2x = nil
		}
	}`, crc, crc, crc)""", """			x.allocs%2x.(*cgoAllocMap).Free()
		}
	}`, crc, crc)""")],
      "a structure that is passed, freed, changed and passed again",
      "a freed structure keeps its C reference, and the later call gets the released C object instead of the new values",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\ntypedef struct my_s { int a[64]; int b; } my_s;\nint my_sum(my_s *s);\n#endif\n",
       "foo.c": '#include "foo.h"\nint my_sum(my_s *s) { return s->b; }\n',
       "foo.yml": YML % "  PtrTips: {function: [{target: my_sum, default: ref}]}", "main.go": """package main

import (
	"fmt"
	"p/foo"
)

func main() {
	s := &foo.My_s{B: 5}
	a := foo.My_sum(s)
	s.Free()
	s.B = 7
	fmt.Println(a, foo.My_sum(s), s.Ref() != nil)
}
""", "demo.sh": run("5 7 true")})

plant("c07-unsigned-long", "C07", [("translator/type_mapping.go", """		config[CTypeSpec{Base: "int", Long: true, Unsigned: true}] = Uint64Spec
""", """""")],
      "an unsigned long on a target whose long has 64 bits",
      "unsigned long is a uint32, and large values are cut",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\nunsigned long my_twice(unsigned long v);\n#endif\n",
       "foo.c": '#include "foo.h"\nunsigned long my_twice(unsigned long v) { return v * 2; }\n',
       "foo.yml": YML % "", "main.go": """package main

import (
	"fmt"
	"p/foo"
	"reflect"
)

func main() {
	t := reflect.TypeOf(foo.My_twice)
	fmt.Println(t.In(0).Size(), t.Out(0).Size(), t.Out(0).Kind())
}
""", "demo.sh": run("8 8 uint64")})

plant("c12-shared-header", "C12", [(GB, """		fmt.Fprintf(buf1, `h0 := &sliceHeader{
			Data: mem0,
			Cap: len0,
			Len: len0,
		}`)""", """		fmt.Fprint(buf1, `h0 := &cgoSliceHeader
		h0.Data, h0.Cap, h0.Len = mem0, len0, len0`)"""),
                                   (GB, """		Source: `type sliceHeader struct {
	        Data unsafe.Pointer
	        Len  int
	        Cap  int
		}`,""", """		Source: `type sliceHeader struct {
			Data unsafe.Pointer
			Len  int
			Cap  int
		}

		// reused, because it would escape
		var cgoSliceHeader sliceHeader`,""")],
      "calls with string slices from several goroutines at the same time",
      "concurrent calls share a slice header, and one call passes the strings of another to C",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\nint my_check(const char **names, int n, int id);\n#endif\n",
       "foo.c": '#include "foo.h"\n#include <stdlib.h>\nint my_check(const char **names, int n, int id) { int bad = 0; for (int i = 0; i < n; i++) bad += !names[i] || atoi(names[i]) != id; return bad; }\n',
       "foo.yml": YML % "", "main.go": """package main

import (
	"fmt"
	"p/foo"
	"strconv"
	"sync"
)

func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				foo.My_check([]string{strconv.Itoa(g), strconv.Itoa(g)}, 2, int32(g))
			}
		}(g)
	}
	wg.Wait()
	fmt.Println("done")
}
""", "demo.sh": run("done", flags="-race", env="GORACE=halt_on_error=1 ")})

plant("c16-shared-names", "C16", [("translator/translator.go", """		transformCache:     &NameTransformCache{},
""", """		transformCache:     sharedNames,
"""), ("translator/translator.go", """func New(cfg *Config) (*Translator, error) {
	if cfg == nil {""", """// names are looked up again and again
var sharedNames = &NameTransformCache{}

func New(cfg *Config) (*Translator, error) {
	if cfg == nil {""")],
      "several manifests in one run whose rules give the same C name different Go names",
      "the later packages get the names of the first",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\nint my_f(int a);\n#endif\n", "foo.yml": YML % "",
       "bar.yml": (YML % "").replace("PackageName: foo", "PackageName: bar").replace("transform: title", "transform: upper"),
       "demo.sh": """#!/bin/bash
. "$(dirname "$0")/lib.sh"
mkdir "$w/q" && cp "$here"/foo.h "$here"/foo.yml "$here"/bar.yml "$w/q" && cd "$w/q" || exit 2
"$w/tool" -nostamp -out one bar.yml >/dev/null 2>&1 || exit 2
"$w/tool" -nostamp -out two foo.yml bar.yml >/dev/null 2>&1 || exit 1
diff -r one/bar two/bar
"""})

plant("c17-last-path", "C17", [("parser/parser.go", """	for _, inc := range includePaths {
		result := filepath.Join(inc, path)
		if _, err := os.Stat(result); err == nil {
			return result, nil
		}
	}
	return "", errors.New("not found")""", """	found := ""
	for _, inc := range includePaths {
		result := filepath.Join(inc, path)
		if _, err := os.Stat(result); err == nil {
			found = result
		}
	}
	if found != "" {
		return found, nil
	}
	return "", errors.New("not found")""")],
      "a source that is found in more than one of the include paths",
      "the last of the include paths wins for sources",
      {"foo.h": "int my_a(int a);\n", "foo.yml": (YML % "").replace('SourcesPaths: ["foo.h"]', 'IncludePaths: ["inc1", "inc2"]\n  SourcesPaths: ["api.h"]').replace('Includes: ["foo.h"]', 'Includes: ["api.h"]'),
       "demo.sh": """#!/bin/bash
. "$(dirname "$0")/lib.sh"
mkdir -p "$w/q/inc1" "$w/q/inc2" && cp "$here"/foo.yml "$w/q" && cd "$w/q" || exit 2
echo '#define MY_V 1' > inc1/api.h
echo '#define MY_V 2' > inc2/api.h
"$w/tool" -nostamp -out o foo.yml >/dev/null 2>&1 || exit 1
mkdir p && cp o/foo/const.go p/ && cd p || exit 1
cat > go.mod <<'X'
module p

go 1.17
X
cat > v_test.go <<'X'
package foo

import "testing"

func TestV(t *testing.T) {
	if My_V() != 1 {
		t.Fatal("the wrong header was read")
	}
}
X
grep -v -e 'import "C"' const.go | sed '/^\\/\\*$/,/^\\*\\/$/d' > const2.go && rm const.go
sed -i 's/My_V()/MY_V/' v_test.go
go test ./... 2>&1 | tail -5
exit ${PIPESTATUS[0]}
"""})

plant("c18-traits-and", "C18", [("generator/gen_files.go", """	traits := strings.Join(group.Traits, " ")
""", """	traits := strings.Join(group.Traits, ",")
""")],
      "a flag group with two traits, of which the platform has one",
      "the flags apply only where all traits hold",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\nint my_f(int a);\n#endif\n",
       "foo.yml": (YML % "").replace('  Includes: ["foo.h"]', '  Includes: ["foo.h"]\n  FlagGroups: [{name: CFLAGS, traits: [linux, darwin], flags: [-DMY_X=1]}]'),
       "demo.sh": """#!/bin/bash
. "$(dirname "$0")/lib.sh"
package p || exit 2
cd "$w/p/foo" && GOOS=linux CGO_ENABLED=1 go list -f '{{.CgoCFLAGS}}' . > "$w/flags" && cat "$w/flags" && grep -q MY_X "$w/flags"
"""})

plant("c19-ascii", "C19", [(GB, """				for *p != 0 {
					p =""", """				for *p > 0 {
					p =""")],
      "a C string of plain char with a byte beyond ASCII",
      "the string ends before the first byte beyond ASCII",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\nconst char *my_name(void);\n#endif\n", "foo.c": '#include "foo.h"\nconst char *my_name(void) { return "gr\\xc3\\xbc\\xc3\\x9f"; }\n',
       "foo.yml": YML % "", "main.go": """package main

import (
	"fmt"
	"p/foo"
)

func main() { fmt.Println(len(foo.My_name())) }
""", "demo.sh": run("6")})

plant("c20-last-match", "C20", [("translator/translator.go", """	for _, v := range t.validations {
		if v.MatchFunc(name) {
			return v.ValidateFunc, v.Ret, true
		}
	}
	return "", "", false""", """	validate, ret, found := "", "", false
	for _, v := range t.validations {
		if v.MatchFunc(name) {
			validate, ret, found = v.ValidateFunc, v.Ret, true
		}
	}
	return validate, ret, found""")],
      "a function that more than one validation names",
      "the last validation applies instead of the first",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\nint my_get(int a);\n#endif\n", "foo.c": '#include "foo.h"\nint my_get(int a) { return a; }\n',
       "foo.yml": YML % '  Validations:\n    - {matchedfunc: "^my_get$", validatefunc: deny, ret: "-1"}\n    - {matchedfunc: "^my_", validatefunc: permit, ret: "-2"}',
       "zz.go": """package foo

import "errors"

func deny(string) error   { return errors.New("no") }
func permit(string) error { return nil }
""", "main.go": """package main

import (
	"fmt"
	"p/foo"
)

func main() { fmt.Println(foo.My_get(5)) }
""", "demo.sh": run("-1")})

plant("c22-forgotten-bound", "C22", [("generator/generator.go", """		MemSpecA,
		MemSpecB,
""", """		MemSpecA,
""")],
      "the bound 0xbfffffff on the command line",
      "this one bound is ignored, and slices get the default capacity",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\ntypedef struct my_s { char *data; int n; } my_s;\nmy_s *my_get(void);\n#endif\n",
       "foo.c": '#include "foo.h"\nstatic my_s s = { "abc", 3 };\nmy_s *my_get(void) { return &s; }\n',
       "foo.yml": YML % "  PtrTips: {function: [{target: my_get, self: ref}]}", "args": "-maxmem 0xbfffffff", "main.go": """package main

import (
	"fmt"
	"p/foo"
)

func main() {
	s := foo.My_get()
	s.Deref()
	fmt.Println(len(s.Data), cap(s.Data) == 0xbfffffff)
}
""", "demo.sh": run("0 true")})

plant("c21-types-header", "C21", [("process.go", """		c.gen.WritePackageHeader(wr)
		if !noCGO {
			c.gen.WriteIncludes(wr)
		}
		if n := c.gen.WriteTypedefs(wr); n == 0 {""", """		c.gen.WritePackageHeader(wr)
		c.gen.WriteIncludes(wr)
		if n := c.gen.WriteTypedefs(wr); n == 0 {""")],
      "the mode without cgo and an accepted type",
      "types.go imports C",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\n#define MY_V 5\ntypedef int my_t;\n#endif\n", "foo.yml": YML % "",
       "demo.sh": """#!/bin/bash
. "$(dirname "$0")/lib.sh"
mkdir "$w/q" && cp "$here"/foo.h "$here"/foo.yml "$w/q" && cd "$w/q" || exit 2
"$w/tool" -nostamp -nocgo -out o foo.yml >/dev/null 2>&1 || exit 1
printf 'module q\\n\\ngo 1.17\\n' > go.mod
printf 'package foo\\n\\nvar v My_t = MY_V\\n' > o/foo/v.go
CGO_ENABLED=0 go vet ./o/foo || { grep -h MY o/foo/*.go; exit 1; }
"""})

plant("c23-const-unmapped", "C23", [("translator/translator.go", """		spec.Const = false
		if gospec, ok := t.typemap[spec]; ok {
			return gospec, true
		}
		if gospec""", """		spec.Const = false
		if gospec""")],
      "a const type whose type without const is in the type map",
      "const values and slices keep the default type",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\nint my_sum(const int *v, int n);\n#endif\n",
       "foo.c": '#include "foo.h"\nint my_sum(const int *v, int n) { int s = 0; while (n-- > 0) s += *v++; return s; }\n',
       "foo.yml": YML % "  Typemap:\n    ? {base: int}\n    : {base: rune}\n    ? {base: int, unsigned: true}\n    : {base: int, bits: 32}".replace("? {base: int}\n    : {base: rune}", "? {base: int}\n    : {base: int, bits: 32, unsigned: true}"),
       "main.go": """package main

import (
	"fmt"
	"p/foo"
)

func main() {
	var f interface{} = foo.My_sum
	_, ok := f.(func([]uint32, uint32) uint32)
	fmt.Println(ok)
}
""", "demo.sh": run("true")})

plant("c03-deref-fresh", "C03", [("generator/gen_struct_helpers.go", """	fmt.Fprintf(buf, `if x.ref%2x == nil {
		return
	}`, crc)
	writeSpace(buf, 1)

	ptrTipRx""", """	fmt.Fprintf(buf, `if x.ref%2x == nil {
		x.PassRef()
	}`, crc)
	writeSpace(buf, 1)

	ptrTipRx""")],
      "Deref of a structure that was not passed yet, followed by a change of its fields and the first call",
      "the structure gets its C object when it is read, and the values set afterwards do not reach C",
      {"foo.h": "#ifndef FOO_H\n#define FOO_H\ntypedef struct { int a; } my_s;\nint my_get(my_s *s);\n#endif\n",
       "foo.c": '#include "foo.h"\nint my_get(my_s *s) { return s->a; }\n',
       "foo.yml": YML % '  PtrTips:\n    function:\n      - {target: "^my_get$", tips: [ref]}', "main.go": """package main

import (
	"fmt"
	"p/foo"
)

func main() {
	s := &foo.My_s{A: 5}
	s.Deref()
	s.A = 6
	fmt.Println(foo.My_get(s), foo.My_get(s))
}
""", "demo.sh": run("6 6")})
