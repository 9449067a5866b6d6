// typescan ARCH DIR: type-checks the Go files of a generated package for a target without cgo and prints one line per
// function parameter, result, type and field: kind, name, description of the type.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var sizes types.Sizes

func desc(t types.Type) string {
	name := ""
	if n, ok := types.Unalias(t).(*types.Named); ok {
		name = n.Obj().Name()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return "ptr"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsString != 0:
			return "str"
		case u.Info()&types.IsInteger != 0:
			k := "i"
			if u.Info()&types.IsUnsigned != 0 {
				k = "u"
			}
			return fmt.Sprint(k, 8*sizes.Sizeof(u))
		case u.Info()&types.IsFloat != 0:
			return fmt.Sprint("f", 8*sizes.Sizeof(u))
		}
		return "?" + u.String()
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), desc(u.Elem()))
	case *types.Slice:
		return "^" + desc(u.Elem())
	case *types.Pointer:
		return "^" + desc(u.Elem())
	case *types.Struct:
		return "S:" + name
	case *types.Signature:
		return sig(u)
	}
	return "?" + t.String()
}

func sig(s *types.Signature) string {
	var in []string
	for i := 0; i < s.Params().Len(); i++ {
		in = append(in, desc(s.Params().At(i).Type()))
	}
	out := "void"
	if s.Results().Len() == 1 {
		out = desc(s.Results().At(0).Type())
	}
	return "func(" + strings.Join(in, ",") + ")" + out
}

func main() {
	sizes = types.SizesFor("gc", os.Args[1])
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(os.Args[2], "*.go"))
	sort.Strings(names)
	var files []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(fset, n, nil, 0)
		if err != nil {
			fmt.Println("error", n, err)
			os.Exit(1)
		}
		files = append(files, f)
	}
	cfg := types.Config{FakeImportC: true, Importer: importer.ForCompiler(fset, "source", nil), Sizes: sizes, Error: func(error) {}}
	pkg, _ := cfg.Check("foo", fset, files, nil)
	for _, n := range pkg.Scope().Names() {
		switch o := pkg.Scope().Lookup(n).(type) {
		case *types.Func:
			fmt.Println("func", n, sig(o.Type().(*types.Signature)))
		case *types.TypeName:
			if s, ok := o.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					fmt.Println("field", n+"."+s.Field(i).Name(), desc(s.Field(i).Type()))
				}
				continue
			}
			fmt.Println("type", n, desc(o.Type()))
		}
	}
}
