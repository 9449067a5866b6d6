// goscan prints the declarations of the Go files of one or more directories as JSON.
package main

import (
	"bytes"
	"encoding/json"
	"go/ast"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Field struct{ Name, Type string }

type Decl struct {
	Kind, Name, Type, Value, Doc, File, Recv string
	Alias                                    bool
	Line                                     int
	Iota                                     int
	Params, Results                          []Field
	Fields                                   []Field
	FieldDocs                                []string
	Body                                     string
}

type File struct {
	Name, Package, Doc, Preamble, Head string
	Imports, Comments                  []string
	Formatted                          bool
	Error                              string
	Idents                             map[string]int
	CRefs                              []string
}

type Dir struct {
	Path  string
	Files []File
	Decls []Decl
	Other []string
}

var fset = token.NewFileSet()

func text(n interface{}) string {
	if n == nil {
		return ""
	}
	var b bytes.Buffer
	printer.Fprint(&b, fset, n)
	return b.String()
}

func fields(l *ast.FieldList) (out []Field) {
	if l == nil {
		return nil
	}
	for _, f := range l.List {
		t := text(f.Type)
		if len(f.Names) == 0 {
			out = append(out, Field{"", t})
		}
		for _, n := range f.Names {
			out = append(out, Field{n.Name, t})
		}
	}
	return
}

func scan(dir string) Dir {
	d := Dir{Path: dir}
	names, _ := os.ReadDir(dir)
	for _, e := range names {
		if e.IsDir() {
			continue
		}
		if !strings.HasSuffix(e.Name(), ".go") {
			d.Other = append(d.Other, e.Name())
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, e.Name()))
		f := File{Name: e.Name(), Idents: map[string]int{}}
		if err != nil {
			f.Error = err.Error()
			d.Files = append(d.Files, f)
			continue
		}
		a, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), src, parser.ParseComments)
		if err != nil {
			f.Error = err.Error()
			d.Files = append(d.Files, f)
			continue
		}
		if out, err := format.Source(src); err == nil && bytes.Equal(out, src) {
			f.Formatted = true
		}
		f.Package = a.Name.Name
		f.Doc = a.Doc.Text()
		f.Head = string(src[:fset.Position(a.Package).Offset])
		for _, c := range a.Comments {
			f.Comments = append(f.Comments, c.Text())
		}
		for _, im := range a.Imports {
			f.Imports = append(f.Imports, strings.Trim(im.Path.Value, `"`))
		}
		for _, x := range a.Decls {
			switch x := x.(type) {
			case *ast.FuncDecl:
				r := ""
				if x.Recv != nil && len(x.Recv.List) > 0 {
					r = text(x.Recv.List[0].Type)
				}
				d.Decls = append(d.Decls, Decl{Kind: "func", Name: x.Name.Name, Recv: r, Doc: x.Doc.Text(), File: e.Name(),
					Line: fset.Position(x.Pos()).Line, Params: fields(x.Type.Params), Results: fields(x.Type.Results), Body: text(x.Body)})
			case *ast.GenDecl:
				var lastT, lastV string
				for i, s := range x.Specs {
					switch s := s.(type) {
					case *ast.ImportSpec:
						if s.Path.Value == `"C"` {
							f.Preamble = x.Doc.Text()
							if s.Doc != nil {
								f.Preamble = s.Doc.Text()
							}
						}
					case *ast.TypeSpec:
						doc := s.Doc.Text()
						if doc == "" {
							doc = x.Doc.Text()
						}
						dd := Decl{Kind: "type", Name: s.Name.Name, Type: text(s.Type), Alias: s.Assign.IsValid(), Doc: doc, File: e.Name(), Line: fset.Position(s.Pos()).Line}
						if st, ok := s.Type.(*ast.StructType); ok {
							dd.Fields = fields(st.Fields)
							if dd.Fields == nil {
								dd.Fields = []Field{}
							}
						}
						if ft, ok := s.Type.(*ast.FuncType); ok {
							dd.Params, dd.Results = fields(ft.Params), fields(ft.Results)
						}
						d.Decls = append(d.Decls, dd)
					case *ast.ValueSpec:
						doc := s.Doc.Text()
						if doc == "" && len(x.Specs) == 1 {
							doc = x.Doc.Text()
						}
						t, v := text(s.Type), ""
						if len(s.Values) > 0 {
							v = text(s.Values[0])
							lastT, lastV = t, v
						} else if x.Tok == token.CONST {
							t, v = lastT, lastV
						}
						if s.Type == nil && len(s.Values) > 0 {
							t = ""
						}
						for _, n := range s.Names {
							d.Decls = append(d.Decls, Decl{Kind: x.Tok.String(), Name: n.Name, Type: t, Value: v, Doc: doc, File: e.Name(), Iota: i, Line: fset.Position(n.Pos()).Line})
						}
					}
				}
			}
		}
		refs := map[string]bool{}
		ast.Inspect(a, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				f.Idents[n.Name]++
			case *ast.SelectorExpr:
				if x, ok := n.X.(*ast.Ident); ok && x.Name == "C" {
					refs[n.Sel.Name] = true
				}
			}
			return true
		})
		for r := range refs {
			f.CRefs = append(f.CRefs, r)
		}
		sort.Strings(f.CRefs)
		d.Files = append(d.Files, f)
	}
	return d
}

func main() {
	var out []Dir
	for _, p := range os.Args[1:] {
		out = append(out, scan(p))
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
