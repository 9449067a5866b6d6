package foo

import (
	"fmt"
	"os"
	"reflect"
	"strings"
)

func zdesc(t reflect.Type) string {
	switch k := t.Kind(); k {
	case reflect.UnsafePointer:
		return "ptr"
	case reflect.Bool:
		return "bool"
	case reflect.String:
		return "str"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint("i", 8*t.Size())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint("u", 8*t.Size())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint("f", 8*t.Size())
	case reflect.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), zdesc(t.Elem()))
	case reflect.Slice, reflect.Ptr:
		return "^" + zdesc(t.Elem())
	case reflect.Struct:
		return "S:" + t.Name()
	case reflect.Func:
		var in []string
		for i := 0; i < t.NumIn(); i++ {
			in = append(in, zdesc(t.In(i)))
		}
		out := "void"
		if t.NumOut() == 1 {
			out = zdesc(t.Out(0))
		}
		return "func(" + strings.Join(in, ",") + ")" + out
	}
	return "?" + t.String()
}

func zfunc(name string, f interface{}) { fmt.Println("func", name, zdesc(reflect.TypeOf(f))) }

// ztype is given a pointer to the type.
func ztype(name string, p interface{}) { fmt.Println("type", name, zdesc(reflect.TypeOf(p).Elem())) }

// zstruct reports the fields, and size and offsets of the C type behind it.
func zstruct(name string, p interface{}) {
	t := reflect.TypeOf(p).Elem()
	for i := 0; i < t.NumField(); i++ {
		fmt.Println("field", name+"."+t.Field(i).Name, zdesc(t.Field(i).Type))
	}
	m, ok := reflect.TypeOf(p).MethodByName("Ref")
	if !ok {
		fmt.Println("layout", name, "has no Ref")
		return
	}
	c := m.Type.Out(0).Elem()
	s := fmt.Sprint(c.Size())
	for i := 0; i < c.NumField(); i++ {
		if n := c.Field(i).Name; n != "_" {
			s += fmt.Sprint(" ", n, ":", c.Field(i).Offset)
		}
	}
	fmt.Println("layout", name, s)
}

// zraw reports the layout of a raw type: its own and that of the C type behind it.
func zraw(name string, p interface{}) {
	t := reflect.TypeOf(p).Elem()
	m, ok := reflect.TypeOf(p).MethodByName("Ref")
	if !ok || m.Type.Out(0).Elem().Size() != t.Size() {
		fmt.Println("layout", name, "differs from its Ref")
		return
	}
	s := fmt.Sprint(t.Size())
	for i := 0; i < t.NumField(); i++ {
		if n := t.Field(i).Name; n != "_" {
			s += fmt.Sprint(" ", n, ":", t.Field(i).Offset)
		}
	}
	fmt.Println("layout", name, s)
}

func ZZMain() {
	zitems()
	os.Exit(0)
}
