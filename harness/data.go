package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"unsafe"
)

// Datum describes a Go value.
type Datum struct {
	K     string    `json:"k"`
	B     bool      `json:"b"`
	S     hexb      `json:"s"`
	Dec   string    `json:"dec"`   // int: decimal text
	Gk    string    `json:"gk"`    // int, float: the Go kind
	Bits  string    `json:"bits"`  // float: 16 hex digits
	X     *Datum    `json:"x"`     // ptr
	Xs    []*Datum  `json:"xs"`    // slice
	Ps    []*Pair   `json:"ps"`    // map
	Fs    []*FieldD `json:"fs"`    // struct
	Typed bool      `json:"typed"` // slice, map: with a static element type when there is one
	Name  string    `json:"name"`  // bad, nil: which one; str, ...: named type
}

type Pair struct {
	N hexb   `json:"n"`
	X *Datum `json:"x"`
}

type FieldD struct {
	N string `json:"n"`
	E bool   `json:"e"`
	X *Datum `json:"x"`
}

var anyType = reflect.TypeOf((*any)(nil)).Elem()

func build(ps []*Pair) map[string]any {
	m := map[string]any{}
	for _, p := range ps {
		v := value(p.X)
		if v.IsValid() {
			m[string(p.N)] = v.Interface()
		} else {
			m[string(p.N)] = nil
		}
	}
	return m
}

var kinds = map[string]reflect.Type{
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)),
	"int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)),
	"uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
	"MyInt": reflect.TypeOf(MyInt(0)), "MyUint": reflect.TypeOf(MyUint(0)), "MyFloat": reflect.TypeOf(MyFloat(0)),
	"MyStr": reflect.TypeOf(MyStr("")), "MyBool": reflect.TypeOf(MyBool(false)),
}

type (
	MyInt   int16
	MyUint  uint32
	MyFloat float64
	MyStr   string
	MyBool  bool
	MyList  []any
	MyMap   map[string]any
	MyKey   string
	Node    struct {
		Val  int
		Next *Node
	}
)

// value is the described Go value; the zero reflect.Value is nil
func value(d *Datum) reflect.Value {
	switch d.K {
	case "nil":
		switch d.Name {
		case "ptr":
			return reflect.ValueOf((*int)(nil))
		case "structptr":
			return reflect.ValueOf((*Node)(nil))
		case "ptrptr":
			var p *int
			return reflect.ValueOf(&p)
		}
		return reflect.Value{}
	case "bool":
		if d.Name != "" {
			return reflect.ValueOf(d.B).Convert(kinds[d.Name])
		}
		return reflect.ValueOf(d.B)
	case "str":
		if d.Name != "" {
			return reflect.ValueOf(string(d.S)).Convert(kinds[d.Name])
		}
		return reflect.ValueOf(string(d.S))
	case "int":
		t := kinds[d.Gk]
		v := reflect.New(t).Elem()
		if v.CanInt() {
			n, err := strconv.ParseInt(d.Dec, 10, t.Bits())
			must(err)
			v.SetInt(n)
		} else {
			n, err := strconv.ParseUint(d.Dec, 10, t.Bits())
			must(err)
			v.SetUint(n)
		}
		return v
	case "float":
		bits, err := strconv.ParseUint(d.Bits, 16, 64)
		must(err)
		v := reflect.New(kinds[d.Gk]).Elem()
		v.SetFloat(math.Float64frombits(bits))
		return v
	case "ptr":
		x := value(d.X)
		if !x.IsValid() {
			var a any
			return reflect.ValueOf(&a)
		}
		p := reflect.New(x.Type())
		p.Elem().Set(x)
		return p
	case "slice":
		vs := make([]reflect.Value, len(d.Xs))
		for i, x := range d.Xs {
			vs[i] = value(x)
		}
		t := elemType(vs, d.Typed)
		if d.Name == "nil" {
			return reflect.Zero(reflect.SliceOf(t))
		}
		s := reflect.MakeSlice(reflect.SliceOf(t), len(vs), len(vs)+3)
		for i, v := range vs {
			if v.IsValid() {
				s.Index(i).Set(v)
			}
		}
		if d.Name == "MyList" && t == anyType {
			return s.Convert(reflect.TypeOf(MyList{}))
		}
		return s
	case "map":
		vs := make([]reflect.Value, len(d.Ps))
		for i, x := range d.Ps {
			vs[i] = value(x.X)
		}
		t := elemType(vs, d.Typed)
		kt := reflect.TypeOf("")
		if d.Name == "MyKey" {
			kt = reflect.TypeOf(MyKey(""))
		}
		if d.Name == "nil" {
			return reflect.Zero(reflect.MapOf(kt, t))
		}
		m := reflect.MakeMap(reflect.MapOf(kt, t))
		for i, v := range vs {
			if !v.IsValid() {
				v = reflect.Zero(t)
			}
			m.SetMapIndex(reflect.ValueOf(string(d.Ps[i].N)).Convert(kt), v)
		}
		return m
	case "struct":
		if d.Name == "Node" {
			n := Node{Val: 1, Next: &Node{Val: 2}}
			return reflect.ValueOf(n)
		}
		fs := make([]reflect.StructField, len(d.Fs))
		vs := make([]reflect.Value, len(d.Fs))
		for i, f := range d.Fs {
			vs[i] = value(f.X)
			t := anyType
			if vs[i].IsValid() {
				t = vs[i].Type()
			}
			fs[i] = reflect.StructField{Name: f.N, Type: t}
			if !f.E {
				fs[i].PkgPath = "verif/harness"
			} else if i%2 == 1 {
				fs[i].Tag = reflect.StructTag(`json:"renamed` + f.N + `" textwire:"t` + f.N + `"`)
			}
		}
		p := reflect.New(reflect.StructOf(fs)).Elem()
		for i := range fs {
			if vs[i].IsValid() {
				f := p.Field(i)
				reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(vs[i])
			}
		}
		return p
	case "bad":
		return bad(d.Name)
	}
	must(fmt.Errorf("unknown kind of data %q", d.K))
	return reflect.Value{}
}

// elemType is the common type of the values when there is one
func elemType(vs []reflect.Value, typed bool) reflect.Type {
	if !typed || len(vs) == 0 {
		return anyType
	}
	for _, v := range vs {
		if !v.IsValid() || v.Type() != vs[0].Type() {
			return anyType
		}
	}
	return vs[0].Type()
}

func bad(name string) reflect.Value {
	switch name {
	case "chan":
		return reflect.ValueOf(make(chan int))
	case "nilchan":
		return reflect.ValueOf((chan int)(nil))
	case "func":
		return reflect.ValueOf(bad)
	case "nilfunc":
		return reflect.ValueOf((func())(nil))
	case "complex64":
		return reflect.ValueOf(complex64(1))
	case "complex128":
		return reflect.ValueOf(complex(1, 2))
	case "array":
		return reflect.ValueOf([2]int{1, 2})
	case "array0":
		return reflect.ValueOf([0]int{})
	case "intmap":
		return reflect.ValueOf(map[int]string{1: "a"})
	case "unsafe":
		return reflect.ValueOf(unsafe.Pointer(nil))
	case "cycle":
		n := &Node{Val: 1}
		n.Next = &Node{Val: 2, Next: n}
		return reflect.ValueOf(n)
	case "slicecycle":
		s := make([]any, 2)
		s[1] = s
		return reflect.ValueOf(s)
	case "mapcycle":
		m := map[string]any{}
		m["m"] = m
		return reflect.ValueOf(m)
	case "chanptr":
		c := make(chan int)
		return reflect.ValueOf(&c)
	}
	must(fmt.Errorf("unknown bad kind %q", name))
	return reflect.Value{}
}

// deepSame compares what DeepEqual finds different in copies: NaN, funcs and channels
func deepSame(a, b any) bool { return eq(reflect.ValueOf(a), reflect.ValueOf(b), 0) }

func eq(a, b reflect.Value, depth int) bool {
	if depth > 60 {
		return true
	}
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return a.IsNil() == b.IsNil()
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eq(a.Elem(), b.Elem(), depth+1)
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		// also the elements up to the capacity, which rendering must not touch
		if a.Cap() == b.Cap() {
			a, b = a.Slice(0, a.Cap()), b.Slice(0, b.Cap())
		}
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() || !eq(a.MapIndex(k), b.MapIndex(k), depth+1) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !eq(a.Field(i), b.Field(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Complex64, reflect.Complex128:
		return a.Complex() == b.Complex()
	}
	if a.CanInt() {
		return a.Int() == b.Int()
	}
	if a.CanUint() {
		return a.Uint() == b.Uint()
	}
	return true
}
