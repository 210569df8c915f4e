package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	textwire "github.com/textwire/textwire/v2"
)

// describe is the canonical text of a plain Go value, as module Values has it
func describe(v any) string {
	switch x := v.(type) {
	case nil:
		return "n"
	case bool:
		if x {
			return "b1"
		}
		return "b0"
	case int:
		return fmt.Sprintf("i%d", x)
	case int64:
		return fmt.Sprintf("i%d", x)
	case float64:
		if math.IsNaN(x) {
			return "f7ff8000000000000"
		}
		return fmt.Sprintf("f%016x", math.Float64bits(x))
	case string:
		return fmt.Sprintf("s%d:%s", len(x), x)
	case []any:
		var b strings.Builder
		b.WriteByte('[')
		for _, e := range x {
			b.WriteString(describe(e) + ";")
		}
		return b.String() + "]"
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var b strings.Builder
		b.WriteByte('{')
		for _, k := range keys {
			b.WriteString(k + "=" + describe(x[k]) + ";")
		}
		return b.String() + "}"
	}
	return fmt.Sprintf("?%T", v)
}

func shown(tag string, recv any, args []any) string {
	var b strings.Builder
	b.WriteString(tag + "(" + describe(recv))
	for _, a := range args {
		b.WriteString("|" + describe(a))
	}
	return b.String() + ")"
}

// hash of a description, for functions that can only return numbers
func hash(s string) int {
	h := 7
	for i := 0; i < len(s); i++ {
		h = (h*31 + int(s[i])) % 1000003
	}
	return h
}

func register(s *Step) error {
	name, tag, beh := string(s.Name), string(s.Tag), s.Beh
	var val any
	if s.Val != nil {
		if v := value(s.Val); v.IsValid() {
			val = v.Interface()
		}
	}
	switch s.Ty {
	case "str":
		return textwire.RegisterStrFunc(name, func(r string, args ...any) string {
			switch beh {
			case "arg":
				if len(args) > 0 {
					if x, ok := args[0].(string); ok {
						return x
					}
				}
				return r
			case "const":
				return val.(string)
			}
			return shown(tag, r, args)
		})
	case "arr":
		return textwire.RegisterArrFunc(name, func(r []any, args ...any) []any {
			switch beh {
			case "arg":
				if len(args) > 0 {
					if x, ok := args[0].([]any); ok {
						return x
					}
				}
				return r
			case "args":
				return args
			case "const":
				return val.([]any)
			}
			return []any{shown(tag, r, args)}
		})
	case "int":
		return textwire.RegisterIntFunc(name, func(r int, args ...any) int {
			switch beh {
			case "arg":
				if len(args) > 0 {
					switch x := args[0].(type) {
					case int:
						return x
					case int64:
						return int(x)
					}
				}
				return r
			case "const":
				return val.(int)
			}
			return hash(shown(tag, r, args))
		})
	case "float":
		return textwire.RegisterFloatFunc(name, func(r float64, args ...any) float64 {
			switch beh {
			case "arg":
				if len(args) > 0 {
					if x, ok := args[0].(float64); ok {
						return x
					}
				}
				return r
			case "const":
				return val.(float64)
			}
			return float64(hash(shown(tag, r, args)))
		})
	}
	return textwire.RegisterBoolFunc(name, func(r bool, args ...any) bool {
		switch beh {
		case "arg":
			if len(args) > 0 {
				if x, ok := args[0].(bool); ok {
					return x
				}
			}
			return r
		case "const":
			return val.(bool)
		}
		return hash(shown(tag, r, args))%2 == 1
	})
}
