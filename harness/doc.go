package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/spdx/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

// newDoc returns a new empty document of the given version (21, 22 or 23).
func newDoc(v int) common.AnyDocument {
	switch v {
	case 21:
		return &v2_1.Document{}
	case 22:
		return &v2_2.Document{}
	case 23:
		return &v2_3.Document{}
	}
	panic(harnessErrorf("no version %d", v))
}

// fromAbstract builds a Go value from an abstract one: a tree of maps keyed
// by Go field names, lists and scalars.
func fromAbstract(dst reflect.Value, v any, path string) {
	switch dst.Kind() {
	case reflect.Ptr:
		if v == nil {
			return
		}
		n := reflect.New(dst.Type().Elem())
		fromAbstract(n.Elem(), v, path)
		dst.Set(n)
	case reflect.Struct:
		m := toObj(v)
		for k, x := range m {
			f := dst.FieldByName(k)
			if !f.IsValid() {
				panic(harnessErrorf("spec names field %s.%s, which %s does not have", path, k, dst.Type()))
			}
			fromAbstract(f, x, path+"."+k)
		}
	case reflect.Slice:
		l, ok := v.([]any)
		if !ok {
			panic(harnessErrorf("%s: want a list, have %T", path, v))
		}
		s := reflect.MakeSlice(dst.Type(), len(l), len(l))
		for i, x := range l {
			fromAbstract(s.Index(i), x, fmt.Sprintf("%s[%d]", path, i))
		}
		if len(l) > 0 {
			dst.Set(s)
		}
	case reflect.Map:
		m := toObj(v)
		mm := reflect.MakeMap(dst.Type())
		for k, x := range m {
			e := reflect.New(dst.Type().Elem()).Elem()
			fromAbstract(e, x, path+"["+k+"]")
			kv := reflect.New(dst.Type().Key()).Elem()
			kv.SetString(k)
			mm.SetMapIndex(kv, e)
		}
		if len(m) > 0 {
			dst.Set(mm)
		}
	case reflect.String:
		dst.SetString(v.(string))
	case reflect.Bool:
		dst.SetBool(v.(bool))
	case reflect.Int, reflect.Int64:
		dst.SetInt(int64(v.(float64)))
	default:
		panic(harnessErrorf("%s: cannot set a %s", path, dst.Kind()))
	}
}

func docFrom(v int, abs any) common.AnyDocument {
	d := newDoc(v)
	fromAbstract(reflect.ValueOf(d).Elem(), abs, "Document")
	return d
}

// toAbstract is the inverse: fields holding nothing are left out.
func toAbstract(v reflect.Value, keepPtr bool) any {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		x := toAbstract(v.Elem(), keepPtr)
		if keepPtr && x == nil {
			return map[string]any{}
		}
		return x
	case reflect.Struct:
		m := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			if !v.Type().Field(i).IsExported() {
				continue
			}
			x := toAbstract(v.Field(i), keepPtr)
			if x != nil {
				m[v.Type().Field(i).Name] = x
			}
		}
		if len(m) == 0 {
			return nil
		}
		return m
	case reflect.Slice, reflect.Array:
		if v.Len() == 0 {
			return nil
		}
		l := make([]any, v.Len())
		for i := range l {
			l[i] = toAbstract(v.Index(i), keepPtr)
			if l[i] == nil {
				l[i] = zeroElem(v.Index(i))
			}
		}
		return l
	case reflect.Map:
		if v.Len() == 0 {
			return nil
		}
		m := map[string]any{}
		for _, k := range v.MapKeys() {
			x := toAbstract(v.MapIndex(k), keepPtr)
			if x == nil {
				x = map[string]any{}
			}
			m[fmt.Sprint(k.Interface())] = x
		}
		return m
	case reflect.String:
		if v.Len() == 0 {
			return nil
		}
		return v.String()
	case reflect.Bool:
		if !v.Bool() {
			return nil
		}
		return true
	case reflect.Int, reflect.Int64:
		if v.Int() == 0 {
			return nil
		}
		return float64(v.Int())
	}
	panic(harnessErrorf("cannot abstract a %s", v.Kind()))
}

func zeroElem(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return zeroElem(v.Elem())
	case reflect.Struct, reflect.Map:
		return map[string]any{}
	case reflect.String:
		return ""
	}
	return nil
}

func abstractDoc(d any) any {
	x := toAbstract(reflect.ValueOf(d), false)
	if x == nil {
		return map[string]any{}
	}
	return x
}

// norm brings a specification value into the form toAbstract produces.
func norm(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			n := norm(e)
			if n != nil {
				m[k] = n
			}
		}
		if len(m) == 0 {
			return nil
		}
		return m
	case []any:
		if len(x) == 0 {
			return nil
		}
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = norm(e)
			if l[i] == nil {
				switch e.(type) {
				case map[string]any, []any:
					l[i] = map[string]any{}
				case string:
					l[i] = ""
				}
			}
		}
		return l
	case string:
		if x == "" {
			return nil
		}
		return x
	case bool:
		if !x {
			return nil
		}
		return x
	case float64:
		if x == 0 {
			return nil
		}
		return x
	}
	return v
}

func normDoc(v any) any {
	x := norm(v)
	if x == nil {
		return map[string]any{}
	}
	return x
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:140] + " … " + s[len(s)-140:]
	}
	return s
}

func show(v any) string { return clip(fmt.Sprintf("%#v", v)) }

// diff describes the first difference between two abstract values.
func diff(path string, got, want any) string {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s: got %s, want %s", path, show(got), show(want))
		}
		keys := map[string]bool{}
		for k := range w {
			keys[k] = true
		}
		for k := range g {
			keys[k] = true
		}
		var ks []string
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			gv, gok := g[k]
			wv, wok := w[k]
			switch {
			case !gok:
				return fmt.Sprintf("%s.%s: missing, want %s", path, k, show(wv))
			case !wok:
				return fmt.Sprintf("%s.%s: unexpected %s", path, k, show(gv))
			}
			if d := diff(path+"."+k, gv, wv); d != "" {
				return d
			}
		}
		return ""
	case []any:
		g, ok := got.([]any)
		if !ok {
			return fmt.Sprintf("%s: got %s, want %s", path, show(got), show(want))
		}
		for i := 0; i < len(w) && i < len(g); i++ {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), g[i], w[i]); d != "" {
				return d
			}
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s: %d entries, want %d: got %s want %s", path, len(g), len(w), show(got), show(want))
		}
		return ""
	}
	if !reflect.DeepEqual(got, want) {
		gs, gok := got.(string)
		ws, wok := want.(string)
		if gok && wok {
			return fmt.Sprintf("%s: got %q want %q", path, clip(gs), clip(ws))
		}
		return fmt.Sprintf("%s: got %s want %s", path, show(got), show(want))
	}
	return ""
}

func verOf(s string) int {
	switch strings.TrimPrefix(s, "SPDX-") {
	case "2.1":
		return 21
	case "2.2":
		return 22
	case "2.3":
		return 23
	}
	return 0
}

func harnessErrorf(f string, a ...any) harnessError { return harnessError(fmt.Sprintf(f, a...)) }
