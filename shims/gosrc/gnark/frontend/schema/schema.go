// Package schema walks the leaves of a structure in declaration order.
package schema

import (
	"reflect"
	"strings"
)

type Visibility uint8

const (
	Unset Visibility = iota
	Public
	Secret
)

type LeafInfo struct {
	Visibility Visibility
	FullName   func() string
}
type LeafHandler func(LeafInfo, reflect.Value) error
type LeafCount struct{ Secret, Public int }

func Walk(c interface{}, target reflect.Type, h LeafHandler) (LeafCount, error) {
	var n LeafCount
	var walk func(v reflect.Value, vis Visibility) error
	walk = func(v reflect.Value, vis Visibility) error {
		if v.Type() == target {
			if vis == Unset {
				vis = Secret
			}
			if vis == Public {
				n.Public++
			} else {
				n.Secret++
			}
			return h(LeafInfo{Visibility: vis, FullName: func() string { return "" }}, v)
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				return walk(v.Elem(), vis)
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				if err := walk(v.Index(i), vis); err != nil {
					return err
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if !f.IsExported() {
					continue
				}
				tag := f.Tag.Get("gnark")
				if tag == "-" {
					continue
				}
				own := vis
				if own == Unset {
					for _, o := range strings.Split(tag, ",") {
						if o == "public" {
							own = Public
						} else if o == "secret" {
							own = Secret
						}
					}
				}
				if err := walk(v.Field(i), own); err != nil {
					return err
				}
			}
		}
		return nil
	}
	return n, walk(reflect.ValueOf(c), Unset)
}
