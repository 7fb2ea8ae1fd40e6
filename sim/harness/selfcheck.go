package main

import (
	"errors"
	"fmt"
	"time"

	common "github.com/matehaxor03/holistic_common/common"
	hjson "github.com/matehaxor03/holistic_json/json"
)

// cmdSelfcheck compares the quick IsNil with the dependency's own.
func cmdSelfcheck() int {
	var objs []interface{}
	for _, s := range append(append([]string{}, nastyStrings...), "&", "<", "%", "m", "n", "nil\n", "map[a:1]", "&map[]", "<nil", "%!s(", "%!s(int=<nil>)", "&{nil}", "[]", "{}") {
		objs = append(objs, s, ptrTo(s), errors.New(s))
		var e error = errors.New(s)
		objs = append(objs, &e, []string{s}, []error{e})
	}
	for _, k := range append(badKinds, "cfunc", "urlerr") {
		objs = append(objs, badValue(k))
	}
	var np *string
	var ni *int
	var nm *hjson.Map
	var na *hjson.Array
	var nv *hjson.Value
	var nt *time.Time
	var nf func(string) []error
	var ne error
	var nmap map[string]interface{}
	var ns []string
	objs = append(objs, nil, np, ni, nm, na, nv, nt, nf, &nf, ne, &ne, nmap, &nmap, ns, &ns, map[string]interface{}{}, &map[string]interface{}{}, map[string]interface{}{"value": nil}, &map[string]interface{}{"value": nil}, map[string]interface{}{"a": 1},
		[]interface{}{}, &[]interface{}{}, []error{}, []error(nil), &[]error{}, time.Now(), ptrTo(time.Now()), time.Time{}, 1, ptrTo(1), int8(2), uint64(3), 1.5, ptrTo(1.5), float32(1), true, ptrTo(false),
		hjson.NewMap(), hjson.NewMapValue(), hjson.NewArray(), hjson.NewArrayValue(), hjson.NewValue(nil), hjson.NewValue("x"), hjson.NewValueValue(nil), map[string]*hjson.Value{}, map[string]*hjson.Value{"a": nil}, []string{}, &funcs[0], funcs[0])
	bad := 0
	for _, o := range objs {
		if a, b := common.IsNil(o), common.IsNilOriginal(o); a != b {
			fmt.Printf("IsNil(%T %v) = %v, the original says %v\n", o, o, a, b)
			bad++
		}
	}
	fmt.Printf("IsNil compared on %d objects, %d differ\n", len(objs), bad)
	if bad > 0 {
		return 1
	}
	return 0
}
