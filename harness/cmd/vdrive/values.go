package main

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"net"
	"reflect"
	"sync"
	"time"

	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/pool"
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
	"github.com/renthraysk/xtorm/xproto"
)

var sentinels = map[string]error{
	"s1": errors.New("caller error 1"), "s2": errors.New("caller error 2"),
	"s3": errors.New("caller error 3"), "s4": errors.New("caller error 4"),
	"snd": errors.New("sender error"),
	// errors that mean something elsewhere
	"eof": io.EOF, "ueof": io.ErrUnexpectedEOF, "canc": context.Canceled, "dead": context.DeadlineExceeded, "norows": sql.ErrNoRows,
	"skip": driver.ErrSkip, "nilp": (*quietErr)(nil), "empty": quietErr("").with(""), "closed": net.ErrClosed, "tmp": &net.DNSError{Err: "try again", IsTemporary: true, IsTimeout: true},
	"pclosed": pool.ErrPoolClosed, "val": valueErr{7}, "mysql": &connection.MySqlXError{Code: 1062, SqlState: "23000", Msg: "dup"}, "fatal": &connection.MySqlXError{Severity: mysqlx.Error_FATAL, Code: 1, Msg: "end"},
}

type quietErr string

func (e *quietErr) Error() string {
	if e == nil {
		return ""
	}
	return string(*e)
}
func (quietErr) with(s string) error { e := quietErr(s); return &e }

type valueErr struct{ n int }

func (valueErr) Error() string { return "value" }

func errClass(err error) string {
	if err == nil {
		return ""
	}
	for k, s := range sentinels {
		if errors.Is(err, s) {
			return k
		}
	}
	return "lib"
}

// failEnc is an encoder of the caller's that fails.
type failEnc struct {
	err error
	how string
}

func (f failEnc) enc(p []byte) ([]byte, error) {
	switch f.how {
	case "nil":
		return nil, f.err
	case "part":
		return append(p, 0xAA, 0xBB, 0xCC), f.err
	}
	return p, f.err
}
func (f failEnc) AppendAny(p []byte, tag uint8) ([]byte, error)  { return f.enc(p) }
func (f failEnc) AppendExpr(p []byte, tag uint8) ([]byte, error) { return f.enc(p) }

// goodEnc is an encoder of the caller's that works.
type goodEnc struct{ f xproto.AppendExprFunc }

func (g goodEnc) AppendExpr(p []byte, tag uint8) ([]byte, error) { return g.f(p, tag) }

// valuer turns abstract values into Go values and remembers the mutable parts,
// so that they can be overwritten after the call they were passed to.
type valuer struct {
	handles map[int]xproto.AppendExprFunc
	slices  []kept[byte]
	lists   []kept[interface{}]
	names   []kept[string]
	maps    []keptMap
	shared  *sharedValues // nil: values are not shared with other units of work, and overwritten after use
}

// sharedValues are values used by several units of work.
type sharedValues struct {
	mu sync.Mutex
	m  map[string]interface{}
}

// kept is a slice passed to the code, and what it and its spare capacity held.
type kept[T any] struct{ s, was []T }

type keptMap struct{ m, was map[string]interface{} }

func keep[T any](s []T) kept[T] {
	s = s[:cap(s)]
	return kept[T]{s, append([]T(nil), s...)}
}

func (k kept[T]) modified() bool {
	for i := range k.s {
		if !identical(k.s[i], k.was[i]) {
			return true
		}
	}
	return false
}

// identical: the same value, or the same slice, map, channel or function.
func identical(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if !x.IsValid() || !y.IsValid() {
		return x.IsValid() == y.IsValid()
	}
	if x.Type() != y.Type() {
		return false
	}
	switch x.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(x.Float()) == math.Float64bits(y.Float())
	case reflect.Slice:
		return x.Pointer() == y.Pointer() && x.Len() == y.Len()
	case reflect.Map, reflect.Chan, reflect.Ptr:
		return x.Pointer() == y.Pointer()
	case reflect.Func:
		return x.Pointer() == y.Pointer() // the code of a closure, at least
	}
	if x.Type().Comparable() {
		return a == b
	}
	return true
}

// scribble overwrites what was passed to the code, and reports whether the code
// had modified any of it.
func (v *valuer) scribble() (modified bool) {
	for _, k := range v.slices {
		modified = modified || k.modified()
	}
	for _, k := range v.lists {
		modified = modified || k.modified()
	}
	for _, k := range v.names {
		modified = modified || k.modified()
	}
	for _, k := range v.maps {
		if len(k.m) != len(k.was) {
			modified = true
		}
		for n, x := range k.was {
			if y, ok := k.m[n]; !ok || !identical(x, y) {
				modified = true
			}
		}
	}
	if v.shared != nil {
		return modified
	}
	for _, k := range v.slices {
		for i := range k.s {
			k.s[i] = 0xEE
		}
	}
	for _, k := range v.lists {
		for i := range k.s {
			k.s[i] = "scribbled"
		}
	}
	for _, k := range v.names {
		for i := range k.s {
			k.s[i] = "scribbled"
		}
	}
	for _, k := range v.maps {
		for n := range k.m {
			k.m[n] = "scribbled"
		}
		k.m["scribbled"] = 1
	}
	v.slices, v.lists, v.names, v.maps = nil, nil, nil, nil
	return modified
}

func (v *valuer) bytes(o obj) []byte {
	if o["isnil"] == true {
		return nil
	}
	b := untokens(o["v"])
	v.slices = append(v.slices, keep(b))
	return b
}

func str(x any) string { return string(untokens(x)) }

func num(x any) int { return int(x.(float64)) }

func signed(o obj) int64 {
	z := limbsToBig(o["m"])
	if o["neg"] == true {
		z.Neg(z)
	}
	if !z.IsInt64() {
		panic("integer out of range")
	}
	return z.Int64()
}

func (v *valuer) list(x any) []interface{} {
	l := x.([]any)
	out := make([]interface{}, len(l), len(l)+2) // with room to append to
	for i := range l {
		out[i] = v.value(l[i].(obj))
	}
	v.lists = append(v.lists, keep(out))
	return out
}

func (v *valuer) strings(x any) []string {
	l := x.([]any)
	out := make([]string, len(l), len(l)+2)
	for i := range l {
		out[i] = str(l[i])
	}
	v.names = append(v.names, keep(out))
	return out
}

func (v *valuer) rows(x any) [][]interface{} {
	l := x.([]any)
	out := make([][]interface{}, len(l))
	for i := range l {
		out[i] = v.list(l[i])
	}
	return out
}

func (v *valuer) crit(x any) xproto.AppendExprFunc {
	l := x.([]any)
	if len(l) == 0 {
		return nil
	}
	return v.value(l[0].(obj)).(xproto.AppendExprFunc)
}

func (v *valuer) set(x any) map[string]interface{} {
	m := map[string]interface{}{}
	for _, p := range x.([]any) {
		m[str(p.(obj)["name"])] = v.value(p.(obj)["v"].(obj))
	}
	was := map[string]interface{}{}
	for k, x := range m {
		was[k] = x
	}
	v.maps = append(v.maps, keptMap{m, was})
	return m
}

func (v *valuer) value(o obj) interface{} {
	if v.shared == nil {
		return v.fresh(o)
	}
	key, err := json.Marshal(o)
	if err != nil || bytes.Contains(key, []byte(`"go":"h"`)) { // a handle belongs to its unit of work
		return v.fresh(o)
	}
	v.shared.mu.Lock()
	x, ok := v.shared.m[string(key)]
	v.shared.mu.Unlock()
	if ok {
		return x
	}
	x = v.fresh(o)
	v.shared.mu.Lock()
	defer v.shared.mu.Unlock()
	if y, ok := v.shared.m[string(key)]; ok {
		return y
	}
	v.shared.m[string(key)] = x
	return x
}

func (v *valuer) fresh(o obj) interface{} {
	switch t := o["go"].(string); t {
	case "nil":
		return nil
	case "bool":
		return o["x"].(bool)
	case "int":
		return int(signed(o))
	case "int8":
		return int8(signed(o))
	case "int16":
		return int16(signed(o))
	case "int32":
		return int32(signed(o))
	case "int64":
		return signed(o)
	case "uint":
		return uint(limbsToBig(o["m"]).Uint64())
	case "uint8":
		return uint8(limbsToBig(o["m"]).Uint64())
	case "uint16":
		return uint16(limbsToBig(o["m"]).Uint64())
	case "uint32":
		return uint32(limbsToBig(o["m"]).Uint64())
	case "uint64":
		return limbsToBig(o["m"]).Uint64()
	case "float64":
		return math.Float64frombits(binary.LittleEndian.Uint64(untokens(o["b"])))
	case "float32":
		return math.Float32frombits(binary.LittleEndian.Uint32(untokens(o["b"])))
	case "string":
		return str(o["v"])
	case "bytes":
		return v.bytes(o)
	case "String":
		return xtorm.String{Value: str(o["v"]), Collation: collation.Collation(limbsToBig(o["coll"]).Uint64())}
	case "XML":
		return xtorm.XML(v.bytes(o))
	case "JSON":
		return xtorm.JSON(v.bytes(o))
	case "Geometry":
		return xtorm.Geometry(v.bytes(o))
	case "XMLString":
		return xtorm.XMLString(str(o["v"]))
	case "JSONString":
		return xtorm.JSONString(str(o["v"]))
	case "time":
		loc := time.UTC
		if off := num(o["off"]); off != 0 {
			loc = time.FixedZone("z", off*60)
		}
		return time.Date(num(o["y"]), time.Month(num(o["mo"])), num(o["d"]), num(o["h"]), num(o["mi"]), num(o["s"]), num(o["ns"]), loc)
	case "dur":
		z := new(big.Int)
		for _, d := range o["ns"].([]any) {
			z.Mul(z, big.NewInt(10))
			z.Add(z, big.NewInt(int64(num(d))))
		}
		if o["neg"] == true {
			z.Neg(z)
		}
		if !z.IsInt64() {
			panic("duration out of range")
		}
		return time.Duration(z.Int64())
	case "ptr":
		x := v.value(o["v"].(obj))
		p := reflect.New(reflect.TypeOf(x))
		p.Elem().Set(reflect.ValueOf(x))
		return p.Interface()
	case "ptrs":
		x := v.value(o["v"].(obj))
		for i := num(o["n"]); i > 0; i-- {
			p := reflect.New(reflect.TypeOf(x))
			p.Elem().Set(reflect.ValueOf(x))
			x = p.Interface()
		}
		return x
	case "nilptr":
		return nilPtrs[o["t"].(string)]
	case "unsup":
		return unsupported[o["t"].(string)]
	case "fail":
		f := failEnc{sentinels[o["x"].(string)], o["how"].(string)}
		return f
	case "col":
		return xtorm.Column(str(o["name"]))
	case "h":
		return v.handles[num(o["i"])]
	case "var":
		name := str(o["name"])
		return goodEnc{func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprVariable(p, tag, name) }}
	case "pos":
		n := uint32(limbsToBig(o["m"]).Uint64())
		return xproto.AppendExprFunc(func(p []byte, tag uint8) ([]byte, error) { return xproto.AppendExprPlaceholder(p, tag, n) })
	case "op":
		return v.operator(o)
	default:
		panic(fmt.Sprintf("unknown kind of value %q", t))
	}
}

var nilPtrs = map[string]interface{}{
	"int": (*int)(nil), "int8": (*int8)(nil), "uint64": (*uint64)(nil), "string": (*string)(nil), "bool": (*bool)(nil),
	"float64": (*float64)(nil), "time": (*time.Time)(nil), "dur": (*time.Duration)(nil), "bytes": (*[]byte)(nil),
	"String": (*xtorm.String)(nil), "JSON": nilOf(xtorm.JSON(nil)), "XMLString": nilOf(xtorm.XMLString("")),
}

func nilOf(x interface{}) interface{} {
	return reflect.Zero(reflect.PtrTo(reflect.TypeOf(x))).Interface()
}

var unsupported = map[string]interface{}{
	"struct": struct{ A int }{1}, "chan": make(chan int), "func": func() {}, "map": map[string]int{"a": 1},
	"complex": complex(1, 2), "slice": []int{1, 2},
}

type (
	e1 = func(interface{}) xproto.AppendExprFunc
	e2 = func(a, b interface{}) xproto.AppendExprFunc
	e3 = func(a, b, c interface{}) xproto.AppendExprFunc
)

var nullary = map[string]func() xproto.AppendExprFunc{
	"Default": xtorm.Default, "RowCount": xtorm.RowCount, "LastInsertID": xtorm.LastInsertID,
}
var unary = map[string]e1{"Not": xtorm.Not, "Plus": xtorm.Plus, "Minus": xtorm.Minus}
var binaryOps = map[string]e2{
	"And": xtorm.And, "Or": xtorm.Or, "Xor": xtorm.Xor, "Eq": xtorm.Eq, "Neq": xtorm.Neq, "Lte": xtorm.Lte, "Lt": xtorm.Lt,
	"Gt": xtorm.Gt, "Gte": xtorm.Gte, "BitAnd": xtorm.BitAnd, "BitOr": xtorm.BitOr, "BitXor": xtorm.BitXor,
	"LeftShift": xtorm.LeftShift, "RightShift": xtorm.RightShift, "Add": xtorm.Add, "Sub": xtorm.Sub, "Mul": xtorm.Mul,
	"Div": xtorm.Div, "IntDiv": xtorm.IntDiv, "Mod": xtorm.Mod, "Is": xtorm.Is, "IsNot": xtorm.IsNot,
	"Regexp": xtorm.Regexp, "NotRegexp": xtorm.NotRegexp, "Like": xtorm.Like, "NotLike": xtorm.NotLike,
	"ContIn": xtorm.ContIn, "NotContIn": xtorm.NotContIn, "Overlaps": xtorm.Overlaps, "NotOverlaps": xtorm.NotOverlaps,
}
var ternary = map[string]e3{"Between": xtorm.Between, "NotBetween": xtorm.NotBetween}

var units = map[string]xtorm.DateUnit{
	"MICROSECOND": xtorm.UnitMicroSecond, "SECOND": xtorm.UnitSecond, "MINUTE": xtorm.UnitMinute, "HOUR": xtorm.UnitHour,
	"DAY": xtorm.UnitDay, "WEEK": xtorm.UnitWeek, "MONTH": xtorm.UnitMonth, "QUARTER": xtorm.UnitQuarter, "YEAR": xtorm.UnitYear,
	"SECOND_MICROSECOND": xtorm.UnitSecondMicrosecond, "MINUTE_MICROSECOND": xtorm.UnitMinuteMicrosecond,
	"MINUTE_SECOND": xtorm.UnitMinuteSecond, "HOUR_MICROSECOND": xtorm.UnitHourMicrosecond, "HOUR_SECOND": xtorm.UnitHourSecond,
	"HOUR_MINUTE": xtorm.UnitHourMinute, "DAY_MICROSECOND": xtorm.UnitDayMicrosecond, "DAY_SECOND": xtorm.UnitDaySecond,
	"DAY_MINUTE": xtorm.UnitDayMinute, "DAY_HOUR": xtorm.UnitDayHour,
}

func (v *valuer) operator(o obj) xproto.AppendExprFunc {
	c := o["c"].(string)
	a := v.list(o["args"])
	if f, ok := nullary[c]; ok {
		return f()
	}
	if f, ok := unary[c]; ok {
		return f(a[0])
	}
	if f, ok := binaryOps[c]; ok {
		return f(a[0], a[1])
	}
	if f, ok := ternary[c]; ok {
		return f(a[0], a[1], a[2])
	}
	switch c {
	case "In":
		return xtorm.In(a[0], a[1:])
	case "InV":
		return xtorm.InV(a[0], a[1:]...)
	case "NotIn":
		return xtorm.NotIn(a[0], a[1:])
	case "NotInV":
		return xtorm.NotInV(a[0], a[1:]...)
	case "Concat":
		return xtorm.Concat(a...)
	case "DateAdd":
		return xtorm.DateAdd(a[0], a[1], units[o["unit"].(string)])
	case "DateSub":
		return xtorm.DateSub(a[0], a[1], units[o["unit"].(string)])
	}
	panic("unknown operator " + c)
}
