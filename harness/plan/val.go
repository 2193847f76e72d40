// Package plan describes loukoum programs as plain, serialisable data, runs
// them against loukoum, and interprets them with an independent model.
package plan

import (
	"database/sql"
	"database/sql/driver"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/jackc/pgx/v5/pgtype"
	"github.com/lib/pq"
	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/stmt"
)

// Str is a string that survives JSON even when it is not valid UTF-8.
type Str string

// MarshalJSON implements json.Marshaler.
func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(s))})
}

// UnmarshalJSON implements json.Unmarshaler.
func (s *Str) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '{' {
		var m map[string]string
		if err := json.Unmarshal(b, &m); err != nil {
			return err
		}
		d, err := base64.StdEncoding.DecodeString(m["b64"])
		*s = Str(d)
		return err
	}
	var v string
	err := json.Unmarshal(b, &v)
	*s = Str(v)
	return err
}

// KV is an entry of a map value.
type KV struct {
	K Str
	V Val
}

// Val is a Go value given to loukoum.
type Val struct {
	K string `json:"k"`
	I int64  `json:"i,omitempty,string"`
	U uint64 `json:"u,omitempty,string"` // unsigned value, or float bits
	S Str    `json:"s,omitempty"`
	L []Val  `json:"l,omitempty"`
	M []KV   `json:"m,omitempty"`
}

// Custom Go types a caller may hand to loukoum.
type (
	// StrEnc encodes as a string.
	StrEnc struct{ V string }
	// Status is a named string that encodes as a string.
	Status string
	// IntEnc encodes as an int64.
	IntEnc struct{ V int64 }
	// BoolEnc encodes as a bool.
	BoolEnc struct{ V bool }
	// TimeEnc encodes as a time.
	TimeEnc struct{ V time.Time }
	// PStrEnc encodes as a string through a pointer receiver.
	PStrEnc struct{ V string }
	// Valuer is a driver.Valuer.
	Valuer struct{ V string }
	// PValuer is a driver.Valuer through a pointer receiver.
	PValuer struct{ V string }
	// IntStr encodes as an int64 and as a string.
	IntStr struct{ V int64 }
	// BoolStr encodes as a bool and as a string.
	BoolStr struct{ V bool }
	// TimeStr encodes as a time and as a string.
	TimeStr struct{ V time.Time }
	// Plain is a struct without conversion.
	Plain struct{ A int }
	// PlainInt is a named integer without conversion.
	PlainInt int
	// ValuerStr is a driver.Valuer that also has a String method.
	ValuerStr struct{ V int64 }
	// ValuerOf is a driver.Valuer of any driver value.
	ValuerOf struct{ V interface{} }
	// ValuerAll is a driver.Valuer with every other conversion.
	ValuerAll struct{ V int64 }
	// VInt and its kin are driver.Valuers that are not structs.
	VInt   int64
	VStr   string
	VBool  bool
	VBytes []byte
	VSlice []int64
	VMap   map[string]string
	// Level is a named integer that encodes as a string.
	Level int
	// IInt is a named string that encodes as an int64.
	IInt string
	// BBool is a named slice that encodes as a bool.
	BBool []int
	// PInt, PBool and PTime encode through a pointer receiver.
	PInt  struct{ V int64 }
	PBool struct{ V bool }
	PTime struct{ V time.Time }
	// Stamp embeds a time: it has the methods of one, String among them.
	Stamp struct{ time.Time }
	// Money embeds a valuer.
	Money struct{ sql.NullInt64 }
	// ErrVal is an error that is also a driver.Valuer.
	ErrVal struct{ V string }
)

func (e StrEnc) String() string                  { return e.V }
func (e Status) String() string                  { return string(e) }
func (e IntEnc) Int64() int64                    { return e.V }
func (e BoolEnc) Bool() bool                     { return e.V }
func (e TimeEnc) Time() time.Time                { return e.V }
func (e IntStr) Int64() int64                    { return e.V }
func (e IntStr) String() string                  { return "not this" }
func (e BoolStr) Bool() bool                     { return e.V }
func (e BoolStr) String() string                 { return "not this" }
func (e TimeStr) Time() time.Time                { return e.V }
func (e TimeStr) String() string                 { return "not this" }
func (e *PStrEnc) String() string                { return e.V }
func (v Valuer) Value() (driver.Value, error)    { return v.V, nil }
func (v *PValuer) Value() (driver.Value, error)  { return v.V, nil }
func (v ValuerStr) Value() (driver.Value, error) { return v.V, nil }
func (v ValuerOf) Value() (driver.Value, error)  { return v.V, nil }
func (v ValuerAll) Value() (driver.Value, error) { return v.V, nil }
func (v ValuerAll) Int64() int64                 { return v.V + 1 }
func (v ValuerAll) Bool() bool                   { return true }
func (v ValuerAll) Time() time.Time              { return time.Unix(v.V, 0) }
func (v ValuerAll) String() string               { return "not this" }
func (v ValuerAll) IsZero() bool                 { return true }

// Failing is a valuer that fails.
type Failing struct{ V interface{} }

func (v ValuerAll) IsNull() bool                 { return true }
func (v ValuerAll) IsNil() bool                  { return true }
func (v ValuerAll) IsEmpty() bool                { return true }
func (v ValuerAll) Valid() bool                  { return false }
func (v ValuerAll) Len() int                     { return 0 }
func (v ValuerAll) Name() string                 { return "not this" }
func (v ValuerAll) Error() string                { return "not this" }
func (v ValuerAll) GoString() string             { return fmt.Sprint("all:", v.V) }
func (v ValuerAll) MarshalText() ([]byte, error) { return []byte("not this"), nil }
func (v ValuerAll) MarshalJSON() ([]byte, error) { return []byte("0"), nil }
func (v VInt) Value() (driver.Value, error)      { return int64(v), nil }
func (v VStr) Value() (driver.Value, error)      { return string(v), nil }
func (v VBool) Value() (driver.Value, error)     { return bool(v), nil }
func (v VBytes) Value() (driver.Value, error)    { return []byte(v), nil }
func (v VSlice) Value() (driver.Value, error)    { return fmt.Sprint([]int64(v)), nil }
func (v VMap) Value() (driver.Value, error)      { return int64(len(v)), nil }
func (v ErrVal) Value() (driver.Value, error)    { return v.V, nil }
func (v ErrVal) Error() string                   { return "not this" }
func (f Failing) Value() (driver.Value, error)   { return f.V, errors.New("no value") }
func (l Level) String() string                   { return fmt.Sprint("level ", int(l)) }
func (l Level) IsZero() bool                     { return true }
func (l Level) MarshalText() ([]byte, error)     { return []byte("not this"), nil }
func (i IInt) Int64() int64                      { return int64(len(i)) }
func (i IInt) IsZero() bool                      { return true }
func (b BBool) Bool() bool                       { return len(b) > 0 }
func (e *PInt) Int64() int64                     { return e.V }
func (e *PBool) Bool() bool                      { return e.V }
func (e *PTime) Time() time.Time                 { return e.V }
func (v ValuerStr) String() string               { return fmt.Sprint("valuer:", v.V) }

// Tm builds a time from nanoseconds and an offset in minutes, or in seconds
// when it ends in "s".
func Tm(v Val) time.Time {
	t := time.Unix(v.I, int64(v.U%1e9)).UTC()
	if v.S != "" {
		off := 0
		fmt.Sscan(string(v.S), &off)
		if !strings.HasSuffix(string(v.S), "s") {
			off *= 60
		}
		t = t.In(time.FixedZone("", off))
	}
	return t
}

// Nil reports whether the value is a nil slice or map of its type.
func (v Val) Nil() bool {
	return v.I == -1 && v.S == "" && len(v.L) == 0 && len(v.M) == 0 && NilKinds[v.K]
}

// NilKinds are the slice and map kinds.
var NilKinds = map[string]bool{"bytes": true, "int64s": true, "strings": true, "flatstrings": true, "flatint64s": true, "mapss": true, "mapsi": true, "pqstrings": true,
	"vslice": true, "vmap": true, "vbytes": true}

// Go is the value as handed to loukoum.
func (v Val) Go() interface{} {
	if v.Nil() {
		v.I = 0
		return reflect.Zero(reflect.TypeOf(v.Go())).Interface()
	}
	switch v.K {
	case "nil":
		return nil
	case "string":
		return string(v.S)
	case "bool":
		return v.I != 0
	case "int":
		return int(v.I)
	case "int8":
		return int8(v.I)
	case "int16":
		return int16(v.I)
	case "int32":
		return int32(v.I)
	case "int64":
		return v.I
	case "uint":
		return uint(v.U)
	case "uint8":
		return uint8(v.U)
	case "uint16":
		return uint16(v.U)
	case "uint32":
		return uint32(v.U)
	case "uint64":
		return v.U
	case "float32":
		return math.Float32frombits(uint32(v.U))
	case "float64":
		return math.Float64frombits(v.U)
	case "bytes":
		return []byte(v.S)
	case "time":
		return Tm(v)
	case "ptime":
		t := Tm(v)
		handedElems(&t)
		return &t
	case "nilptime":
		return (*time.Time)(nil)
	case "int64s":
		out := make([]int64, 0, len(v.L))
		for _, e := range v.L {
			out = append(out, e.I)
		}
		return out
	case "strings":
		out := make([]string, 0, len(v.L))
		for _, e := range v.L {
			out = append(out, string(e.S))
		}
		return out
	case "flatstrings":
		out := make(pgtype.FlatArray[string], 0, len(v.L))
		for _, e := range v.L {
			out = append(out, string(e.S))
		}
		return out
	case "flatint64s":
		out := make(pgtype.FlatArray[int64], 0, len(v.L))
		for _, e := range v.L {
			out = append(out, e.I)
		}
		return out
	case "range":
		return pgtype.Range[pgtype.Int8]{
			Lower: pgtype.Int8{Int64: v.I, Valid: true}, Upper: pgtype.Int8{Int64: v.I + 7, Valid: true},
			LowerType: pgtype.Inclusive, UpperType: pgtype.Exclusive, Valid: true,
		}
	case "mapss":
		m := map[string]string{}
		for _, e := range v.M {
			m[string(e.K)] = string(e.V.S)
		}
		return m
	case "mapsi":
		m := map[string]interface{}{}
		for _, e := range v.M {
			m[string(e.K)] = e.V.Go()
		}
		return m
	case "nullstring":
		return sql.NullString{String: string(v.S), Valid: v.I != 0}
	case "nullint64":
		return sql.NullInt64{Int64: int64(v.U), Valid: v.I != 0}
	case "pqnulltime":
		return pq.NullTime{Time: Tm(v), Valid: v.L == nil}
	case "pqstrings":
		out := pq.StringArray{}
		for _, e := range v.L {
			out = append(out, string(e.S))
		}
		return out
	case "valuer":
		return Valuer{string(v.S)}
	case "pvaluer":
		return &PValuer{string(v.S)}
	case "nilpvaluer":
		return (*PValuer)(nil)
	case "valuerstr":
		return ValuerStr{v.I}
	case "valuerof":
		return ValuerOf{v.L[0].Go()}
	case "failing":
		return Failing{v.L[0].Go()}
	case "valuerall":
		return ValuerAll{v.I}
	case "strenc":
		return StrEnc{string(v.S)}
	case "status":
		return Status(v.S)
	case "pstrenc":
		e := &PStrEnc{string(v.S)}
		handedElems(e)
		return e
	case "intenc":
		return IntEnc{v.I}
	case "boolenc":
		return BoolEnc{v.I != 0}
	case "timeenc":
		return TimeEnc{Tm(v)}
	case "intstr":
		return IntStr{v.I}
	case "boolstr":
		return BoolStr{v.I != 0}
	case "timestr":
		return TimeStr{Tm(v)}
	case "penc":
		e := &StrEnc{string(v.S)}
		handedElems(e)
		return e
	case "vint":
		return VInt(v.I)
	case "vstr":
		return VStr(v.S)
	case "vbool":
		return VBool(v.I != 0)
	case "vbytes":
		return VBytes(v.S)
	case "vslice":
		out := VSlice{}
		for _, e := range v.L {
			out = append(out, e.I)
		}
		return out
	case "vmap":
		m := VMap{}
		for _, e := range v.M {
			m[string(e.K)] = string(e.V.S)
		}
		return m
	case "errval":
		return ErrVal{string(v.S)}
	case "money":
		return Money{sql.NullInt64{Int64: int64(v.U), Valid: v.I != 0}}
	case "stamp":
		return Stamp{Tm(v)}
	case "level":
		return Level(v.I)
	case "iint":
		return IInt(v.S)
	case "bbool":
		return BBool(make([]int, v.I))
	case "pint":
		e := &PInt{v.I}
		handedElems(e)
		return e
	case "pbool":
		e := &PBool{v.I != 0}
		handedElems(e)
		return e
	case "ptimeenc":
		e := &PTime{Tm(v)}
		handedElems(e)
		return e
	case "duration":
		return time.Duration(v.I)
	case "ip":
		return net.IP{10, byte(v.I >> 16), byte(v.I >> 8), byte(v.I)}
	case "jsonnumber":
		return json.Number(fmt.Sprint(v.I))
	case "bigint":
		return big.NewInt(v.I)
	case "pnullstring":
		return &sql.NullString{String: string(v.S), Valid: v.I != 0}
	case "nilpnullstring":
		return (*sql.NullString)(nil)
	case "nullbool":
		return sql.NullBool{Bool: v.U != 0, Valid: v.I != 0}
	case "nullfloat":
		return sql.NullFloat64{Float64: math.Float64frombits(v.U), Valid: v.I != 0}
	case "nulltime":
		return sql.NullTime{Time: Tm(v), Valid: v.L == nil}
	case "pgtext":
		return pgtype.Text{String: string(v.S), Valid: v.I != 0}
	case "pgint8":
		return pgtype.Int8{Int64: int64(v.U), Valid: v.I != 0}
	case "pgbool":
		return pgtype.Bool{Bool: v.U != 0, Valid: v.I != 0}
	case "trange":
		return pgtype.Range[pgtype.Timestamptz]{
			Lower: pgtype.Timestamptz{Time: Tm(v), Valid: true}, LowerType: pgtype.Inclusive, UpperType: pgtype.Unbounded, Valid: true,
		}
	case "emptyrange":
		return pgtype.Range[pgtype.Int4]{}
	}
	if strings.HasPrefix(v.K, "bad") {
		return v.bad()
	}
	panic("plan: unknown value kind " + v.K)
}

// Bound is the argument loukoum documents for the value; nil means NULL.
func (v Val) Bound() interface{} {
	switch v.K {
	case "nilptime":
		return nil
	case "ptime":
		return Tm(v)
	case "strenc", "status", "pstrenc", "penc":
		return string(v.S)
	case "intenc", "intstr":
		return v.I
	case "boolenc", "boolstr":
		return v.I != 0
	case "timeenc", "timestr", "ptimeenc":
		return Tm(v)
	case "pint", "bigint": // a big.Int has an Int64 method
		return v.I
	case "pbool":
		return v.I != 0
	case "bbool":
		return v.I > 0
	case "iint":
		return int64(len(v.S))
	case "stamp", "level", "duration", "ip", "jsonnumber":
		return v.Go().(fmt.Stringer).String()
	}
	return v.Go()
}

// Bad are the kinds of values loukoum cannot bind.
var Bad = []string{"badstruct", "badpstruct", "badpstring", "badpint", "badpint64", "badpint32", "badpuint64", "badnilpstring", "badchan", "badfunc", "badmap", "badmapany", "badcomplex", "badcomplex64", "baduintptr",
	"badarray", "badnamed", "badnamedbytes", "badints", "badfloats", "badbools", "badanys", "badrows", "badstructs", "baderror", "badinsert", "badupdate", "baddelete", "badtable", "badcolumn", "badencoder", "badpp",
	"badnamedstr", "badnamedbool", "badnamedstrs", "badnamedmap", "badnamedtime", "badkvmap", "badmapint", "badpstrs", "badpbytes", "badpbool", "badpfloat", "badpmap", "badptrs", "badstrptrs", "badpinsert", "badfrom", "badorder", "badbytearray", "badrunes"}

type named []byte

type (
	namedStr  string
	namedBool bool
	namedStrs []string
	namedMap  map[string]interface{}
	namedTime time.Time
)

type badEnc struct{}

func (badEnc) Statement() stmt.Statement { return lk.Table("t") }

func (v Val) bad() interface{} {
	n := int(v.I)
	s := string(v.S)
	switch v.K {
	case "badstruct":
		return Plain{n}
	case "badpstruct":
		return &Plain{n}
	case "badpstring":
		return &s
	case "badpint":
		m := int(v.I)
		return &m
	case "badpint64":
		m := v.I
		return &m
	case "badpint32":
		m := int32(v.I)
		return &m
	case "badpuint64":
		m := uint64(v.I)
		return &m
	case "badnilpstring":
		return (*string)(nil)
	case "badchan":
		return make(chan int)
	case "badfunc":
		return func() {}
	case "badmap":
		return map[int]int{n: n}
	case "badmapany":
		return map[interface{}]interface{}{s: n}
	case "badcomplex":
		return complex(float64(n), 1)
	case "badcomplex64":
		return complex64(1i)
	case "baduintptr":
		return uintptr(n)
	case "badarray":
		return [2]int{n, n}
	case "badnamed":
		return PlainInt(n)
	case "badnamedbytes":
		return named(s)
	case "badints":
		return []int{n}
	case "badfloats":
		return []float64{1.5}
	case "badbools":
		return []bool{true}
	case "badanys":
		return []interface{}{s, n}
	case "badrows":
		return [][]int{{n}}
	case "badstructs":
		return []Plain{{n}}
	case "baderror":
		return fmt.Errorf("%s", s)
	case "badinsert":
		return lk.Insert("t").Set(lk.Pair("a", n))
	case "badupdate":
		return lk.Update("t").Set(lk.Pair("a", n))
	case "baddelete":
		return lk.Delete("t")
	case "badtable":
		return lk.Table("t")
	case "badcolumn":
		return lk.Column("c")
	case "badencoder":
		return badEnc{}
	case "badnamedstr":
		return namedStr(s)
	case "badnamedbool":
		return namedBool(n%2 == 0)
	case "badnamedstrs":
		return namedStrs{s}
	case "badnamedmap":
		return namedMap{s: n}
	case "badkvmap":
		return lk.Map{"a": n}
	case "badnamedtime":
		return namedTime(Tm(v))
	case "badmapint":
		return map[string]int{s: n}
	case "badpstrs":
		return &[]string{s}
	case "badpbytes":
		b := []byte(s)
		return &b
	case "badpbool":
		b := n%2 == 0
		return &b
	case "badpfloat":
		f := float64(n)
		return &f
	case "badpmap":
		return &map[string]string{s: s}
	case "badptrs":
		return []*int{&n}
	case "badstrptrs":
		return []*string{&s}
	case "badpinsert":
		b := lk.Insert("t").Set(lk.Pair("a", n))
		return &b
	case "badfrom":
		return stmt.NewFrom([]stmt.Statement{lk.Table("t")})
	case "badorder":
		return lk.Order("id")
	case "badbytearray":
		return [4]byte{1, 2, 3, 4}
	case "badrunes":
		return []rune(s)
	case "badpp":
		t := Tm(v)
		p := &t
		return &p
	}
	panic("plan: unknown value kind " + v.K)
}

// Slice reports whether the value is itself a Go slice that list positions
// (IN, VALUES) would spread.
func (v Val) Slice() bool {
	switch v.K {
	case "int64s", "strings":
		return true
	}
	return false
}

// Elem are the kinds that have a typed slice loukoum spreads.
var Elem = []string{"string", "int", "uint", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "bool", "float32", "float64", "bytes"}

// TypedSlice builds []T from values of one kind in Elem.
func TypedSlice(kind string, vals []Val) interface{} {
	if len(vals) > 0 {
		kind = vals[0].K
	}
	t, ok := map[string]reflect.Type{
		"string": reflect.TypeOf(""), "int": reflect.TypeOf(int(0)), "uint": reflect.TypeOf(uint(0)),
		"int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "uint16": reflect.TypeOf(uint16(0)),
		"int32": reflect.TypeOf(int32(0)), "uint32": reflect.TypeOf(uint32(0)), "int64": reflect.TypeOf(int64(0)),
		"uint64": reflect.TypeOf(uint64(0)), "bool": reflect.TypeOf(false), "float32": reflect.TypeOf(float32(0)),
		"float64": reflect.TypeOf(float64(0)), "bytes": reflect.TypeOf([]byte{}),
	}[kind]
	if !ok {
		panic("plan: no typed slice of " + kind)
	}
	out := reflect.MakeSlice(reflect.SliceOf(t), 0, len(vals))
	for _, v := range vals {
		out = reflect.Append(out, reflect.ValueOf(v.Go()))
	}
	return out.Interface()
}

// Key identifies a Go value by type and content.
func Key(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case float64:
		return fmt.Sprintf("float64|%x", math.Float64bits(x))
	case float32:
		return fmt.Sprintf("float32|%x", math.Float32bits(x))
	case time.Time:
		_, off := x.Zone()
		return fmt.Sprintf("time|%d|%d|%d", x.Unix(), x.Nanosecond(), off)
	case *time.Time:
		if x == nil {
			return "*time|nil"
		}
		return "*" + Key(*x)
	case TimeEnc:
		return "TimeEnc|" + Key(x.V)
	case TimeStr:
		return "TimeStr|" + Key(x.V)
	case ValuerOf:
		return "ValuerOf|" + Key(x.V)
	case sql.NullTime:
		return fmt.Sprintf("sql.NullTime|%v|%s", x.Valid, Key(x.Time))
	case sql.NullFloat64:
		return fmt.Sprintf("sql.NullFloat64|%v|%s", x.Valid, Key(x.Float64))
	case pgtype.Range[pgtype.Timestamptz]:
		return "trange|" + Key(x.Lower.Time)
	case pq.NullTime:
		return fmt.Sprintf("pq.NullTime|%v|%s", x.Valid, Key(x.Time))
	case map[string]interface{}:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sortStrings(keys)
		var sb strings.Builder
		sb.WriteString("mapsi{")
		for _, k := range keys {
			fmt.Fprintf(&sb, "%q:%s;", k, Key(x[k]))
		}
		return sb.String() + "}"
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return fmt.Sprintf("%T|nil", v)
		}
		return fmt.Sprintf("*%s", Key(rv.Elem().Interface()))
	}
	return fmt.Sprintf("%T|%#v", v, v)
}
