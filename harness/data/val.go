package main

import (
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
)

// kind is the type of an expression value in the reference evaluator.
type kind int

const (
	kBool kind = iota
	kI32
	kI64
	kDec
	kDbl
	kStr
	kGuid
	kTime
)

var kindNames = []string{"Boolean", "Int32", "Int64", "Decimal", "Double", "String", "Guid", "DateTime"}

func (k kind) String() string { return kindNames[k] }

func (k kind) integer() bool { return k <= kI64 }
func (k kind) numeric() bool { return k <= kDbl }

// val is a value of the reference evaluator; a nil x is null.
type val struct {
	k kind
	x interface{}
}

func (v val) null() bool { return v.x == nil }

func (v val) String() string {
	if v.null() {
		return fmt.Sprintf("%v(null)", v.k)
	}
	return fmt.Sprintf("%v(%v)", v.k, v.x)
}

func nullOf(k kind) val { return val{k, nil} }

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func boolean(b bool) val { return val{kBool, b} }

var (
	errType = errors.New("type error")   // evaluation must fail
	errNull = errors.New("null operand") // evaluation must fail
	errZero = errors.New("zero divisor") // evaluation must fail
	errArg  = errors.New("bad argument") // evaluation must fail
	errSkip = errors.New("not claimed")  // the result is outside what is claimed
)

// ofColumn is the value an expression sees for a stored value.
func ofColumn(t data.DataTypeEnum, x interface{}) val {
	switch t {
	case data.DataType.String:
		return val{kStr, x}
	case data.DataType.Boolean:
		return val{kBool, x}
	case data.DataType.DateTime:
		return val{kTime, x}
	case data.DataType.Guid:
		return val{kGuid, x}
	case data.DataType.Decimal:
		return val{kDec, x}
	case data.DataType.Double:
		return val{kDbl, x}
	case data.DataType.Single:
		if x == nil {
			return nullOf(kDbl)
		}
		return val{kDbl, float64(x.(float32))}
	case data.DataType.Int64:
		return val{kI64, x}
	case data.DataType.Int32:
		return val{kI32, x}
	}
	if x == nil {
		if t == data.DataType.UInt32 || t == data.DataType.UInt64 {
			return nullOf(kI64)
		}
		return nullOf(kI32)
	}
	switch n := x.(type) {
	case int8:
		return val{kI32, int32(n)}
	case int16:
		return val{kI32, int32(n)}
	case uint8:
		return val{kI32, int32(n)}
	case uint16:
		return val{kI32, int32(n)}
	case uint32:
		return val{kI64, int64(n)}
	case uint64:
		if n > math.MaxInt64 {
			return val{kDbl, float64(n)}
		}
		return val{kI64, int64(n)}
	}
	panic(fmt.Sprintf("harness: column value %T", x))
}

func text(v val) string {
	switch v.k {
	case kBool:
		return strconv.FormatBool(v.x.(bool))
	case kI32:
		return strconv.Itoa(int(v.x.(int32)))
	case kI64:
		return strconv.FormatInt(v.x.(int64), 10)
	case kDec:
		return v.x.(decimal.Decimal).String()
	case kDbl:
		return strconv.FormatFloat(v.x.(float64), 'f', 6, 64)
	case kStr:
		return v.x.(string)
	case kGuid:
		g := v.x.(guid.Guid)
		return fmt.Sprintf("{%x-%x-%x-%x-%x}", g[0:4], g[4:6], g[6:8], g[8:10], g[10:16])
	default:
		return v.x.(time.Time).Format("2006-01-02T15:04:05.99-07:00")
	}
}

var (
	maxI64 = decimal.NewFromInt(math.MaxInt64)
	minI64 = decimal.NewFromInt(math.MinInt64)
)

func intPart(d decimal.Decimal) (int64, error) {
	t := d.Truncate(0)
	if t.GreaterThan(maxI64) || t.LessThan(minI64) {
		return 0, errSkip
	}
	return t.IntPart(), nil
}

func dec(i int64) val { return val{kDec, decimal.NewFromInt(i)} }

// parseGuid reads the textual forms of an identifier that are claimed.
func parseGuid(s string) (guid.Guid, error) {
	var g guid.Guid
	t := s
	if strings.HasPrefix(t, "{") && strings.HasSuffix(t, "}") && len(t) > 1 {
		t = t[1 : len(t)-1]
	}
	if len(t) == 36 && t[8] == '-' && t[13] == '-' && t[18] == '-' && t[23] == '-' {
		h := t[:8] + t[9:13] + t[14:18] + t[19:23] + t[24:]
		for i := range g {
			b, err := strconv.ParseUint(h[2*i:2*i+2], 16, 8)
			if err != nil {
				return guid.Guid{}, errSkip
			}
			g[i] = byte(b)
		}
		return g, nil
	}
	if len(s) < 32 {
		return guid.Guid{}, errArg
	}
	return guid.Guid{}, errSkip
}

const isoFormat = "2006-01-02T15:04:05.999999999Z07:00"

func parseTime(s string) (time.Time, error) {
	t, err := time.Parse(isoFormat, s)
	if err != nil {
		return t, errSkip
	}
	return t.UTC(), nil
}

// convert gives the value of v as type k.
func convert(v val, k kind) (val, error) {
	if v.null() {
		return nullOf(k), nil
	}
	if v.k == k {
		return v, nil
	}
	if k == kStr {
		return val{kStr, text(v)}, nil
	}
	var i int64
	switch v.k {
	case kBool:
		i = b2i(v.x.(bool))
	case kI32:
		i = int64(v.x.(int32))
	case kI64:
		i = v.x.(int64)
	case kTime:
		i = v.x.(time.Time).Unix()
	case kDec:
		d := v.x.(decimal.Decimal)
		switch k {
		case kBool:
			return boolean(!d.IsZero()), nil
		case kI32, kI64:
			n, err := intPart(d)
			if err != nil {
				return v, err
			}
			if k == kI32 {
				return val{k, int32(n)}, nil
			}
			return val{k, n}, nil
		case kDbl:
			f, _ := d.Float64()
			return val{k, f}, nil
		}
		return v, errType
	case kDbl:
		f := v.x.(float64)
		switch k {
		case kBool:
			return boolean(f != 0), nil
		case kI32:
			if !(f > -2147483649 && f < 2147483648) {
				return v, errSkip
			}
			return val{k, int32(f)}, nil
		case kI64:
			if !(f >= -9223372036854775808 && f < 9223372036854775808) {
				return v, errSkip
			}
			return val{k, int64(f)}, nil
		case kDec:
			if math.IsNaN(f) || math.IsInf(f, 0) {
				return v, errType
			}
			return val{k, decimal.NewFromFloat(f)}, nil
		}
		return v, errType
	case kStr:
		s := v.x.(string)
		switch k {
		case kBool:
			b, _ := strconv.ParseBool(s)
			return boolean(b), nil
		case kI32, kI64, kDec:
			d, err := decimal.NewFromString(s)
			if err != nil {
				d = decimal.Zero
			}
			if d.Exponent() > 100 || d.Exponent() < -100 {
				return v, errSkip
			}
			return convert(val{kDec, d}, k)
		case kDbl:
			f, _ := strconv.ParseFloat(s, 64)
			return val{k, f}, nil
		case kGuid:
			g, err := parseGuid(s)
			if err == errSkip {
				return v, err
			}
			return val{k, g}, nil
		case kTime:
			t, err := parseTime(s)
			if err != nil {
				return v, err
			}
			return val{k, t}, nil
		}
	case kGuid:
		return v, errType
	}
	switch k {
	case kBool:
		return boolean(i != 0), nil
	case kI32:
		return val{k, int32(i)}, nil
	case kI64:
		return val{k, i}, nil
	case kDec:
		return dec(i), nil
	case kDbl:
		return val{k, float64(i)}, nil
	}
	return v, errType
}

// sameValue compares the value the library computed with the reference.
func sameValue(got *data.ValueExpression, want val) bool {
	if got == nil || got.ValueType().String() != want.k.String() || got.IsNull() != want.null() {
		return false
	}
	if want.null() {
		return true
	}
	return sameX(got.Value(), want.x)
}

func sameX(got, want interface{}) bool {
	switch w := want.(type) {
	case nil:
		return got == nil
	case decimal.Decimal:
		g, ok := got.(decimal.Decimal)
		return ok && g.Equal(w)
	case time.Time:
		g, ok := got.(time.Time)
		return ok && g.Equal(w)
	case float64:
		g, ok := got.(float64)
		return ok && (g == w || g != g && w != w)
	case float32:
		g, ok := got.(float32)
		return ok && (g == w || g != g && w != w)
	default:
		return got == want
	}
}

func show(v *data.ValueExpression) string {
	if v == nil {
		return "nil"
	}
	if v.IsNull() {
		return v.ValueType().String() + "(null)"
	}
	return fmt.Sprintf("%v(%v)", v.ValueType(), v.Value())
}

var intBits = map[data.DataTypeEnum][2]int{ // bits, 1 when signed
	data.DataType.Int8: {8, 1}, data.DataType.Int16: {16, 1}, data.DataType.Int32: {32, 1}, data.DataType.Int64: {64, 1},
	data.DataType.UInt8: {8, 0}, data.DataType.UInt16: {16, 0}, data.DataType.UInt32: {32, 0}, data.DataType.UInt64: {64, 0},
}

func signedX(t data.DataTypeEnum, i int64) interface{} {
	switch t {
	case data.DataType.Int8:
		return int8(i)
	case data.DataType.Int16:
		return int16(i)
	case data.DataType.Int32:
		return int32(i)
	}
	return i
}

func unsignedX(t data.DataTypeEnum, u uint64) interface{} {
	switch t {
	case data.DataType.UInt8:
		return uint8(u)
	case data.DataType.UInt16:
		return uint16(u)
	case data.DataType.UInt32:
		return uint32(u)
	}
	return u
}

// toColumn is the value of a computed column whose expression has the value v.
func toColumn(v val, t data.DataTypeEnum) (interface{}, error) {
	if v.null() {
		return nil, nil
	}
	bits, isInt := intBits[t]
	if v.k == kStr && t != data.DataType.String {
		s := v.x.(string)
		switch {
		case isInt && bits[1] == 1:
			i, err := strconv.ParseInt(s, 10, bits[0])
			if err != nil || strings.TrimLeft(s, "+-") != "0" && strings.HasPrefix(strings.TrimLeft(s, "+-"), "0") {
				if _, err := strconv.ParseInt(s, 0, 64); err == nil && bits[0] == 64 {
					return nil, errSkip
				}
				if _, err := strconv.ParseInt(s, 0, bits[0]); err == nil {
					return nil, errSkip
				}
				return nil, errArg
			}
			return signedX(t, i), nil
		case isInt:
			u, err := strconv.ParseUint(s, 10, bits[0])
			if err != nil || s != "0" && strings.HasPrefix(s, "0") {
				if _, err := strconv.ParseUint(s, 0, bits[0]); err == nil {
					return nil, errSkip
				}
				return nil, errArg
			}
			return unsignedX(t, u), nil
		}
		switch t {
		case data.DataType.Boolean:
			b, err := strconv.ParseBool(s)
			if err != nil {
				return nil, errArg
			}
			return b, nil
		case data.DataType.Single, data.DataType.Double:
			f, err := strconv.ParseFloat(s, 64)
			if err != nil {
				return nil, errArg
			}
			if t == data.DataType.Single {
				return float32(f), nil
			}
			return f, nil
		case data.DataType.Decimal:
			d, err := decimal.NewFromString(s)
			if err != nil {
				return nil, errArg
			}
			if d.Exponent() > 100 || d.Exponent() < -100 {
				return nil, errSkip
			}
			return d, nil
		case data.DataType.Guid:
			g, err := parseGuid(s)
			if err != nil {
				return nil, err
			}
			return g, nil
		}
		return x2(convert(v, kTime))
	}
	if !isInt {
		if t == data.DataType.Single {
			f, err := convert(v, kDbl)
			if err != nil {
				return nil, err
			}
			return float32(f.x.(float64)), nil
		}
		return x2(convert(v, kindOfType[t]))
	}
	c, err := convert(v, kI64)
	if err != nil {
		return nil, err
	}
	i := c.x.(int64)
	if bits[1] == 1 {
		if lim := int64(1) << (bits[0] - 1); bits[0] < 64 && (i >= lim || i < -lim) {
			return nil, errSkip
		}
		return signedX(t, i), nil
	}
	if i < 0 || bits[0] < 64 && i >= int64(1)<<bits[0] {
		return nil, errSkip
	}
	return unsignedX(t, uint64(i)), nil
}

func x2(v val, err error) (interface{}, error) {
	if err != nil {
		return nil, err
	}
	return v.x, nil
}
