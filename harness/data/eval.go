package main

import (
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/guid"
)

// env gives the column values of the current row.
type env func(col int) (val, error)

type node interface {
	eval(e env) (val, error)
	// write renders the expression; level is what the context binds at: 0 anything, 1 predicate, 2 value.
	write(w *strings.Builder, s *style, level int)
}

// arith is the type an arithmetic operation is performed in.
func arith(op string, l, r kind) (kind, error) {
	if op == "+" && (l == kStr || r == kStr && l.numeric()) {
		return kStr, nil
	}
	if !l.numeric() || !r.numeric() {
		return 0, errType
	}
	if l > r {
		return l, nil
	}
	return r, nil
}

// compareKind is the type a comparison is performed in.
func compareKind(l, r kind) (kind, error) {
	switch {
	case l == kStr:
		return kStr, nil
	case l == kGuid || l == kTime:
		if r == l || r == kStr {
			return l, nil
		}
		return 0, errType
	case r == kStr:
		switch l {
		case kBool, kDbl:
			return l, nil
		}
		return kDec, nil
	case !r.numeric():
		return 0, errType
	case l > r:
		return l, nil
	}
	return r, nil
}

// order compares two values of one type; nan when they are not ordered.
func order(l, r val) (c int, nan bool) {
	sign := func(lt, gt bool) int { return int(b2i(gt) - b2i(lt)) }
	switch l.k {
	case kBool:
		a, b := b2i(l.x.(bool)), b2i(r.x.(bool))
		return sign(a < b, a > b), false
	case kI32:
		a, b := l.x.(int32), r.x.(int32)
		return sign(a < b, a > b), false
	case kI64:
		a, b := l.x.(int64), r.x.(int64)
		return sign(a < b, a > b), false
	case kDec:
		return l.x.(decimal.Decimal).Cmp(r.x.(decimal.Decimal)), false
	case kDbl:
		a, b := l.x.(float64), r.x.(float64)
		return sign(a < b, a > b), a != a || b != b
	case kStr:
		return strings.Compare(strings.ToUpper(l.x.(string)), strings.ToUpper(r.x.(string))), false
	case kGuid:
		return guid.Compare(l.x.(guid.Guid), r.x.(guid.Guid)), false
	default:
		return l.x.(time.Time).Compare(r.x.(time.Time)), false
	}
}

func compare(op string, l, r val) (val, error) {
	k, err := compareKind(l.k, r.k)
	if err != nil {
		return val{}, err
	}
	if l.null() || r.null() {
		return nullOf(kBool), nil
	}
	if l, err = convert(l, k); err != nil {
		return val{}, err
	}
	if r, err = convert(r, k); err != nil {
		return val{}, err
	}
	c, nan := order(l, r)
	eq := c == 0 && !nan
	if k == kStr {
		if op == "===" || op == "!==" {
			eq = l.x == r.x
		} else {
			eq = strings.EqualFold(l.x.(string), r.x.(string))
		}
	}
	switch op {
	case "<":
		return boolean(c < 0 && !nan), nil
	case "<=":
		return boolean(c <= 0 && !nan), nil
	case ">":
		return boolean(c > 0 && !nan), nil
	case ">=":
		return boolean(c >= 0 && !nan), nil
	case "=", "==", "===":
		return boolean(eq), nil
	default:
		return boolean(!eq), nil
	}
}

func integers(op string, a, b int64) (int64, error) {
	switch op {
	case "+":
		return a + b, nil
	case "-":
		return a - b, nil
	case "*":
		return a * b, nil
	case "&":
		return a & b, nil
	case "|":
		return a | b, nil
	case "^", "XOR":
		return a ^ b, nil
	}
	if b == 0 {
		return 0, errZero
	}
	if op == "/" {
		return a / b, nil
	}
	return a % b, nil
}

func operate(op string, l, r val) (val, error) {
	var k kind
	var err error
	switch op {
	case "%", "&", "|", "^", "XOR":
		if !l.k.integer() || !r.k.integer() {
			return val{}, errType
		}
		k = max(l.k, r.k)
	default:
		if k, err = arith(op, l.k, r.k); err != nil {
			return val{}, err
		}
	}
	if l.null() || r.null() {
		return nullOf(k), nil
	}
	if l, err = convert(l, k); err != nil {
		return val{}, err
	}
	if r, err = convert(r, k); err != nil {
		return val{}, err
	}
	switch k {
	case kStr:
		return val{k, l.x.(string) + r.x.(string)}, nil
	case kBool:
		if op == "*" || op == "/" || op == "%" {
			return val{}, errType
		}
		n, err := integers(op, b2i(l.x.(bool)), b2i(r.x.(bool)))
		return boolean(n != 0), err
	case kI32:
		n, err := integers(op, int64(l.x.(int32)), int64(r.x.(int32)))
		return val{k, int32(n)}, err
	case kI64:
		n, err := integers(op, l.x.(int64), r.x.(int64))
		return val{k, n}, err
	case kDec:
		a, b := l.x.(decimal.Decimal), r.x.(decimal.Decimal)
		switch op {
		case "+":
			return val{k, a.Add(b)}, nil
		case "-":
			return val{k, a.Sub(b)}, nil
		case "*":
			return val{k, a.Mul(b)}, nil
		}
		if b.IsZero() {
			return val{}, errZero
		}
		return val{k, a.Div(b)}, nil
	default:
		a, b := l.x.(float64), r.x.(float64)
		switch op {
		case "+":
			return val{k, a + b}, nil
		case "-":
			return val{k, a - b}, nil
		case "*":
			return val{k, a * b}, nil
		}
		return val{k, a / b}, nil
	}
}

func asInt(v val) int64 {
	switch x := v.x.(type) {
	case bool:
		return b2i(x)
	case int32:
		return int64(x)
	default:
		return v.x.(int64)
	}
}

func shift(left bool, l, r val) (val, error) {
	if l.null() {
		return l, nil
	}
	if !r.k.integer() {
		return val{}, errType
	}
	if r.null() {
		return val{}, errNull
	}
	n := asInt(r)
	if !l.k.integer() {
		return val{}, errType
	}
	bits := int64(64)
	if l.k == kI32 {
		bits = 32
	}
	if n >= bits && left && l.k != kBool {
		return convert(val{kI32, int32(0)}, l.k)
	}
	if n >= bits && l.k != kBool {
		n = bits - 1
	}
	if n >= bits || n <= -bits {
		return val{}, errSkip
	}
	if n < 0 {
		n += bits
	}
	switch l.k {
	case kBool:
		if left {
			return boolean(l.x.(bool)), nil
		}
		return boolean(l.x.(bool) && n == 0), nil
	case kI32:
		if left {
			return val{kI32, int32(uint32(l.x.(int32)) << uint(n))}, nil
		}
		return val{kI32, int32(math.Floor(float64(l.x.(int32)) / math.Pow(2, float64(n))))}, nil
	default:
		if left {
			return val{kI64, int64(uint64(l.x.(int64)) << uint(n))}, nil
		}
		return val{kI64, l.x.(int64) >> uint(n)}, nil
	}
}

type lit struct {
	v    val
	text string
}

func (n *lit) eval(env) (val, error) { return n.v, nil }

// nullLit is the NULL literal where the type does not matter.
type nullLit struct{}

func (nullLit) eval(env) (val, error) { return nullOf(kBool), nil }

type col struct {
	i    int
	name string
}

func (n *col) eval(e env) (val, error) { return e(n.i) }

type unary struct {
	op string
	a  node
}

func (n *unary) eval(e env) (val, error) {
	v, err := n.a.eval(e)
	if err != nil || v.null() {
		return v, err
	}
	op := n.op
	if op == "NOT" || op == "!" {
		op = "~"
	}
	switch v.k {
	case kBool:
		if op == "~" {
			return boolean(!v.x.(bool)), nil
		}
		return v, errType
	case kI32:
		i := v.x.(int32)
		return val{v.k, map[string]int32{"+": i, "-": -i, "~": -1 - i}[op]}, nil
	case kI64:
		i := v.x.(int64)
		return val{v.k, map[string]int64{"+": i, "-": -i, "~": -1 - i}[op]}, nil
	case kDec:
		switch op {
		case "+":
			return v, nil
		case "-":
			return val{v.k, v.x.(decimal.Decimal).Neg()}, nil
		}
	case kDbl:
		switch op {
		case "+":
			return v, nil
		case "-":
			return val{v.k, -v.x.(float64)}, nil
		}
	}
	return v, errType
}

type binary struct {
	op   string
	l, r node
}

func logical(op string) bool {
	return op == "AND" || op == "OR" || op == "&&" || op == "||"
}

func comparison(op string) bool {
	switch op {
	case "<", "<=", ">", ">=", "=", "==", "===", "<>", "!=", "!==":
		return true
	}
	return false
}

func (n *binary) eval(e env) (val, error) {
	l, err := n.l.eval(e)
	if err != nil {
		return l, err
	}
	r, err := n.r.eval(e)
	if err != nil {
		return r, err
	}
	switch {
	case logical(n.op):
		if l.k != kBool || r.k != kBool {
			return val{}, errType
		}
		if l.null() || r.null() {
			return nullOf(kBool), nil
		}
		if n.op == "AND" || n.op == "&&" {
			return boolean(l.x.(bool) && r.x.(bool)), nil
		}
		return boolean(l.x.(bool) || r.x.(bool)), nil
	case comparison(n.op):
		return compare(n.op, l, r)
	case n.op == "<<" || n.op == ">>":
		return shift(n.op == "<<", l, r)
	}
	return operate(n.op, l, r)
}

type isNull struct {
	a   node
	not string
}

func (n *isNull) eval(e env) (val, error) {
	v, err := n.a.eval(e)
	if err != nil {
		return v, err
	}
	return boolean(v.null() == (n.not == "")), nil
}

type inList struct {
	a     node
	list  []node
	not   string
	exact string
}

func (n *inList) eval(e env) (val, error) {
	v, err := n.a.eval(e)
	if err != nil {
		return v, err
	}
	if v.null() {
		return nullOf(kBool), nil
	}
	op := "="
	if n.exact != "" {
		op = "==="
	}
	unknown := false
	for _, a := range n.list {
		x, err := a.eval(e)
		if err != nil {
			return x, err
		}
		c, err := compare(op, v, x)
		if err != nil {
			return c, err
		}
		if c.null() {
			unknown = true
		} else if c.x.(bool) {
			return boolean(n.not == ""), nil
		}
	}
	if unknown {
		return val{}, errSkip
	}
	return boolean(n.not != ""), nil
}

type like struct {
	a, pat node
	not    string
	exact  string
}

func (n *like) eval(e env) (val, error) {
	v, err := n.a.eval(e)
	if err != nil {
		return v, err
	}
	p, err := n.pat.eval(e)
	if err != nil {
		return p, err
	}
	if v.null() {
		return nullOf(kBool), nil
	}
	if v.k != kStr || p.k != kStr {
		return v, errType
	}
	if p.null() {
		return p, errNull
	}
	s, t := v.x.(string), strings.ReplaceAll(p.x.(string), "%", "*")
	if n.exact == "" {
		s, t = strings.ToUpper(s), strings.ToUpper(t)
	}
	core := t
	first, last := false, false
	if strings.HasPrefix(core, "*") {
		first, core = true, core[1:]
		last = core == ""
	}
	if strings.HasSuffix(core, "*") {
		last, core = true, core[:len(core)-1]
	}
	if !first && !last {
		return v, errSkip
	}
	if strings.Contains(core, "*") {
		return v, errArg
	}
	var m bool
	switch {
	case first && last:
		m = strings.Contains(s, core)
	case first:
		m = strings.HasSuffix(s, core)
	default:
		m = strings.HasPrefix(s, core)
	}
	return boolean(m == (n.not == "")), nil
}

type call struct {
	name string
	args []node
}

// arity of every function: minimum and maximum number of arguments.
var arity = map[string][2]int{
	"Abs": {1, 1}, "Ceiling": {1, 1}, "Coalesce": {2, 99}, "Convert": {2, 2}, "Contains": {2, 3}, "DateAdd": {3, 3}, "DateDiff": {3, 3},
	"DatePart": {2, 2}, "EndsWith": {2, 3}, "Floor": {1, 1}, "IIf": {3, 3}, "IndexOf": {2, 3}, "IsDate": {1, 1}, "IsInteger": {1, 1},
	"IsGuid": {1, 1}, "IsNull": {2, 2}, "IsNumeric": {1, 1}, "LastIndexOf": {2, 3}, "Len": {1, 1}, "Lower": {1, 1}, "MaxOf": {2, 99},
	"MinOf": {2, 99}, "NthIndexOf": {3, 4}, "Power": {2, 2}, "RegExMatch": {2, 2}, "RegExVal": {2, 2}, "Replace": {3, 4}, "Reverse": {1, 1},
	"Round": {1, 1}, "Split": {3, 4}, "Sqrt": {1, 1}, "StartsWith": {2, 3}, "StrCount": {2, 3}, "StrCmp": {2, 3}, "SubStr": {2, 3},
	"Trim": {1, 1}, "TrimLeft": {1, 1}, "TrimRight": {1, 1}, "Upper": {1, 1}, "Now": {0, 0}, "UtcNow": {0, 0},
}

func typeByName(s string) (kind, bool) {
	s = strings.TrimPrefix(strings.ToUpper(s), "SYSTEM.")
	for i, n := range kindNames {
		if strings.ToUpper(n) == s {
			return kind(i), true
		}
	}
	switch {
	case s == "SINGLE" || strings.HasPrefix(s, "FLOAT"):
		return kDbl, true
	case s == "BOOL":
		return kBool, true
	case strings.HasPrefix(s, "INT") || strings.HasPrefix(s, "UINT"):
		return kI64, true
	case s == "DATE" || s == "TIME":
		return kTime, true
	case s == "UUID":
		return kGuid, true
	}
	return 0, false
}

// occurrences lists the positions of all, possibly overlapping, occurrences.
func occurrences(s, t string) (at []int) {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			at = append(at, i)
		}
	}
	return
}

func selfOverlaps(t string) bool {
	for n := 1; n < len(t); n++ {
		if t[:n] == t[len(t)-n:] {
			return true
		}
	}
	return false
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// plainCase tells whether every character of a text has at most one counterpart in the other case.
func plainCase(s string) bool {
	for _, c := range s {
		if c >= 0x180 && c != 'ɐ' && c != 'Ɐ' || c == 'ß' || c == 'ı' || c == 'İ' || c == 'ſ' || c == 'ÿ' {
			return false
		}
	}
	return true
}

func (n *call) eval(e env) (val, error) {
	if a := arity[n.name]; len(n.args) < a[0] || len(n.args) > a[1] {
		return val{}, errArg
	}
	switch n.name {
	case "IIf":
		c, err := n.args[0].eval(e)
		if err != nil {
			return c, err
		}
		if c.k != kBool {
			return c, errType
		}
		if !c.null() && c.x.(bool) {
			return n.args[1].eval(e)
		}
		return n.args[2].eval(e)
	case "Coalesce":
		var first val
		for i, a := range n.args {
			v, err := a.eval(e)
			if err != nil || !v.null() {
				return v, err
			}
			if i == 0 {
				first = v
			}
		}
		return first, nil
	case "Now", "UtcNow":
		return val{}, errSkip
	}
	args := make([]val, len(n.args))
	for i, a := range n.args {
		v, err := a.eval(e)
		if err != nil {
			return v, err
		}
		args[i] = v
	}
	switch n.name {
	case "Convert":
		if args[1].k != kStr {
			return val{}, errType
		}
		if args[1].null() {
			return val{}, errNull
		}
		k, ok := typeByName(args[1].x.(string))
		if !ok {
			return val{}, errArg
		}
		return convert(args[0], k)
	case "IsNull":
		if args[1].null() {
			return val{}, errNull
		}
		if args[0].null() {
			return args[1], nil
		}
		return args[0], nil
	case "MaxOf", "MinOf":
		op := ">"
		if n.name == "MinOf" {
			op = "<"
		}
		best := args[0]
		for _, v := range args[1:] {
			if v.k != best.k && !(v.k.numeric() && best.k.numeric()) {
				if best.k == kStr || v.k == kStr {
					return val{}, errSkip
				}
				return val{}, errType
			}
			c, err := compare(op, v, best)
			if err != nil {
				return c, err
			}
			if best.null() && !v.null() || !c.null() && c.x.(bool) {
				best = v
			}
		}
		return best, nil
	case "Abs", "Ceiling", "Floor", "Round", "Sqrt", "Power":
		return numeric(n.name, args)
	case "IsDate", "IsGuid", "IsInteger", "IsNumeric":
		return test(n.name, args[0])
	case "DateAdd", "DateDiff", "DatePart":
		return dates(n.name, args)
	}
	return strs(n.name, args)
}

func test(name string, v val) (val, error) {
	if v.null() {
		return boolean(false), nil
	}
	if v.k != kStr {
		switch name {
		case "IsDate":
			return boolean(v.k == kTime), nil
		case "IsGuid":
			return boolean(v.k == kGuid), nil
		case "IsInteger":
			return boolean(v.k.integer()), nil
		}
		return boolean(v.k.numeric()), nil
	}
	s := v.x.(string)
	switch name {
	case "IsDate":
		_, err := parseTime(s)
		if err != nil && s != "" && strings.ContainsAny(s, "0123456789") {
			return v, errSkip
		}
		return boolean(err == nil), nil
	case "IsGuid":
		_, err := parseGuid(s)
		if err == errSkip {
			return v, err
		}
		return boolean(err == nil), nil
	case "IsInteger":
		_, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			if _, err := strconv.ParseInt(s, 0, 64); err == nil {
				return v, errSkip // other bases
			}
		} else if _, err := strconv.ParseInt(s, 0, 64); err != nil {
			return v, errSkip // leading zeros
		}
		return boolean(err == nil), nil
	}
	_, err := strconv.ParseFloat(s, 64)
	if err != nil {
		if _, err := decimal.NewFromString(s); err == nil {
			return v, errSkip
		}
	} else if strings.ContainsAny(s, "xXpP_iInN") {
		return v, errSkip
	}
	return boolean(err == nil), nil
}

func numeric(name string, a []val) (val, error) {
	v := a[0]
	if !v.k.numeric() {
		return v, errType
	}
	if name == "Power" {
		p := a[1]
		if !p.k.numeric() {
			return v, errType
		}
		if v.null() || p.null() {
			return nullOf(v.k), nil
		}
		k := max(v.k, p.k)
		v, err := convert(v, k)
		if err != nil {
			return v, err
		}
		if p, err = convert(p, k); err != nil {
			return p, err
		}
		switch k {
		case kBool:
			return boolean(v.x.(bool) || !p.x.(bool)), nil
		case kI32, kI64:
			f := math.Pow(float64(asInt(v)), float64(asInt(p)))
			if k == kI32 {
				return convert(val{kDbl, f}, kI32)
			}
			if math.Abs(f) >= 1<<53 {
				return v, errSkip
			}
			return convert(val{kDbl, f}, kI64)
		case kDec:
			d, x := v.x.(decimal.Decimal), p.x.(decimal.Decimal)
			if !x.IsInteger() || x.Abs().GreaterThan(decimal.NewFromInt(12)) || d.Coefficient().BitLen() > 64 || d.Exponent() < -12 || d.Exponent() > 6 {
				return v, errSkip
			}
			if x.IsNegative() {
				if d.IsZero() {
					return v, errZero
				}
				return v, errSkip
			}
			out := decimal.NewFromInt(1)
			for i := int64(0); i < x.IntPart(); i++ {
				out = out.Mul(d)
			}
			return val{k, out}, nil
		}
		return val{k, math.Pow(v.x.(float64), p.x.(float64))}, nil
	}
	if v.null() {
		return v, nil
	}
	if name == "Sqrt" {
		f, err := convert(v, kDbl)
		if err != nil {
			return v, err
		}
		return val{kDbl, math.Sqrt(f.x.(float64))}, nil
	}
	switch v.k {
	case kDec:
		d := v.x.(decimal.Decimal)
		switch name {
		case "Abs":
			return val{v.k, d.Abs()}, nil
		case "Ceiling":
			return val{v.k, d.Ceil()}, nil
		case "Floor":
			return val{v.k, d.Floor()}, nil
		}
		return val{v.k, d.Round(0)}, nil
	case kDbl:
		f := v.x.(float64)
		switch name {
		case "Abs":
			return val{v.k, math.Abs(f)}, nil
		case "Ceiling":
			return val{v.k, math.Ceil(f)}, nil
		case "Floor":
			return val{v.k, math.Floor(f)}, nil
		}
		return val{v.k, math.Round(f)}, nil
	}
	if name == "Abs" {
		switch x := v.x.(type) {
		case int32:
			return val{v.k, max(x, -x)}, nil
		case int64:
			return val{v.k, max(x, -x)}, nil
		}
	}
	return v, nil
}

var intervals = []string{"Year", "Month", "DayOfYear", "Day", "Week", "WeekDay", "Hour", "Minute", "Second", "Millisecond"}

func interval(s string) (string, bool) {
	for _, n := range intervals {
		if strings.EqualFold(n, strings.TrimSpace(s)) {
			return n, true
		}
	}
	return "", false
}

var unitOf = map[string]time.Duration{"Hour": time.Hour, "Minute": time.Minute, "Second": time.Second, "Millisecond": time.Millisecond,
	"DayOfYear": 24 * time.Hour, "Day": 24 * time.Hour, "WeekDay": 24 * time.Hour, "Week": 7 * 24 * time.Hour}

func dates(name string, a []val) (val, error) {
	isDate := func(v val) bool { return v.k == kTime || v.k == kStr }
	last := a[len(a)-1]
	if !isDate(a[0]) || last.k != kStr {
		return val{}, errType
	}
	if name == "DateDiff" && !isDate(a[1]) || name == "DateAdd" && !a[1].k.integer() {
		return val{}, errType
	}
	if last.null() || name == "DateAdd" && a[1].null() {
		return val{}, errNull
	}
	if a[0].null() || name == "DateDiff" && a[1].null() {
		if name == "DateAdd" {
			return a[0], nil
		}
		return nullOf(kI32), nil
	}
	v, err := convert(a[0], kTime)
	if err != nil {
		return v, err
	}
	t := v.x.(time.Time)
	iv, ok := interval(last.x.(string))
	if name == "DateDiff" {
		v, err := convert(a[1], kTime)
		if err != nil {
			return v, err
		}
		if !ok {
			return val{}, errArg
		}
		u := v.x.(time.Time)
		if iv == "Year" {
			return val{kI32, int32(u.Year() - t.Year())}, nil
		}
		if iv == "Month" {
			return val{kI32, int32((u.Year()*12 + int(u.Month())) - (t.Year()*12 + int(t.Month())))}, nil
		}
		if s := u.Unix() - t.Unix(); s > 9e9 || s < -9e9 {
			return val{}, errSkip
		}
		n := int64(u.Sub(t) / unitOf[iv])
		if n > math.MaxInt32 || n < math.MinInt32 {
			return val{}, errSkip
		}
		return val{kI32, int32(n)}, nil
	}
	if !ok {
		return val{}, errArg
	}
	if name == "DateAdd" {
		n := asInt(a[1])
		var out time.Time
		if iv == "Year" || iv == "Month" {
			if n > 200000 || n < -200000 {
				return val{}, errSkip
			}
			if iv == "Year" {
				out = t.AddDate(int(n), 0, 0)
			} else {
				out = t.AddDate(0, int(n), 0)
			}
		} else {
			u := unitOf[iv]
			if n > int64(math.MaxInt64/u) || n < -int64(math.MaxInt64/u) {
				return val{}, errSkip
			}
			out = t.Add(time.Duration(n) * u)
		}
		return val{kTime, out}, nil
	}
	var n int
	switch iv {
	case "Year":
		n = t.Year()
	case "Month":
		n = int(t.Month())
	case "DayOfYear":
		n = t.YearDay()
	case "Day":
		n = t.Day()
	case "Week":
		_, n = t.ISOWeek()
	case "WeekDay":
		n = int(t.Weekday()) + 1
	case "Hour":
		n = t.Hour()
	case "Minute":
		n = t.Minute()
	case "Second":
		n = t.Second()
	default:
		n = t.Nanosecond() / 1000000
	}
	return val{kI32, int32(n)}, nil
}

func strs(name string, a []val) (val, error) {
	if a[0].k != kStr {
		return val{}, errType
	}
	i32 := func(n int) (val, error) { return val{kI32, int32(n)}, nil }
	switch name {
	case "Len", "Lower", "Upper", "Trim", "TrimLeft", "TrimRight", "Reverse":
		if a[0].null() {
			if name == "Len" {
				return nullOf(kI32), nil
			}
			return a[0], nil
		}
		s := a[0].x.(string)
		switch name {
		case "Len":
			if !ascii(s) {
				return val{}, errSkip
			}
			return i32(len(s))
		case "Lower":
			return val{kStr, strings.ToLower(s)}, nil
		case "Upper":
			return val{kStr, strings.ToUpper(s)}, nil
		case "Reverse":
			r := []rune(s)
			var b strings.Builder
			for i := len(r) - 1; i >= 0; i-- {
				b.WriteRune(r[i])
			}
			return val{kStr, b.String()}, nil
		}
		r := []rune(s)
		for name != "TrimRight" && len(r) > 0 && unicode.IsSpace(r[0]) {
			r = r[1:]
		}
		for name != "TrimLeft" && len(r) > 0 && unicode.IsSpace(r[len(r)-1]) {
			r = r[:len(r)-1]
		}
		return val{kStr, string(r)}, nil
	case "SubStr":
		for _, v := range a[1:] {
			if !v.k.integer() {
				return val{}, errType
			}
		}
		if a[1].null() {
			return val{}, errNull
		}
		if a[0].null() {
			return a[0], nil
		}
		s := a[0].x.(string)
		if !ascii(s) {
			return val{}, errSkip
		}
		i, n := asInt(a[1]), int64(len(s))
		if i < 0 || i >= n {
			return val{kStr, ""}, nil
		}
		end := n
		if len(a) == 3 && !a[2].null() {
			l := asInt(a[2])
			if l <= 0 {
				return val{kStr, ""}, nil
			}
			if l < n-i {
				end = i + l
			}
		}
		return val{kStr, s[i:end]}, nil
	}
	if a[1].k != kStr {
		return val{}, errType
	}
	fixed := 2
	switch name {
	case "Replace":
		if a[2].k != kStr {
			return val{}, errType
		}
		fixed = 3
	case "NthIndexOf", "Split":
		if !a[2].k.integer() {
			return val{}, errType
		}
		fixed = 3
	}
	switch name {
	case "RegExMatch", "RegExVal":
		k := kBool
		if name == "RegExVal" {
			k = kStr
		}
		if a[0].null() || a[1].null() {
			return nullOf(k), nil
		}
		re, err := regexp.Compile(a[0].x.(string))
		if err != nil {
			return val{}, errArg
		}
		s := a[1].x.(string)
		if k == kBool {
			return boolean(re.MatchString(s)), nil
		}
		return val{kStr, re.FindString(s)}, nil
	case "Replace", "NthIndexOf", "Split":
		if a[1].null() || a[2].null() {
			return val{}, errNull
		}
	case "IndexOf", "LastIndexOf":
		if a[1].null() {
			return val{}, errNull
		}
	case "StrCount":
		if a[0].null() || a[1].null() || a[1].x.(string) == "" {
			return i32(0)
		}
	case "StrCmp":
		if a[0].null() || a[1].null() {
			return val{}, errSkip
		}
	}
	if a[0].null() {
		switch name {
		case "Replace", "Split":
			return a[0], nil
		case "IndexOf", "LastIndexOf", "NthIndexOf":
			return nullOf(kI32), nil
		}
		return nullOf(kBool), nil
	}
	if a[1].null() { // Contains, StartsWith, EndsWith
		return boolean(false), nil
	}
	ignore := false
	if len(a) > fixed {
		c, err := convert(a[fixed], kBool)
		if err != nil {
			return val{}, err
		}
		ignore = !c.null() && c.x.(bool)
	}
	s, t := a[0].x.(string), a[1].x.(string)
	os := s
	if ignore {
		if s, t = strings.ToUpper(s), strings.ToUpper(t); !ascii(os) || !ascii(t) {
			switch name {
			case "IndexOf", "LastIndexOf", "NthIndexOf", "Split", "Replace":
				if !plainCase(os) || !plainCase(a[1].x.(string)) {
					return val{}, errSkip
				}
			}
		}
	}
	// Positions are those in the text as given.
	given := func(p int) int { return p }
	if ignore {
		from := map[int]int{len(s): len(os)}
		n := 0
		for i, c := range os {
			from[n] = i
			n += len(strings.ToUpper(string(c)))
		}
		given = func(p int) int { return from[p] }
	}
	at := occurrences(s, t)
	switch name {
	case "Contains":
		return boolean(len(at) > 0), nil
	case "StartsWith":
		return boolean(len(s) >= len(t) && s[:len(t)] == t), nil
	case "EndsWith":
		return boolean(len(s) >= len(t) && s[len(s)-len(t):] == t), nil
	case "StrCmp":
		return i32(strings.Compare(s, t))
	case "IndexOf":
		if len(at) == 0 {
			return i32(-1)
		}
		return i32(given(at[0]))
	case "LastIndexOf":
		if len(at) == 0 {
			return i32(-1)
		}
		return i32(given(at[len(at)-1]))
	case "NthIndexOf":
		i := asInt(a[2])
		if t == "" || selfOverlaps(t) {
			return val{}, errSkip
		}
		if i < 0 || i >= int64(len(at)) {
			return i32(-1)
		}
		return i32(given(at[i]))
	}
	// Non-overlapping occurrences, left to right.
	if t == "" {
		return val{}, errSkip
	}
	var cut []int
	for _, p := range at {
		if len(cut) == 0 || p >= cut[len(cut)-1]+len(t) {
			cut = append(cut, p)
		}
	}
	switch name {
	case "StrCount":
		return i32(len(cut))
	case "Split":
		i := asInt(a[2])
		if i < 0 || i > int64(len(cut)) {
			return nullOf(kStr), nil
		}
		from, to := 0, len(s)
		if i > 0 {
			from = cut[i-1] + len(t)
		}
		if i < int64(len(cut)) {
			to = cut[i]
		}
		return val{kStr, os[given(from):given(to)]}, nil
	}
	var b strings.Builder
	from := 0
	for _, p := range cut {
		b.WriteString(os[given(from):given(p)])
		b.WriteString(a[2].x.(string))
		from = p + len(t)
	}
	b.WriteString(os[given(from):])
	return val{kStr, b.String()}, nil
}
