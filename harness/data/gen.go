package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"

	"verif/harness/metagen"
)

// style decides how expressions are written.
type style struct {
	r     *rand.Rand
	loose float64 // chance of leaving out parentheses that are not needed
}

func (s *style) word(w string) string {
	switch s.r.Intn(4) {
	case 0:
		return strings.ToLower(w)
	case 1:
		return strings.ToUpper(w)
	case 2:
		b := []byte(w)
		for i := range b {
			if s.r.Intn(2) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return w
}

func (s *style) gap(w *strings.Builder) {
	switch s.r.Intn(30) {
	case 0:
		w.WriteString(" /* note */ ")
	case 1:
		w.WriteString(" -- note\n")
	case 2:
		w.WriteString("\t\r\n ")
	default:
		w.WriteByte(' ')
	}
}

func render(r *rand.Rand, n node) string {
	var w strings.Builder
	s := &style{r: r, loose: []float64{0, .5, 1}[r.Intn(3)]}
	if l, ok := n.(*lit); ok && l.v.k == kGuid {
		return "(" + l.text + ")"
	}
	n.write(&w, s, 0)
	return w.String()
}

// wrap writes body in parentheses unless the context allows to leave them out.
func wrap(w *strings.Builder, s *style, need bool, body func()) {
	if need || s.r.Float64() >= s.loose {
		w.WriteByte('(')
		body()
		w.WriteByte(')')
		return
	}
	body()
}

func (n *lit) write(w *strings.Builder, s *style, _ int) {
	if strings.HasPrefix(n.text, "-") {
		w.WriteString("(" + n.text + ")")
		return
	}
	w.WriteString(n.text)
}

func (nullLit) write(w *strings.Builder, s *style, _ int) { w.WriteString(s.word("NULL")) }

func (n *col) write(w *strings.Builder, s *style, _ int) {
	if s.r.Intn(3) == 0 {
		w.WriteString(s.word(n.name))
		return
	}
	w.WriteString(n.name)
}

func (n *unary) write(w *strings.Builder, s *style, _ int) {
	w.WriteByte('(')
	w.WriteString(s.word(n.op))
	s.gap(w)
	w.WriteByte('(')
	n.a.write(w, s, 0)
	w.WriteString("))")
}

func mathOp(op string) bool {
	switch op {
	case "+", "-", "*", "/", "%":
		return true
	}
	return false
}

func (n *binary) write(w *strings.Builder, s *style, level int) {
	own := 2
	if logical(n.op) {
		own = 0
	} else if comparison(n.op) {
		own = 1
	}
	// Value operations are written in parentheses when they are operands of others.
	wrap(w, s, own < level || level == 3, func() {
		side := func(a node, left bool) {
			lv := own + 1
			if b, ok := a.(*binary); ok && own == 2 {
				// A chain of one operator groups to the left, and math binds tighter than bit operators.
				if left && b.op == n.op || mathOp(b.op) && !mathOp(n.op) {
					lv = 2
				}
			}
			if b, ok := a.(*binary); ok && own == 0 && left && b.op == n.op {
				lv = 0
			}
			a.write(w, s, lv)
		}
		side(n.l, true)
		s.gap(w)
		w.WriteString(s.word(n.op))
		s.gap(w)
		side(n.r, false)
	})
}

func (n *isNull) write(w *strings.Builder, s *style, level int) {
	wrap(w, s, level > 1, func() {
		n.a.write(w, s, 2)
		s.gap(w)
		w.WriteString(s.word("IS"))
		s.gap(w)
		if n.not != "" {
			w.WriteString(s.word(n.not) + " ")
		}
		w.WriteString(s.word("NULL"))
	})
}

func (n *inList) write(w *strings.Builder, s *style, level int) {
	wrap(w, s, level > 1, func() {
		n.a.write(w, s, 2)
		s.gap(w)
		if n.not != "" {
			w.WriteString(s.word(n.not) + " ")
		}
		w.WriteString(s.word("IN"))
		s.gap(w)
		if n.exact != "" {
			w.WriteString(s.word(n.exact) + " ")
		}
		list(w, s, n.list)
	})
}

func list(w *strings.Builder, s *style, a []node) {
	w.WriteByte('(')
	for i, x := range a {
		if i > 0 {
			w.WriteByte(',')
			s.gap(w)
		}
		x.write(w, s, 0)
	}
	w.WriteByte(')')
}

func (n *like) write(w *strings.Builder, s *style, level int) {
	wrap(w, s, level > 1, func() {
		n.a.write(w, s, 2)
		s.gap(w)
		if n.not != "" {
			w.WriteString(s.word(n.not) + " ")
		}
		w.WriteString(s.word("LIKE"))
		s.gap(w)
		if n.exact != "" {
			w.WriteString(s.word(n.exact) + " ")
		}
		n.pat.write(w, s, 2)
	})
}

func (n *call) write(w *strings.Builder, s *style, _ int) {
	w.WriteString(s.word(n.name))
	list(w, s, n.args)
}

// column of a table under test.
type column struct {
	name string
	t    data.DataTypeEnum
	expr node // computed
}

var kindOfType = map[data.DataTypeEnum]kind{
	data.DataType.String: kStr, data.DataType.Boolean: kBool, data.DataType.DateTime: kTime, data.DataType.Single: kDbl,
	data.DataType.Double: kDbl, data.DataType.Decimal: kDec, data.DataType.Guid: kGuid, data.DataType.Int8: kI32,
	data.DataType.Int16: kI32, data.DataType.Int32: kI32, data.DataType.Int64: kI64, data.DataType.UInt8: kI32,
	data.DataType.UInt16: kI32, data.DataType.UInt32: kI64, data.DataType.UInt64: kI64,
}

var typeOfKind = map[kind]data.DataTypeEnum{
	kBool: data.DataType.Boolean, kI32: data.DataType.Int32, kI64: data.DataType.Int64, kDec: data.DataType.Decimal,
	kDbl: data.DataType.Double, kStr: data.DataType.String, kGuid: data.DataType.Guid, kTime: data.DataType.DateTime,
}

var words = []string{"", "a", "Alpha", "ALPHA", "alpha", "alpha beta", "abcabcABC", "  pad\t", "12", "-3.5", "true", "False", "1e3", "0",
	"beta", "b", "B", "zz top", "a.b.c", "bcab", "Ünï", "x", "gamma ray", "9223372036854775807", "99999999999", "it's",
	"127", "128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296",
	"9223372036854775808", "18446744073709551615", "18446744073709551616",
	"a+b", "$1", "x$0y", "(a)", "[a]", "aaa", "ababa", "ÄbäB", "naïve NAÏVE", "ɐbⱯB", ".", "a*b", "9007199254740993.7", "0.12345678901234567891"}

func sampleText(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return metagen.GuidText(sampleGuid(r))
	case 1:
		return sampleTime(r).Format(isoFormat)
	case 2:
		n := r.Intn(9)
		b := make([]byte, n)
		for i := range b {
			b[i] = "abAB .1"[r.Intn(7)]
		}
		return string(b)
	}
	return words[r.Intn(len(words))]
}

var guidPool = func() (out []guid.Guid) {
	r := rand.New(rand.NewSource(77))
	for i := 0; i < 12; i++ {
		out = append(out, metagen.Guid(r))
	}
	// Identifiers that differ in a single byte order differently when bytes are mixed up.
	g := out[0]
	for i := 0; i < 16; i += 3 {
		h := g
		h[i] ^= 0x81
		out = append(out, h)
	}
	return append(out, guid.Empty)
}()

func sampleGuid(r *rand.Rand) guid.Guid {
	if r.Intn(4) == 0 {
		return metagen.Guid(r)
	}
	return guidPool[r.Intn(len(guidPool))]
}

// meetingTime makes instants likely to be the same or less than a second apart.
func meetingTime(r *rand.Rand) time.Time {
	return time.Date(2021, 3, 4, 1, 30, 0, r.Intn(3)*300e6, time.UTC)
}

func sampleTime(r *rand.Rand) time.Time {
	switch r.Intn(5) {
	case 0:
		return time.Date(2020+r.Intn(5), time.Month(1+r.Intn(12)), 28+r.Intn(4), 23, 59, 59, 999000000, time.UTC)
	case 1:
		return time.Date(2000, 2, 29, r.Intn(24), 0, 0, 0, time.UTC)
	case 2:
		return time.Date(1900+r.Intn(200), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
	}
	return time.Unix(1500000000+r.Int63n(2e8), int64(r.Intn(1000))*1e6).UTC()
}

func sampleInt(r *rand.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return []int64{math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 255, -128, 65535, math.MaxUint32, math.MaxInt32 + 1}[r.Intn(9)]
	case 1:
		return int64(r.Uint64()) >> uint(r.Intn(64))
	}
	return int64(r.Intn(14)) - 4
}

func sampleDec(r *rand.Rand) decimal.Decimal {
	switch r.Intn(4) {
	case 0:
		return decimal.New(r.Int63n(200)-100, -1)
	case 1:
		return decimal.New(int64(r.Uint64())>>uint(r.Intn(60)), int32(-r.Intn(8)))
	}
	return decimal.New(r.Int63n(40)-10, int32(-r.Intn(2)))
}

func sampleDbl(r *rand.Rand) float64 {
	switch r.Intn(6) {
	case 0:
		return []float64{math.NaN(), math.Inf(1), math.Inf(-1), 1e300, -1e-300, math.Copysign(0, -1), 1e16}[r.Intn(7)]
	case 1:
		return r.NormFloat64() * 1000
	}
	return float64(r.Intn(80)-20) / 4
}

// sample makes a stored value of a column type.
func sample(r *rand.Rand, t data.DataTypeEnum) interface{} {
	i := sampleInt(r)
	switch t {
	case data.DataType.String:
		return sampleText(r)
	case data.DataType.Boolean:
		return r.Intn(2) == 0
	case data.DataType.DateTime:
		t := sampleTime(r)
		if r.Intn(3) == 0 {
			t = t.Add(time.Duration(r.Intn(1000000)))
		}
		if r.Intn(4) == 0 {
			t = meetingTime(r)
		}
		if r.Intn(4) == 0 {
			t = t.In(time.FixedZone("", 3600*(r.Intn(9)-4)))
		}
		return t
	case data.DataType.Single:
		return float32(sampleDbl(r))
	case data.DataType.Double:
		return sampleDbl(r)
	case data.DataType.Decimal:
		return sampleDec(r)
	case data.DataType.Guid:
		return sampleGuid(r)
	case data.DataType.Int8:
		return int8(i)
	case data.DataType.Int16:
		return int16(i)
	case data.DataType.Int32:
		return int32(i)
	case data.DataType.Int64:
		return i
	case data.DataType.UInt8:
		return uint8(i)
	case data.DataType.UInt16:
		return uint16(i)
	case data.DataType.UInt32:
		return uint32(i)
	}
	return uint64(i)
}

// grower makes random expressions over the columns of a table.
type grower struct {
	r      *rand.Rand
	cols   []column
	wild   float64 // chance of an operand of an unexpected type
	nocols bool
}

func (g *grower) chance(p float64) bool { return g.r.Float64() < p }

func pick[T any](r *rand.Rand, a ...T) T { return a[r.Intn(len(a))] }

func (g *grower) literal(k kind) node {
	r := g.r
	neg := func(v val, text string) node {
		if strings.HasPrefix(text, "-") {
			return &unary{"-", &lit{v, text[1:]}}
		}
		return &lit{v, text}
	}
	switch k {
	case kBool:
		if r.Intn(2) == 0 {
			return &lit{boolean(true), pick(r, "True", "TRUE", "true")}
		}
		return &lit{boolean(false), pick(r, "False", "FALSE", "false")}
	case kI32:
		n := int32(sampleInt(r))
		if n < 0 {
			n = -(n + 1)
		}
		s := strconv.Itoa(int(n))
		if r.Intn(8) == 0 {
			s = fmt.Sprintf("0x%X", n)
		}
		var l node = &lit{val{k, n}, s}
		if r.Intn(3) == 0 {
			l = &unary{"-", l}
		}
		return l
	case kI64:
		n := sampleInt(r)
		if n < 0 {
			n = -(n + 1)
		}
		if n <= math.MaxInt32 {
			n += math.MaxInt32 + 1
		}
		s := strconv.FormatInt(n, 10)
		if r.Intn(8) == 0 {
			s = fmt.Sprintf("0x%x", n)
		}
		return &lit{val{k, n}, s}
	case kDec:
		d := sampleDec(r).Abs()
		s := d.String()
		if !strings.Contains(s, ".") {
			if r.Intn(10) == 0 {
				d = decimal.New(r.Int63n(1000)+1, 0).Mul(decimal.New(1, 19))
				s = d.String()
			} else {
				s += "."
			}
		} else if strings.HasPrefix(s, "0.") && r.Intn(2) == 0 {
			s = s[1:]
		}
		return neg(val{k, d}, s)
	case kDbl:
		f := math.Abs(sampleDbl(r))
		if f != f || math.IsInf(f, 0) {
			f = 2.5
		}
		s := strconv.FormatFloat(f, pick(r, byte('e'), byte('E')), -1, 64)
		return &lit{val{k, f}, s}
	case kStr:
		s := strings.ReplaceAll(sampleText(r), "'", "")
		if len(s) >= 32 {
			s = "word"
		}
		return &lit{val{k, s}, "'" + s + "'"}
	case kGuid:
		v := sampleGuid(r)
		s := metagen.GuidText(v)
		if r.Intn(2) == 0 {
			s = strings.ToUpper(s)
		}
		switch r.Intn(3) {
		case 0:
			s = "{" + s + "}"
		case 1:
			s = "'" + s + "'"
		}
		return &lit{val{k, v}, s}
	}
	t := sampleTime(r)
	switch r.Intn(3) {
	case 0:
		return &lit{val{k, t}, "#" + t.Format(isoFormat) + "#"}
	case 1:
		t = t.Truncate(time.Millisecond)
		return &lit{val{k, t}, "#" + t.Format("2006-01-02 15:04:05.999") + "#"}
	}
	t = time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
	return &lit{val{k, t}, "#" + t.Format(pick(r, "2006-01-02", "01/02/2006")) + "#"}
}

func (g *grower) column(k kind) node {
	var at []int
	for i, c := range g.cols {
		if kindOfType[c.t] == k {
			at = append(at, i)
		}
	}
	if len(at) == 0 || g.nocols {
		return g.literal(k)
	}
	i := at[g.r.Intn(len(at))]
	return &col{i, g.cols[i].name}
}

func (g *grower) leaf(k kind) node {
	if g.chance(.35) {
		return g.literal(k)
	}
	return g.column(k)
}

func (g *grower) upTo(k kind) kind { return kind(g.r.Intn(int(k) + 1)) }

// small makes an integer expression that is usually small.
func (g *grower) small(d int) node {
	if g.chance(.7) {
		var n node = &lit{val{kI32, int32(g.r.Intn(6))}, ""}
		n.(*lit).text = text(n.(*lit).v)
		if g.chance(.1) {
			n = &unary{"-", n}
		}
		return n
	}
	return g.grow(pick(g.r, kI32, kI32, kI64, kBool), d)
}

func (g *grower) ignore(args []node, d int) []node {
	if g.chance(.5) {
		args = append(args, g.grow(pick(g.r, kBool, kBool, kBool, kI32, kStr), min(d, 1)))
	}
	return args
}

func (g *grower) str(s string) node { return &lit{val{kStr, s}, "'" + s + "'"} }

// operandKinds picks the types of a comparison's operands, mostly compatible.
func (g *grower) operandKinds() (kind, kind) {
	l := kind(g.r.Intn(8))
	if g.chance(.5) {
		return l, l
	}
	switch {
	case l == kStr:
		return l, kind(g.r.Intn(8))
	case l.numeric():
		return l, pick(g.r, g.upTo(kDbl), g.upTo(kDbl), g.upTo(kDbl), kStr)
	}
	return l, pick(g.r, l, kStr)
}

// grow makes an expression meant to have the type k, at most d levels deep.
func (g *grower) grow(k kind, d int) node {
	r := g.r
	if g.chance(g.wild) {
		k = kind(r.Intn(8))
	}
	if d <= 0 || g.chance(.12) {
		return g.leaf(k)
	}
	d--
	// Forms available for every type.
	switch r.Intn(14) {
	case 0:
		return &call{"IIf", []node{g.grow(kBool, d), g.grow(k, d), g.grow(k, d)}}
	case 1:
		args := []node{g.grow(k, d), g.grow(k, d)}
		for g.chance(.3) {
			args = append(args, g.grow(k, d))
		}
		if g.chance(.3) {
			args[r.Intn(len(args)-1)+1] = nullLit{}
		}
		return &call{"Coalesce", args}
	case 2:
		return &call{"IsNull", []node{g.grow(k, d), g.literal(k)}}
	case 3:
		args := []node{g.grow(k, d), g.grow(k, d)}
		for g.chance(.4) {
			if k.numeric() && g.chance(.5) {
				args = append(args, g.grow(g.upTo(kDbl), d))
			} else {
				args = append(args, g.grow(k, d))
			}
		}
		return &call{pick(r, "MaxOf", "MinOf"), args}
	case 4:
		from := kind(r.Intn(8))
		names := map[kind][]string{kBool: {"Boolean", "Bool"}, kI32: {"Int32"}, kI64: {"Int64", "Int", "UInt16", "Int16"}, kDec: {"Decimal"},
			kDbl: {"Double", "Single", "Float", "Float64"}, kStr: {"String"}, kGuid: {"Guid", "Uuid"}, kTime: {"DateTime", "Date", "Time"}}[k]
		name := names[r.Intn(len(names))]
		if g.chance(.2) {
			name = "System." + name
		}
		switch {
		case g.chance(.03):
			name = "Thing"
		case g.chance(.3):
			name = strings.ToUpper(name)
		case g.chance(.3):
			name = strings.ToLower(name)
		}
		return &call{"Convert", []node{g.grow(from, d), g.str(name)}}
	}
	switch k {
	case kBool:
		return g.growBool(d)
	case kStr:
		return g.growStr(d)
	case kGuid:
		return g.leaf(k)
	case kTime:
		return &call{"DateAdd", []node{g.grow(pick(r, kTime, kTime, kTime, kStr), d), g.small(d), g.interval()}}
	}
	if k == kI32 && g.chance(.45) {
		return g.growI32(d)
	}
	switch r.Intn(8) {
	case 0:
		return &unary{pick(r, "-", "+", "-", "~", "NOT", "!"), g.grow(k, d)}
	case 1:
		if k == kDbl && g.chance(.5) {
			return &call{"Sqrt", []node{g.grow(g.upTo(kDbl), d)}}
		}
		return &call{pick(r, "Abs", "Ceiling", "Floor", "Round"), []node{g.grow(k, d)}}
	case 2:
		return &call{"Power", []node{g.grow(k, d), pick(r, g.small(d), g.grow(g.upTo(k), d))}}
	case 3:
		if k.integer() {
			return &binary{pick(r, "<<", ">>"), g.grow(k, d), g.small(d)}
		}
	case 4:
		if k.integer() {
			return &binary{pick(r, "%", "&", "|", "^", "XOR"), g.grow(k, d), g.grow(g.upTo(k), d)}
		}
	}
	l, rr := k, g.upTo(k)
	if g.chance(.5) {
		l, rr = rr, l
	}
	return &binary{pick(r, "+", "-", "*", "/"), g.grow(l, d), g.grow(rr, d)}
}

// focus makes a single operation over leaves that make a difference to it.
func (g *grower) focus() node {
	r := g.r
	text := func() node { return g.leaf(kStr) }
	if g.chance(.5) {
		s := pick(r, "abcabcABC", "aaa", "ababa", "a.b.c", "a+b+C", "x$0y$0", "ÄbäB", "ɐbⱯBɐ b", "ⱯɐbB", "naïve NAÏVE", "", " a b ", "AaBb", "1.5", "()()")
		text = func() node { return g.str(s) }
	}
	part := func() node {
		if g.chance(.2) {
			return g.leaf(kStr)
		}
		if g.chance(.3) {
			return g.str(pick(r, "b", "B", "c", "a", "ɐ"))
		}
		return g.str(pick(r, "a", "b", "ab", "aa", ".", "+", "$", "$0", "(", "Ä", "ä", "ï", "ɐ", "Ɐb", "bC", "ABC", " ", "*", "x", "C"))
	}
	index := func() node {
		n := int64(r.Intn(8)) - 1
		if g.chance(.15) {
			n = pick[int64](r, math.MaxInt32, math.MaxInt32+1, math.MaxInt64, math.MaxInt64-1, 31, 32, 33, 63, 64, 65, 100)
		}
		k, neg := kI32, n < 0
		if n < 0 {
			n = -n
		}
		var l node = &lit{val{k, int32(n)}, strconv.FormatInt(n, 10)}
		if n > math.MaxInt32 {
			l = &lit{val{kI64, n}, strconv.FormatInt(n, 10)}
		}
		if neg {
			l = &unary{"-", l}
		}
		return l
	}
	when := func() node { return g.leaf(pick(r, kTime, kTime, kTime, kTime, kStr)) }
	number := func() node { return g.leaf(g.upTo(kDbl)) }
	switch r.Intn(26) {
	case 24:
		return &unary{pick(r, "-", "-", "+", "~", "!"), g.leaf(pick(r, kI32, kI32, g.upTo(kDbl)))}
	case 23:
		return &binary{pick(r, "<", "<=", ">", ">=", "=", "==", "<>", "!=", "==="), g.leaf(kTime), pick(r, when(), g.meeting())}
	case 0, 1:
		return &call{"Replace", g.ignore([]node{text(), part(), g.str(pick(r, "", "z", "$0", "$1", "${0}", "aa", "\\"))}, 0)}
	case 2:
		return &call{"Split", g.ignore([]node{text(), part(), index()}, 0)}
	case 3:
		return &call{"SubStr", pick(r, []node{text(), index()}, []node{text(), index(), index()}, []node{text(), index(), index()})}
	case 4:
		return &call{"NthIndexOf", g.ignore([]node{text(), part(), index()}, 0)}
	case 5:
		return &call{pick(r, "IndexOf", "LastIndexOf", "StrCount", "Contains", "StartsWith", "EndsWith"), g.ignore([]node{text(), part()}, 0)}
	case 6:
		return &call{"StrCmp", g.ignore([]node{text(), text()}, 0)}
	case 7:
		return &call{pick(r, "Lower", "Upper", "Reverse", "Trim", "TrimLeft", "TrimRight", "Len"), []node{text()}}
	case 8:
		return &call{pick(r, "RegExVal", "RegExMatch"), []node{g.regex(), text()}}
	case 9, 10:
		return &call{"DatePart", []node{when(), g.interval()}}
	case 11, 12:
		return &call{"DateDiff", []node{when(), when(), g.interval()}}
	case 13:
		return &call{"DateAdd", []node{when(), index(), g.interval()}}
	case 14, 15:
		return &call{pick(r, "Abs", "Ceiling", "Floor", "Round", "Sqrt"), []node{number()}}
	case 16:
		return &call{"Power", []node{number(), pick(r, number(), index())}}
	case 17, 18:
		by := index()
		if g.chance(.3) {
			n := 1 + r.Intn(63)
			by = &unary{"-", &lit{val{kI32, int32(n)}, strconv.Itoa(n)}}
		}
		return &binary{pick(r, "<<", ">>"), g.leaf(pick(r, kI32, kI32, kI64, kBool)), by}
	case 19, 20:
		return &binary{pick(r, "+", "-", "*", "/", "%", "&", "|", "^", "XOR"), number(), number()}
	case 21:
		l, rr := g.operandKinds()
		return &binary{pick(r, "<", "<=", ">", ">=", "=", "==", "===", "<>", "!=", "!=="), g.leaf(l), g.leaf(rr)}
	case 22:
		return &like{text(), g.pattern(), pick(r, "", "NOT"), pick(r, "", "BINARY")}
	}
	return &call{"Convert", []node{g.leaf(kind(r.Intn(8))), g.str(pick(r, "Boolean", "Int32", "Int64", "Decimal", "Double", "String", "Guid", "DateTime"))}}
}

func (g *grower) meeting() node {
	t := meetingTime(g.r)
	return &lit{val{kTime, t}, "#" + t.Format(isoFormat) + "#"}
}

func (g *grower) interval() node {
	if g.chance(.02) {
		return g.str("Fortnight")
	}
	s := intervals[g.r.Intn(len(intervals))]
	switch g.r.Intn(4) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		s = strings.ToLower(s)
	case 2:
		s = " " + s + " "
	}
	return g.str(s)
}

func (g *grower) growI32(d int) node {
	r := g.r
	st := func() node { return g.grow(kStr, d) }
	when := func() node { return g.grow(pick(r, kTime, kTime, kTime, kStr), d) }
	switch r.Intn(8) {
	case 0:
		return &call{"Len", []node{st()}}
	case 1:
		return &call{pick(r, "IndexOf", "LastIndexOf"), g.ignore([]node{st(), g.part(d)}, d)}
	case 2:
		return &call{"NthIndexOf", g.ignore([]node{st(), g.part(d), g.small(d)}, d)}
	case 3:
		return &call{"StrCount", g.ignore([]node{st(), g.part(d)}, d)}
	case 4:
		return &call{"StrCmp", g.ignore([]node{st(), st()}, d)}
	case 5, 6:
		return &call{"DateDiff", []node{when(), when(), g.interval()}}
	}
	return &call{"DatePart", []node{when(), g.interval()}}
}

// part is text likely to occur in others.
func (g *grower) part(d int) node {
	if g.chance(.7) {
		return g.str(pick(g.r, "a", "b", "A", "ab", "c", " ", ".", "alpha", "pha", "beta", "bc", "B"))
	}
	return g.grow(kStr, d)
}

func (g *grower) pattern() node {
	core := pick(g.r, "a", "b", "al", "alpha", "beta", "A", "bc", "", "1")
	return g.str(pick(g.r, "%"+core, core+"%", "%"+core+"%", "*"+core, core+"*", "*"+core+"%", "a%b%", core))
}

func (g *grower) growBool(d int) node {
	r := g.r
	st := func() node { return g.grow(kStr, d) }
	not := func() string { return pick(r, "", "", "NOT", "!") }
	exact := func() string { return pick(r, "", "", "BINARY", "===") }
	switch r.Intn(14) {
	case 0, 1, 2, 3:
		l, rr := g.operandKinds()
		return &binary{pick(r, "<", "<=", ">", ">=", "=", "==", "===", "<>", "!=", "!=="), g.grow(l, d), g.grow(rr, d)}
	case 4, 5, 6:
		return &binary{pick(r, "AND", "OR", "&&", "||"), g.grow(kBool, d), g.grow(kBool, d)}
	case 7:
		return &unary{pick(r, "NOT", "!", "~"), g.grow(kBool, d)}
	case 8:
		return &isNull{g.grow(kind(r.Intn(8)), d), not()}
	case 9:
		l, rr := g.operandKinds()
		n := &inList{a: g.grow(l, d), not: not(), exact: exact()}
		for i := 1 + r.Intn(4); i > 0; i-- {
			n.list = append(n.list, g.grow(rr, d))
		}
		return n
	case 10:
		return &like{st(), g.pattern(), not(), exact()}
	case 11:
		return &call{pick(r, "Contains", "StartsWith", "EndsWith"), g.ignore([]node{st(), g.part(d)}, d)}
	case 12:
		if g.chance(.4) {
			return &call{"RegExMatch", []node{g.regex(), st()}}
		}
		if g.chance(.5) {
			return &call{pick(r, "IsDate", "IsInteger", "IsGuid", "IsNumeric"), []node{g.leaf(kStr)}}
		}
		return &call{pick(r, "IsDate", "IsInteger", "IsGuid", "IsNumeric"), []node{g.grow(kind(r.Intn(8)), d)}}
	}
	return &binary{pick(r, "+", "-", "&", "|", "^", "XOR"), g.grow(kBool, d), g.grow(kBool, d)}
}

func (g *grower) regex() node {
	return g.str(pick(g.r, "a+", "^[ab]*$", "(?i)alpha", "[0-9]+", ".*b", "^$", "b|c", "[", "(a)(b)?"))
}

func (g *grower) growStr(d int) node {
	r := g.r
	st := func() node { return g.grow(kStr, d) }
	switch r.Intn(8) {
	case 0, 1:
		if g.chance(.5) {
			return &binary{"+", st(), g.grow(kind(r.Intn(8)), d)}
		}
		return &binary{"+", g.grow(g.upTo(kDbl), d), st()}
	case 2:
		return &call{pick(r, "Lower", "Upper", "Reverse"), []node{st()}}
	case 3:
		return &call{pick(r, "Trim", "TrimLeft", "TrimRight"), []node{st()}}
	case 4:
		a := []node{st(), g.small(d)}
		if g.chance(.6) {
			a = append(a, g.small(d))
		}
		return &call{"SubStr", a}
	case 5:
		return &call{"Split", g.ignore([]node{st(), g.part(d), g.small(d)}, d)}
	case 6:
		return &call{"Replace", g.ignore([]node{st(), g.part(d), st()}, d)}
	}
	return &call{"RegExVal", []node{g.regex(), st()}}
}

// table is a table of the library together with its model.
type table struct {
	dt   *data.DataTable
	cols []column
	rows [][]interface{}
}

// env gives what expressions see in a row.
func (t *table) env(row int) env {
	return func(i int) (val, error) {
		x, err := t.cell(row, i)
		if err != nil {
			return val{}, err
		}
		return ofColumn(t.cols[i].t, x), nil
	}
}

// cell is the value of a field.
func (t *table) cell(row, i int) (interface{}, error) {
	c := t.cols[i]
	if c.expr == nil {
		return t.rows[row][i], nil
	}
	v, err := c.expr.eval(t.env(row))
	if err != nil {
		return nil, err
	}
	return toColumn(v, c.t)
}

var allTypes = []data.DataTypeEnum{data.DataType.String, data.DataType.Boolean, data.DataType.DateTime, data.DataType.Single, data.DataType.Double,
	data.DataType.Decimal, data.DataType.Guid, data.DataType.Int8, data.DataType.Int16, data.DataType.Int32, data.DataType.Int64,
	data.DataType.UInt8, data.DataType.UInt16, data.DataType.UInt32, data.DataType.UInt64}

// newTable makes a table with columns of all types and random rows.
func newTable(r *rand.Rand, ds *data.DataSet, name string, rows int, nulls float64) *table {
	t := &table{dt: ds.CreateTable(name)}
	n := 0
	add := func(dt data.DataTypeEnum) {
		n++
		t.cols = append(t.cols, column{name: fmt.Sprintf("%s_%d", dt.String(), n), t: dt})
	}
	for _, dt := range allTypes {
		add(dt)
	}
	for _, dt := range []data.DataTypeEnum{data.DataType.String, data.DataType.Boolean, data.DataType.DateTime, data.DataType.Guid, data.DataType.Decimal, data.DataType.String} {
		add(dt)
	}
	r.Shuffle(len(t.cols), func(i, j int) { t.cols[i], t.cols[j] = t.cols[j], t.cols[i] })
	for _, c := range t.cols {
		t.dt.AddColumn(t.dt.CreateColumn(c.name, c.t, ""))
	}
	for i := 0; i < rows; i++ {
		t.addRow(r, nulls)
	}
	ds.AddTable(t.dt)
	return t
}

func (t *table) addRow(r *rand.Rand, nulls float64) {
	row := make([]interface{}, len(t.cols))
	dr := t.dt.CreateRow()
	for j, c := range t.cols {
		if c.expr == nil && r.Float64() >= nulls {
			row[j] = sample(r, c.t)
			if err := dr.SetValue(j, row[j]); err != nil {
				panic(err)
			}
		}
	}
	t.rows = append(t.rows, row)
	t.dt.AddRow(dr)
}
