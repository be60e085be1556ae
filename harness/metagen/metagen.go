// Package metagen generates metadata documents together with a model of their content.
package metagen

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
)

// Col is a column of the model.
type Col struct {
	Name string
	Type data.DataTypeEnum
	Expr string // computed
	XSD  string // overrides the XSD type name, for unsupported types
}

// Table is a table of the model. A nil cell is null.
type Table struct {
	Name string
	Cols []Col
	Rows [][]interface{}
}

// Doc is a whole data set.
type Doc struct {
	Name   string
	Tables []*Table
}

var xsd = map[data.DataTypeEnum]string{
	data.DataType.String: "string", data.DataType.Boolean: "boolean", data.DataType.DateTime: "dateTime", data.DataType.Single: "float",
	data.DataType.Double: "double", data.DataType.Decimal: "decimal", data.DataType.Guid: "string", data.DataType.Int8: "byte",
	data.DataType.Int16: "short", data.DataType.Int32: "int", data.DataType.Int64: "long", data.DataType.UInt8: "unsignedByte",
	data.DataType.UInt16: "unsignedShort", data.DataType.UInt32: "unsignedInt", data.DataType.UInt64: "unsignedLong",
}

// Text makes a random text of printable characters, including markup characters.
func Text(r *rand.Rand, n int) string {
	rs := []rune("abcXYZ 019_-:;!é漢ß\"'<>&{}=/\\]%")
	out := make([]rune, n)
	for i := range out {
		out[i] = rs[r.Intn(len(rs))]
	}
	return string(out)
}

// Guid makes a random identifier.
func Guid(r *rand.Rand) guid.Guid {
	var g guid.Guid
	for i := range g {
		g[i] = byte(r.Intn(256))
	}
	return g
}

// Value makes a random value of a type.
func Value(r *rand.Rand, t data.DataTypeEnum) interface{} {
	i64 := func() int64 {
		switch r.Intn(4) {
		case 0:
			return int64(r.Intn(20)) - 10
		case 1:
			return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 127, -128, 32767, -32768, 255, 65535, math.MaxUint32}[r.Intn(14)]
		default:
			return int64(r.Uint64()) >> uint(r.Intn(64))
		}
	}
	switch t {
	case data.DataType.String:
		switch r.Intn(6) {
		case 0:
			return ""
		case 1:
			return []string{"true", "1", "  ", "&amp;", "<x/>", "a]]>b", "0x10", "NULL", "ß", "'"}[r.Intn(10)]
		default:
			return Text(r, r.Intn(12))
		}
	case data.DataType.Boolean:
		return r.Intn(2) == 0
	case data.DataType.DateTime:
		sec := r.Int63n(253402300800+62135596800-2*86400) - 62135596800 + 86400
		if r.Intn(2) == 0 {
			sec = 1600000000 + r.Int63n(1e8)
		}
		ns := int64(0)
		switch r.Intn(3) {
		case 0:
			ns = int64(r.Intn(1000)) * 1e6
		case 1:
			ns = int64(r.Intn(1e7)) * 100
		}
		return time.Unix(sec, ns).UTC()
	case data.DataType.Single:
		switch r.Intn(4) {
		case 0:
			return float32(r.Intn(100)) / 4
		case 1:
			return []float32{0, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), math.MaxFloat32, math.SmallestNonzeroFloat32}[r.Intn(6)]
		default:
			return math.Float32frombits(r.Uint32() &^ (1 << 23))
		}
	case data.DataType.Double:
		switch r.Intn(4) {
		case 0:
			return float64(r.Intn(100)) / 4
		case 1:
			return []float64{0, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64}[r.Intn(6)]
		default:
			return math.Float64frombits(r.Uint64() &^ (1 << 52))
		}
	case data.DataType.Decimal:
		return decimal.New(i64(), int32(-r.Intn(12)))
	case data.DataType.Guid:
		if r.Intn(10) == 0 {
			return guid.Empty
		}
		return Guid(r)
	case data.DataType.Int8:
		return int8(i64())
	case data.DataType.Int16:
		return int16(i64())
	case data.DataType.Int32:
		return int32(i64())
	case data.DataType.Int64:
		return i64()
	case data.DataType.UInt8:
		return uint8(i64())
	case data.DataType.UInt16:
		return uint16(i64())
	case data.DataType.UInt32:
		return uint32(i64())
	default:
		return uint64(i64())
	}
}

// GuidText writes an identifier in plain form.
func GuidText(g guid.Guid) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", g[0:4], g[4:6], g[6:8], g[8:10], g[10:16])
}

func (g *gen) text(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case bool:
		if g.r.Intn(8) == 0 {
			return map[bool]string{true: "1", false: "0"}[x]
		}
		return strconv.FormatBool(x)
	case time.Time:
		switch g.r.Intn(4) {
		case 0:
			return x.Format("2006-01-02T15:04:05.999999999Z07:00")
		case 1:
			z := time.FixedZone("", (g.r.Intn(53)-26)*1800)
			y := x.In(z)
			if y.Year() > 0 && y.Year() < 10000 {
				return y.Format("2006-01-02T15:04:05.999999999-07:00")
			}
			fallthrough
		default:
			return x.Format("2006-01-02T15:04:05.999999999-07:00")
		}
	case float32:
		return floatText(float64(x), 32)
	case float64:
		return floatText(x, 64)
	case decimal.Decimal:
		return x.String()
	case guid.Guid:
		s := GuidText(x)
		switch g.r.Intn(3) {
		case 0:
			return "{" + s + "}"
		case 1:
			return strings.ToUpper(s)
		}
		return s
	default:
		return fmt.Sprint(v)
	}
}

func floatText(x float64, bits int) string {
	switch {
	case math.IsNaN(x):
		return "NaN"
	case math.IsInf(x, 1):
		return "INF"
	case math.IsInf(x, -1):
		return "-INF"
	}
	return strconv.FormatFloat(x, 'g', -1, bits)
}

// Escape writes text as XML content in one of its forms.
func Escape(r *rand.Rand, s string) string {
	if r.Intn(6) == 0 && !strings.Contains(s, "]]>") {
		return "<![CDATA[" + s + "]]>"
	}
	var b strings.Builder
	for _, c := range s {
		switch {
		case c == '<':
			b.WriteString("&lt;")
		case c == '&':
			b.WriteString("&amp;")
		case c == '>':
			b.WriteString("&gt;")
		case c == '"' && r.Intn(2) == 0:
			b.WriteString("&quot;")
		case c == '\'' && r.Intn(2) == 0:
			b.WriteString("&apos;")
		case r.Intn(40) == 0:
			fmt.Fprintf(&b, "&#%d;", c)
		case r.Intn(40) == 0:
			fmt.Fprintf(&b, "&#x%X;", c)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

// Attr writes text as an attribute value.
func Attr(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", "\"", "&quot;", ">", "&gt;").Replace(s)
}

type gen struct{ r *rand.Rand }

// XML writes the document in one of its equivalent forms.
func (d *Doc) XML(r *rand.Rand) []byte {
	g := &gen{r}
	var b strings.Builder
	nl := []string{"", "\n", "\n  "}[r.Intn(3)]
	if r.Intn(2) == 0 {
		b.WriteString("<?xml version=\"1.0\" standalone=\"yes\"?>\n")
	}
	p := []string{"xs:", "xsd:", "", "x:"}[r.Intn(4)]
	ext := []string{"msdata", "ext", "m"}[r.Intn(3)]
	decl := fmt.Sprintf(" xmlns:%s=\"%s\"", strings.TrimSuffix(p, ":"), data.XmlSchemaNamespace)
	if p == "" {
		decl = fmt.Sprintf(" xmlns=\"%s\"", data.XmlSchemaNamespace)
	}
	extDecl := fmt.Sprintf(" xmlns:%s=\"%s\"", ext, data.ExtXmlSchemaDataNamespace)
	rootDecl, schemaDecl := "", decl+extDecl
	if p != "" && r.Intn(3) == 0 {
		rootDecl, schemaDecl = decl, extDecl
		if r.Intn(2) == 0 {
			rootDecl, schemaDecl = decl+extDecl, ""
		}
	}
	fmt.Fprintf(&b, "<%s%s>%s<%sschema id=\"%s\"%s>%s", d.Name, rootDecl, nl, p, d.Name, schemaDecl, nl)
	fmt.Fprintf(&b, "<%selement name=\"%s\" %s:IsDataSet=\"true\"><%scomplexType><%schoice minOccurs=\"0\" maxOccurs=\"unbounded\">%s", p, d.Name, ext, p, p, nl)
	for _, t := range d.Tables {
		// Tables without a name are not tables.
		if r.Intn(25) == 0 {
			fmt.Fprintf(&b, "<%selement%s><%scomplexType><%ssequence><%selement name=\"A\" type=\"%sint\"/></%ssequence></%scomplexType></%selement>%s", p,
				[]string{"", " name=\"\""}[r.Intn(2)], p, p, p, p, p, p, p, nl)
		}
		fmt.Fprintf(&b, "<%selement name=\"%s\">%s<%scomplexType><%ssequence>%s", p, t.Name, nl, p, p, nl)
		for _, c := range t.Cols {
			// Columns without a name or type are not columns.
			if r.Intn(40) == 0 {
				fmt.Fprintf(&b, "<%selement %s/>%s", p, []string{fmt.Sprintf("type=\"%sint\"", p), fmt.Sprintf("name=\"\" type=\"%sint\"", p), "name=\"NoType\"", "name=\"NoType\" type=\"\""}[r.Intn(4)], nl)
			}
			xt := c.XSD
			if xt == "" {
				xt = xsd[c.Type]
			}
			attrs := []string{fmt.Sprintf("name=\"%s\"", c.Name), fmt.Sprintf("type=\"%s%s\"", p, xt)}
			if c.Type == data.DataType.Guid && c.XSD == "" {
				attrs = append(attrs, fmt.Sprintf("%s:DataType=\"System.Guid%s\"", ext, []string{"", ", mscorlib, Version=4.0.0.0"}[r.Intn(2)]))
			}
			if c.Expr != "" {
				attrs = append(attrs, fmt.Sprintf("%s:Expression=\"%s\"", ext, Attr(c.Expr)))
			}
			if r.Intn(2) == 0 {
				attrs = append(attrs, "minOccurs=\"0\"")
			}
			// Attributes of other vocabularies have no meaning here.
			if c.Type != data.DataType.Guid && r.Intn(25) == 0 {
				attrs = append(attrs, "xmlns:o=\"urn:other\"", "o:DataType=\"System.Guid\"")
			} else if c.Expr == "" && r.Intn(25) == 0 {
				attrs = append(attrs, "xmlns:o=\"urn:other\"", "o:Expression=\"1 + 1\"")
			}
			r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
			fmt.Fprintf(&b, "<%selement %s/>%s", p, strings.Join(attrs, " "), nl)
		}
		fmt.Fprintf(&b, "</%ssequence></%scomplexType>%s</%selement>%s", p, p, nl, p, nl)
	}
	fmt.Fprintf(&b, "</%schoice></%scomplexType></%selement></%sschema>%s", p, p, p, p, nl)
	// Records in table order, or interleaved over tables.
	type rec struct{ t, i int }
	var recs []rec
	for ti, t := range d.Tables {
		for i := range t.Rows {
			recs = append(recs, rec{ti, i})
		}
	}
	if r.Intn(2) == 0 {
		idx := make([]int, len(d.Tables))
		order := make([]int, 0, len(recs))
		for _, x := range recs {
			order = append(order, x.t)
		}
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		recs = recs[:0]
		for _, ti := range order {
			recs = append(recs, rec{ti, idx[ti]})
			idx[ti]++
		}
	}
	for _, x := range recs {
		t := d.Tables[x.t]
		fmt.Fprintf(&b, "<%s>%s", t.Name, nl)
		cells := r.Perm(len(t.Cols))
		if r.Intn(3) > 0 {
			for i := range cells {
				cells[i] = i
			}
		}
		for _, ci := range cells {
			c := t.Cols[ci]
			v := t.Rows[x.i][ci]
			if v == nil || c.Expr != "" || c.XSD != "" && v == nil {
				continue
			}
			s := g.text(v)
			if s == "" && r.Intn(2) == 0 {
				fmt.Fprintf(&b, "<%s/>%s", c.Name, nl)
			} else {
				fmt.Fprintf(&b, "<%s>%s</%s>%s", c.Name, Escape(r, s), c.Name, nl)
			}
			if r.Intn(60) == 0 {
				fmt.Fprintf(&b, "<Unknown%d>x</Unknown%d>", ci, ci)
			}
			if r.Intn(60) == 0 {
				b.WriteString("<!-- comment -->")
			}
		}
		fmt.Fprintf(&b, "</%s>%s", t.Name, nl)
		if r.Intn(60) == 0 {
			b.WriteString("<NoSuchTable><A>1</A></NoSuchTable>")
		}
	}
	fmt.Fprintf(&b, "</%s>", d.Name)
	return []byte(b.String())
}

// Same compares a stored value with a model value exactly.
func Same(got, want interface{}) bool {
	switch w := want.(type) {
	case nil:
		return got == nil
	case time.Time:
		g, ok := got.(time.Time)
		return ok && g.Equal(w)
	case float32:
		g, ok := got.(float32)
		return ok && (g == w && math.Signbit(float64(g)) == math.Signbit(float64(w)) || g != g && w != w)
	case float64:
		g, ok := got.(float64)
		return ok && (g == w && math.Signbit(g) == math.Signbit(w) || g != g && w != w)
	case decimal.Decimal:
		g, ok := got.(decimal.Decimal)
		return ok && g.Equal(w)
	default:
		return got == want
	}
}

// Compare compares a data set with the model and returns the first difference; cells counts the values compared.
func (d *Doc) Compare(ds *data.DataSet) (diff string, cells int) {
	if ds.TableCount() != len(d.Tables) {
		return fmt.Sprintf("%d tables %v, want %d", ds.TableCount(), ds.TableNames(), len(d.Tables)), 0
	}
	for _, t := range d.Tables {
		dt := ds.Table(t.Name)
		if dt == nil {
			return "no table " + t.Name, cells
		}
		if dt.Name() != t.Name {
			return fmt.Sprintf("table name %q, want %q", dt.Name(), t.Name), cells
		}
		var cols []Col
		var at []int
		for i, c := range t.Cols {
			if c.XSD == "" {
				cols = append(cols, c)
				at = append(at, i)
			}
		}
		if dt.ColumnCount() != len(cols) {
			return fmt.Sprintf("table %s has %d columns, want %d", t.Name, dt.ColumnCount(), len(cols)), cells
		}
		for i, c := range cols {
			dc := dt.Column(i)
			if dc.Name() != c.Name || dc.Type() != c.Type || dc.Expression() != c.Expr || dc.Index() != i {
				return fmt.Sprintf("table %s column %d is %v expression %q, want %s %v %q", t.Name, i, dc, dc.Expression(), c.Name, c.Type, c.Expr), cells
			}
		}
		if dt.RowCount() != len(t.Rows) {
			return fmt.Sprintf("table %s has %d rows, want %d", t.Name, dt.RowCount(), len(t.Rows)), cells
		}
		for ri, row := range t.Rows {
			dr := dt.Row(ri)
			for i, c := range cols {
				if c.Expr != "" {
					continue
				}
				want := row[at[i]]
				got, err := dr.Value(i)
				if err != nil {
					return fmt.Sprintf("table %s row %d column %s: %v", t.Name, ri, c.Name, err), cells
				}
				cells++
				if !Same(got, want) {
					return fmt.Sprintf("table %s row %d column %s (%v) holds %#v, want %#v", t.Name, ri, c.Name, c.Type, got, want), cells
				}
			}
		}
	}
	return "", cells
}

// AllTypes lists the data types.
var AllTypes = []data.DataTypeEnum{
	data.DataType.String, data.DataType.Boolean, data.DataType.DateTime, data.DataType.Single, data.DataType.Double, data.DataType.Decimal,
	data.DataType.Guid, data.DataType.Int8, data.DataType.Int16, data.DataType.Int32, data.DataType.Int64, data.DataType.UInt8,
	data.DataType.UInt16, data.DataType.UInt32, data.DataType.UInt64,
}

// RandTable makes a table with random columns and rows.
func RandTable(r *rand.Rand, name string, ncols, nrows int) *Table {
	t := &Table{Name: name}
	for i := 0; i < ncols; i++ {
		t.Cols = append(t.Cols, Col{Name: fmt.Sprintf("%s%d", []string{"Col", "f_", "naïve", "X"}[r.Intn(4)], i), Type: AllTypes[r.Intn(len(AllTypes))]})
	}
	for i := 0; i < nrows; i++ {
		t.AddRow(r, 5)
	}
	return t
}

// AddRow adds a random row; one in nullRate cells is null.
func (t *Table) AddRow(r *rand.Rand, nullRate int) []interface{} {
	row := make([]interface{}, len(t.Cols))
	for i, c := range t.Cols {
		if c.Expr == "" && r.Intn(nullRate) > 0 {
			row[i] = Value(r, c.Type)
		}
	}
	t.Rows = append(t.Rows, row)
	return row
}
