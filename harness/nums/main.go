// Command nums checks grouped number formatting.
package main

import (
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/sttp/goapi/sttp/format"

	"verif/harness/vf"
)

// verify checks a formatted text against the plain decimal representation.
func verify(t *vf.T, what, got, plain string, dec, group byte) {
	if strings.ContainsAny(plain, "IN") { // Inf, NaN have no digits to group
		if got != plain {
			t.Fatalf("%s = %q, want %q", what, got, plain)
		}
		return
	}
	neg := strings.HasPrefix(plain, "-")
	body := strings.TrimPrefix(plain, "-")
	intPart, frac := body, ""
	if i := strings.IndexByte(body, '.'); i >= 0 {
		intPart, frac = body[:i], string([]byte{dec})+body[i+1:]
	}
	var b []byte
	for i := 0; i < len(intPart); i++ {
		if i > 0 && (len(intPart)-i)%3 == 0 {
			b = append(b, group)
		}
		b = append(b, intPart[i])
	}
	want := string(b) + frac
	if neg {
		want = "-" + want
	}
	if got != want {
		t.Fatalf("%s = %q, want %q", what, got, want)
	}
	t.Eval(1)
	switch n := len(intPart); {
	case n <= 3:
		t.Count("ungrouped", 1)
	case n <= 18:
		t.Count("grouped", 1)
	default:
		t.Count("grouped_beyond_int64", 1)
	}
	if len(intPart) > 3 {
		t.Sig("%s", got)
	}
}

func randInt(r *rand.Rand) int64 {
	switch r.Intn(4) {
	case 0:
		p := int64(math.Pow10(r.Intn(19)))
		v := p + int64(r.Intn(3)) - 1
		if r.Intn(2) == 0 {
			v = -v
		}
		return v
	case 1:
		return []int64{math.MinInt64, math.MaxInt64, 0, -1, 1, math.MinInt32, math.MaxInt32, -999, 999, -1000}[r.Intn(10)]
	default:
		return int64(r.Uint64()) >> uint(r.Intn(64))
	}
}

func randFloat(r *rand.Rand) float64 {
	switch r.Intn(6) {
	case 0:
		return float64(randInt(r))
	case 1:
		return []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 999.9999, -999.9999, 0.9999, -0.00001, 999999.9996}[r.Intn(13)]
	case 2:
		return (r.Float64() - 0.5) * math.Pow10(r.Intn(20))
	case 3:
		return math.Float64frombits(r.Uint64())
	case 4:
		return math.Pow10(r.Intn(18)) - math.Pow10(-r.Intn(6))
	default:
		return r.NormFloat64() * 1e5
	}
}

func main() {
	vf.Main(&vf.Prop{
		ID:    "C29",
		Rule:  "generated integers (powers of ten and their neighbours, limits, random widths) and floats (limits, infinities, rounding carries, all precisions) against an independent grouping of strconv's plain form; distinct_nontrivial counts different texts with at least one separator",
		Quick: 320, Thorough: 6000,
		Case: func(t *vf.T) {
			r := t.R
			groups := []byte{',', '.', ' ', '_', '\''}
			decs := []byte{'.', ',', ';'}
			for k := 0; k < 1000; k++ {
				i := randInt(r)
				u := r.Uint64() >> uint(r.Intn(64))
				f := randFloat(r)
				prec := r.Intn(12)
				if r.Intn(8) == 0 {
					prec = -1
				}
				g := groups[r.Intn(len(groups))]
				d := decs[r.Intn(len(decs))]
				pi, pu := strconv.FormatInt(i, 10), strconv.FormatUint(u, 10)
				pf := strconv.FormatFloat(f, 'f', prec, 64)
				verify(t, "Int64("+pi+")", format.Int64(i), pi, '.', ',')
				verify(t, "Int("+pi+")", format.Int(int(i)), pi, '.', ',')
				verify(t, "Int64With("+pi+")", format.Int64With(i, g), pi, '.', g)
				verify(t, "IntWith("+pi+")", format.IntWith(int(i), g), pi, '.', g)
				verify(t, "UInt64("+pu+")", format.UInt64(u), pu, '.', ',')
				verify(t, "UInt("+pu+")", format.UInt(uint(u)), pu, '.', ',')
				verify(t, "UInt64With("+pu+")", format.UInt64With(u, g), pu, '.', g)
				verify(t, "UIntWith("+pu+")", format.UIntWith(uint(u), g), pu, '.', g)
				verify(t, "Float("+pf+")", format.Float(f, prec), pf, '.', ',')
				if d != g {
					verify(t, "FloatWith("+pf+","+string(rune(d))+string(rune(g))+")", format.FloatWith(f, prec, d, g), pf, d, g)
				}
				if t.Idx == 0 && k == 0 {
					t.Sample("%s formats as %s; %s as %s", pi, format.Int64(i), pf, format.Float(f, prec))
				}
			}
		},
	})
}
