// Command times checks tick timestamps.
package main

import (
	"math/rand"
	"time"

	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"

	"verif/harness/vf"
)

const maxTicks = uint64(3155378975999999999)

// expected computes the instant of a tick count from the calendar, without the library's offset constants.
func expected(v uint64) time.Time {
	base := time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC)
	days := int(v / 864000000000)
	rest := v % 864000000000
	return base.AddDate(0, 0, days).Add(time.Duration(rest) * 100)
}

func value(r *rand.Rand) uint64 {
	edges := []uint64{0, 1, maxTicks, maxTicks - 1, 621355968000000000, 621355967999999999, 621355968000000001,
		713589688854775807, 713589688854775808, 621355968000000000 - 92233720368547758, 864000000000, 599266080000000000}
	switch r.Intn(5) {
	case 0:
		return edges[r.Intn(len(edges))]
	case 1:
		v := int64(edges[r.Intn(len(edges))]) + r.Int63n(40000000) - 20000000
		if v < 0 {
			v = -v
		}
		if uint64(v) > maxTicks {
			v = int64(maxTicks)
		}
		return uint64(v)
	case 2:
		return 630000000000000000 + uint64(r.Int63n(20000000000000000))
	case 3:
		return uint64(r.Int63n(int64(maxTicks/10000000))) * 10000000
	default:
		return uint64(r.Int63n(int64(maxTicks)))
	}
}

func one(t *vf.T) {
	r := t.R
	v := value(r)
	flags := []ticks.Ticks{0, 1 << 63, 1 << 62, 3 << 62}[r.Intn(4)]
	tk := ticks.Ticks(v) | flags
	want := expected(v)

	for i, got := range []time.Time{tk.ToTime(), ticks.ToTime(tk), (&transport.Measurement{Timestamp: tk}).DateTime()} {
		if !got.Equal(want) || got.Location() != time.UTC {
			t.Fatalf("conversion %d of ticks %d (flags %#x) to time = %v, want %v", i, v, uint64(flags), got, want)
		}
	}
	if back := ticks.FromTime(want); uint64(back) != v {
		t.Fatalf("FromTime(%v) = %d, want %d", want, uint64(back), v)
	}
	// the zone of a time does not matter, sub-tick nanoseconds are dropped
	zone := time.FixedZone("z", r.Intn(86400)-43200)
	if back := ticks.FromTime(want.In(zone).Add(time.Duration(r.Intn(100)))); uint64(back) != v {
		t.Fatalf("FromTime(%v + <100ns) = %d, want %d", want.In(zone), uint64(back), v)
	}
	if back := ticks.FromTime(tk.ToTime()); uint64(back) != v {
		t.Fatalf("round trip of %d with flags %#x = %d", v, uint64(flags), uint64(back))
	}
	if got := tk.TimestampValue(); got != int64(v) {
		t.Fatalf("TimestampValue(%#x) = %d, want %d", uint64(tk), got, v)
	}
	if m := (&transport.Measurement{Timestamp: tk}); m.TimestampValue() != int64(v) {
		t.Fatalf("Measurement.TimestampValue(%#x) = %d, want %d", uint64(tk), m.TimestampValue(), v)
	}
	// order
	w := value(r)
	a, b := ticks.Ticks(v).ToTime(), ticks.Ticks(w).ToTime()
	if a.Before(b) != (v < w) || a.After(b) != (v > w) {
		t.Fatalf("order of %d and %d is not that of %v and %v", v, w, a, b)
	}
	// Unix nanoseconds in the range they can express
	if v >= 621355968000000000 && v < 713589688854775807 {
		ns := uint64(want.UnixNano())
		if got := tk.ToUnixNano(); got != ns {
			t.Fatalf("ToUnixNano(%d, flags %#x) = %d, want %d", v, uint64(flags), got, ns)
		}
		if got := ticks.FromUnixNano(ns); uint64(got) != v {
			t.Fatalf("FromUnixNano(%d) = %d, want %d", ns, uint64(got), v)
		}
		if more := ns + uint64(r.Intn(100)); uint64(ticks.FromUnixNano(more)) != v {
			t.Fatalf("FromUnixNano(%d) = %d, want %d", more, uint64(ticks.FromUnixNano(more)), v)
		}
		t.Count("unix_range", 1)
	} else {
		t.Count("outside_unix_nano_range", 1)
	}
	// leap second flags
	leap, neg := flags&(1<<63) != 0, flags == 3<<62
	if tk.IsLeapSecond() != leap || ticks.IsLeapSecond(tk) != leap {
		t.Fatalf("IsLeapSecond(%#x)", uint64(tk))
	}
	if tk.IsNegativeLeapSecond() != neg || ticks.IsNegativeLeapSecond(tk) != neg {
		t.Fatalf("IsNegativeLeapSecond(%#x)", uint64(tk))
	}
	chk := func(what string, x ticks.Ticks, leap, neg bool) {
		if x.TimestampValue() != int64(v) {
			t.Fatalf("%s changed the time value of %d to %d", what, v, x.TimestampValue())
		}
		if x.IsLeapSecond() != leap || x.IsNegativeLeapSecond() != neg {
			t.Fatalf("%s on %#x gives %#x: leap %v negative %v, want %v %v", what, uint64(tk), uint64(x), x.IsLeapSecond(), x.IsNegativeLeapSecond(), leap, neg)
		}
	}
	dirSet := flags&(1<<62) != 0
	chk("SetLeapSecond", ticks.SetLeapSecond(tk), true, dirSet)
	chk("SetNegativeLeapSecond", ticks.SetNegativeLeapSecond(tk), true, true)
	x := tk
	x.ApplyLeapSecond()
	chk("ApplyLeapSecond", x, true, dirSet)
	x = tk
	x.ApplyNegativeLeapSecond()
	chk("ApplyNegativeLeapSecond", x, true, true)
	x = tk
	x.SetLeapSecond()
	chk("(*Ticks).SetLeapSecond", x, true, dirSet)
	x = tk
	x.SetLeapSecondDirection(true)
	chk("SetLeapSecondDirection(true)", x, leap, leap)
	x.SetLeapSecondDirection(false)
	chk("SetLeapSecondDirection(false)", x, leap, false)
	// text form shows the same instant
	if p, err := time.Parse("2006-01-02 15:04:05.999999999", tk.String()); err != nil || !p.Equal(want) {
		t.Fatalf("String(%#x) = %q, want instant %v", uint64(tk), tk.String(), want)
	}
	if got := tk.ShortTime(); got != want.Format("15:04:05.999") {
		t.Fatalf("ShortTime(%#x) = %q", uint64(tk), got)
	}
	t.Eval(1)
	t.Sig("%d %d", v, flags)
	if t.Idx == 0 {
		t.Sample("ticks %d flags %#x is %v", v, uint64(flags), want)
	}
}

func main() {
	vf.Main(&vf.Prop{
		ID: "C26",
		Rule: "generated tick values over years 1 to 9999 (edges of the calendar, of the Unix epoch and of the 64-bit nanosecond range, uniform) with every flag combination, " +
			"compared with calendar arithmetic; distinct_nontrivial counts different (value, flags)",
		Quick: 400, Thorough: 6000,
		Case: func(t *vf.T) {
			for i := 0; i < 1000; i++ {
				one(t)
			}
			lo := time.Now()
			a, b := ticks.UtcNow(), ticks.Now()
			hi := time.Now()
			for _, x := range []ticks.Ticks{a, b} {
				if x.ToTime().Before(lo.Add(-100)) || x.ToTime().After(hi) {
					t.Fatalf("Now is %v, clock was between %v and %v", x.ToTime(), lo, hi)
				}
			}
		},
	})
}
