package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/ticks"
	"github.com/sttp/goapi/sttp/transport"

	"verif/harness/vf"
)

// groups of full state flags, by the bit that stands for them in compact form
var compactGroups = []uint32{0x000000FC, 0x0000EF03, 0x00BF0000, 0xE0000000, 0x00001000, 0x00400000}

const msTicks = 10000

var c32 = &vf.Prop{
	ID: "C32",
	Rule: "measurements of signals of a cache received in a session are written in compact form through the public field getters and read back, over " +
		"time settings, base times, both base indexes and all state groups; sizes, fields, refusal of short buffers and text forms are compared with " +
		"the wire format; distinct_nontrivial counts different (time setting, resolution, base index, base set, time bytes, state groups) forms",
	Quick: 300, Thorough: 6000,
	Case: func(t *vf.T) {
		gentle(t)
		r := t.R
		s := newSess(t)
		defer s.close()
		s.dial()
		s.subscribe("FILTER X WHERE True", sttp.NewSettings())
		sic := randSIC(r, 1+r.Intn(40))
		s.sendSIC(sic, byte(r.Intn(2)))
		if !vf.WaitFor(limit, func() bool { s.mu.Lock(); defer s.mu.Unlock(); return len(s.caches) > 0 }) {
			t.Fatalf("cache was not announced")
		}
		s.mu.Lock()
		cache := s.caches[0]
		s.mu.Unlock()
		for i := 0; i < 300 && !t.Failed(); i++ {
			includeTime, ms := r.Intn(5) > 0, r.Intn(2) == 0
			base := [2]int64{}
			when := int64(630822816000000000) + r.Int63n(1e18)
			for j := range base {
				switch r.Intn(7) {
				case 0: // not set
				case 1:
					base[j] = when + r.Int63n(1e9) - 5e8
				case 2:
					base[j] = when - math.MaxUint32 + int64(r.Intn(5)) - 2
				case 3:
					base[j] = when - math.MaxUint16*msTicks + int64(r.Intn(5*msTicks)) - 2*msTicks
				case 4:
					base[j] = when - int64(r.Intn(3)) + 1
				case 5:
					base[j] = when - r.Int63n(math.MaxUint32)
				default:
					base[j] = when - r.Int63n(math.MaxUint16*msTicks)
				}
			}
			rec := sic.Records[r.Intn(len(sic.Records))]
			w := transport.NewCompactMeasurement(cache, includeTime, ms, &base)
			index := r.Intn(2)
			w.SetCompactStateFlags(byte(index<<7) | byte(r.Intn(2)<<6)) // as left by an earlier use
			if w.Flags != 0 {
				t.Fatalf("compact flags without a state give %#x", uint32(w.Flags))
			}
			flags := uint32(0)
			switch r.Intn(4) {
			case 0:
			case 1:
				flags = 1 << uint(r.Intn(32))
			case 2:
				flags = r.Uint32() & r.Uint32() & r.Uint32()
			default:
				flags = r.Uint32()
			}
			value := float32(r.NormFloat64() * 100)
			if r.Intn(10) == 0 {
				value = math.Float32frombits(r.Uint32())
			}
			w.SetRuntimeID(rec.Index)
			if w.SignalID != libGuid(rec.ID) {
				t.Fatalf("runtime ID %d stands for %v, published %v", rec.Index, w.SignalID, rec.ID)
			}
			w.Value, w.Flags, w.Timestamp = float64(value), transport.StateFlagsEnum(flags), ticks.Ticks(when)
			leap := r.Intn(8) == 0 && base[index] == 0
			if leap {
				w.Timestamp.SetLeapSecond()
				w.Timestamp.SetLeapSecondDirection(r.Intn(2) == 0)
			}
			stamp := w.Timestamp
			if w.TimestampValue() != when || !w.DateTime().Equal(ticks.Ticks(when).ToTime()) {
				t.Fatalf("time of a measurement at %d is %d, %v", when, w.TimestampValue(), w.DateTime())
			}
			n := int(w.GetBinaryLength())
			b := []byte{w.GetCompactStateFlags()}
			b = binary.BigEndian.AppendUint32(b, uint32(w.GetRuntimeID()))
			b = binary.BigEndian.AppendUint32(b, math.Float32bits(value))
			wantBits := byte(index << 7)
			wantFlags := uint32(0)
			for j, g := range compactGroups {
				if flags&g != 0 {
					wantBits |= 1 << uint(j)
					wantFlags |= g
				}
			}
			size := n - 9
			want := stamp
			diff := when - base[index]
			switch {
			case !includeTime && size == 0:
				want = 0
			case includeTime && ms && size == 2:
				b = binary.BigEndian.AppendUint16(b, w.GetTimestampC2())
				want = ticks.Ticks(base[index] + diff/msTicks*msTicks)
			case includeTime && !ms && size == 4:
				b = binary.BigEndian.AppendUint32(b, w.GetTimestampC4())
			case includeTime && size == 8:
				b = binary.BigEndian.AppendUint64(b, uint64(stamp))
				if base[index] > 0 && diff > 0 && (ms && diff < 60000*msTicks || !ms && diff < 4e9) {
					t.Fatalf("a time %d ticks after its base takes 8 bytes (milliseconds %v)", diff, ms)
				}
			default:
				t.Fatalf("a measurement takes %d bytes (time %v, milliseconds %v)", n, includeTime, ms)
			}
			if size == 2 || size == 4 {
				if base[index] == 0 || diff < 0 {
					t.Fatalf("a time before its base, or without one, is written as an offset: time %d base %d", when, base[index])
				}
				wantBits |= 0x40
			}
			if !includeTime {
				wantBits |= b[0] & 0x40 // has no meaning without a time
			}
			if b[0] != wantBits {
				t.Fatalf("state %#x with time index %d in %d bytes is written as %#x, expected %#x", flags, index, n, b[0], wantBits)
			}
			d := transport.NewCompactMeasurement(cache, includeTime, ms, &base)
			rest := make([]byte, r.Intn(4))
			got, err := d.Decode(append(append([]byte(nil), b...), rest...))
			if err != nil || got != n || len(b) != n {
				t.Fatalf("%d bytes %x are read as %d, error %v", n, b, got, err)
			}
			if d.SignalID != libGuid(rec.ID) || math.Float32bits(float32(d.Value)) != math.Float32bits(value) && value == value || d.Timestamp != want || uint32(d.Flags) != wantFlags {
				t.Fatalf("%x (time %v, milliseconds %v, bases %v) is read as %s, expected id %v value %v time %#x flags %#x", b, includeTime, ms, base,
					describe(d.Measurement), rec.ID, value, uint64(want), wantFlags)
			}
			if d.GetCompactStateFlags() != wantBits || d.GetRuntimeID() != rec.Index {
				t.Fatalf("a measurement read from %x writes state %#x and runtime ID %d", b, d.GetCompactStateFlags(), d.GetRuntimeID())
			}
			if size != 2 && includeTime && d.GetBinaryLength() != uint32(n) {
				t.Fatalf("a measurement read from %d bytes takes %d", n, d.GetBinaryLength())
			}
			short := transport.NewCompactMeasurement(cache, includeTime, ms, &base)
			if k, err := short.Decode(b[:r.Intn(n)]); err == nil {
				t.Fatalf("a part of %x is read as %d bytes", b, k)
			}
			m := d.Measurement
			parts := []string{m.SignalID.String(), m.Timestamp.ShortTime(), strconv.FormatFloat(m.Value, 'f', 3, 64), m.Flags.String()}
			for _, p := range parts {
				if !strings.Contains(m.String(), p) {
					t.Fatalf("text of a measurement %q does not contain %q", m.String(), p)
				}
			}
			t.Eval(1)
			t.Sig(fmt.Sprintf("%v %v %d %v %d %x", includeTime, ms, index, base[index] > 0, size, wantBits&0x3f))
		}
		// A signal that is not in the cache has no runtime ID.
		u := transport.NewCompactMeasurement(cache, false, false, &[2]int64{})
		u.SignalID = guid.New()
		if u.GetRuntimeID() != -1 {
			t.Failf("an unknown signal has the runtime ID %d", u.GetRuntimeID())
		}
	},
	Done: schedDone,
}
