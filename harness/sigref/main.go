// Command sigref checks signal references, kinds and the text of flags and codes.
package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/sttp/goapi/sttp/transport"

	"verif/harness/vf"
)

var acronyms = []string{"PA", "PM", "FQ", "DF", "SF", "DV", "AV", "CV", "ST", "AL", "QF"}
var kindNames = []string{"Angle", "Magnitude", "Frequency", "DfDt", "Status", "Digital", "Analog", "Calculation", "Statistic", "Alarm", "Quality", "Unknown"}

// signal types by kind: voltage form, current form
var typeNames = [][2]string{{"VPHA", "IPHA"}, {"VPHM", "IPHM"}, {"FREQ", "FREQ"}, {"DFDT", "DFDT"}, {"FLAG", "FLAG"}, {"DIGI", "DIGI"}, {"ALOG", "ALOG"},
	{"CALC", "CALC"}, {"STAT", "STAT"}, {"ALRM", "ALRM"}, {"QUAL", "QUAL"}, {"NULL", "NULL"}}

var flagNames = []string{"BadData", "SuspectData", "OverRangeError", "UnderRangeError", "AlarmHigh", "AlarmLow", "WarningHigh", "WarningLow", "FlatlineAlarm",
	"ComparisonAlarm", "ROCAlarm", "ReceivedAsBad", "CalculatedValue", "CalculationError", "CalculationWarning", "ReservedQualityFlag", "BadTime", "SuspectTime",
	"LateTimeAlarm", "FutureTimeAlarm", "UpSampled", "DownSampled", "DiscardedValue", "ReservedTimeFlag", "UserDefinedFlag1", "UserDefinedFlag2",
	"UserDefinedFlag3", "UserDefinedFlag4", "UserDefinedFlag5", "SystemError", "SystemWarning", "MeasurementError"}

var commands = map[int]string{0: "Connect", 1: "MetadataRefresh", 2: "Subscribe", 3: "Unsubscribe", 4: "RotateCipherKeys", 5: "UpdateProcessingInterval",
	6: "DefineOperationalModes", 7: "ConfirmNotification", 8: "ConfirmBufferBlock", 9: "ConfirmUpdateBaseTimes", 10: "ConfirmUpdateSignalIndexCache",
	11: "ConfirmUpdateCipherKeys", 12: "GetPrimaryMetadataSchema", 13: "GetSignalSelectionSchema"}

var responses = map[int]string{0x80: "Succeeded", 0x81: "Failed", 0x82: "DataPacket", 0x83: "UpdateSignalIndexCache", 0x84: "UpdateBaseTimes",
	0x85: "UpdateCipherKeys", 0x86: "DataStartTime", 0x87: "ProcessingComplete", 0x88: "BufferBlock", 0x89: "Notify", 0x8A: "ConfigurationChanged", 0xFF: "NoOP"}

func codeText(m map[int]string, userBase int, user string, code int) string {
	if s, ok := m[code]; ok {
		return s
	}
	if code >= userBase && code < userBase+16 {
		return fmt.Sprintf("%s%02d", user, code-userBase)
	}
	return "0x" + strconv.FormatInt(int64(code), 16)
}

func mixCase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToLower(string(b[i]))[0]
		}
	}
	return string(b)
}

func randSource(r *rand.Rand) string {
	if r.Intn(12) == 0 {
		return ""
	}
	const chars = "ABCxyz019!_:. -PAFQé漢"
	rs := []rune(chars)
	n := 1 + r.Intn(12)
	out := make([]rune, n)
	for i := range out {
		out[i] = rs[r.Intn(len(rs))]
	}
	s := string(out)
	if r.Intn(4) == 0 { // a source that looks like a reference itself
		s += "-" + acronyms[r.Intn(len(acronyms))] + strconv.Itoa(r.Intn(10))
	}
	return s
}

func parse(ref string) (string, transport.SignalKindEnum, int) {
	mm := transport.MeasurementMetadata{SignalReference: ref}
	return mm.ParseSignalReference()
}

func one(t *vf.T) {
	r := t.R
	// composed references
	kind := r.Intn(len(acronyms))
	src := randSource(r)
	acr := acronyms[kind]
	if r.Intn(3) == 0 {
		acr = mixCase(r, acr)
	}
	pos := 0
	ref := src + "-" + acr
	if r.Intn(4) != 0 {
		pos = []int{0, 1, r.Intn(20), r.Intn(1 << 30), 99999}[r.Intn(5)]
		ref += strconv.Itoa(pos)
	}
	s, k, p := parse(ref)
	if s != src || int(k) != kind || p != pos {
		t.Fatalf("reference %q parsed as source %q kind %v position %d, want %q %s %d", ref, s, k, p, src, kindNames[kind], pos)
	}
	t.Eval(1)
	t.Sig("%s", ref)
	// references without a recognised kind
	var bad string
	switch r.Intn(5) {
	case 0:
		bad = strings.ReplaceAll(randSource(r), "-", "_")
	case 1:
		bad = src + "-"
	case 2:
		bad = src + "-" + string("PAFQDS5"[r.Intn(7)])
	case 3:
		two := string([]byte{"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123"[r.Intn(30)], "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123"[r.Intn(30)]})
		for _, a := range acronyms {
			if a == two {
				two = "XX"
			}
		}
		bad = src + "-" + two + strconv.Itoa(r.Intn(50))
	default:
		bad = src + "-" + string([]rune{0x6f22, rune(r.Intn(0x2fff))})
		if u := strings.ToUpper(bad[len(src)+1:]); len(u) >= 2 {
			for _, a := range acronyms {
				if strings.HasPrefix(u, a) {
					bad = src + "-"
				}
			}
		}
	}
	if _, k, _ := parse(bad); k != transport.SignalKind.Unknown {
		t.Fatalf("reference %q without a signal kind parsed as kind %v", bad, k)
	}
	t.Count("unknown_kind_references", 1)
	// arbitrary bytes
	raw := make([]byte, r.Intn(10))
	for i := range raw {
		raw[i] = "-PAFQ0 1\xff\x80"[r.Intn(10)]
	}
	parse(string(raw))
	// acronyms
	padded := mixCase(r, acronyms[kind])
	if r.Intn(2) == 0 {
		padded = " " + padded + "\t"
	}
	if got := transport.ParseSignalKindAcronym(padded); int(got) != kind {
		t.Fatalf("acronym %q parsed as %v, want %s", padded, got, kindNames[kind])
	}
	// flags
	var word uint32
	switch r.Intn(3) {
	case 0:
		word = r.Uint32()
	case 1:
		word = 1 << uint(r.Intn(32))
	default:
		word = 1<<uint(r.Intn(32)) | 1<<uint(r.Intn(32)) | 1<<uint(r.Intn(32))
	}
	got := transport.StateFlagsEnum(word).String()
	set := map[string]bool{}
	for _, n := range strings.Split(got, ",") {
		if set[n] {
			t.Fatalf("state flags %#x text %q names %s twice", word, got, n)
		}
		set[n] = true
	}
	for i, n := range flagNames {
		if set[n] != (word&(1<<uint(i)) != 0) {
			t.Fatalf("state flags %#x text %q: flag %s named %v", word, got, n, set[n])
		}
		delete(set, n)
	}
	if len(set) != 0 {
		t.Fatalf("state flags %#x text %q has extra names", word, got)
	}
	t.Eval(1)
	if t.Idx == 0 {
		t.Sample("%q is (%q, %s, %d); %q is unknown; %#x is %q", ref, src, kindNames[kind], pos, bad, word, got)
	}
}

func fixed(t *vf.T) {
	for code := 0; code < 256; code++ {
		if got, want := transport.ServerCommandEnum(code).String(), codeText(commands, 0xD0, "UserCommand", code); got != want {
			t.Fatalf("command code %#x text %q, want %q", code, got, want)
		}
		if got, want := transport.ServerResponseEnum(code).String(), codeText(responses, 0xE0, "UserResponse", code); got != want {
			t.Fatalf("response code %#x text %q, want %q", code, got, want)
		}
		t.Eval(2)
	}
	if got := transport.StateFlagsEnum(0).String(); got != "Normal" {
		t.Fatalf("no flags text %q", got)
	}
	for i, n := range kindNames {
		k := transport.SignalKindEnum(i)
		if k.String() != n {
			t.Fatalf("kind %d text %q, want %q", i, k.String(), n)
		}
		acr := "??"
		if i < len(acronyms) {
			acr = acronyms[i]
		}
		if k.Acronym() != acr {
			t.Fatalf("kind %s acronym %q, want %q", n, k.Acronym(), acr)
		}
		if got := transport.ParseSignalKindAcronym(k.Acronym()); got != k {
			t.Fatalf("acronym %q parses as %v, want %v", k.Acronym(), got, k)
		}
		for j, runes := range []string{"Vv", "Ii"} {
			for _, c := range runes {
				if got := k.SignalTypeAcronym(c); got != typeNames[i][j] {
					t.Fatalf("kind %s phasor %c signal type %q, want %q", n, c, got, typeNames[i][j])
				}
			}
		}
		t.Eval(5)
	}
	// every two-letter acronym in both cases
	for a := 'A'; a <= 'Z'; a++ {
		for b := 'A'; b <= 'Z'; b++ {
			s := string([]rune{a, b})
			want := transport.SignalKind.Unknown
			for i, x := range acronyms {
				if x == s {
					want = transport.SignalKindEnum(i)
				}
			}
			for _, form := range []string{s, strings.ToLower(s)} {
				if got := transport.ParseSignalKindAcronym(form); got != want {
					t.Fatalf("acronym %q parses as %v, want %v", form, got, want)
				}
				t.Eval(1)
			}
		}
	}
}

func main() {
	vf.Main(&vf.Prop{
		ID:    "C30",
		Rule:  "every code byte, kind and two-letter acronym, plus generated references and flag words compared with independent tables; distinct_nontrivial counts different composed references",
		Quick: 240, Thorough: 4000,
		Case: func(t *vf.T) {
			fixed(t)
			for i := 0; i < 1000; i++ {
				one(t)
			}
		},
	})
}
