package main

import (
	"encoding/binary"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/transport"

	"verif/harness/pub"
	"verif/harness/vf"
)

var c10 = &vf.Prop{
	ID: "C10",
	Rule: "each case sends a generated sequence of notices with unique texts between data packets and compares the calls of every receiver, the " +
		"log texts, the confirmations, the subscribed state and the position of data start times among measurements with the sequence; " +
		"distinct_nontrivial counts different notice sequences of at least three notices",
	Quick: 2500, Thorough: 50000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		s := newSess(t)
		defer s.close()
		var mu sync.Mutex
		notes := map[string]int{}
		var starts []time.Time
		var startPos []int
		complete, config := 0, 0
		s.sb.SetNotificationReceiver(func(m string) { mu.Lock(); notes[m]++; mu.Unlock() })
		s.sb.SetDataStartTimeReceiver(func(x time.Time) {
			n := s.count()
			mu.Lock()
			starts = append(starts, x)
			startPos = append(startPos, n)
			mu.Unlock()
		})
		s.sb.SetHistoricalReadCompleteReceiver(func() { mu.Lock(); complete++; mu.Unlock() })
		s.sb.SetConfigurationChangedReceiver(func() { mu.Lock(); config++; mu.Unlock() })
		s.dial()
		s.subscribe("FILTER X WHERE True", sttp.NewSettings())
		sic := randSIC(r, 1+r.Intn(5))
		s.sendSIC(sic, 0)
		s.idle()
		if r.Intn(2) == 0 {
			s.con.RandomFrag(r.Int63())
		}
		baseCaches := 1
		if !vf.WaitFor(limit, func() bool { s.mu.Lock(); defer s.mu.Unlock(); return len(s.caches) >= baseCaches }) {
			t.Fatalf("the subscription update was not announced")
		}
		confBase := s.con.CountOf(pub.CmdConfirmNotify)
		g := &compactGen{r: r, sic: [2]*pub.SIC{sic, nil}, includeTime: true}
		var want []pub.Meas
		var wantConf []uint32
		wantNotes := map[string]int{}
		var wantStarts []uint64
		var wantPos []int
		wantComplete, wantConfig := 0, 0
		wantStatus, wantErr := map[string]int{}, map[string]int{}
		named := map[string]string{} // command a response answers, by text
		subscribed := true
		sigs := ""
		n := 1 + r.Intn(25)
		notices := 0
		for i := 0; i < n; i++ {
			tok := fmt.Sprintf("<%d.%d.%s>", t.Idx, i, strings.ReplaceAll(randText(r, r.Intn(30)), "<", ""))
			if r.Intn(20) == 0 {
				tok += strings.Repeat("long ", 4000)
			}
			k := r.Intn(9)
			var resp, cmd byte
			var p []byte
			switch k {
			case 0, 1:
				id := r.Uint32() &^ 0x70000000
				text := tok
				if r.Intn(10) == 0 {
					text = ""
				}
				resp, p = pub.RespNotify, append(pub.U32(id), []byte(text)...)
				wantNotes[text]++
				wantConf = append(wantConf, id)
			case 2:
				v := uint64(r.Int63n(3155378975999999999))
				resp, p = pub.RespDataStartTime, pub.U64(v)
				wantStarts = append(wantStarts, v)
				wantPos = append(wantPos, len(want))
			case 3:
				resp, p = pub.RespProcComplete, []byte(tok)
				wantComplete++
				wantStatus[tok]++
			case 4:
				resp = pub.RespConfigChanged
				wantConfig++
			case 5:
				resp, p = pub.RespSucceeded, []byte(tok)
				cmd = []byte{pub.CmdSubscribe, pub.CmdUnsubscribe, pub.CmdDefineOpModes, pub.CmdRotateCipherKeys, pub.CmdUpdateInterval}[r.Intn(5)]
				if cmd == pub.CmdSubscribe {
					subscribed = true
				}
				if cmd == pub.CmdUnsubscribe {
					subscribed = false
				}
				wantStatus[tok]++
				named[tok] = transport.ServerCommandEnum(cmd).String()
			case 6:
				resp, p = pub.RespFailed, []byte(tok)
				cmd = []byte{pub.CmdSubscribe, pub.CmdUnsubscribe, pub.CmdMetadataRefresh, pub.CmdRotateCipherKeys, pub.CmdUpdateInterval, pub.CmdDefineOpModes, pub.CmdConnect}[r.Intn(7)]
				wantErr[tok]++
				if cmd != pub.CmdConnect && cmd != pub.CmdDefineOpModes { // a refusal has only its text
					named[tok] = transport.ServerCommandEnum(cmd).String()
				}
			case 7:
				resp = pub.RespNoOP
				p = []byte(tok)
			default:
				var m []pub.Meas
				resp = pub.RespDataPacket
				p, m = g.packet(1 + r.Intn(20))
				want = append(want, m...)
			}
			if k != 8 && k != 7 {
				notices++
			}
			sigs += fmt.Sprintf("%d.%d,", k, cmd)
			must(s.con.Send(resp, cmd, p))
			t.Eval(1)
		}
		s.sync()
		s.compare(want)
		wantNotes["sync"] += 1
		sum := func(m map[string]int) (n int) {
			for _, v := range m {
				n += v
			}
			return
		}
		// Asynchronous receivers: wait for the number due, then for the end of all handlers.
		countIn := func(list []string, tok string) (n int) {
			for _, l := range list {
				if strings.Contains(l, tok) {
					n++
				}
			}
			return
		}
		vf.WaitFor(limit, func() bool {
			mu.Lock()
			ok := sum(notes) >= sum(wantNotes) && complete >= wantComplete && config >= wantConfig
			mu.Unlock()
			if !ok {
				return false
			}
			st, er := s.statuses(), s.errors()
			for tok := range wantStatus {
				if countIn(st, tok) < 1 {
					return false
				}
			}
			for tok := range wantErr {
				if countIn(er, tok) < 1 {
					return false
				}
			}
			return true
		})
		s.idle()
		mu.Lock()
		defer mu.Unlock()
		for m, n := range wantNotes {
			if notes[m] != n {
				t.Failf("notification %.60q was sent %d times and received %d times", m, n, notes[m])
			}
		}
		if sum(notes) != sum(wantNotes) {
			t.Failf("%d notifications received, %d sent", sum(notes), sum(wantNotes))
		}
		if complete != wantComplete || config != wantConfig {
			t.Failf("%d of %d processing-complete and %d of %d configuration-changed notices received", complete, wantComplete, config, wantConfig)
		}
		if len(starts) != len(wantStarts) {
			t.Fatalf("%d data start times received, %d sent", len(starts), len(wantStarts))
		}
		for i, v := range wantStarts {
			w := time.Unix(int64(v/1e7)-62135596800, int64(v%1e7)*100).UTC()
			if !starts[i].Equal(w) {
				t.Failf("data start time %d: sent %v, received %v", i, w, starts[i])
			}
			if startPos[i] > wantPos[i] {
				t.Failf("data start time %d was delivered after %d measurements, %d were sent before it", i, startPos[i], wantPos[i])
			}
		}
		st, er := s.statuses(), s.errors()
		for tok := range wantStatus {
			if a, b := countIn(st, tok), countIn(er, tok); a != 1 || b != 0 {
				t.Failf("text %.60q of a success or completion: %d status and %d error messages", tok, a, b)
			}
		}
		for tok := range wantErr {
			if a, b := countIn(er, tok), countIn(st, tok); a != 1 || b != 0 {
				t.Failf("text %.60q of a failure: %d error and %d status messages", tok, a, b)
			}
		}
		for tok, name := range named {
			for _, l := range append(st[:len(st):len(st)], er...) {
				if strings.Contains(l, tok) && !strings.Contains(strings.ToLower(strings.ReplaceAll(l, tok, "")), strings.ToLower(name)) {
					t.Failf("the message %.100q of a response does not name the command %s", l, name)
				}
			}
		}
		conf := s.con.FramesOf(pub.CmdConfirmNotify)[confBase:]
		var gotConf []uint32
		for _, f := range conf {
			if len(f.Payload) != 4 {
				t.Fatalf("notification confirmation with payload %x", f.Payload)
			}
			if v := binary.BigEndian.Uint32(f.Payload); v&0x70000000 != 0x70000000 {
				gotConf = append(gotConf, v)
			}
		}
		if fmt.Sprint(gotConf) != fmt.Sprint(wantConf) {
			t.Failf("notifications %v were confirmed as %v", wantConf, gotConf)
		}
		if s.sb.IsSubscribed() != subscribed {
			t.Failf("subscribed state is %v, last confirmed request means %v", s.sb.IsSubscribed(), subscribed)
		}
		if est, term := s.counts(); est != 1 || term != 0 || !s.sb.IsConnected() || len(s.caches) != baseCaches {
			t.Failf("notices had other effects: %d connections, %d terminations, connected %v, %d caches", est, term, s.sb.IsConnected(), len(s.caches))
		}
		other := 0
		for _, c := range []byte{pub.CmdSubscribe, pub.CmdUnsubscribe, pub.CmdMetadataRefresh, pub.CmdConfirmBlock} {
			other += s.con.CountOf(c)
		}
		if other != 1 { // the one subscribe request of the case
			t.Failf("notices made the subscriber send %d further requests", other-1)
		}
		if notices >= 3 {
			t.SigHash(hash([]byte(sigs)))
		}
		t.Count("notices_checked", notices)
		if t.Idx < 2 {
			t.Sample("case %d: notice kinds %s", t.Idx, sigs)
		}
	},
	Done: schedDone,
}
