// Command threads checks the goroutine wrapper under concurrent starts and joins with injected delays.
package main

import (
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sttp/goapi/sttp/thread"
	"github.com/sttp/goapi/sttp/verifsched"

	"verif/harness/vf"
)

func spin(r *rand.Rand) {
	switch r.Intn(4) {
	case 0:
	case 1:
		runtime.Gosched()
	case 2:
		time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
	case 3:
		for i := 0; i < r.Intn(2000); i++ {
			_ = i
		}
	}
}

// tryStart uses Start or TryStart; Start refuses by panicking.
func tryStart(th *thread.Thread, useStart bool) (ok bool) {
	if !useStart {
		return th.TryStart()
	}
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	th.Start()
	return true
}

func free(t *vf.T) {
	r := t.R
	var started, finished, inflight, maxIn, begun, exits int64
	fseed := r.Int63()
	var th *thread.Thread
	th = thread.NewThread(func() {
		n := atomic.AddInt64(&inflight, 1)
		k := atomic.AddInt64(&begun, 1)
		if n > 1 {
			atomic.StoreInt64(&maxIn, n)
		}
		if !th.IsRunning() {
			t.Failf("thread reports not running inside its own function")
		}
		kr := rand.New(rand.NewSource(fseed + k))
		spin(kr)
		atomic.AddInt64(&inflight, -1)
		atomic.AddInt64(&finished, 1)
		if kr.Intn(8) == 0 {
			atomic.AddInt64(&exits, 1)
			runtime.Goexit() // an ordinary way to finish, as t.FailNow does
		}
	})
	var wg sync.WaitGroup
	var refused, joins, running int64
	workers := 2 + r.Intn(6)
	for w := 0; w < workers; w++ {
		wr := rand.New(rand.NewSource(r.Int63()))
		steps := 5 + r.Intn(40)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < steps; i++ {
				switch wr.Intn(5) {
				case 0, 1:
					ok := tryStart(th, wr.Intn(3) == 0)
					if ok {
						atomic.AddInt64(&started, 1)
					} else {
						atomic.AddInt64(&refused, 1)
					}
					if ok && wr.Intn(2) == 0 {
						s := atomic.LoadInt64(&started)
						th.Join()
						if f := atomic.LoadInt64(&finished); f < s {
							t.Failf("a join that began after %d starts had returned came back when only %d runs had finished", s, f)
						}
						atomic.AddInt64(&joins, 1)
					}
				case 2, 3:
					s := atomic.LoadInt64(&started)
					th.Join()
					if f := atomic.LoadInt64(&finished); f < s {
						t.Failf("a join that began after %d starts had returned came back when only %d runs had finished", s, f)
					}
					atomic.AddInt64(&joins, 1)
				case 4:
					if th.IsRunning() {
						atomic.AddInt64(&running, 1)
					}
				}
				spin(wr)
			}
		}()
	}
	wg.Wait()
	th.Join()
	if maxIn > 1 {
		t.Failf("%d runs of the function overlapped", maxIn)
	}
	if s, f := atomic.LoadInt64(&started), atomic.LoadInt64(&finished); s != f || begun != s {
		t.Failf("%d successful starts, %d runs begun, %d finished after all starters ended and a join", s, begun, f)
	}
	if th.IsRunning() {
		t.Failf("thread still reports running after the last run was joined")
	}
	t.Stop()
	t.Eval(int(started + joins))
	t.Count("runs", int(finished))
	t.Count("runs_ended_by_goexit", int(exits))
	t.Count("refused_starts", int(refused))
	t.Count("joins", int(joins))
	t.Count("seen_running", int(running))
	t.Sig("free %d %d %d %d %d", workers, started, refused, joins, running)
	if t.Idx < 2 {
		t.Sample("%d goroutines: %d runs, %d refused starts, %d joins", workers, finished, refused, joins)
	}
}

// single has one starter, so that each run can be identified and its effects are read without synchronisation
// other than the join itself.
func single(t *vf.T) {
	r := t.R
	plain := 0 // only ordered by start and join
	gate := make(chan struct{})
	held := false
	th := thread.NewThread(func() {
		if held {
			<-gate
		}
		plain++
	})
	th.Join() // idle
	if th.IsRunning() {
		t.Fatalf("new thread reports running")
	}
	rounds := 3 + r.Intn(10)
	for i := 1; i <= rounds; i++ {
		held = r.Intn(2) == 0
		if !tryStart(th, r.Intn(2) == 0) {
			t.Fatalf("start %d of a finished thread was refused", i)
		}
		if held {
			if !th.IsRunning() {
				t.Fatalf("started thread whose function has not returned reports not running")
			}
			for k := 0; k < 1+r.Intn(3); k++ {
				if tryStart(th, r.Intn(2) == 0) {
					t.Fatalf("a start was accepted while the function was running")
				}
				t.Count("refused_starts", 1)
			}
			var wg sync.WaitGroup
			var early int32
			var released int32
			for k := 0; k < r.Intn(4); k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					th.Join()
					if atomic.LoadInt32(&released) == 0 {
						atomic.StoreInt32(&early, 1)
					}
				}()
			}
			spin(r)
			atomic.StoreInt32(&released, 1)
			gate <- struct{}{}
			wg.Wait()
			if early != 0 {
				t.Fatalf("a join returned while the function was still held")
			}
		} else {
			spin(r)
		}
		th.Join()
		if plain != i {
			t.Fatalf("after joining run %d its effect is missing: counter %d", i, plain)
		}
		if th.IsRunning() {
			t.Fatalf("thread reports running after its run was joined")
		}
		th.Join()
		t.Eval(1)
		t.Count("runs", 1)
	}
	t.Sig("single %d %d", rounds, t.Idx%64)
}

func none(t *vf.T) {
	th := thread.NewThread(nil)
	if th.TryStart() {
		t.Fatalf("a thread without a function was started")
	}
	th.Join()
}

func main() {
	sites, _ := strconv.Atoi(os.Getenv("VERIF_SITES"))
	vf.Main(&vf.Prop{
		ID: "C27",
		Rule: "short histories of concurrent start/try-start/join/is-running calls with delays injected at every lock, atomic and goroutine start in the library, " +
			"under the race detector; distinct_nontrivial counts different (goroutines, runs, refusals, joins, running observations) outcomes",
		Quick: 1600, Thorough: 40000, RaceMatters: true,
		Done: func(w *vf.Worker) {
			s, p := verifsched.Stats()
			w.T.Max("instrumented_sites_run_per_worker", s)
			w.T.Max("cross_function_site_pairs_per_worker", p)
			w.T.Count("schedule_points_passed", int(verifsched.Hits()))
		},
		Case: func(t *vf.T) {
			seed := t.R.Uint64()
			switch t.R.Intn(4) {
			case 0:
				verifsched.Off()
			case 1:
				verifsched.Configure(seed, 30000, 0, 0, 0, 0, 0, 0, sites)
			case 2:
				verifsched.Configure(seed, 10000, 3000, 300, 400, 0, 0, 0, sites)
			case 3:
				verifsched.Configure(seed, 2000, 0, 0, 0, 3, 30000, 800, sites)
			}
			if t.Idx == 0 {
				none(t)
			}
			if t.R.Intn(3) == 0 {
				single(t)
			} else {
				free(t)
			}
		},
	})
}
