package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/DanLavine/willow/internal/heartbeater"
)

// The world of the heartbeat timer (H01): several timers, each with its own
// clients that start, renew and stop it around its time-out, and a shutdown.

func init() {
	worlds["hb"] = &world{run: runHB, limit: func() time.Duration { return 5 * time.Minute }, stuck: "H01", tick: []int64{50, 200, 1000}}
}

type hbTimer struct {
	timeout  int64
	tm       heartbeater.Heartbeater
	shutdown bool // has a shutdown callback
	// observations
	timeouts, shutdowns, stops, starts int
	startCall, startRet                int64
	beats                              [][2]int64 // accepted: call, return
	endAt                              int64
	endKind                            string
	executed                           bool // Execute returned
	execRet                            int64
	cbAt                               int64
	stopAsked                          bool
	lock                               sync.Mutex // callers may hold it, and the timeout callback needs it
}

const hbSlack = int64(2 * time.Second)

func runHB() {
	s := S
	n := int(s.param("timers", func(r *Rand) int64 { return pick(r, int64(1), 1, 2, 3) }))
	tos := make([]int64, n)
	for i := range tos {
		tos[i] = s.param(fmt.Sprintf("timeout%d", i), func(r *Rand) int64 {
			return pick(r, int64(time.Millisecond), int64(20*time.Millisecond), int64(200*time.Millisecond), int64(time.Second))
		})
	}
	cb := s.param("shutdowncb", func(r *Rand) int64 { return r.I64(4) })
	cancelAt := s.param("cancel", func(r *Rand) int64 {
		if r.P(60) {
			return 0
		}
		return r.Dur(0, 2*time.Second)
	})
	locked := s.param("locked", func(r *Rand) int64 { return pick(r, int64(0), 0, 1) })
	ops := s.ops(func(r *Rand) []Op {
		var l []Op
		c := 0
		for i := 0; i < n; i++ {
			// the starter
			l = append(l, Op{C: c, K: "start", A: []int64{int64(i)}, D: pick(r, 0, r.Dur(0, time.Millisecond), r.Dur(0, 100*time.Millisecond))})
			if r.P(20) {
				l = append(l, Op{C: c, K: "start", A: []int64{int64(i)}})
			}
			c++
			nb := 1 + r.Intn(3)
			for b := 0; b < nb; b++ {
				m := 1 + r.Intn(6)
				mode := r.Intn(4)
				for j := 0; j < m; j++ {
					o := Op{C: c, K: "beat", A: []int64{int64(i)}}
					switch mode {
					case 0: // just before, at and after the time-out
						o.D = tos[i] + r.Dur(0, 3*time.Microsecond) - int64(2*time.Microsecond)
					case 1:
						o.D = tos[i]*8/10 + r.I64(tos[i]/4+1)
					case 2:
						o.D = r.I64(tos[i] + 1)
					case 3:
						o.D = r.Dur(0, 20*time.Microsecond)
					}
					l = append(l, o)
				}
				c++
			}
			ns := pick(r, 0, 0, 1, 2, 3)
			at := r.I64(3 * tos[i])
			if r.P(40) {
				at = tos[i] + r.Dur(0, 10*time.Microsecond) - int64(5*time.Microsecond)
			}
			for b := 0; b < ns; b++ {
				d := at
				if r.P(50) {
					d += r.Dur(0, 5*time.Microsecond)
				}
				if r.P(10) {
					d = r.I64(3 * tos[i])
				}
				l = append(l, Op{C: c, K: "stop", A: []int64{int64(i)}, D: d})
				if r.P(30) {
					l = append(l, Op{C: c, K: pick(r, "beat", "stop"), A: []int64{int64(i)}})
				}
				c++
			}
			if r.P(30) {
				l = append(l, Op{C: c, K: "start", A: []int64{int64(i)}, D: r.I64(tos[i])})
				c++
			}
			if r.P(30) {
				for j := 0; j < 3; j++ {
					l = append(l, Op{C: c, K: "last", A: []int64{int64(i)}, D: r.I64(tos[i])})
				}
				c++
			}
		}
		return l
	})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	bad := func(sig, f string, args ...any) { s.violate("H01", sig, f, args...) }
	base := time.Now().UnixNano() - s.now()
	var all []*hbTimer
	cancelled := int64(-1)
	for i := 0; i < n; i++ {
		t := &hbTimer{timeout: tos[i], shutdown: cb>>i&1 == 1 || cb == 3, execRet: -1, startRet: -1, startCall: -1}
		onTimeout := func() {
			t.timeouts++
			t.cbAt = s.now()
			s.ev("timer %d times out", i)
			if locked == 1 {
				t.lock.Lock()
				defer t.lock.Unlock()
			}
			if t.startCall < 0 {
				bad("timeout-before-start", "timer %d timed out at %dus before it was started", i, t.cbAt/1000)
			} else if t.cbAt < t.startCall+t.timeout {
				bad("early-timeout", "timer %d (timeout %dus) started no earlier than %dus timed out at %dus", i, t.timeout/1000, t.startCall/1000, t.cbAt/1000)
			}
			if t.executed {
				bad("callback-after-end", "timer %d times out after its end", i)
			}
		}
		onShutdown := func() {
			t.shutdowns++
			t.cbAt = s.now()
			s.ev("timer %d shuts down", i)
			if cancelled < 0 {
				bad("shutdown-without-cancel", "timer %d was shut down although nobody asked for it", i)
			}
			if t.executed {
				bad("callback-after-end", "timer %d shuts down after its end", i)
			}
		}
		if !t.shutdown {
			onShutdown = nil
		}
		hb, err := heartbeater.New(time.Duration(t.timeout), onShutdown, onTimeout)
		must(err)
		t.tm = hb
		all = append(all, t)
		go func() {
			err := hb.Execute(ctx)
			t.executed, t.execRet = true, s.now()
			s.ev("timer %d ended %v", i, err)
		}()
	}
	if cancelAt > 0 {
		time.AfterFunc(time.Duration(cancelAt), func() {
			cancelled = s.now()
			cancel()
		})
	}
	s.status = func() string {
		l := ""
		for i, t := range all {
			l += fmt.Sprintf("timer %d: executed=%v starts=%d stops=%d timeouts=%d shutdowns=%d; ", i, t.executed, t.starts, t.stops, t.timeouts, t.shutdowns)
		}
		return l
	}
	var waiting []func() string
	s.runClients(ops, func(o *Op) {
		t := all[o.a(0)]
		call := s.now()
		ended := t.executed
		if locked == 1 && (o.K == "stop" || o.K == "beat") {
			t.lock.Lock()
			defer t.lock.Unlock()
			call, ended = s.now(), t.executed
		}
		switch o.K {
		case "start":
			if t.startCall < 0 {
				t.startCall = call
			}
			ok := t.tm.Start()
			if ok {
				t.starts++
				t.startRet = s.now()
				if t.starts > 1 {
					bad("two-starts", "timer %d was started twice", o.a(0))
				}
				if ended {
					bad("start-after-end", "timer %d was started after its end", o.a(0))
				}
			}
			s.outcome(fmt.Sprintf("start.%v", ok))
		case "beat":
			ok := t.tm.Heartbeat()
			ret := s.now()
			if ok {
				if ended {
					bad("beat-after-end", "a heartbeat was accepted although the timer %d had ended", o.a(0))
				}
				if t.startCall < 0 {
					bad("beat-before-start", "a heartbeat was accepted by timer %d before it was started", o.a(0))
				}
				t.beats = append(t.beats, [2]int64{call, ret})
			} else if t.timeouts+t.shutdowns+t.stops == 0 && cancelled < 0 && !t.stopAsked {
				// its time may be up already
				waiting = append(waiting, func() string {
					if t.timeouts == 0 && !t.stopAsked && cancelled < 0 || t.timeouts > 0 && t.cbAt > ret+hbSlack {
						return fmt.Sprintf("beat-refused|a heartbeat was refused by timer %d at %dus which had not ended", o.a(0), ret/1000)
					}
					return ""
				})
			}
			s.outcome(fmt.Sprintf("beat.%v", ok))
		case "stop":
			t.stopAsked = true
			ok := t.tm.Stop()
			if ok {
				t.stops++
				if ended {
					bad("stop-after-end", "a stop succeeded although the timer %d had ended", o.a(0))
				}
			} else if t.timeouts+t.shutdowns == 0 && cancelled < 0 {
				// another stop must have won; it may not have returned yet
				ret := s.now()
				waiting = append(waiting, func() string {
					if t.stops == 0 && (t.timeouts == 0 || t.cbAt > ret+hbSlack) && (cancelled < 0 || cancelled > ret+hbSlack) {
						return fmt.Sprintf("stop-refused|a stop of timer %d was refused although it neither timed out, was shut down nor stopped by another caller", o.a(0))
					}
					return ""
				})
			}
			s.outcome(fmt.Sprintf("stop.%v", ok))
		case "last":
			last := t.tm.GetLastHeartbeat().UnixNano() - base
			now := s.now()
			if last > now+1000 {
				bad("last-future", "GetLastHeartbeat of timer %d is %dus, now is %dus", o.a(0), last/1000, now/1000)
			}
			if t.starts > 0 && last < t.startCall {
				bad("last-before-start", "GetLastHeartbeat of timer %d is %dus, it was started at %dus", o.a(0), last/1000, t.startCall/1000)
			}
			s.outcome("last")
		}
		s.count("checks")
		if late := s.now(); t.executed && late > maxI(call, t.execRet)+hbSlack {
			bad("blocked-after-end", "%s of timer %d returned at %dus, its end was at %dus", o.K, o.a(0), late/1000, t.execRet/1000)
		}
	})
	// every timer was started or stopped by now: without heartbeats it ends
	for i, t := range all {
		for w := 0; w < 1000 && !t.executed; w++ {
			time.Sleep(10 * time.Millisecond)
		}
		if !t.executed {
			bad("no-end", "timer %d never ended (last activity long ago, timeout %dus)", i, t.timeout/1000)
			continue
		}
		last := t.startRet
		for _, b := range t.beats {
			if b[1] > last {
				last = b[1]
			}
			if t.timeouts > 0 && t.cbAt < b[0]+t.timeout {
				bad("early-timeout", "timer %d (timeout %dus) accepted a heartbeat sent at %dus and timed out at %dus", i, t.timeout/1000, b[0]/1000, t.cbAt/1000)
			}
		}
		if t.starts > 0 && t.execRet > last+t.timeout+hbSlack {
			bad("late-timeout", "timer %d (timeout %dus) ended at %dus, its last heartbeat was at %dus", i, t.timeout/1000, t.execRet/1000, last/1000)
		}
		if cancelled >= 0 && t.starts > 0 && t.execRet > maxI(cancelled, last)+hbSlack {
			bad("late-shutdown", "timer %d ended at %dus, the shutdown was at %dus", i, t.execRet/1000, cancelled/1000)
		}
		ends := t.timeouts + t.shutdowns + t.stops
		if ends > 1 {
			bad("two-ends", "timer %d ended %d times: timeouts=%d shutdowns=%d stops=%d", i, ends, t.timeouts, t.shutdowns, t.stops)
		}
		if ends == 0 && (t.shutdown || cancelled < 0) {
			bad("unobserved-end", "timer %d ended but nobody observed it (stops asked: %v)", i, t.stopAsked)
		}
		k := "shutdown"
		if t.timeouts > 0 {
			k = "timeout"
		} else if t.stops > 0 {
			k = "stop"
		}
		s.outcome("end." + k)
		s.state(fmt.Sprintf("%s b%d st%d", k, len(t.beats), t.starts))
	}
	for _, f := range waiting {
		if m := f(); m != "" {
			sig, msg, _ := strings.Cut(m, "|")
			bad(sig, "%s", msg)
		}
	}
	if cancelAt > 0 {
		s.fault("shutdown", cancelled >= 0)
	}
}

func (s *Sim) fault(k string, on bool) {
	if on {
		s.faults[k]++
	}
}

func maxI(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
