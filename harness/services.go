package main

import (
	"context"
	"net/http"
	"os"
	"os/signal"
	"runtime"
	"time"

	"github.com/DanLavine/willow/internal/zzhook"
	"github.com/DanLavine/willow/internal/zzmain/limiter"
	"github.com/DanLavine/willow/internal/zzmain/locker"
	"github.com/DanLavine/willow/internal/zzmain/willow"
)

// service is one running process of the deployment: the main function of its
// command, with the simulator behind its listener, its signals and its exit.
type service struct {
	name    string
	sv      *simServer
	stop    context.CancelFunc // the signal to shut down
	sig     context.Context
	ready   chan struct{} // it reacts to signals
	up      chan struct{} // it listens
	done    chan struct{} // the process ended
	gid     uint64        // its main goroutine
	exit    int           // the code of os.Exit
	crashed bool
}

var ports = map[string]string{"locker": "8083", "limiter": "8082", "willow": "8080"}

// tlsDir holds a key pair for listeners with TLS; set by the linker.
var tlsDir string

// startService starts a service and waits until it listens.
func (s *Sim) startService(name string, main func(), args ...string) *service {
	v := s.startProcess(name, main, args...)
	select {
	case <-v.up:
	case <-v.done:
		s.violate("A01,S02,"+s.plan.Property, "ended-at-start", "the %s process ended before it listened, nobody had told it to", name)
	}
	return v
}

// startProcess starts a service; processes are started one after another.
func (s *Sim) startProcess(name string, main func(), args ...string) *service {
	s.starting.Lock()
	defer s.starting.Unlock()
	v := &service{name: name, ready: make(chan struct{}), up: make(chan struct{}), done: make(chan struct{})}
	v.sig, v.stop = context.WithCancel(context.Background())
	s.procs = append(s.procs, v)
	zzhook.Log = s.log
	signal.SimNotify = func(parent context.Context) (context.Context, context.CancelFunc) {
		select {
		case <-v.ready:
		default:
			close(v.ready)
		}
		if parent == context.Background() {
			return context.WithCancel(v.sig)
		}
		ctx, cancel := context.WithCancel(parent)
		context.AfterFunc(v.sig, cancel)
		return ctx, cancel
	}
	http.SimServer = s.server
	os.SimExit = func(code int) {
		for _, v := range s.procs {
			if v.gid == runtime.SimGoid() && v.sig.Err() != nil {
				v.exit = code
				runtime.Goexit()
			}
		}
		if code != 0 {
			panic("the process of a service ended itself: os.Exit")
		}
	}
	listener := []string{"-insecure-http"}
	if s.param("tls", func(r *Rand) int64 { return pick(r, int64(0), 0, 0, 0, 0, 0, 1) }) == 1 {
		listener = []string{"-server-key", tlsDir + "/server.key", "-server-crt", tlsDir + "/server.crt"}
	}
	go func() {
		v.gid = runtime.SimGoid()
		defer close(v.done)
		defer func() {
			s.ev("process %s ended (%d)", name, v.exit)
			for _, l := range s.net.links {
				if l.sv == v.sv && !v.crashed && l.c.Handled && !l.c.Returned {
					s.violate("S01", "killed-at-exit", "the %s process ended at %dus while it handled %s", name, s.now()/1000, l.c)
				}
			}
		}()
		os.Args = append(append([]string{name, "-port", ports[name]}, listener...), args...)
		main()
	}()
	select {
	case <-v.ready:
	case <-v.up:
	case <-v.done:
	}
	return v
}

// server is net/http's Server for the simulated network.
func (s *Sim) server(hs *http.Server, what string, ctx context.Context) error {
	sv := s.net.byHTTP[hs]
	if sv == nil {
		sv = &simServer{net: s.net, closed: make(chan struct{}), timeout: hs.WriteTimeout}
		if sv.timeout == 0 || hs.ReadTimeout > 0 && hs.ReadTimeout < sv.timeout {
			sv.timeout = hs.ReadTimeout
		}
		s.net.byHTTP[hs] = sv
		for _, v := range s.procs {
			if hs.Addr == ":"+ports[v.name] {
				sv.name = v.name
				if what == "serve" && v.sv == nil {
					sv.mux, v.sv = hs.Handler, sv
					s.net.servers[v.name] = sv
					close(v.up)
				}
			}
		}
		if sv.name == "" {
			panic("harness: unexpected address " + hs.Addr)
		}
	}
	return sv.control(what, ctx)
}

// control is net/http's Server for the simulated network.
func (sv *simServer) control(what string, ctx context.Context) error {
	switch what {
	case "serve":
		if !sv.closing {
			<-sv.closed
		}
		return http.ErrServerClosed
	case "shutdown":
		if !sv.closing {
			sv.closing = true
			close(sv.closed)
		}
		for sv.active > 0 {
			if sv.wake == nil {
				sv.wake = make(chan struct{})
			}
			select {
			case <-sv.wake:
			case <-ctx.Done():
				return ctx.Err()
			}
		}
	case "close":
		if !sv.closing {
			sv.closing = true
			close(sv.closed)
		}
		for _, l := range append([]*link(nil), sv.net.links...) {
			if l.sv == sv {
				l.breakNow()
			}
		}
	}
	return nil
}

func (s *Sim) startLocker(defaultTimeout time.Duration) *service {
	return s.startService("locker", locker.Main, "-lock-default-timeout", defaultTimeout.String())
}

func (s *Sim) startLimiter() *service { return s.startLimiterAs("locker.limiter") }

// startLimiterAs starts a limiter that talks to the locker over the network under the name of host.
func (s *Sim) startLimiterAs(host string) *service {
	return s.startService("limiter", limiter.Main, "-locker-url", "http://"+host)
}

// startWillow starts a willow that talks to the limiter over the network.
func (s *Sim) startWillow() *service {
	return s.startService("willow", willow.Main, "-limiter-url", "http://limiter.willow", "-storage-type", "memory")
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}
