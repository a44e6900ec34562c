package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"regexp"
	"runtime"
	"strings"
	"syscall"
	"time"
)

// Fault is the network's treatment of one request.
type Fault struct {
	Kind string `json:"k,omitempty"`  // "", refuse, lostresp, writefail, cut, retry, trunc, gate, gatelost
	L1   int64  `json:"l1"`           // request latency
	L2   int64  `json:"l2"`           // response latency
	At   int64  `json:"at,omitempty"` // cut: ns after the request was sent
}

// Rates of the faults of one class of links, in percent.
type Rates struct {
	Refuse, LostResp, WriteFail, Cut, Retry, Trunc int
	Gate                                           int // answers 502 of a proxy, half of them after the service handled the request
	Slow                                           int // percentage of requests with a long latency
	MinLat, MaxLat                                 time.Duration
	MaxSlow                                        time.Duration
	MaxCut                                         time.Duration
}

var pointers = regexp.MustCompile(`0x[0-9a-f]+`)

// Call is one request as seen at the server and the client.
type Call struct {
	Host, Svc, Key string
	Op             int
	Method, Path   string
	Req            []byte
	Fault          Fault
	SentSeq        uint64
	SentAt         int64
	// server side
	Handled      bool
	BegSeq       uint64
	BegAt        int64
	Returned     bool
	WroteSeq     uint64 // the first byte of the response was written
	WroteAt      int64
	EndSeq       uint64
	EndAt        int64
	Status       int
	Resp         []byte
	WriteErr     bool // the server saw its response write fail
	Tried        []byte
	Panicked     string
	Crashed      bool // the process ended while it handled the request
	Disconnected bool // the server's request context was cancelled before the handler returned
	DiscSeq      uint64
	DiscAt       int64
	// client side
	Delivered bool // the response reached the client
	DoneSeq   uint64
	DoneAt    int64
	ClientErr string
	Tag       any
	Parent    *Call // the request whose handler sent this one
	hgo       uint64
}

func (c *Call) String() string {
	return fmt.Sprintf("%s %s %s %s -> %d %s", c.Key, c.Method, c.Path, strings.TrimSpace(string(c.Req)), c.Status, strings.TrimSpace(string(c.Resp)))
}

type simServer struct {
	name    string
	mux     http.Handler
	closing bool
	down    bool
	active  int
	wake    chan struct{}
	net     *simNet
	closed  chan struct{}
	timeout time.Duration // the server's write timeout
}

type simNet struct {
	s       *Sim
	servers map[string]*simServer
	rates   func(host string) *Rates
	curOp   map[string]int
	cur     *http.Request // whose fate is being decided
	curBody []byte
	nth     map[string]int
	parts   []partition
	calls   []*Call
	onSend  func(*Call)
	onBegin func(*Call)
	onEnd   func(*Call)
	onDone  func(*Call)
	onDisc  func(*Call)
	byGo    map[uint64]*Call // running handlers by goroutine
	links   []*link          // requests that are being handled
	dead    map[string]bool  // hosts of crashed processes
	byHTTP  map[*http.Server]*simServer
	hdr     map[string]string // headers of the next raw request
}

// partition: hosts with the prefix cannot reach anything in [from,to)
type partition struct {
	prefix   string
	from, to int64
}

func newSimNet(s *Sim) *simNet {
	n := &simNet{s: s, servers: map[string]*simServer{}, curOp: map[string]int{}, nth: map[string]int{}, dead: map[string]bool{}, byHTTP: map[*http.Server]*simServer{}, byGo: map[uint64]*Call{}}
	http.DefaultTransport = n
	return n
}

// crash ends a process at once: whatever it still does is seen by nobody. Its
// connections break; requests it sent as host look like requests of a client
// that disconnected.
func (n *simNet) crash(v *service, host string) {
	n.s.fault("crash", true)
	n.s.ev("%s crashed", v.name)
	v.sv.down, v.crashed = true, true
	if host != "" {
		n.dead[host] = true
	}
	for _, l := range append([]*link(nil), n.links...) {
		switch {
		case l.sv == v.sv:
			l.c.Crashed = true
			l.breakNow()
		case host != "" && l.c.Host == host:
			l.breakNow()
		}
	}
	v.stop() // the remains end; they reach nobody
}

// op announces the operation the host works on; fault decisions are keyed by it.
func (n *simNet) op(host string, id int) {
	n.curOp[host] = id
}

var (
	errGateway = errors.New("simnet: answered by a gateway")
	errReset   = error(&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)})
	errRefused = error(&net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)})
	errTimeout = error(&net.OpError{Op: "dial", Net: "tcp", Err: os.ErrDeadlineExceeded})
	errPipe    = error(&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)})
)

// lost is how a client sees that its connection ended without an answer.
func (f Fault) lost() error {
	if f.L2&1 == 0 {
		return io.EOF
	}
	return errReset
}

func (n *simNet) partitioned(host string) bool {
	if n.s.heal {
		return false
	}
	t := n.s.now()
	for _, p := range n.parts {
		if t >= p.from && t < p.to && strings.HasPrefix(host, p.prefix) {
			return true
		}
	}
	return false
}

func (n *simNet) decide(key, host string) Fault {
	if n.s.plan.HaveFaults {
		f, ok := n.s.plan.Faults[key]
		if !ok {
			f = Fault{L1: int64(500 * time.Microsecond), L2: int64(500 * time.Microsecond)}
		}
		n.s.decided(key, f)
		return f
	}
	r := newRand(n.s.plan.Seed, "fault."+key)
	var rt *Rates
	if n.rates != nil {
		rt = n.rates(host)
	}
	if rt == nil {
		rt = &Rates{}
	}
	min, max := rt.MinLat, rt.MaxLat
	if max == 0 {
		min, max = 50*time.Microsecond, time.Millisecond
	}
	f := Fault{L1: r.Dur(min, max), L2: r.Dur(min, max)}
	if r.P(30) { // bunch requests up
		f.L1 = int64(min)
	}
	if r.P(30) {
		f.L2 = int64(min)
	}
	p := r.Intn(100)
	if r.P(rt.Slow) && !n.s.heal {
		if r.P(50) {
			f.L1 += r.Dur(0, rt.MaxSlow)
		} else {
			f.L2 += r.Dur(0, rt.MaxSlow)
		}
	}
	at := int64(0)
	if rt.MaxCut > 0 {
		if r.P(50) {
			at = f.L1 + r.I64(int64(time.Millisecond))
		} else {
			at = r.Dur(0, rt.MaxCut)
		}
	}
	for _, k := range []struct {
		k string
		n int
	}{{"refuse", rt.Refuse}, {"lostresp", rt.LostResp}, {"writefail", rt.WriteFail}, {"cut", rt.Cut}, {"retry", rt.Retry}, {"trunc", rt.Trunc}, {"gate", (rt.Gate + 1) / 2}, {"gatelost", rt.Gate / 2}} {
		if p < k.n {
			f.Kind = k.k
			break
		}
		p -= k.n
	}
	if f.Kind == "cut" {
		f.At = at
	}
	if n.s.heal {
		f = Fault{L1: f.L1, L2: f.L2}
	}
	n.s.decided(key, f)
	return f
}

// link is one connection: what server and client share about a request.
type link struct {
	c      *Call
	cut    chan struct{} // closed when the connection broke
	isCut  bool
	cancel context.CancelFunc
	done   chan struct{} // closed when the handler returned
	n      *simNet
	body   bytes.Buffer
	hdr    http.Header
	wrote  bool
	fail   bool
	abort  bool
	sv     *simServer
}

func (l *link) breakNow() {
	if l.isCut {
		return
	}
	l.isCut = true
	close(l.cut)
	if l.c.Handled && !l.c.Returned && !l.c.Crashed {
		l.c.Disconnected = true
		l.c.DiscSeq = l.n.s.seq()
		l.c.DiscAt = l.n.s.now()
		if l.n.onDisc != nil {
			l.n.onDisc(l.c)
		}
	}
	if l.cancel != nil {
		l.cancel()
	}
}

func (l *link) Header() http.Header { return l.hdr }
func (l *link) WriteHeader(code int) {
	if l.wrote {
		return
	}
	l.wrote = true
	l.c.Status = code
	l.c.WroteSeq, l.c.WroteAt = l.n.s.seq(), l.n.s.now()
}
func (l *link) Write(p []byte) (int, error) {
	l.WriteHeader(200)
	if l.fail || l.isCut || l.sv.timeout > 0 && l.n.s.now()-l.c.BegAt > int64(l.sv.timeout) {
		l.c.WriteErr = true
		l.c.Tried = append(l.c.Tried, p...)
		return 0, errPipe
	}
	return l.body.Write(p)
}

// serve runs the handler like net/http does.
func (l *link) serve(sv *simServer, req *http.Request) {
	c := l.c
	defer func() {
		if l.cancel != nil {
			l.cancel()
		}
		sv.active--
		for i, x := range l.n.links {
			if x == l {
				l.n.links = append(l.n.links[:i], l.n.links[i+1:]...)
				break
			}
		}
		close(l.done)
		if sv.active == 0 && sv.wake != nil {
			close(sv.wake)
			sv.wake = nil
		}
	}()
	if c.Crashed {
		return
	}
	c.Handled = true
	c.hgo = uint64(runtime.SimGoid())
	l.n.byGo[c.hgo] = c
	c.BegSeq, c.BegAt = l.n.s.seq(), l.n.s.now()
	if l.isCut {
		c.Disconnected, c.DiscSeq, c.DiscAt = true, c.BegSeq, c.BegAt
		l.cancel()
	}
	if l.n.onBegin != nil {
		l.n.onBegin(c)
	}
	l.n.s.ev("beg %s %s %s %s", c.Key, c.Method, c.Path, strings.TrimSpace(string(c.Req)))
	func() {
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 16384)
				buf = buf[:runtime.Stack(buf, false)]
				c.Panicked = pointers.ReplaceAllString(fmt.Sprint(r), "0x*") + " @ " + panicFrame(string(buf))
				l.abort = true
				if c.Crashed {
					return
				}
				l.n.s.violate("A01,"+l.n.s.plan.Property, "handler-panic:"+c.Panicked, "handler of %s %s panicked: %s (request %s)", c.Method, c.Path, c.Panicked, c.Req)
			}
		}()
		sv.mux.ServeHTTP(l, req)
	}()
	delete(l.n.byGo, c.hgo)
	if c.Crashed {
		return
	}
	if l.abort {
		l.wrote, c.Status = true, 0
	} else {
		l.WriteHeader(200)
	}
	c.EndSeq, c.EndAt = l.n.s.seq(), l.n.s.now()
	c.Returned = true
	if t := int64(l.sv.timeout); t > 0 && c.EndAt-c.BegAt > t && !l.isCut {
		// net/http gives up the connection on its own
		p := map[string]string{"locker": "A01,L03,R05,S01", "limiter": "A01,R05,S01", "willow": "A01,Q08,S01"}[sv.name]
		l.n.s.violate(p, "server-timeout", "%s took %dus, the server drops the connections of requests that take longer than %dus", c, (c.EndAt-c.BegAt)/1000, t/1000)
	}
	c.Resp = append([]byte(nil), l.body.Bytes()...)
	l.n.s.ev("end %s %d %s%s", c.Key, c.Status, strings.TrimSpace(string(c.Resp)), map[bool]string{true: " [write failed]"}[c.WriteErr])
	if l.n.onEnd != nil {
		l.n.onEnd(c)
	}
}

// panicFrame finds the innermost repository frame of a panic.
func panicFrame(st string) string {
	after := false
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "panic(") {
			after = true
			continue
		}
		if after && strings.HasPrefix(l, "github.com/DanLavine/") && !strings.Contains(l, "/zzsim") {
			f := strings.TrimPrefix(l, "github.com/DanLavine/willow/")
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			return f
		}
	}
	return "?"
}

func (n *simNet) RoundTrip(req *http.Request) (*http.Response, error) {
	host := req.URL.Host
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	base := fmt.Sprintf("%s/%d", host, n.curOp[host])
	n.nth[base]++
	key := fmt.Sprintf("%s#%d", base, n.nth[base])
	n.cur, n.curBody = req, body
	f := n.decide(key, host)
	res, err := n.attempt(req, host, key, body, f)
	if f.Kind == "retry" && err != nil && req.Context().Err() == nil && (req.Method == "GET" || req.Method == "HEAD") {
		f.Kind = ""
		res, err = n.attempt(req, host, key+"r", body, f)
	}
	return res, err
}

func (n *simNet) fault(k string) { n.s.faults[k]++ }

func (n *simNet) attempt(req *http.Request, host, key string, body []byte, f Fault) (*http.Response, error) {
	s := n.s
	svc := host
	if i := strings.IndexByte(host, '.'); i > 0 {
		svc = host[:i]
	}
	c := &Call{Host: host, Svc: svc, Key: key, Op: n.curOp[host], Method: req.Method, Path: req.URL.Path, Req: body, Fault: f, SentSeq: s.seq(), SentAt: s.now()}
	c.Parent = n.byGo[uint64(runtime.SimGoid())]
	n.calls = append(n.calls, c)
	s.ev("send %s %s %s fault=%s", key, c.Method, c.Path, f.Kind)
	if n.onSend != nil {
		n.onSend(c)
	}
	finish := func(err error) error {
		c.DoneSeq, c.DoneAt = s.seq(), s.now()
		if err != nil {
			c.ClientErr = err.Error()
		}
		s.ev("done %s %v", key, err)
		if n.onDone != nil {
			n.onDone(c)
		}
		return err
	}
	ctx := req.Context()
	l := &link{c: c, cut: make(chan struct{}), done: make(chan struct{}), hdr: http.Header{}, n: n}
	// everything below waits with one deadline or the other, never both
	sleep := func(d int64) error {
		if d <= 0 {
			return ctx.Err()
		}
		t := time.NewTimer(time.Duration(d))
		defer t.Stop()
		select {
		case <-t.C:
			return nil
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	if f.Kind == "cut" {
		n.fault("cut")
		time.AfterFunc(time.Duration(f.At), l.breakNow)
	}
	if f.L1+f.L2 > int64(20*time.Millisecond) {
		n.fault("slow")
	}
	// the way to the server
	t0 := s.now()
	if err := sleepCut(f.L1, ctx, l.cut); err != nil {
		if s.now()-t0 < f.L1 {
			// the request bytes may still arrive: not in this model
		}
		return nil, finish(err)
	}
	if n.partitioned(host) {
		n.fault("partition")
		// packets vanish; the connection attempt fails when the partition ends or after 300ms
		if err := sleep(int64(300 * time.Millisecond)); err != nil {
			return nil, finish(err)
		}
		return nil, finish(errTimeout)
	}
	sv := n.servers[svc]
	if n.dead[host] {
		return nil, finish(errRefused)
	}
	if f.Kind == "refuse" || sv == nil || sv.closing || sv.down {
		if f.Kind == "refuse" {
			n.fault("refuse")
		}
		return nil, finish(errRefused)
	}
	if f.Kind == "gate" {
		n.fault("gateway")
		finish(errGateway)
		return gateway(req, http.StatusBadGateway), nil
	}
	sctx, cancel := context.WithCancel(context.Background())
	l.cancel = cancel
	l.fail = f.Kind == "writefail"
	if l.fail {
		n.fault("writefail")
	}
	sreq, err := http.NewRequestWithContext(sctx, req.Method, req.URL.String(), bytes.NewReader(body))
	if err != nil {
		return nil, finish(err)
	}
	sreq.Header = req.Header.Clone()
	sreq.RequestURI = req.URL.RequestURI()
	sv.active++
	l.sv = sv
	n.links = append(n.links, l)
	go l.serve(sv, sreq)
	select {
	case <-l.done:
	case <-ctx.Done():
		// the client went away; the server learns about it one latency later
		n.fault("client-cancel")
		time.AfterFunc(time.Duration(f.L1), l.breakNow)
		return nil, finish(ctx.Err())
	case <-l.cut:
		return nil, finish(errReset)
	}
	if c.Crashed || l.abort || l.fail || c.WriteErr {
		return nil, finish(f.lost())
	}
	// the way back
	if err := sleepCut(f.L2, ctx, l.cut); err != nil {
		return nil, finish(err)
	}
	if n.partitioned(host) {
		n.fault("partition-resp")
		if err := sleep(int64(300 * time.Millisecond)); err != nil {
			return nil, finish(err)
		}
		return nil, finish(errReset)
	}
	switch f.Kind {
	case "gatelost":
		n.fault("gateway-lost")
		finish(errGateway)
		return gateway(req, http.StatusGatewayTimeout), nil
	case "lostresp", "retry":
		if f.Kind == "lostresp" || req.Method == "GET" {
			n.fault(f.Kind)
			return nil, finish(f.lost())
		}
	}
	resp := &http.Response{StatusCode: c.Status, Status: http.StatusText(c.Status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: l.hdr.Clone(),
		ContentLength: int64(len(c.Resp)), Request: req}
	if f.Kind == "trunc" && len(c.Resp) > 1 {
		n.fault("trunc")
		got := len(c.Resp) / 2
		if f.L1&1 == 1 { // anywhere, but the end is missed
			got = int(f.L2 % int64(len(c.Resp)))
		}
		resp.Body = io.NopCloser(io.MultiReader(bytes.NewReader(c.Resp[:got]), errReader{}))
		finish(io.ErrUnexpectedEOF)
		return resp, nil
	}
	resp.Body = io.NopCloser(bytes.NewReader(c.Resp))
	c.Delivered = true
	finish(nil)
	return resp, nil
}

// gateway is the answer of a proxy between client and service.
func gateway(req *http.Request, code int) *http.Response {
	b := "<html><body><h1>" + http.StatusText(code) + "</h1></body></html>"
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"text/html"}, gatewayHeader: {"1"}}, ContentLength: int64(len(b)), Request: req, Body: io.NopCloser(strings.NewReader(b))}
}

const gatewayHeader = "X-Simulated-Gateway"

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

func sleepCut(d int64, ctx context.Context, cut chan struct{}) error {
	if d <= 0 {
		return ctx.Err()
	}
	t := time.NewTimer(time.Duration(d))
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	case <-cut:
		return errReset
	}
}

// httpClient of a host: used for raw requests
var rawClient = &http.Client{}

// raw sends a request without a client library. Status 0 means an error.
func (n *simNet) raw(ctx context.Context, host, method, path string, body string) (int, []byte, error) {
	var rd io.Reader
	if body != "" {
		rd = strings.NewReader(body)
	}
	req, err := http.NewRequestWithContext(ctx, method, "http://"+host+path, rd)
	if err != nil {
		return 0, nil, err
	}
	if n.hdr == nil {
		n.hdr = map[string]string{"Content-Type": "application/json"}
	}
	for k, v := range n.hdr {
		req.Header.Set(k, v)
	}
	n.hdr = nil
	resp, err := rawClient.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, nil, err
	}
	if resp.Header.Get(gatewayHeader) != "" {
		return 0, nil, errGateway
	}
	return resp.StatusCode, b, nil
}

var _ = time.Now
