package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/jumboframes/armorigo/log"
	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
)

var quietLog = log.NewLog().WithOutput(io.Discard).WithLevel(log.LevelFatal)

// Sys is one run: connections between clients and the servers of this process.
type Sys struct {
	*Rec
	// reads and writes in multiples of 8 bytes, so that the bytes of concurrent reads are recognized
	align bool
	seed  int64
	name  string
	mu    sync.Mutex
	// callers' view of pending operations by number
	ops map[int]*Op
	// handler invocations by call
	hs map[int]*hinv
	// received messages by publish operation
	rmsg map[int]geminio.Message
	cond *sync.Cond
	// registrations which succeeded, and those the delegate of the other side was told of
	rrWant, rrGot map[string]int
	later         chan struct{} // when completions left alone are looked at
	slow          time.Duration // between completions
	pert          int           // bits: noisy logs, lazy timers
	// how handlers behave when nobody steers them
	auto func(h *hinv) (data, cust []byte, txt string)
	// ms the handlers observe their contexts
	conns map[int]*Conn
	// shared completion channels: which operation a message or request belongs to
	pend map[interface{}]*Op
}

type Op struct {
	o     int
	done  chan struct{} // returned
	comp  chan struct{} // completed (asynchronous)
	err   string
	txt   string
	n     int
	st    *End // stream opened or accepted
	m     int  // message received
	msg   geminio.Message
	async bool
	mode  string
	pub   *End
	stop  context.CancelFunc
}

func newOp(o int) *Op { return &Op{o: o, done: make(chan struct{}), comp: make(chan struct{})} }

type hinv struct {
	o    int // call
	e    *End
	data []byte
	cust []byte
	fn   string
	out  chan hout
	ctx  context.Context
	cend chan struct{} // context ended
}

type hout struct {
	data, cust []byte
	txt        string
}

// Conn is a connection with both its ends in this process
type Conn struct {
	s        *Sys
	c        int
	pipe     *Pipe
	e        [2]*End
	end      [2]geminio.End
	meta     []byte
	nc       [2]net.Conn
	trc      [2]chan struct{}
	cfg      ConnCfg
	stageEnd int32
	dlg      [2]*dlg
	cnt      struct{ on, off, af, cf int32 }
	emu      sync.Mutex
	eager    func(d, k int, method string) // the peer has registered method
}

// End is one end of a stream
type End struct {
	c  *Conn
	d  int
	k  int
	st geminio.Stream

	wmu   sync.Mutex
	woff  int
	rmu   sync.Mutex
	roff  int // next offset with a single reader
	multi bool
}

type ConnCfg struct {
	Meta     []byte
	Frag     int
	TCP      bool
	Dlg      bool // install delegates
	AccFn    bool // server accept/closed callbacks
	Check    [2]bool
	Local    [2][]string // methods registered at creation
	Wait     [2][]string // remote methods to wait for
	Stage    []string    // methods registered by Stager after its End is there, one after the other
	Stager   int
	StageGap int // ms between them
	BufR     int
	BufW     int
	ClientID uint64
	SrvID    uint64
	Cap      int
	Hook     func(c *Conn)
	onAccept func(e *End)
}

func NewSys(seed int64) *Sys {
	s := &Sys{Rec: NewRec(), seed: seed, ops: map[int]*Op{}, hs: map[int]*hinv{}, rmsg: map[int]geminio.Message{}, conns: map[int]*Conn{}, pend: map[interface{}]*Op{},
		rrWant: map[string]int{}, rrGot: map[string]int{},
		pert: int(uint64(seed) * 0x9E3779B97F4A7C15 >> 40 & 3)}
	s.cond = sync.NewCond(&s.mu)
	return s
}

// await a channel, or report a hang
func (s *Sys) await(ch <-chan struct{}, what string, kv ...interface{}) bool {
	select {
	case <-ch:
		return true
	default:
	}
	if s.Hung() {
		select {
		case <-ch:
			return true
		case <-time.After(50 * time.Millisecond):
			return false
		}
	}
	select {
	case <-ch:
		return true
	case <-time.After(watchdog):
		s.Hang(what, kv...)
		return false
	}
}

// until polls a condition
func (s *Sys) until(what string, f func() bool) bool {
	end := time.Now().Add(watchdog)
	for !f() {
		if s.Hung() {
			return false
		}
		if time.Now().After(end) {
			s.Hang(what)
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
	return true
}

func (s *Sys) set(o *Op) *Op {
	s.mu.Lock()
	s.ops[o.o] = o
	s.mu.Unlock()
	return o
}

func (s *Sys) modeOf(o int) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.ops[o] == nil {
		return ""
	}
	return s.ops[o].mode
}

func (s *Sys) op(o int) *Op {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.ops[o]
}

/************************ delegates ************************/

type dlg struct {
	*delegate.UnimplementedDelegate
	c     *Conn
	d     int
	heart int32
	offch chan struct{}
	once  sync.Once
}

func (x *dlg) ev(what string, cid uint64, meta []byte, sid uint64, pcid uint64) error {
	r := x.c.s.Rec
	r.mu.Lock()
	defer r.mu.Unlock()
	k := 0
	if what == "dg.on" || what == "dg.off" {
		k = r.k(x.c.c, sid)
	}
	r.put("dlg", "c", x.c.c, "d", x.d, "what", what, "k", k, "cid", r.cid(cid), "meta", dig(meta))
	return nil
}
func (x *dlg) ConnOnline(c delegate.ConnDescriber) error {
	return x.ev("conn.on", c.ClientID(), c.Meta(), 0, 0)
}
func (x *dlg) ConnOffline(c delegate.ConnDescriber) error {
	err := x.ev("conn.off", c.ClientID(), c.Meta(), 0, 0)
	x.once.Do(func() { close(x.offch) })
	return err
}
func (x *dlg) DialogueOnline(g delegate.DialogueDescriber) error {
	atomic.AddInt32(&x.c.cnt.on, 1)
	return x.ev("dg.on", g.ClientID(), g.Meta(), g.DialogueID(), 0)
}
func (x *dlg) DialogueOffline(g delegate.DialogueDescriber) error {
	defer atomic.AddInt32(&x.c.cnt.off, 1)
	return x.ev("dg.off", g.ClientID(), g.Meta(), g.DialogueID(), 0)
}
func (x *dlg) RemoteRegistration(method string, cid uint64, sid uint64) {
	r := x.c.s.Rec
	r.mu.Lock()
	k := r.k(x.c.c, sid)
	x.c.s.rrGot[fmt.Sprint(x.c.c, k, x.d, method)]++
	r.put("rr", "c", x.c.c, "d", x.d, "k", k, "method", method, "cid", r.cid(cid))
	r.mu.Unlock()
	x.c.emu.Lock()
	defer x.c.emu.Unlock()
	if x.c.eager != nil {
		x.c.eager(x.d, k, method)
	}
}
func (x *dlg) EndReOnline(c delegate.ClientDescriber) {}
func (x *dlg) Heartbeat(c delegate.ConnDescriber) error {
	atomic.AddInt32(&x.heart, 1)
	return nil
}

type sdlg struct {
	*dlg
}

func (x *sdlg) GetClientID(wanted uint64, meta []byte) (uint64, error) {
	if x.c.cfg.SrvID != 0 {
		return x.c.cfg.SrvID, nil
	}
	return 0, nil
}

/************************ connections ************************/

type regev struct {
	D  int    `json:"d"`
	M  string `json:"m"`
	Fn string `json:"fn"`
}

// Dial establishes connection c
// scenarios in which it doesn't matter how much is buffered
var anyBufs = map[string]bool{"raw": true, "heavy": true, "iso": true, "msg": true, "rpc": true, "route": true, "loss": true, "eclose": true, "open": true,
	"sclose": true, "openclose": true, "async": true, "check": true, "limit": true, "closefull": true}

func (s *Sys) Dial(c int, cfg ConnCfg) *Conn {
	if x := int(uint64(s.seed) * 0x9E3779B97F4A7C15 >> 44); x&3 == 0 && anyBufs[s.name] {
		ns := []int{1, 2, 3, 7, 31, 33, 500}
		cfg.BufR, cfg.BufW = ns[(x>>2)%len(ns)], ns[(x>>6)%len(ns)]
	}
	cn := &Conn{s: s, c: c, meta: cfg.Meta, cfg: cfg}
	s.mu.Lock()
	s.conns[c] = cn
	s.mu.Unlock()
	for d := 0; d < 2; d++ {
		cn.trc[d] = make(chan struct{})
		cn.e[d] = &End{c: cn, d: d}
		cn.dlg[d] = &dlg{UnimplementedDelegate: &delegate.UnimplementedDelegate{}, c: cn, d: d, offch: make(chan struct{})}
	}
	released := func(d int) {
		s.Ev("trc", "c", c, "d", d)
		close(cn.trc[d])
	}
	if cfg.TCP {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic("harness: " + err.Error())
		}
		ch := make(chan net.Conn, 1)
		go func() {
			x, _ := ln.Accept()
			ch <- x
		}()
		a, err := net.Dial("tcp", ln.Addr().String())
		if err != nil {
			panic("harness: " + err.Error())
		}
		b := <-ch
		ln.Close()
		cn.nc[0] = &tcpConn{Conn: a, onClose: func() { released(0) }}
		cn.nc[1] = &tcpConn{Conn: b, onClose: func() { released(1) }}
	} else {
		cn.pipe = NewPipe()
		if cfg.Cap != 0 {
			cn.pipe.cap = cfg.Cap
		}
		cn.pipe.Frag(s.seed*1000+int64(c), cfg.Frag)
		cn.pipe.onClose = released
		cn.pipe.onCut = func() { s.Ev("cut", "c", c) }
		cn.nc[0], cn.nc[1] = cn.pipe.conns[0], cn.pipe.conns[1]
	}
	if cfg.Hook != nil {
		cfg.Hook(cn)
	}
	regs := []regev{}
	local := func(d int) []*geminio.MethodRPC {
		out := []*geminio.MethodRPC{}
		for _, m := range cfg.Local[d] {
			fn := "local." + m
			regs = append(regs, regev{d, m, fn})
			out = append(out, &geminio.MethodRPC{Method: m, RPC: cn.e[d].handler(fn)})
		}
		return out
	}
	sopts := server.NewEndOptions()
	sopts.SetLog(s.log(2 * c))
	copts := client.NewEndOptions()
	copts.SetLog(s.log(2*c + 1))
	if cfg.Meta != nil {
		copts.SetMeta(cfg.Meta)
	}
	if s.pert&2 != 0 {
		sopts.SetTimer(newLazy(s.seed*11+int64(c), 40*time.Millisecond))
		copts.SetTimer(newLazy(s.seed*11+int64(c)+5, 40*time.Millisecond))
	}
	if cfg.Dlg {
		copts.SetDelegate(cn.dlg[0])
		sopts.SetDelegate(&sdlg{cn.dlg[1]})
	}
	if cfg.Check[0] {
		copts.SetRemoteRPCCheck()
	}
	if cfg.Check[1] {
		sopts.SetRemoteRPCCheck()
	}
	if l := local(0); len(l) > 0 {
		copts.LocalMethods = l
	}
	if l := local(1); len(l) > 0 {
		sopts.SetRegisterLocalRPCs(l...)
	}
	if cfg.Wait[0] != nil {
		copts.SetWaitRemoteRPCs(cfg.Wait[0]...)
	}
	if cfg.Wait[1] != nil {
		sopts.SetWaitRemoteRPCs(cfg.Wait[1]...)
	}
	if cfg.ClientID != 0 {
		copts.SetClientID(cfg.ClientID)
	}
	if cfg.BufR != 0 {
		copts.SetBufferSize(cfg.BufR, cfg.BufW)
		sopts.SetBufferSize(cfg.BufR, cfg.BufW)
	}
	if cfg.AccFn {
		sopts.SetAcceptStreamFunc(func(st geminio.Stream) {
			atomic.AddInt32(&cn.cnt.af, 1)
			e := cn.accepted(1, st, "accfn", 0)
			if cfg.onAccept != nil {
				cfg.onAccept(e)
			}
		})
		sopts.SetClosedStreamFunc(func(st geminio.Stream) {
			r := s.Rec
			r.mu.Lock()
			r.put("clsfn", "c", c, "d", 1, "k", r.k(c, st.StreamID()))
			r.mu.Unlock()
			atomic.AddInt32(&cn.cnt.cf, 1)
		})
	}
	s.Rec.mu.Lock()
	k := s.Rec.k(c, 1)
	cn.e[0].k, cn.e[1].k = k, k
	s.Rec.put("dial", "c", c, "k", k, "meta", dig(cfg.Meta), "dlg", cfg.Dlg, "chk", []bool{cfg.Check[0], cfg.Check[1]}, "regs", regs,
		"wait", [][]string{append([]string{}, cfg.Wait[0]...), append([]string{}, cfg.Wait[1]...)})
	s.Rec.mu.Unlock()
	type res struct {
		d   int
		e   geminio.End
		err error
	}
	ch := make(chan res, 2)
	go func() {
		e, err := server.NewEndWithConn(cn.nc[1], sopts)
		if err == nil {
			s.Ev("upd", "c", c, "d", 1)
		}
		ch <- res{1, e, err}
	}()
	go func() {
		e, err := client.NewEndWithDialer(func() (net.Conn, error) { return cn.nc[0], nil }, copts)
		if err == nil {
			s.Ev("upd", "c", c, "d", 0)
		}
		ch <- res{0, e, err}
	}()
	for i := 0; i < 2; i++ {
		select {
		case x := <-ch:
			if x.err != nil {
				_, txt := cls(x.err)
				s.Hang("connection not established: "+x.err.Error()+txt, "c", c, "d", x.d)
				return nil
			}
			cn.end[x.d] = x.e
			cn.e[x.d].st = x.e
			if len(cfg.Stage) > 0 && x.d == cfg.Stager {
				// the other side waits for these
				e := cn.e[x.d]
				go func() {
					defer atomic.StoreInt32(&cn.stageEnd, 1)
					for i, m := range cfg.Stage {
						time.Sleep(time.Duration(cfg.StageGap) * time.Millisecond)
						<-e.Register(m, fmt.Sprintf("st%d.%s", i, m)).done
					}
				}()
			}
		case <-time.After(watchdog):
			s.Hang("connecting", "c", c)
			return nil
		}
	}
	s.Rec.mu.Lock()
	s.Rec.put("up", "c", c,
		"cid", []int{s.Rec.cid(cn.end[0].ClientID()), s.Rec.cid(cn.end[1].ClientID())},
		"meta", []string{dig(cn.end[0].Meta()), dig(cn.end[1].Meta())})
	s.Rec.mu.Unlock()
	s.Rec.mu.Lock()
	for _, x := range regs {
		if cfg.Dlg {
			s.rrWant[fmt.Sprint(c, k, 1-x.D, x.M)]++
		}
	}
	s.Rec.mu.Unlock()
	if cn.end[0].StreamID() != 1 || cn.end[1].StreamID() != 1 {
		s.Hang("default stream id")
	}
	return cn
}

// accepted makes the stream known, logging ev
func (cn *Conn) accepted(d int, st geminio.Stream, ev string, o int) *End {
	r := cn.s.Rec
	r.mu.Lock()
	defer r.mu.Unlock()
	k := r.k(cn.c, st.StreamID())
	kv := []interface{}{"c", cn.c, "d", d, "k", k, "meta", dig(st.Meta()), "peer", st.Peer(), "cid", r.cid(st.ClientID())}
	if o != 0 {
		kv = append(kv, "o", o, "err", "ok")
	}
	r.put(ev, kv...)
	return &End{c: cn, d: d, k: k, st: st}
}

func (cn *Conn) Open(d int, meta []byte, peer string) *Op {
	s := cn.s
	o := s.set(newOp(s.Op()))
	s.Ev("open.call", "c", cn.c, "d", d, "o", o.o, "k", 0, "meta", dig(meta), "peer", peer)
	go func() {
		defer close(o.done)
		opts := []*options.OpenStreamOptions{}
		if meta != nil {
			x := options.OpenStream()
			x.SetMeta(meta)
			opts = append(opts, x)
		}
		if peer != "" {
			x := options.OpenStream()
			x.SetPeer(peer)
			opts = append(opts, x)
		}
		st, err := cn.end[d].OpenStream(opts...)
		o.err, o.txt = cls(err)
		if err != nil {
			s.Ev("open.ret", "c", cn.c, "d", d, "o", o.o, "k", 0, "err", o.err, "meta", "", "peer", "", "cid", 0)
			return
		}
		o.st = cn.accepted(d, st, "open.ret", o.o)
	}()
	return o
}

func (cn *Conn) Accept(d int, plain bool) *Op {
	s := cn.s
	o := s.set(newOp(s.Op()))
	s.Ev("acc.call", "c", cn.c, "d", d, "o", o.o, "k", 0)
	go func() {
		defer close(o.done)
		var st geminio.Stream
		var err error
		if plain {
			var x net.Conn
			x, err = cn.end[d].Accept()
			if err == nil {
				st = x.(geminio.Stream)
			}
		} else {
			st, err = cn.end[d].AcceptStream()
		}
		o.err, o.txt = cls(err)
		if err != nil {
			s.Ev("acc.ret", "c", cn.c, "d", d, "o", o.o, "k", 0, "err", o.err, "meta", "", "peer", "", "cid", 0)
			return
		}
		o.st = cn.accepted(d, st, "acc.ret", o.o)
	}()
	return o
}

// Close closes an End of the connection
func (cn *Conn) Close(d int) *Op {
	s := cn.s
	o := s.set(newOp(s.Op()))
	s.Ev("ec.call", "c", cn.c, "d", d, "o", o.o, "k", 0)
	go func() {
		defer close(o.done)
		cn.end[d].Close()
		o.err = "ok"
		s.Ev("ec.ret", "c", cn.c, "d", d, "o", o.o)
	}()
	return o
}

func (cn *Conn) staged() bool { return atomic.LoadInt32(&cn.stageEnd) == 1 }

// told waits until the delegates know the registrations, which are acknowledged before
func (s *Sys) told(c int) {
	pre := fmt.Sprint(c, " ")
	end := time.Now().Add(2 * time.Second)
	for time.Now().Before(end) && !s.Hung() {
		ok := true
		s.Rec.mu.Lock()
		for x, n := range s.rrWant {
			if strings.HasPrefix(x, pre) && s.rrGot[x] < n {
				ok = false
			}
		}
		s.Rec.mu.Unlock()
		if ok {
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// List logs the streams of both ends, as soon as they're the expected ones or after a while
func (cn *Conn) List(d int, want map[int]bool) {
	s := cn.s
	get := func() []int {
		out := []int{}
		for _, st := range cn.end[d].ListStreams() {
			out = append(out, s.K(cn.c, st.StreamID()))
		}
		return out
	}
	end := time.Now().Add(6 * time.Second)
	for {
		ks := get()
		ok := len(ks) == len(want)
		for _, k := range ks {
			if !want[k] {
				ok = false
			}
		}
		if ok || time.Now().After(end) {
			s.Ev("list", "c", cn.c, "d", d, "ks", ks)
			return
		}
		time.Sleep(3 * time.Millisecond)
	}
}

/************************ raw bytes ************************/

func pat(seed int64, k, d int, off int) byte {
	x := uint64(seed)*0x9E3779B97F4A7C15 + uint64(k)*0xBF58476D1CE4E5B9 + uint64(d+1)*0x94D049BB133111EB + uint64(off/8)
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return byte(x >> (8 * uint(off%8)))
}

func fill(b []byte, seed int64, k, d, off int) {
	for i := range b {
		b[i] = pat(seed, k, d, off+i)
	}
}

func up8(n int) int { return (n + 7) &^ 7 }

// Write writes the next n bytes of the pattern
func (e *End) Write(n int) *Op {
	s := e.c.s
	if s.align {
		n = up8(n)
	}
	o := s.set(newOp(s.Op()))
	b := make([]byte, n)
	e.wmu.Lock() // the offsets are those of the order recorded
	off := e.woff
	e.woff += n
	s.Ev("w.call", "c", e.c.c, "k", e.k, "d", e.d, "o", o.o, "off", off, "len", n)
	e.wmu.Unlock()
	fill(b, s.seed, e.k, e.d, off)
	go func() {
		defer close(o.done)
		m, err := e.st.Write(b)
		o.err, o.txt = cls(err)
		o.n = m
		for i := range b { // the caller reuses its buffer
			b[i] = 0xEE
		}
		e.wmu.Lock()
		if err != nil && m < n {
			e.woff -= n - m
		}
		s.Ev("w.ret", "o", o.o, "err", o.err, "n", m)
		e.wmu.Unlock()
	}()
	return o
}

// Read reads once with a buffer of n bytes
func (e *End) Read(n int) *Op {
	s := e.c.s
	if s.align {
		n = up8(n)
	}
	o := s.set(newOp(s.Op()))
	s.Ev("r.call", "c", e.c.c, "k", e.k, "d", e.d, "o", o.o, "len", n)
	go func() {
		defer close(o.done)
		b := make([]byte, n+8)
		for i := range b {
			b[i] = 0xDD
		}
		m, err := e.st.Read(b[:n:n])
		o.err, o.txt = cls(err)
		o.n = m
		off := -1
		e.rmu.Lock()
		if m >= 0 && m <= n {
			off = e.locate(b[:m])
			if off >= 0 && off+m > e.roff {
				e.roff = off + m
			}
			for i := n; i < n+8; i++ {
				if b[i] != 0xDD {
					off = -2
				}
			}
		}
		s.Ev("r.ret", "o", o.o, "err", o.err, "n", m, "off", off)
		e.rmu.Unlock()
	}()
	return o
}

func (e *End) locate(b []byte) int {
	s := e.c.s
	match := func(off int) bool {
		for i := range b {
			if b[i] != pat(s.seed, e.k, 1-e.d, off+i) {
				return false
			}
		}
		return true
	}
	if match(e.roff) {
		return e.roff
	}
	for off := 0; off < e.roff+1<<18; off++ {
		if match(off) {
			return off
		}
	}
	return -1
}

// Deadline sets a deadline, at in ms of the run; INF clears it
func (e *End) Deadline(which string, at int) {
	s := e.c.s
	o := s.Op()
	t := time.Time{}
	if at != INF {
		t = s.At(at)
	}
	s.Ev("dl.call", "c", e.c.c, "k", e.k, "d", e.d, "o", o, "which", which, "at", at)
	var err error
	switch which {
	case "r":
		err = e.st.SetReadDeadline(t)
	case "w":
		err = e.st.SetWriteDeadline(t)
	default:
		err = e.st.SetDeadline(t)
	}
	c, _ := cls(err)
	s.Ev("dl.ret", "o", o, "err", c)
}

func (e *End) Close() *Op {
	s := e.c.s
	o := s.set(newOp(s.Op()))
	s.Ev("sc.call", "c", e.c.c, "k", e.k, "d", e.d, "o", o.o)
	go func() {
		defer close(o.done)
		e.st.Close()
		s.Ev("sc.ret", "o", o.o)
	}()
	return o
}

/************************ messages ************************/

type Lim struct {
	Timeout int // ms, 0 none
	Ctx     int // ms, 0 none
	Cancel  bool
}

// where tells whether the timeout goes in with the options, which stand before
// what the object itself has
func (l Lim) where(o int, set func(time.Duration)) bool {
	if l.Timeout == 0 {
		return false
	}
	switch o % 4 {
	case 0:
		set(time.Duration(l.Timeout) * time.Millisecond)
		return false
	case 1:
		set(time.Hour)
	case 2:
		set(time.Millisecond)
	}
	return true
}

func (s *Sys) ctx(l Lim) (context.Context, context.CancelFunc, int) {
	lim := INF
	now := s.Now()
	ctx := context.Context(context.Background())
	cancel := context.CancelFunc(func() {})
	if l.Timeout != 0 {
		lim = now + l.Timeout
	}
	if l.Ctx != 0 {
		ctx, cancel = context.WithDeadline(ctx, s.At(now+l.Ctx))
		if now+l.Ctx < lim {
			lim = now + l.Ctx
		}
	}
	if l.Cancel {
		c2 := cancel
		var c1 context.CancelFunc
		ctx, c1 = context.WithCancel(ctx)
		cancel = func() { c1(); c2() }
	}
	return ctx, cancel, lim
}

type Pub struct {
	Mode  string // sync async amo
	Data  []byte
	Topic string
	Cust  []byte
	Lim   Lim
	Home  *End                  // where the message is made, default e
	Chan  chan *geminio.Publish // shared completion channel
	Later bool                  // leave its own one alone until later
}

func (e *End) Publish(p Pub) *Op {
	s := e.c.s
	o := s.set(newOp(s.Op()))
	home := e
	if p.Home != nil {
		home = p.Home
	}
	opts := []*options.NewMessageOptions{}
	add := func(f func(*options.NewMessageOptions)) {
		x := options.NewMessage()
		f(x)
		opts = append(opts, x)
	}
	if p.Topic != "" {
		add(func(x *options.NewMessageOptions) { x.SetTopic(p.Topic) })
	}
	if p.Cust != nil {
		add(func(x *options.NewMessageOptions) { x.SetCustom(p.Cust) })
	}
	if p.Mode == "amo" {
		add(func(x *options.NewMessageOptions) { x.SetCnss(options.CnssAtMostOnce) })
	}
	data := append([]byte(nil), p.Data...)
	msg := home.st.NewMessage(data, opts...)
	ctx, cancel, lim := s.ctx(p.Lim)
	o.stop = cancel
	o.msg = msg
	o.pub = e
	o.async = p.Mode == "async"
	o.mode = p.Mode
	s.Rec.mu.Lock()
	s.Rec.msgs[idkey(e.c.c, e.d, msg.ID())] = o.o
	s.Rec.put("p.call", "c", e.c.c, "k", e.k, "d", e.d, "o", o.o, "mode", p.Mode, "data", dig(p.Data),
		"topic", p.Topic, "cust", dig(p.Cust), "lim", lim, "home", home.k)
	s.Rec.mu.Unlock()
	popts := []*options.PublishOptions{}
	if p.Lim.where(o.o, msg.SetTimeout) {
		x := options.Publish()
		x.SetTimeout(time.Duration(p.Lim.Timeout) * time.Millisecond)
		popts = append(popts, x)
	}
	go func() {
		if p.Mode != "async" {
			defer close(o.done)
			defer close(o.comp)
			err := e.st.Publish(ctx, msg, popts...)
			o.err, o.txt = cls(err)
			s.Ev("p.ret", "o", o.o, "err", o.err, "txt", o.txt)
			return
		}
		ch := p.Chan
		shared := ch != nil
		if !shared && !p.Later && o.o%2 == 0 {
			ch = make(chan *geminio.Publish, 1)
		}
		if shared {
			s.mu.Lock()
			s.pend[msg] = o
			s.mu.Unlock()
		}
		pb, err := e.st.PublishAsync(ctx, msg, ch, popts...)
		o.err, o.txt = cls(err)
		s.Ev("p.ret", "o", o.o, "err", o.err, "txt", o.txt)
		close(o.done)
		if err != nil {
			close(o.comp)
			return
		}
		if shared {
			return
		}
		go func() {
			if p.Later {
				<-s.later
			}
			for n := 0; ; n++ {
				got := <-pb.Done
				s.pdone(o, got, msg)
				if n == 0 {
					close(o.comp)
				}
			}
		}()
	}()
	return o
}

func (s *Sys) pdone(o *Op, got *geminio.Publish, msg geminio.Message) {
	if got == nil || got.Message != msg {
		s.Hang("completion of another publish", "o", o.o)
		return
	}
	err, txt := cls(got.Error)
	o.err = err
	s.Ev("p.done", "o", o.o, "err", err, "txt", txt)
}

// DrainPubs reads a shared channel
func (s *Sys) DrainPubs(ch chan *geminio.Publish) {
	for got := range ch {
		if s.slow > 0 {
			time.Sleep(s.slow)
		}
		s.mu.Lock()
		o := s.pend[got.Message]
		s.mu.Unlock()
		if o == nil {
			s.Hang("completion of an unknown publish")
			return
		}
		s.pdone(o, got, got.Message)
		select {
		case <-o.comp:
		default:
			close(o.comp)
		}
	}
}

func (e *End) Receive(l Lim) *Op {
	s := e.c.s
	o := s.set(newOp(s.Op()))
	ctx, cancel, lim := s.ctx(l)
	o.stop = cancel
	s.Ev("m.rcall", "c", e.c.c, "k", e.k, "d", e.d, "o", o.o, "lim", lim)
	go func() {
		defer close(o.done)
		msg, err := e.st.Receive(ctx)
		o.err, o.txt = cls(err)
		if err != nil {
			s.Ev("m.rret", "o", o.o, "err", o.err, "m", 0)
			return
		}
		o.msg = msg
		s.mu.Lock()
		s.Rec.mu.Lock()
		m := s.Rec.msgs[idkey(e.c.c, 1-e.d, msg.ID())]
		o.m = m
		s.Rec.put("m.rret", "o", o.o, "err", "ok", "m", m, "data", dig(msg.Data()), "topic", msg.Topic(), "cust", dig(msg.Custom()),
			"idok", msg.ClientID() == e.st.ClientID() && msg.StreamID() == e.st.StreamID())
		s.Rec.mu.Unlock()
		s.rmsg[m] = msg
		s.cond.Broadcast()
		s.mu.Unlock()
	}()
	return o
}

// Answer acknowledges message m, which was received
func (s *Sys) Answer(m int, txt string) {
	s.mu.Lock()
	msg := s.rmsg[m]
	s.mu.Unlock()
	if msg == nil {
		return
	}
	if txt == "" {
		s.Ev("m.ans", "m", m, "kind", "done", "txt", "")
		msg.Done()
	} else {
		s.Ev("m.ans", "m", m, "kind", "err", "txt", txt)
		msg.Error(errors.New(txt))
	}
}

/************************ calls ************************/

func (e *End) handler(fn string) geminio.RPC {
	return func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		e.serve(fn, ctx, req.Method(), req, rsp)
	}
}

func (e *End) hijacker(fn string) geminio.HijackRPC {
	return func(ctx context.Context, method string, req geminio.Request, rsp geminio.Response) {
		e.serve(fn, ctx, method, req, rsp)
	}
}

func (e *End) serve(fn string, ctx context.Context, method string, req geminio.Request, rsp geminio.Response) {
	s := e.c.s
	h := &hinv{e: e, data: req.Data(), cust: req.Custom(), fn: fn, out: make(chan hout, 1), ctx: ctx, cend: make(chan struct{})}
	ddl := INF
	if t, ok := ctx.Deadline(); ok {
		ddl = s.Ms(t)
	}
	s.mu.Lock()
	s.Rec.mu.Lock()
	h.o = s.Rec.calls[idkey(e.c.c, 1-e.d, req.ID())]
	k := s.Rec.k(e.c.c, e.sid())
	s.Rec.put("h.in", "c", e.c.c, "k", k, "d", e.d, "o", h.o, "method", method, "data", dig(h.data), "cust", dig(h.cust),
		"fn", fn, "ddl", ddl, "idok", req.ClientID() == e.cid() && req.StreamID() == e.sid() && req.Method() == method)
	s.Rec.mu.Unlock()
	s.hs[h.o] = h
	s.cond.Broadcast()
	auto := s.auto
	s.mu.Unlock()

	// the context's end is reported once, while the handler is in
	over := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		select {
		case <-ctx.Done():
			c, _ := cls(ctx.Err())
			s.Ev("h.ctx", "o", h.o, "err", c)
			close(h.cend)
		case <-over:
		}
	}()
	var out hout
	if auto != nil {
		out.data, out.cust, out.txt = auto(h)
	} else {
		out = <-h.out
	}
	close(over)
	wg.Wait()
	if out.txt != "" {
		rsp.SetError(errors.New(out.txt))
	}
	if out.data != nil {
		rsp.SetData(out.data)
	}
	if out.cust != nil {
		rsp.SetCustom(out.cust)
	}
	s.Ev("h.out", "o", h.o, "data", dig(out.data), "cust", dig(out.cust), "txt", out.txt)
}

func (e *End) cid() uint64 {
	if e.st != nil {
		return e.st.ClientID()
	}
	return 0
}

func (e *End) sid() uint64 {
	if e.st != nil {
		return e.st.StreamID()
	}
	return 1
}

type Call struct {
	Method string
	Data   []byte
	Cust   []byte
	Async  bool
	Lim    Lim
	Home   *End
	Chan   chan *geminio.Call
	Later  bool
}

func (e *End) Call(p Call) *Op {
	s := e.c.s
	o := s.set(newOp(s.Op()))
	home := e
	if p.Home != nil {
		home = p.Home
	}
	opts := []*options.NewRequestOptions{}
	if p.Cust != nil {
		x := options.NewRequest()
		x.SetCustom(p.Cust)
		opts = append(opts, x)
	}
	data := append([]byte(nil), p.Data...)
	req := home.st.NewRequest(data, opts...)
	ctx, cancel, lim := s.ctx(p.Lim)
	o.stop = cancel
	o.async = p.Async
	s.Rec.mu.Lock()
	s.Rec.calls[idkey(e.c.c, e.d, req.ID())] = o.o
	s.Rec.put("q.call", "c", e.c.c, "k", e.k, "d", e.d, "o", o.o, "method", p.Method, "data", dig(p.Data), "cust", dig(p.Cust),
		"async", p.Async, "lim", lim, "home", home.k)
	s.Rec.mu.Unlock()
	copts := []*options.CallOptions{}
	if p.Lim.where(o.o, req.SetTimeout) {
		x := options.Call()
		x.SetTimeout(time.Duration(p.Lim.Timeout) * time.Millisecond)
		copts = append(copts, x)
	}
	ret := func(ev string, rsp geminio.Response, err error) {
		var rd, rc []byte
		if err == nil {
			if rsp == nil {
				s.Hang("neither response nor error", "o", o.o)
				return
			}
			err = rsp.Error()
			rd, rc = rsp.Data(), rsp.Custom()
		}
		o.err, o.txt = cls(err)
		s.Ev(ev, "o", o.o, "err", o.err, "txt", o.txt, "data", dig(rd), "cust", dig(rc))
	}
	go func() {
		if !p.Async {
			defer close(o.done)
			defer close(o.comp)
			rsp, err := e.st.Call(ctx, p.Method, req, copts...)
			ret("q.ret", rsp, err)
			return
		}
		ch := p.Chan
		shared := ch != nil
		if !shared && !p.Later && o.o%2 == 0 {
			ch = make(chan *geminio.Call, 1)
		}
		if shared {
			s.mu.Lock()
			s.pend[req] = o
			s.mu.Unlock()
		}
		c, err := e.st.CallAsync(ctx, p.Method, req, ch, copts...)
		cl, txt := cls(err)
		s.Ev("q.ret", "o", o.o, "err", cl, "txt", txt, "data", "", "cust", "")
		close(o.done)
		if err != nil {
			o.err = cl
			close(o.comp)
			return
		}
		if shared {
			return
		}
		go func() {
			if p.Later {
				<-s.later
			}
			for n := 0; ; n++ {
				got := <-c.Done
				if got == nil || got.Request != req || got.Method != p.Method {
					s.Hang("completion of another call", "o", o.o)
					return
				}
				ret("q.done", got.Response, got.Error)
				if n == 0 {
					close(o.comp)
				}
			}
		}()
	}()
	return o
}

func (s *Sys) DrainCalls(ch chan *geminio.Call) {
	for got := range ch {
		if s.slow > 0 {
			time.Sleep(s.slow)
		}
		s.mu.Lock()
		o := s.pend[got.Request]
		s.mu.Unlock()
		if o == nil {
			s.Hang("completion of an unknown call")
			return
		}
		var rd, rc []byte
		err := got.Error
		if err == nil {
			if got.Response == nil {
				s.Hang("neither response nor error", "o", o.o)
				return
			}
			err = got.Response.Error()
			rd, rc = got.Response.Data(), got.Response.Custom()
		}
		cl, txt := cls(err)
		s.Ev("q.done", "o", o.o, "err", cl, "txt", txt, "data", dig(rd), "cust", dig(rc))
		select {
		case <-o.comp:
		default:
			close(o.comp)
		}
	}
}

// Cancel cancels the context of an operation
func (s *Sys) Cancel(o *Op) {
	s.Ev("cancel", "o", o.o)
	o.stop()
}

// handling waits until the handler of a call is in
func (s *Sys) handling(o int, wait time.Duration) *hinv {
	end := time.Now().Add(wait)
	for {
		s.mu.Lock()
		h := s.hs[o]
		s.mu.Unlock()
		if h != nil || time.Now().After(end) || s.Hung() {
			return h
		}
		time.Sleep(time.Millisecond)
	}
}

func (s *Sys) received(m int, wait time.Duration) bool {
	end := time.Now().Add(wait)
	for {
		s.mu.Lock()
		x := s.rmsg[m]
		s.mu.Unlock()
		if x != nil {
			return true
		}
		if time.Now().After(end) || s.Hung() {
			return false
		}
		time.Sleep(time.Millisecond)
	}
}

func (e *End) Register(method, fn string) *Op {
	s := e.c.s
	o := s.set(newOp(s.Op()))
	s.Ev("reg.call", "c", e.c.c, "k", e.k, "d", e.d, "o", o.o, "method", method, "fn", fn)
	go func() {
		defer close(o.done)
		err := e.st.Register(context.Background(), method, e.handler(fn))
		o.err, o.txt = cls(err)
		s.Rec.mu.Lock()
		s.Rec.put("reg.ret", "o", o.o, "err", o.err)
		if err == nil && e.c.cfg.Dlg {
			s.rrWant[fmt.Sprint(e.c.c, e.k, 1-e.d, method)]++
		}
		s.Rec.mu.Unlock()
	}()
	return o
}

// methods of the runs matched by the patterns of the runs
var allMethods = []string{"a", "ab", "b", "bc", "z", ""}
var patMatch = map[string][]string{
	"^a":   {"a", "ab"},
	"^b":   {"b", "bc"},
	"b":    {"ab", "b", "bc"},
	"^ab$": {"ab"},
	"q":    {},
}

func (e *End) Hijack(fn, pattern, mode string) *Op {
	s := e.c.s
	o := s.set(newOp(s.Op()))
	pm := []string{}
	if mode != "all" {
		pm = append(pm, patMatch[pattern]...)
	}
	s.Ev("hij.call", "c", e.c.c, "k", e.k, "d", e.d, "o", o.o, "fn", fn, "mode", mode, "pm", pm)
	go func() {
		defer close(o.done)
		opts := []*options.HijackOptions{}
		if mode != "all" {
			x := options.Hijack()
			x.SetMatch(mode == "match", pattern)
			opts = append(opts, x)
		}
		err := e.st.Hijack(e.hijacker(fn), opts...)
		o.err, o.txt = cls(err)
		s.Ev("hij.ret", "o", o.o, "err", o.err)
	}()
	return o
}

/************************ ending a run ************************/

// Finish closes everything, waits for all operations and checks the ends
func (s *Sys) Finish(trc bool) {
	s.mu.Lock()
	conns := []*Conn{}
	for _, c := range s.conns {
		if c.end[0] != nil && c.end[1] != nil {
			conns = append(conns, c)
		}
	}
	s.mu.Unlock()
	for _, c := range conns {
		a := c.Close(int(s.seed) & 1)
		s.await(a.done, "close of the end", "c", c.c, "o", a.o)
		b := c.Close(1 - int(s.seed)&1)
		s.await(b.done, "close of the end", "c", c.c, "o", b.o)
	}
	// handlers nobody steers
	s.mu.Lock()
	for _, h := range s.hs {
		select {
		case h.out <- hout{}:
		default:
		}
	}
	ops := []*Op{}
	for _, o := range s.ops {
		ops = append(ops, o)
	}
	s.mu.Unlock()
	for _, o := range ops {
		s.await(o.done, "operation on a closed connection", "o", o.o)
	}
	// asynchronous ones
	for _, o := range ops {
		if o.comp != nil && o.isAsync() {
			s.await(o.comp, "completion on a closed connection", "o", o.o)
		}
	}
	for _, c := range conns {
		for d := 0; d < 2; d++ {
			if trc {
				s.await(c.trc[d], "release of the transport", "c", c.c, "d", d)
			}
			if c.cfg.Dlg {
				s.await(c.dlg[d].offch, "offline notification", "c", c.c, "d", d)
			}
		}
	}
	for _, c := range conns {
		// the default stream and streams opened here may be reported closed, too
		end := time.Now().Add(3 * time.Second)
		for time.Now().Before(end) && (atomic.LoadInt32(&c.cnt.on) > atomic.LoadInt32(&c.cnt.off) || atomic.LoadInt32(&c.cnt.af) > atomic.LoadInt32(&c.cnt.cf)) {
			time.Sleep(2 * time.Millisecond)
		}
	}
	if s.Hung() {
		return
	}
	time.Sleep(30 * time.Millisecond) // late events, which mustn't come
	for _, c := range conns {
		s.Ev("fin", "c", c.c, "trc", trc)
	}
}

func (o *Op) isAsync() bool { return o.async }

func payload(rnd *rand.Rand, tag int) []byte {
	var n int
	switch rnd.Intn(6) {
	case 0:
		n = 0
	case 1:
		n = 1
	case 2:
		n = rnd.Intn(20)
	case 3:
		n = 200 + rnd.Intn(2000)
	default:
		n = 8 + rnd.Intn(60)
		if rnd.Intn(80) == 0 {
			n = 65500 + rnd.Intn(5000)
		}
	}
	b := make([]byte, n)
	rnd.Read(b)
	if n >= 8 {
		binary.BigEndian.PutUint64(b, uint64(tag))
	}
	return b
}

var _ = fmt.Sprint
