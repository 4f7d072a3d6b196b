package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime/metrics"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"github.com/singchia/go-timer/v2"
)

// wire is a run of a real End of either role against a peer which is ours, packet by packet.
type wire struct {
	s         *Sys
	rnd       *rand.Rand
	role      string // of the End under test
	kind      string
	dlg       bool
	refuse    string
	gid       uint64
	meta      []byte
	hb        int
	pipe      *Pipe
	sut, peer net.Conn
	tmr       timer.Timer
	scale     int

	wmu sync.Mutex // order of what the peer writes
	// numbers, with the lock of Rec
	ids, sids, cids map[uint64]int

	mu          sync.Mutex
	cond        *sync.Cond
	next        uint64 // peer's ids
	sid         map[int]uint64
	open        map[int]bool           // for the peer
	dsms        map[int]bool           // it dismissed them
	strm        map[int]geminio.Stream // the application has them
	regs        map[string]bool        // k/method served
	acks        map[uint64]*frame
	sent        []*frame
	rxd         []*frame
	last        uint64 // stream of the last forgery
	disS, disR  bool
	eof         bool
	endd        bool
	endok       bool
	end         geminio.End
	closed      map[int]bool
	calls       map[int]context.CancelFunc
	silent      bool // peer doesn't answer
	nohb        bool
	muteOpen    bool // it doesn't answer sessions
	wreck       bool // no longer a decent peer
	seq         int
	stop        chan struct{}
	busy        sync.WaitGroup // loops and handlers of the application
	nbusy, nops int32
	opwg        sync.WaitGroup
}

func newWire(s *Sys, rnd *rand.Rand, kind string) *wire {
	w := &wire{s: s, rnd: rnd, kind: kind, ids: map[uint64]int{0: 0}, sids: map[uint64]int{0: 0, 1: 1}, cids: map[uint64]int{0: 0},
		sid: map[int]uint64{1: 1}, open: map[int]bool{}, dsms: map[int]bool{}, strm: map[int]geminio.Stream{},
		regs: map[string]bool{}, acks: map[uint64]*frame{}, closed: map[int]bool{}, calls: map[int]context.CancelFunc{}}
	w.cond = sync.NewCond(&w.mu)
	w.stop = make(chan struct{})
	w.role = pick(rnd, "srv", "cli")
	w.next = uint64(rnd.Int63n(1<<40)) * 2
	if w.role == "srv" {
		w.next++
	}
	w.pipe = NewPipe()
	if w.role == "srv" {
		w.peer, w.sut = w.pipe.conns[0], w.pipe.conns[1]
	} else {
		w.sut, w.peer = w.pipe.conns[0], w.pipe.conns[1]
	}
	w.hb = 20
	return w
}

func wnum(m map[uint64]int, x uint64) int {
	n, ok := m[x]
	if !ok {
		n = len(m)
		m[x] = n
	}
	return n
}

func okerr(s string) string {
	if s == "" {
		return "ok"
	}
	return s
}

// pk logs a packet
func (w *wire) pk(ev string, f *frame) {
	r := w.s.Rec
	r.mu.Lock()
	k := 0
	kodd := false
	if f.typ != "ses" {
		k = wnum(w.sids, f.sid)
		kodd = f.sid%2 == 1
	} else {
		kodd = f.nid%2 == 1
	}
	nid := wnum(w.sids, f.nid)
	r.put(ev, "typ", f.typ, "id", wnum(w.ids, f.id), "odd", f.id%2 == 1, "k", k, "kodd", kodd, "nid", nid, "d", dig(f.data),
		"m", f.m, "err", okerr(f.err), "meta", dig(f.meta), "peer", f.peer, "cid", wnum(w.cids, f.cid), "acq", f.acq, "hb", f.hb, "fg", f.forged)
	r.mu.Unlock()
	w.mu.Lock()
	if f.sid != 0 {
		w.sid[k] = f.sid
	}
	if f.nid != 0 {
		w.sid[nid] = f.nid
	}
	w.mu.Unlock()
}

func (w *wire) kof(sid uint64) int {
	w.s.Rec.mu.Lock()
	defer w.s.Rec.mu.Unlock()
	return wnum(w.sids, sid)
}

func (w *wire) id() uint64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.next += 2
	return w.next
}

// tx sends a packet of the peer
func (w *wire) tx(f *frame) {
	if f.id == 0 {
		f.id = w.id()
	}
	w.wmu.Lock()
	defer w.wmu.Unlock()
	w.pk("tx", f)
	w.mu.Lock()
	w.sent = append(w.sent, f)
	w.mu.Unlock()
	w.peer.Write(f.encode())
}

// junk sends bytes
func (w *wire) junk(b []byte) {
	w.wmu.Lock()
	defer w.wmu.Unlock()
	w.mu.Lock()
	w.wreck = true
	w.mu.Unlock()
	w.pk("tx", &frame{typ: "junk"})
	w.peer.Write(b)
}

func (w *wire) set(f func()) {
	w.mu.Lock()
	f()
	w.cond.Broadcast()
	w.mu.Unlock()
}

// wait for something which should happen soon
func (w *wire) wait(f func() bool) bool {
	end := time.Now().Add(3 * time.Second)
	for {
		w.mu.Lock()
		ok := f()
		w.mu.Unlock()
		if ok {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
}

func (w *wire) peerRead() {
	for {
		f, err := readFrame(w.peer)
		if err != nil {
			if err == errFrame {
				w.s.Ev("badframe")
				io.Copy(io.Discard, w.peer)
			}
			w.s.Ev("eof")
			w.set(func() { w.eof = true })
			return
		}
		w.pk("rx", f)
		w.set(func() { w.rxd = append(w.rxd, f) })
		w.answer(f)
	}
}

// answer is the peer's half of the protocol
func (w *wire) answer(f *frame) {
	w.mu.Lock()
	silent := w.silent
	r := w.rnd1()
	w.mu.Unlock()
	k := w.kof(f.sid)
	switch f.typ {
	case "sesack":
		w.set(func() {
			w.acks[f.id] = f
			if f.err == "" {
				w.open[k] = true
			}
		})
		return
	case "connack", "msgack", "rsp", "regack", "hback", "disack", "dsmack":
		w.set(func() { w.acks[f.id] = f })
		if f.typ == "connack" && f.err == "" {
			w.set(func() { w.open[1] = true })
		}
		return
	case "dsm":
		w.set(func() { w.open[k] = false })
	case "dis":
		w.set(func() { w.disR = true })
	}
	if silent {
		return
	}
	switch f.typ {
	case "conn":
		if w.refuse != "" {
			w.tx(&frame{typ: "connack", id: f.id, ret: 1, err: "app:refused"})
			return
		}
		w.tx(&frame{typ: "connack", id: f.id, cid: w.gid})
		w.set(func() { w.open[1] = true })
	case "ses":
		if w.muted() {
			return
		}
		if r%8 == 0 {
			w.tx(&frame{typ: "sesack", id: f.id, nid: f.nid, err: "app:no"})
			return
		}
		sid := f.nid
		if f.acq {
			sid = w.id() + 1<<50
		}
		kk := w.kof(sid)
		w.tx(&frame{typ: "sesack", id: f.id, nid: f.nid, sid: sid})
		w.set(func() { w.open[kk] = true })
	case "dsm":
		w.tx(&frame{typ: "dsmack", id: f.id, sid: f.sid})
		w.mu.Lock()
		done := w.dsms[k]
		w.dsms[k] = true
		w.mu.Unlock()
		if !done {
			w.tx(&frame{typ: "dsm", sid: f.sid})
		}
	case "msg":
		if r%4 == 0 {
			w.tx(&frame{typ: "msgack", id: f.id, sid: f.sid, err: "app:m"})
		} else {
			w.tx(&frame{typ: "msgack", id: f.id, sid: f.sid})
		}
	case "req":
		if f.m == "never" {
			return
		}
		if r%4 == 0 {
			w.tx(&frame{typ: "rsp", id: f.id, sid: f.sid, err: "app:r"})
		} else {
			w.tx(&frame{typ: "rsp", id: f.id, sid: f.sid, data: []byte(fmt.Sprintf("r%d", r%1000)), m: f.m})
		}
	case "reg":
		w.tx(&frame{typ: "regack", id: f.id, sid: f.sid})
	case "hb":
		w.tx(&frame{typ: "hback", id: f.id})
	case "dis":
		w.tx(&frame{typ: "disack", id: f.id})
		w.mu.Lock()
		done := w.disS
		w.disS = true
		w.mu.Unlock()
		if !done {
			w.tx(&frame{typ: "dis"})
		}
	}
}

func (w *wire) muted() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.muteOpen
}

func (w *wire) rnd1() int {
	w.seq++
	return int((uint64(w.s.seed)*7919 + uint64(w.seq)*104729) % 100003)
}

/************************ the application of the End under test ************************/

type wdlg struct {
	*delegate.UnimplementedDelegate
	w *wire
}

func (x *wdlg) GetClientID(wanted uint64, meta []byte) (uint64, error) {
	r := x.w.s.Rec
	r.mu.Lock()
	defer r.mu.Unlock()
	r.put("a.gid", "cid", wnum(x.w.cids, wanted), "meta", dig(meta))
	if x.w.refuse == "id" {
		return 0, errors.New("app:refused")
	}
	return x.w.gid, nil
}
func (x *wdlg) conn(ev string, c delegate.ConnDescriber) {
	r := x.w.s.Rec
	r.mu.Lock()
	defer r.mu.Unlock()
	r.put(ev, "cid", wnum(x.w.cids, c.ClientID()), "meta", dig(c.Meta()))
}
func (x *wdlg) ConnOnline(c delegate.ConnDescriber) error {
	x.conn("a.on", c)
	if x.w.refuse == "on" {
		return errors.New("app:refused")
	}
	return nil
}
func (x *wdlg) ConnOffline(c delegate.ConnDescriber) error { x.conn("a.off", c); return nil }
func (x *wdlg) Heartbeat(c delegate.ConnDescriber) error   { x.conn("a.hb", c); return nil }
func (x *wdlg) dg(ev string, g delegate.DialogueDescriber) error {
	r := x.w.s.Rec
	r.mu.Lock()
	defer r.mu.Unlock()
	r.put(ev, "k", wnum(x.w.sids, g.DialogueID()), "meta", dig(g.Meta()), "cid", wnum(x.w.cids, g.ClientID()))
	return nil
}
func (x *wdlg) DialogueOnline(g delegate.DialogueDescriber) error  { return x.dg("a.dgon", g) }
func (x *wdlg) DialogueOffline(g delegate.DialogueDescriber) error { return x.dg("a.dgoff", g) }
func (x *wdlg) EndReOnline(c delegate.ClientDescriber)             {}
func (x *wdlg) RemoteRegistration(method string, cid uint64, sid uint64) {
	r := x.w.s.Rec
	r.mu.Lock()
	defer r.mu.Unlock()
	r.put("a.reg", "m", method, "k", wnum(x.w.sids, sid), "cid", wnum(x.w.cids, cid))
}

// start the End under test
func (w *wire) start() {
	w.s.Rec.mu.Lock()
	w.s.Rec.put("w.start", "role", w.role, "dlg", w.dlg, "refuse", w.refuse, "gid", wnum(w.cids, w.gid), "meta", dig(w.meta), "scale", w.scale)
	w.s.Rec.mu.Unlock()
	w.busy.Add(1)
	go func() {
		defer w.busy.Done()
		var e geminio.End
		var err error
		if w.role == "srv" {
			o := server.NewEndOptions()
			o.SetLog(w.s.log(0))
			if w.dlg {
				o.SetDelegate(&wdlg{w: w})
			}
			if w.tmr != nil {
				o.SetTimer(w.tmr)
			}
			e, err = server.NewEndWithConn(w.sut, o)
		} else {
			o := client.NewEndOptions()
			o.SetLog(w.s.log(0))
			if len(w.meta) > 0 {
				o.SetMeta(w.meta)
			}
			if w.dlg {
				o.SetDelegate(&wdlg{w: w})
			}
			if w.tmr != nil {
				o.SetTimer(w.tmr)
			}
			e, err = client.NewEndWithDialer(func() (net.Conn, error) { return w.sut, nil }, o)
		}
		w.s.Rec.mu.Lock()
		if err != nil {
			_, txt := cls(err)
			w.s.Rec.put("a.end", "err", okerr(errtxt(err)), "cid", 0, "meta", "", "txt", txt)
		} else {
			w.s.Rec.put("a.end", "err", "ok", "cid", wnum(w.cids, e.ClientID()), "meta", dig(e.Meta()))
		}
		w.s.Rec.mu.Unlock()
		if err == nil {
			w.attach(1, e)
			w.busy.Add(1)
			go func() {
				defer w.busy.Done()
				for {
					st, err := e.AcceptStream()
					if err != nil {
						return
					}
					w.s.Rec.mu.Lock()
					k := wnum(w.sids, st.StreamID())
					w.s.Rec.put("a.acc", "k", k, "meta", dig(st.Meta()), "peer", st.Peer(), "cid", wnum(w.cids, st.ClientID()))
					w.s.Rec.mu.Unlock()
					w.attach(k, st)
				}
			}()
		}
		w.set(func() { w.endd = true; w.endok = err == nil; w.end = e })
	}()
}

func errtxt(err error) string {
	c, txt := cls(err)
	switch c {
	case "ok":
		return ""
	case "app":
		return txt
	case "other":
		return "other"
	}
	return c
}

func (w *wire) attach(k int, st geminio.Stream) {
	w.set(func() { w.strm[k] = st })
	w.busy.Add(2)
	go func() {
		defer w.busy.Done()
		for {
			msg, err := st.Receive(context.Background())
			if err != nil {
				w.s.Ev("a.meof", "k", k)
				return
			}
			w.s.Rec.mu.Lock()
			id := wnum(w.ids, msg.ID())
			w.s.Rec.put("a.msg", "k", k, "id", id, "d", dig(msg.Data()), "ok", msg.StreamID() == st.StreamID())
			w.s.Rec.mu.Unlock()
			if len(msg.Data()) > 0 && msg.Data()[0] == 'e' {
				w.s.Ev("a.done", "k", k, "id", id, "err", "app:e")
				msg.Error(errors.New("app:e"))
			} else {
				w.s.Ev("a.done", "k", k, "id", id, "err", "ok")
				msg.Done()
			}
		}
	}()
	go func() {
		defer w.busy.Done()
		b := make([]byte, 1<<17)
		for {
			n, err := st.Read(b)
			if n > 0 {
				w.s.Ev("a.read", "k", k, "d", dig(b[:n]))
			}
			if err != nil {
				w.s.Ev("a.reof", "k", k)
				return
			}
		}
	}()
}

func (w *wire) handler(m string) geminio.RPC {
	return func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		w.busy.Add(1)
		defer w.busy.Done()
		w.s.Rec.mu.Lock()
		k, id := wnum(w.sids, req.StreamID()), wnum(w.ids, req.ID())
		w.s.Rec.put("a.req", "k", k, "id", id, "m", m, "d", dig(req.Data()), "cust", dig(req.Custom()))
		w.s.Rec.mu.Unlock()
		switch m {
		case "a":
			w.s.Ev("a.rsp", "k", k, "id", id, "d", dig(req.Data()), "err", "ok")
			rsp.SetData(req.Data())
		case "e":
			w.s.Ev("a.rsp", "k", k, "id", id, "d", dig(nil), "err", "app:h")
			rsp.SetError(errors.New("app:h"))
		case "w":
			select {
			case <-ctx.Done():
			case <-w.stop:
				// a context needn't end with its stream
			}
			w.s.Ev("a.rsp", "k", k, "id", id, "d", dig(nil), "err", "app:c")
			rsp.SetError(errors.New("app:c"))
		}
	}
}

// op starts an operation of the application
func (w *wire) op(what string, k int, m string, data []byte, meta []byte, peer string) int {
	w.mu.Lock()
	st := w.strm[k]
	end := w.end
	w.mu.Unlock()
	if st == nil {
		return 0
	}
	o := w.s.Op()
	ctx, cancel := context.WithCancel(context.Background())
	w.mu.Lock()
	w.calls[o] = cancel
	if what == "close" {
		w.closed[k] = true
	}
	w.mu.Unlock()
	w.s.Ev("o.call", "o", o, "what", what, "k", k, "m", m, "d", dig(data), "meta", dig(meta), "peer", peer)
	w.opwg.Add(1)
	atomic.AddInt32(&w.nops, 1)
	run := func() {
		defer w.opwg.Done()
		defer atomic.AddInt32(&w.nops, -1)
		ret := func(err error, d []byte, k2 int) {
			t := errtxt(err)
			if err != nil && cls1(err) == "other" {
				t = "other"
			}
			w.s.Ev("o.ret", "o", o, "err", okerr(t), "d", dig(d), "k", k2)
		}
		switch what {
		case "pub":
			ret(st.Publish(ctx, st.NewMessage(data)), nil, 0)
		case "call":
			rsp, err := st.Call(ctx, m, st.NewRequest(data))
			if err != nil {
				ret(err, nil, 0)
			} else if rsp.Error() != nil {
				ret(rsp.Error(), rsp.Data(), 0)
			} else {
				ret(nil, rsp.Data(), 0)
			}
		case "write":
			_, err := st.Write(data)
			ret(err, nil, 0)
		case "reg":
			err := st.Register(ctx, m, w.handler(m))
			ret(err, nil, 0)
			if err == nil {
				w.set(func() { w.regs[fmt.Sprintf("%d/%s", k, m)] = true })
			}
		case "open":
			st2, err := end.OpenStream(openOpts(meta, peer))
			if err != nil {
				ret(err, nil, 0)
				return
			}
			w.s.Rec.mu.Lock()
			k2 := wnum(w.sids, st2.StreamID())
			w.s.Rec.put("o.ret", "o", o, "err", "ok", "d", "", "k", k2)
			w.s.Rec.mu.Unlock()
			w.attach(k2, st2)
		case "close":
			ret(st.Close(), nil, 0)
		case "eclose":
			ret(end.Close(), nil, 0)
		}
	}
	if what == "write" {
		run()
	} else {
		go run()
	}
	return o
}

func openOpts(meta []byte, peer string) *options.OpenStreamOptions {
	x := options.OpenStream()
	if meta != nil {
		x.SetMeta(meta)
	}
	if peer != "" {
		x.SetPeer(peer)
	}
	return x
}

func cls1(err error) string { c, _ := cls(err); return c }

// idle waits until nothing happens any more
func (w *wire) idle(d time.Duration) {
	last, at := -1, time.Now()
	end := time.Now().Add(15 * time.Second)
	if w.scale > 0 {
		end = time.Now().Add(d) // heartbeats go on
	}
	for time.Now().Before(end) {
		w.s.Rec.mu.Lock()
		n := w.s.Rec.n
		w.s.Rec.mu.Unlock()
		if n != last {
			last, at = n, time.Now()
		}
		if time.Since(at) > d {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func (w *wire) quiet() {
	w.idle(700 * time.Millisecond * calm)
	w.s.Ev("quiet")
}

// streams which are open for the peer, and the application has
func (w *wire) live() []int {
	w.mu.Lock()
	defer w.mu.Unlock()
	out := []int{}
	for k := 0; k < 200; k++ {
		if w.open[k] && !w.dsms[k] && w.strm[k] != nil && !w.closed[k] {
			out = append(out, k)
		}
	}
	return out
}

// handshake gets the connection up
func (w *wire) handshake() bool {
	w.start()
	go w.peerRead()
	if w.role == "srv" {
		f := &frame{typ: "conn", meta: w.meta, hb: w.hb, acq: w.rnd.Intn(5) > 0}
		if w.rnd.Intn(2) == 0 {
			f.cid = uint64(500000 + w.rnd.Intn(100000))
		} else if !f.acq {
			f.cid = uint64(700000 + w.rnd.Intn(100000))
		}
		w.tx(f)
	}
	if !w.wait(func() bool { return w.endd }) {
		w.s.Until(w, func() bool { return w.endd })
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.endok
}

// Until waits for something which must happen
func (s *Sys) Until(w *wire, f func() bool) bool {
	return s.until("wire", func() bool { w.mu.Lock(); defer w.mu.Unlock(); return f() })
}

func (w *wire) data(p string) []byte {
	w.mu.Lock()
	w.seq++
	n := w.seq
	w.mu.Unlock()
	b := []byte(fmt.Sprintf("%s%d.", p, n))
	switch w.rnd.Intn(6) {
	case 0:
		return append(b, make([]byte, w.rnd.Intn(3000))...)
	case 1:
		return append(b, 0, 255, '"', '\\', 0xc3, 0x28)
	}
	return b
}

func (w *wire) sess(acq bool, nid uint64, wait bool) {
	if nid == 0 {
		nid = w.id() + 1<<51
	}
	f := &frame{typ: "ses", id: w.id(), nid: nid, acq: acq, meta: w.data("M"), peer: pick(w.rnd, "", "p1")}
	w.tx(f)
	if wait {
		w.wait(func() bool { return w.acks[f.id] != nil || w.eof })
		w.mu.Lock()
		a := w.acks[f.id]
		w.mu.Unlock()
		if a != nil && a.err == "" {
			k := w.kof(a.sid)
			w.wait(func() bool { return w.strm[k] != nil || w.eof })
		}
	}
}

// step does something a peer or an application may do
func (w *wire) step() {
	rnd := w.rnd
	ks := w.live()
	if len(ks) == 0 {
		return
	}
	k := ks[rnd.Intn(len(ks))]
	w.mu.Lock()
	sid := w.sid[k]
	w.mu.Unlock()
	has := func(m string) bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		return w.regs[fmt.Sprintf("%d/%s", k, m)]
	}
	switch rnd.Intn(20) {
	case 0, 1:
		for i := rnd.Intn(5); i >= 0; i-- {
			w.tx(&frame{typ: "msg", sid: sid, data: w.data(pick(rnd, "x", "e")), topic: pick(rnd, "", "t")})
		}
	case 2, 3:
		for i := rnd.Intn(8); i >= 0; i-- {
			w.tx(&frame{typ: "raw", sid: sid, data: w.data("r")})
		}
		if rnd.Intn(2) == 0 {
			w.idle(100 * time.Millisecond)
		}
	case 4, 5:
		m := pick(rnd, "a", "e", "zz")
		if m == "zz" || has(m) {
			for i := rnd.Intn(4); i >= 0; i-- {
				w.tx(&frame{typ: "req", sid: sid, m: m, data: w.data("q"), cust: []byte("c")})
			}
		}
	case 6:
		if has("w") {
			f := &frame{typ: "req", id: w.id(), sid: sid, m: "w", data: w.data("q")}
			w.tx(f)
			time.Sleep(time.Duration(rnd.Intn(30)) * time.Millisecond)
			w.tx(&frame{typ: "cancel", id: f.id, sid: sid, ctyp: 1 + rnd.Intn(2)})
		}
	case 7:
		w.tx(&frame{typ: "reg", sid: sid, m: pick(rnd, "pa", "pb", "pc")})
	case 8:
		if w.role == "srv" && !w.nohb {
			w.tx(&frame{typ: "hb"})
		}
	case 9, 10:
		if len(ks) < 8 {
			w.sess(rnd.Intn(2) == 0, 0, true)
		}
	case 11:
		if k != 1 {
			w.set(func() { w.dsms[k] = true })
			w.tx(&frame{typ: "dsm", sid: sid})
		}
	case 12:
		for i := rnd.Intn(3); i >= 0; i-- {
			w.op("pub", k, "", w.data("o"), nil, "")
		}
	case 13:
		for i := rnd.Intn(3); i >= 0; i-- {
			w.op("call", k, pick(rnd, "ra", "rb"), w.data("o"), nil, "")
		}
	case 14:
		for i := rnd.Intn(4); i >= 0; i-- {
			w.op("write", k, "", w.data("W"), nil, "")
		}
	case 15, 16:
		m := pick(rnd, "a", "e", "w")
		if !has(m) {
			w.op("reg", k, m, nil, nil, "")
			w.wait(func() bool { return w.regs[fmt.Sprintf("%d/%s", k, m)] || w.eof })
		}
	case 17:
		if len(ks) < 8 {
			w.op("open", 1, "", nil, w.data("O"), pick(rnd, "", "p2"))
			w.idle(30 * time.Millisecond)
		}
	case 18:
		if k != 1 && rnd.Intn(2) == 0 {
			w.op("close", k, "", nil, nil, "")
		}
	case 19:
		o := w.op("call", k, "never", w.data("o"), nil, "")
		time.Sleep(time.Duration(rnd.Intn(20)) * time.Millisecond)
		w.cancel(o)
	}
}

func (w *wire) cancel(o int) {
	w.mu.Lock()
	c := w.calls[o]
	w.mu.Unlock()
	if c != nil {
		w.s.Ev("o.cancel", "o", o)
		c()
	}
}

// forge does something no decent peer would
func (w *wire) forge() {
	rnd := w.rnd
	ks := w.live()
	var sid uint64 = 1
	if len(ks) > 0 {
		w.mu.Lock()
		sid = w.sid[ks[rnd.Intn(len(ks))]]
		w.mu.Unlock()
	}
	if rnd.Intn(6) == 0 {
		sid = w.id() + 1<<52 // unknown
	}
	w.mu.Lock()
	var some, mine *frame
	if n := len(w.rxd); n > 0 {
		some = w.rxd[rnd.Intn(n)]
	}
	if n := len(w.sent); n > 0 {
		mine = w.sent[rnd.Intn(n)]
	}
	w.mu.Unlock()
	id := w.id()
	if some != nil && rnd.Intn(2) == 0 {
		id = some.id
	}
	f := &frame{id: id, sid: sid, forged: true}
	types := []string{"conn", "connack", "disack", "hb", "hback", "ses", "sesack", "dsm", "dsmack", "msg", "msgack", "raw", "req", "rsp", "cancel", "reg", "regack", "dup", "dup", "bounce"}
	f.typ = types[rnd.Intn(len(types))]
	if rnd.Intn(2) == 0 { // the less violent ones
		f.typ = pick(rnd, "sesack", "msgack", "rsp", "regack", "cancel", "hb", "hback", "dup")
	}
	switch f.typ {
	case "conn":
		f.acq, f.hb, f.meta = rnd.Intn(2) == 0, 20, []byte("again")
	case "connack":
		f.cid = uint64(rnd.Intn(100))
		f.err = pick(rnd, "", "app:x")
	case "ses":
		f.nid = pick(rnd, sid, 0, 1)
		f.acq = rnd.Intn(2) == 0
		f.meta = w.data("F")
	case "sesack":
		f.nid = pick(rnd, sid, 0, 1, 77)
		if some != nil && some.typ == "ses" {
			f.nid = some.nid
			f.sid = pick(rnd, some.nid, sid, 0, 99)
		}
		f.err = pick(rnd, "", "app:x")
	case "dup":
		if mine == nil {
			return
		}
		g := *mine
		f = &g
	case "bounce":
		if some == nil {
			return
		}
		g := *some
		f = &g
	case "cancel":
		f.ctyp = rnd.Intn(4)
	case "reg", "req":
		f.m = pick(rnd, "", "a", "w", "pa")
		f.data = w.data("f")
	case "msgack", "rsp", "regack":
		f.err = pick(rnd, "", "app:x")
		f.data = w.data("f")
	case "msg", "raw":
		f.data = w.data("f")
		if rnd.Intn(3) == 0 {
			f.data = nil
		}
	}
	f.forged = true
	w.last = f.sid
	if f.typ == "dsm" || f.typ == "dis" {
		k := w.kof(f.sid)
		w.set(func() { w.dsms[k] = true })
	}
	w.set(func() { w.wreck = true })
	w.tx(f)
}

// probe sends a lot to what may have been broken, and sees whether the connection still answers:
// it may have ended, but mustn't hang.
func (w *wire) probe() {
	sid := w.last
	if sid == 0 {
		sid = 1
	}
	for i := 0; i < 150; i++ {
		w.tx(&frame{typ: pick(w.rnd, "raw", "raw", "msg", "msgack", "rsp"), sid: sid, data: []byte("p"), forged: true})
	}
	f := &frame{typ: "ses", id: w.id(), nid: w.id() + 1<<51, acq: true, forged: true}
	w.tx(f)
	ok := func() bool { return w.acks[f.id] != nil || w.eof || w.disR }
	w.wait(ok)
	w.mu.Lock()
	o := ok()
	w.mu.Unlock()
	w.s.Ev("probe", "ok", o)
}

// garbage sends bytes which are no packets
func (w *wire) garbage() {
	rnd := w.rnd
	hdr := func(ver, code byte, n uint32) []byte {
		return cat([]byte{ver, code}, u64(w.id()), binary.BigEndian.AppendUint32(nil, n))
	}
	var codes []byte
	for _, n := range []string{"conn", "connack", "dis", "disack", "hb", "hback", "ses", "sesack", "dsm", "dsmack", "msg", "msgack", "raw", "req", "rsp", "cancel", "reg", "regack"} {
		codes = append(codes, wcodes[n])
	}
	code := codes[rnd.Intn(len(codes))]
	w.mu.Lock()
	sid := w.sid[1]
	w.mu.Unlock()
	rb := func(n int) []byte { b := make([]byte, n); rnd.Read(b); return b }
	switch rnd.Intn(9) {
	case 0: // random bytes
		w.junk(rb(1 + rnd.Intn(60)))
	case 1: // short body for every type
		n := rnd.Intn(20)
		w.junk(cat(hdr(1, code, uint32(n)), rb(n)))
	case 2: // valid fixed fields, and no JSON
		n := 8 + rnd.Intn(14)
		w.junk(cat(hdr(1, code, uint32(n)), u64(sid), rb(n-8)))
	case 3: // JSON of the wrong shape
		js := pick(rnd, `null`, `[]`, `{"value":5}`, `"x"`, `{"key":"%%"}`, `{"error":{}}`, `{"timeout":"x"}`, `{"deadline":5}`, `{"context":{"deadline":"never"}}`, `{}`, ``)
		fix := map[byte]int{0x01: 10, 0x02: 9, 0x12: 1, 0x31: 10, 0x32: 18, 0x61: 8, 0x73: 10}[code]
		if fix == 0 {
			fix = 8
		}
		fb := make([]byte, fix)
		if fix >= 8 {
			binary.BigEndian.PutUint64(fb[fix-8:], pick(rnd, sid, 0, 5))
		}
		w.junk(cat(hdr(1, code, uint32(fix+len(js))), fb, []byte(js)))
	case 4: // unknown type or version
		w.junk(cat(hdr(pick(rnd, byte(1), 0, 2), byte(rnd.Intn(256)), 4), rb(4)))
	case 5: // huge length, nothing behind it
		w.junk(hdr(1, code, pick(rnd, uint32(0xffffffff), 0x7fffffff, 0x80000000, 1<<30)))
		for i := 0; i < 3; i++ {
			w.junk(rb(100))
			w.idle(10 * time.Millisecond)
			w.s.Ev("mem", "mb", heapMB())
		}
	case 6: // a body for a type without one
		n := rnd.Intn(40)
		w.junk(cat(hdr(1, pick(rnd, byte(0x11), 0x21, 0x22), uint32(n)), rb(n)))
	case 7: // a truncated packet
		f := (&frame{typ: "msg", id: w.id(), sid: sid, data: []byte("hello")}).encode()
		w.junk(f[:1+rnd.Intn(len(f)-1)])
	case 8: // one byte of a proper packet flipped
		f := (&frame{typ: pick(rnd, "msg", "req", "ses", "dsm", "raw", "sesack", "msgack", "conn", "connack"), id: w.id(), sid: sid, nid: w.id(), data: []byte("hello"), m: "a", meta: []byte("m")}).encode()
		f[rnd.Intn(len(f))] ^= 1 << uint(rnd.Intn(8))
		w.junk(f)
	}
}

// heapMB is what is allocated and not free yet; all runs together need far less than what a
// header may claim
func heapMB() int {
	x := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(x)
	return int(x[0].Value.Uint64() >> 20)
}

// finish ends the run in some way, and whatever was going on must end
func (w *wire) finish() {
	rnd := w.rnd
	w.mu.Lock()
	wreck, eof, up := w.wreck, w.eof, w.endok
	w.mu.Unlock()
	if !eof {
		switch how := rnd.Intn(3); {
		case how == 0 && up:
			w.op("eclose", 1, "", nil, nil, "")
			w.idle(400 * time.Millisecond)
		case how == 1:
			w.mu.Lock()
			done := w.disS
			w.disS = true
			w.mu.Unlock()
			if !done {
				w.tx(&frame{typ: "dis"})
				w.idle(400 * time.Millisecond)
			}
		}
		if !wreck {
			w.quiet()
		}
	}
	w.s.Ev("cut")
	w.peer.Close()
	w.pipe.Cut()
	close(w.stop)
	if up {
		w.mu.Lock()
		end := w.end
		w.mu.Unlock()
		w.busy.Add(1)
		go func() { defer w.busy.Done(); end.Close() }()
	}
	done := make(chan struct{})
	go func() { w.opwg.Wait(); w.busy.Wait(); close(done) }()
	w.s.await(done, "something of the application doesn't end")
	if w.tmr != nil {
		w.tmr.Close()
	}
	w.idle(100 * time.Millisecond)
	w.s.Ev("fin")
}

func (w *wire) config() {
	rnd := w.rnd
	w.pipe.Frag(w.s.seed, rnd.Intn(5))
	w.dlg = rnd.Intn(3) > 0
	if rnd.Intn(8) == 0 {
		w.refuse = "peer"
		if w.role == "srv" {
			w.refuse = pick(rnd, "id", "on")
			w.dlg = true
		}
	}
	if rnd.Intn(2) == 0 || w.role == "cli" {
		w.gid = uint64(9000 + rnd.Intn(1000))
	}
	w.meta = randMeta(rnd, rnd.Intn(40))
}

// scaled is a timer which runs faster
type scaled struct {
	timer.Timer
	ms int // for a second
}

func (t *scaled) Add(d time.Duration, opts ...timer.TickOption) timer.Tick {
	d = d * time.Duration(t.ms) / 1000
	if d < 10*time.Millisecond {
		d = 10 * time.Millisecond
	}
	return t.Timer.Add(d, opts...)
}

// hbRun has the timers of the End run faster
func hbRun(s *Sys, rnd *rand.Rand) {
	w := newWire(s, rnd, "hb")
	w.config()
	w.refuse = ""
	if w.role == "srv" {
		w.hb = 5
		w.scale = 20 + rnd.Intn(30)
		switch rnd.Intn(8) {
		case 0, 1:
			w.hb, w.scale = 20, 10
		case 2:
			w.hb, w.scale = 80, 6
		case 3:
			w.hb, w.scale = 320, 3
		}
	} else {
		w.scale = 10 + rnd.Intn(15)
	}
	w.tmr = &scaled{timer.NewTimer(), w.scale}
	I := time.Duration(w.hb*w.scale) * time.Millisecond
	if rnd.Intn(5) == 0 { // no handshake
		w.silent = true
		w.start()
		go w.peerRead()
		s.Until(w, func() bool { return w.endd })
		w.idle(100 * time.Millisecond)
		s.Ev("tick")
		w.finish()
		return
	}
	if !w.handshake() {
		w.finish()
		return
	}
	stop := make(chan struct{})
	var bg sync.WaitGroup
	bg.Add(1)
	rounds := rnd.Intn(5)
	seed := rnd.Int63()
	up := func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		return !w.disR && !w.eof
	}
	go func() {
		defer bg.Done()
		r := rand.New(rand.NewSource(seed))
		if w.role == "cli" {
			time.Sleep(I*time.Duration(rounds+1) + I/2)
			return
		}
		for i := 0; i < rounds; i++ {
			time.Sleep(I/2 + time.Duration(r.Int63n(int64(I*8/10))))
			if !up() {
				return
			}
			w.tx(&frame{typ: "hb"})
			if r.Intn(4) == 0 {
				w.tx(&frame{typ: "hb"})
			}
		}
	}()
	go func() { bg.Wait(); close(stop) }()
	running := func() bool {
		select {
		case <-stop:
			return false
		default:
			return up()
		}
	}
	mute := rnd.Intn(3) == 0
	for running() {
		w.step()
		time.Sleep(time.Duration(rnd.Intn(40)) * time.Millisecond)
		if mute && rnd.Intn(3) == 0 {
			// the peer doesn't answer the opening of streams any more
			w.set(func() { w.muteOpen = true })
			w.op("open", 1, "", nil, w.data("O"), "")
		}
	}
	bg.Wait()
	if !mute && w.role == "srv" && rnd.Intn(4) == 0 {
		// data is no heartbeat
		w.nohb = true
		for end := time.Now().Add(2*I + 3*time.Second); time.Now().Before(end) && up(); {
			w.step()
			time.Sleep(time.Duration(rnd.Intn(20)) * time.Millisecond)
		}
	}
	if !mute && w.role == "srv" && up() {
		// the heartbeats were answered, and the delegate heard of them
		w.idle(I / 2)
		s.Ev("hbs")
	}
	if mute && up() {
		w.idle(time.Duration(35*w.scale) * time.Millisecond)
		s.Ev("tick")
	}
	if w.role == "srv" {
		if rnd.Intn(6) == 0 {
			w.set(func() { w.silent = true }) // it's dead
		}
		w.wait(func() bool { return w.disR || w.eof })
		s.Ev("tick")
	}
	w.finish()
}

func wireRun(s *Sys, rnd *rand.Rand, kind string) {
	w := newWire(s, rnd, kind)
	w.config()
	if kind == "junk" && rnd.Intn(3) == 0 || kind == "forge" && rnd.Intn(6) == 0 {
		// before or during the handshake
		w.mu.Lock()
		w.silent = rnd.Intn(2) == 0
		w.mu.Unlock()
		w.start()
		go w.peerRead()
		for i := rnd.Intn(3); i >= 0; i-- {
			if kind == "junk" {
				w.garbage()
			} else {
				w.forge()
			}
		}
		w.idle(50 * time.Millisecond)
		w.finish()
		return
	}
	if w.handshake() {
		n := 4 + rnd.Intn(25)
		for i := 0; i < n && !s.Hung(); i++ {
			if kind == "forge" && rnd.Intn(3) == 0 {
				w.forge()
			}
			w.step()
			if w.kind == "wire" && rnd.Intn(16) == 0 {
				w.quiet()
			}
		}
		if kind == "junk" {
			for i := rnd.Intn(3); i >= 0; i-- {
				w.garbage()
				w.idle(20 * time.Millisecond)
				if rnd.Intn(2) == 0 {
					w.step()
				}
			}
		}
		if kind == "forge" && rnd.Intn(2) == 0 {
			w.probe()
		}
	}
	if kind == "wire" {
		w.quiet()
	}
	w.finish()
}

func init() {
	scenarios["hb"] = hbRun
	for _, k := range []string{"wire", "forge", "junk"} {
		k := k
		scenarios[k] = func(s *Sys, rnd *rand.Rand) { wireRun(s, rnd, k) }
	}
}
