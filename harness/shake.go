package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/server"
)

// shconn is one connection to be established
type shconn struct {
	c              int
	meta           []byte
	want           uint64
	sid            uint64 // the server's ClientID option
	dlg            bool
	choose         uint64
	noid, noon     error // refused by GetClientID, by ConnOnline
	did, don       time.Duration
	cwait, swait   time.Duration
	p              *Pipe
	ce, se         geminio.End
	cutAt          int
	lat            time.Duration
	mu             sync.Mutex
	wasCut, closed bool
	owed           int           // offline notifications to come
	gates          chan *shgate  // the choices of the delegate, when they are scheduled
	free           chan struct{} // no longer
	sdone, cdone   chan struct{} // the connect calls returned
}

type shgate struct {
	id  uint64
	err error
}

// choice waits for the scheduled one
func (cn *shconn) choice(id uint64, err error) (uint64, error) {
	if cn.gates == nil {
		return id, err
	}
	select {
	case g := <-cn.gates:
		return g.id, g.err
	case <-cn.free:
		return 0, nil
	}
}

// told waits until every connection which was online was told to be offline
func told(all []*shconn) {
	poll(3*time.Second*calm, func() bool {
		n := 0
		for _, cn := range all {
			cn.mu.Lock()
			n += cn.owed
			cn.mu.Unlock()
		}
		return n == 0
	})
	time.Sleep(100 * time.Millisecond) // nor is any told twice
}

// shdlg is the delegate of the server, of one connection or of all
type shdlg struct {
	*delegate.UnimplementedDelegate
	s  *Sys
	by func(meta []byte) *shconn
}

func shtxt(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func shid(x uint64) string { return strconv.FormatUint(x, 10) }

func (x *shdlg) GetClientID(wanted uint64, meta []byte) (uint64, error) {
	cn := x.by(meta)
	if cn == nil {
		x.s.Ev("gid", "c", 0, "want", shid(wanted), "meta", dig(meta))
		return 0, nil
	}
	x.s.Ev("gid", "c", cn.c, "want", shid(wanted), "meta", dig(meta))
	time.Sleep(cn.did)
	id, err := cn.choice(cn.choose, cn.noid)
	x.s.Ev("gid.ret", "c", cn.c, "id", shid(id), "no", err != nil, "err", shtxt(err))
	return id, err
}

func (x *shdlg) ConnOnline(c delegate.ConnDescriber) error {
	cn := x.by(c.Meta())
	if cn == nil {
		x.s.Ev("on", "c", 0, "id", shid(c.ClientID()), "meta", dig(c.Meta()))
		return nil
	}
	x.s.Ev("on", "c", cn.c, "id", shid(c.ClientID()), "meta", dig(c.Meta()))
	time.Sleep(cn.don)
	_, err := cn.choice(0, cn.noon)
	x.s.Ev("on.ret", "c", cn.c, "no", err != nil, "err", shtxt(err))
	if err == nil {
		cn.mu.Lock()
		cn.owed++
		cn.mu.Unlock()
	}
	return err
}

func (x *shdlg) ConnOffline(c delegate.ConnDescriber) error {
	k := 0
	if cn := x.by(c.Meta()); cn != nil {
		k = cn.c
		defer func() {
			cn.mu.Lock()
			cn.owed--
			cn.mu.Unlock()
		}()
	}
	x.s.Ev("off", "c", k, "id", shid(c.ClientID()), "meta", dig(c.Meta()))
	return nil
}

func shakeRun(s *Sys, rnd *rand.Rand) {
	mode := pick(rnd, "pipe", "pipe", "pipe", "tcp", "listen")
	n := 1 + rnd.Intn(4)
	if rnd.Intn(3) == 0 {
		n = 5 + rnd.Intn(20)
	}
	shared := mode == "listen"
	var mu sync.Mutex
	conns := map[int]*shconn{}
	byMeta := func(meta []byte) *shconn {
		i := bytes.IndexByte(meta, ';')
		if i < 0 {
			return nil
		}
		k, err := strconv.Atoi(string(meta[:i]))
		if err != nil {
			return nil
		}
		mu.Lock()
		defer mu.Unlock()
		return conns[k]
	}
	refusal := func(txt string) error {
		if rnd.Intn(8) == 0 {
			txt = ""
		}
		return errors.New(txt)
	}
	dlgs := rnd.Intn(4) > 0
	all := []*shconn{}
	for c := 1; c <= n; c++ {
		cn := &shconn{c: c, dlg: dlgs}
		if !shared {
			cn.dlg = rnd.Intn(4) > 0
		}
		switch rnd.Intn(6) {
		case 0:
		case 1:
			cn.meta = make([]byte, 20000+rnd.Intn(30000))
			rnd.Read(cn.meta)
		default:
			cn.meta = make([]byte, rnd.Intn(300))
			rnd.Read(cn.meta)
		}
		if shared {
			cn.meta = append([]byte(fmt.Sprintf("%d;", c)), cn.meta...)
		}
		if rnd.Intn(3) == 0 {
			cn.want = rnd.Uint64() >> uint(rnd.Intn(60))
		}
		if !cn.dlg && !shared && rnd.Intn(3) == 0 {
			cn.sid = 1<<62 + rnd.Uint64()>>3
		}
		if cn.dlg {
			switch rnd.Intn(6) {
			case 0:
				cn.noid = refusal(fmt.Sprintf("app: no id for %d", c))
				cn.choose = uint64(rnd.Intn(2)) * 77
			case 1:
				cn.noon = refusal(fmt.Sprintf("app: not you, %d", c))
				cn.choose = uint64(rnd.Intn(2)) * 78
			case 2, 3:
				cn.choose = 1<<62 + rnd.Uint64()>>3
				if rnd.Intn(4) == 0 {
					cn.choose = ^uint64(0)
				}
			}
			if rnd.Intn(3) == 0 {
				cn.did = time.Duration(rnd.Intn(30)) * time.Millisecond
			}
			if rnd.Intn(3) == 0 {
				cn.don = time.Duration(rnd.Intn(30)) * time.Millisecond
			}
		}
		if rnd.Intn(2) == 0 {
			cn.cwait = time.Duration(rnd.Intn(20)) * time.Millisecond
		}
		if rnd.Intn(2) == 0 {
			cn.swait = time.Duration(rnd.Intn(20)) * time.Millisecond
		}
		if mode == "pipe" && rnd.Intn(10) == 0 {
			cn.cutAt = 1 + rnd.Intn(120)
		}
		if mode == "pipe" && rnd.Intn(4) == 0 {
			cn.lat = time.Duration(1+rnd.Intn(20)) * time.Millisecond
		}
		all = append(all, cn)
		conns[c] = cn
		late := int((cn.did + cn.don + cn.cwait + cn.swait + 10*cn.lat) / time.Millisecond)
		if shared { // one after the other
			late += 60 * n
		}
		s.Ev("conn", "c", c, "meta", dig(cn.meta), "want", shid(cn.want), "dlg", cn.dlg, "sid", shid(cn.sid), "late", late)
	}
	sopt := func(cn *shconn) *server.EndOptions {
		o := server.NewEndOptions()
		if cn == nil {
			o.SetLog(s.log(0))
			if dlgs {
				o.SetDelegate(&shdlg{s: s, by: byMeta})
			}
			return o
		}
		o.SetLog(s.log(2 * cn.c))
		if cn.dlg {
			o.SetDelegate(&shdlg{s: s, by: func([]byte) *shconn { return cn }})
		}
		if cn.sid != 0 {
			o.SetClientID(cn.sid)
		}
		return o
	}
	copt := func(cn *shconn) *client.EndOptions {
		o := client.NewEndOptions()
		o.SetLog(s.log(2*cn.c + 1))
		if cn.meta != nil {
			o.SetMeta(cn.meta)
		}
		if cn.want != 0 {
			o.SetClientID(cn.want)
		}
		return o
	}
	var wg sync.WaitGroup
	echo := func(e geminio.End) {
		e.Register(context.Background(), "echo", func(_ context.Context, req geminio.Request, rsp geminio.Response) {
			if req.ClientID() != e.ClientID() {
				rsp.SetError(errors.New("other id"))
				return
			}
			rsp.SetData(req.Data())
		})
	}
	accepted := func(cn *shconn, e geminio.End, err error) {
		if err != nil {
			c := 0
			if cn != nil {
				c = cn.c
			}
			s.Ev("acc.ret", "c", c, "ok", false)
			return
		}
		if cn == nil {
			cn = byMeta(e.Meta())
		}
		if cn == nil {
			s.Ev("acc.ret", "c", 0, "ok", true, "id", shid(e.ClientID()), "meta", dig(e.Meta()))
			return
		}
		s.Ev("acc.ret", "c", cn.c, "ok", true, "id", shid(e.ClientID()), "meta", dig(e.Meta()))
		cn.mu.Lock()
		cn.se = e
		cn.mu.Unlock()
		echo(e)
	}
	// connect is the client's side
	connect := func(cn *shconn, f func(*client.EndOptions) (geminio.End, error)) {
		defer wg.Done()
		time.Sleep(cn.cwait)
		s.Ev("dial", "c", cn.c)
		e, err := f(copt(cn))
		if err != nil {
			s.Ev("dial.ret", "c", cn.c, "ok", false, "err", err.Error())
			return
		}
		s.Ev("dial.ret", "c", cn.c, "ok", true, "id", shid(e.ClientID()), "meta", dig(e.Meta()))
		cn.ce = e
		var data []byte
		for i := 0; i < 100; i++ {
			rsp, err1 := e.Call(context.Background(), "echo", e.NewRequest(cn.meta))
			if err = err1; err == nil {
				err = rsp.Error()
				data = rsp.Data()
			}
			if err == nil || !strings.HasPrefix(err.Error(), "no such rpc") {
				break
			}
			time.Sleep(20 * time.Millisecond) // it isn't registered yet
		}
		s.Ev("echo.ret", "c", cn.c, "ok", err == nil && bytes.Equal(data, cn.meta), "err", fmt.Sprint(err))
	}
	var ln server.Listener
	if shared {
		var err error
		if ln, err = server.Listen("tcp", "127.0.0.1:0", sopt(nil)); err != nil {
			panic("harness: " + err.Error())
		}
		go func() {
			for {
				e, err := ln.AcceptEnd()
				if err != nil && strings.Contains(err.Error(), "use of closed") {
					return
				}
				accepted(nil, e, err)
			}
		}()
	}
	var tl net.Listener
	for _, cn := range all {
		cn := cn
		wg.Add(1)
		switch mode {
		case "listen":
			s.Ev("acc", "c", cn.c)
			go connect(cn, func(o *client.EndOptions) (geminio.End, error) {
				return client.NewEnd("tcp", ln.Addr().String(), o)
			})
		case "tcp":
			if tl == nil {
				var err error
				if tl, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
					panic("harness: " + err.Error())
				}
				defer tl.Close()
			}
			// one by one, to know which is which
			a, err := net.Dial("tcp", tl.Addr().String())
			if err != nil {
				panic("harness: " + err.Error())
			}
			b, err := tl.Accept()
			if err != nil {
				panic("harness: " + err.Error())
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(cn.swait)
				s.Ev("acc", "c", cn.c)
				e, err := server.NewEndWithConn(b, sopt(cn))
				accepted(cn, e, err)
			}()
			go connect(cn, func(o *client.EndOptions) (geminio.End, error) { return client.NewEndWithConn(a, o) })
		case "pipe":
			cn.p = NewPipe()
			cn.p.Frag(s.seed*100+int64(cn.c), rnd.Intn(3))
			if cn.cutAt > 0 {
				cn.p.CutAt(rnd.Intn(2), cn.cutAt)
			}
			cn.p.onCut = func() { s.Ev("cut", "c", cn.c) }
			if cn.lat > 0 {
				d := rnd.Intn(2)
				go func() {
					for i := 0; i < 10; i++ {
						cn.p.Stall(d, true)
						time.Sleep(cn.lat)
						cn.p.Stall(d, false)
						time.Sleep(time.Millisecond)
					}
				}()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(cn.swait)
				s.Ev("acc", "c", cn.c)
				e, err := server.NewEndWithConn(cn.p.conns[1], sopt(cn))
				accepted(cn, e, err)
			}()
			go connect(cn, func(o *client.EndOptions) (geminio.End, error) {
				return client.NewEndWithDialer(func() (net.Conn, error) { return cn.p.conns[0], nil }, o)
			})
		}
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if !s.await(done, "connecting") {
		return
	}
	if shared {
		end := time.Now().Add(3 * time.Second)
		for time.Now().Before(end) {
			ok := true
			for _, cn := range all {
				cn.mu.Lock()
				ok = ok && (cn.ce == nil || cn.se != nil)
				cn.mu.Unlock()
			}
			if ok {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	s.Ev("settle")
	for _, cn := range all {
		cn.mu.Lock()
		se := cn.se
		cn.mu.Unlock()
		if cn.ce != nil && rnd.Intn(2) == 0 || se == nil && cn.ce != nil {
			s.Ev("bye", "c", cn.c)
			cn.ce.Close()
		} else if se != nil {
			s.Ev("bye", "c", cn.c)
			se.Close()
		}
	}
	if ln != nil {
		ln.Close()
	}
	told(all)
	s.Ev("end")
}

// hand replays behaviours of Hand.tla: who calls when, what the delegate answers when, when
// each packet is delivered, and when a transport is cut
type hlabel struct {
	A  string `json:"a"`
	C  int    `json:"c"`
	ID int    `json:"id"`
	No string `json:"no"`
}

type hschedule struct {
	Dlg []bool   `json:"dlg"`
	Sch []hlabel `json:"sch"`
}

var hschedules []hschedule

func hand(s *Sys, rnd *rand.Rand) {
	s.pert = 0
	sc := hschedules[int(s.seed%100000)%len(hschedules)]
	all := []*shconn{}
	for i := range sc.Dlg {
		cn := &shconn{c: i + 1, dlg: sc.Dlg[i], gates: make(chan *shgate), free: make(chan struct{}), p: NewPipe(),
			sdone: make(chan struct{}), cdone: make(chan struct{}), meta: make([]byte, rnd.Intn(40))}
		rnd.Read(cn.meta)
		cn.p.Frag(s.seed*100+int64(cn.c), rnd.Intn(3))
		cn.p.onCut = func() { s.Ev("cut", "c", cn.c) }
		cn.p.Stall(0, true)
		cn.p.Stall(1, true)
		all = append(all, cn)
		s.Ev("conn", "c", cn.c, "meta", dig(cn.meta), "want", "0", "dlg", cn.dlg, "sid", "0", "late", 3000)
	}
	why := ""
	began := map[string]bool{}
	begin := func(cn *shconn, what string) {
		k := what + fmt.Sprint(cn.c)
		if began[k] {
			return
		}
		began[k] = true
		s.Ev(what, "c", cn.c)
		if what == "dial" {
			go func() {
				defer close(cn.cdone)
				o := client.NewEndOptions()
				o.SetLog(s.log(2*cn.c + 1))
				o.SetMeta(cn.meta)
				e, err := client.NewEndWithDialer(func() (net.Conn, error) { return cn.p.conns[0], nil }, o)
				if err != nil {
					s.Ev("dial.ret", "c", cn.c, "ok", false, "err", err.Error())
					return
				}
				cn.ce = e
				s.Ev("dial.ret", "c", cn.c, "ok", true, "id", shid(e.ClientID()), "meta", dig(e.Meta()))
			}()
			return
		}
		go func() {
			defer close(cn.sdone)
			o := server.NewEndOptions()
			o.SetLog(s.log(2 * cn.c))
			if cn.dlg {
				o.SetDelegate(&shdlg{s: s, by: func([]byte) *shconn { return cn }})
			}
			e, err := server.NewEndWithConn(cn.p.conns[1], o)
			if err != nil {
				s.Ev("acc.ret", "c", cn.c, "ok", false)
				return
			}
			cn.se = e
			s.Ev("acc.ret", "c", cn.c, "ok", true, "id", shid(e.ClientID()), "meta", dig(e.Meta()))
		}()
	}
	for _, l := range sc.Sch {
		if s.Hung() || why != "" || l.A == "settle" {
			break
		}
		if l.C == 0 {
			continue
		}
		cn := all[l.C-1]
		switch l.A {
		case "dial", "acc":
			begin(cn, l.A)
		case "conn", "ack":
			d := 0
			if l.A == "ack" {
				d = 1
			}
			var n []int
			if !poll(schedWait, func() bool { _, n = cn.p.frames(d); return len(n) > 0 }) {
				why = l.A + ": nothing to deliver"
				continue
			}
			want := cn.p.Total(d) + n[0]
			cn.p.Allow(d, n[0])
			if !poll(schedWait, func() bool { return cn.p.Total(d) >= want }) {
				why = l.A + ": nobody reads"
			} else if l.A == "ack" && !poll(schedWait, func() bool { return isDone(cn.cdone) }) {
				why = "the client waits"
			} else if l.A == "ack" {
				// the rest is up to them
				cn.p.Stall(0, false)
				cn.p.Stall(1, false)
			}
		case "gid", "on":
			g := &shgate{id: uint64(l.ID)}
			switch l.No {
			case "txt":
				g.err = fmt.Errorf("app: not you, %d", l.C)
			case "empty":
				g.err = errors.New("")
			}
			select {
			case cn.gates <- g:
			case <-time.After(schedWait):
				why = l.A + ": the delegate isn't asked"
			}
		case "accret":
			// (one which refuses may wait for the client to go)
			poll(100*time.Millisecond, func() bool { return isDone(cn.sdone) })
		case "cut":
			cn.p.Cut()
		}
	}
	if why != "" {
		s.Ev("note", "what", "diverged at "+why)
	}
	for _, cn := range all {
		begin(cn, "dial")
		begin(cn, "acc")
		close(cn.free)
		cn.p.Stall(0, false)
		cn.p.Stall(1, false)
	}
	for _, cn := range all {
		if !s.await(cn.cdone, "connecting") || !s.await(cn.sdone, "accepting") {
			return
		}
	}
	s.Ev("settle")
	for _, cn := range all {
		s.Ev("cut", "c", cn.c)
		cn.p.Cut()
	}
	told(all)
	s.Ev("end")
}

// shburst connects a lot, as fast as it can, with more threads than cores: each may be
// interrupted anywhere.
func shburst(s *Sys, rnd *rand.Rand) {
	const workers, each = 6, 10
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		for i := 0; i < each; i++ {
			s.Ev("conn", "c", w*each+i+1, "meta", dig(nil), "want", "0", "dlg", false, "sid", "0", "late", 0)
		}
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < each; i++ {
				c := w*each + i + 1
				a, b := net.Pipe()
				s.Ev("acc", "c", c)
				s.Ev("dial", "c", c)
				got := make(chan geminio.End, 1)
				go func() {
					o := server.NewEndOptions()
					o.SetLog(quietLog)
					e, err := server.NewEndWithConn(b, o)
					if err != nil {
						s.Ev("acc.ret", "c", c, "ok", false)
						got <- nil
						return
					}
					s.Ev("acc.ret", "c", c, "ok", true, "id", shid(e.ClientID()), "meta", dig(e.Meta()))
					got <- e
				}()
				o := client.NewEndOptions()
				o.SetLog(quietLog)
				e, err := client.NewEndWithDialer(func() (net.Conn, error) { return a, nil }, o)
				if err != nil {
					s.Ev("dial.ret", "c", c, "ok", false, "err", err.Error())
				} else {
					s.Ev("dial.ret", "c", c, "ok", true, "id", shid(e.ClientID()), "meta", dig(e.Meta()))
				}
				se := <-got
				if e != nil {
					e.Close()
				}
				if se != nil {
					se.Close()
				}
				if err != nil {
					return
				}
			}
		}(w)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if s.await(done, "connecting") {
		s.Ev("end")
	}
}

func init() {
	scenarios["shake"] = shakeRun
	scenarios["hand"] = hand
	scenarios["shburst"] = shburst
}
