package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"github.com/singchia/go-timer/v2"
)

// retry is a retrying End, whose dials and connections fail as a script says.
type retry struct {
	s   *Sys
	rnd *rand.Rand

	mu     sync.Mutex
	conns  []*rconn
	re     geminio.End
	script []string // of the next dials
	regs   []string
	vers   int
	hj     int // the hijack which was set last
	hjmu   sync.Mutex
	closed bool
	lat    time.Duration
	on     int
	reon   int             // the connection of which EndReOnline was called last
	nested func(on string) // what the delegate does
	wg     sync.WaitGroup
	ops    int32
}

// rconn is one dial
type rconn struct {
	c    int
	p    *Pipe
	srv  geminio.End
	up   bool
	gone bool
	cut  bool
}

const rcid = 5000

func (r *retry) dlg(ev string, cid uint64) {
	r.s.Ev(ev, "c", int(cid)-rcid)
}

type rdlg struct {
	*delegate.UnimplementedDelegate
	r *retry
}

func (x *rdlg) ConnOnline(c delegate.ConnDescriber) error {
	x.r.dlg("d.on", c.ClientID())
	x.r.mu.Lock()
	x.r.on = int(c.ClientID()) - rcid
	x.r.mu.Unlock()
	if x.r.nested != nil {
		x.r.nested("on")
	}
	return nil
}
func (x *rdlg) ConnOffline(c delegate.ConnDescriber) error {
	x.r.dlg("d.off", c.ClientID())
	return nil
}
func (x *rdlg) EndReOnline(c delegate.ClientDescriber) {
	x.r.dlg("d.re", c.ClientID())
	x.r.mu.Lock()
	x.r.reon = int(c.ClientID()) - rcid
	x.r.mu.Unlock()
	if x.r.nested != nil {
		x.r.nested("re")
	}
}

type rsdlg struct {
	*delegate.UnimplementedDelegate
	r  *retry
	cn *rconn
	no bool
}

func (x *rsdlg) GetClientID(wanted uint64, meta []byte) (uint64, error) {
	if x.no {
		return 0, errors.New("app:refused")
	}
	return uint64(rcid + x.cn.c), nil
}
func (x *rsdlg) ConnOffline(c delegate.ConnDescriber) error {
	x.r.s.Ev("s.down", "c", x.cn.c)
	x.r.mu.Lock()
	x.cn.gone = true
	x.r.mu.Unlock()
	return nil
}

// dial is the dialer of the retrying End
func (r *retry) dial() (net.Conn, error) {
	r.mu.Lock()
	cn := &rconn{c: len(r.conns) + 1}
	r.conns = append(r.conns, cn)
	how := "ok"
	if len(r.script) > 0 {
		how = r.script[0]
		r.script = r.script[1:]
	}
	r.mu.Unlock()
	r.s.Ev("dial", "c", cn.c)
	if how == "slow" {
		time.Sleep(300 * time.Millisecond)
		how = "ok"
	}
	if how == "fail" {
		r.s.Ev("dial.ret", "c", cn.c, "ok", false)
		return nil, errors.New("app:dial")
	}
	cn.p = NewPipe()
	cn.p.onCut = func() {
		r.s.Ev("cut", "c", cn.c)
		go func() {
			r.mu.Lock()
			cn.cut = true
			r.mu.Unlock()
		}()
	}
	if r.lat > 0 {
		go func() { // packets of the server take a while
			for i := 0; i < 600; i++ {
				cn.p.Stall(1, true)
				time.Sleep(r.lat)
				cn.p.Stall(1, false)
				time.Sleep(200 * time.Microsecond)
			}
		}()
	}
	var n int
	if k, _ := fmt.Sscanf(how, "cut%d", &n); k == 1 {
		cn.p.CutAt(n%2, n)
	}
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		o := server.NewEndOptions()
		o.SetLog(r.s.log(cn.c))
		o.SetDelegate(&rsdlg{r: r, cn: cn, no: how == "refuse"})
		e, err := server.NewEndWithConn(cn.p.conns[1], o)
		if err != nil {
			r.s.Ev("s.fail", "c", cn.c)
			r.mu.Lock()
			cn.gone = true
			r.mu.Unlock()
			cn.p.Cut()
			return
		}
		if err := e.Register(context.Background(), "echo", func(_ context.Context, req geminio.Request, rsp geminio.Response) {
			r.s.Ev("s.req", "c", cn.c, "d", dig(req.Data()))
			rsp.SetData(req.Data())
		}); err == nil {
			r.s.Ev("s.up", "c", cn.c)
			r.mu.Lock()
			cn.srv, cn.up = e, true
			r.mu.Unlock()
		}
		r.wg.Add(1)
		go func() {
			defer r.wg.Done()
			for {
				st, err := e.AcceptStream()
				if err != nil {
					return
				}
				go func() {
					b := make([]byte, 100)
					for {
						n, err := st.Read(b)
						if err != nil {
							return
						}
						st.Write(b[:n])
					}
				}()
			}
		}()
		for {
			m, err := e.Receive(context.Background())
			if err != nil {
				return
			}
			r.s.Ev("s.msg", "c", cn.c, "d", dig(m.Data()))
			m.Done()
		}
	}()
	r.s.Ev("dial.ret", "c", cn.c, "ok", true)
	return cn.p.conns[0], nil
}

// cur is the connection which lives, if there's one
func (r *retry) cur() *rconn {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.conns) == 0 {
		return nil
	}
	cn := r.conns[len(r.conns)-1]
	if cn.up && !cn.gone && !cn.cut {
		return cn
	}
	return nil
}

// settle waits for a recovery
func (r *retry) settle() {
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) && !r.s.Hung() {
		if cn := r.cur(); cn != nil {
			r.mu.Lock()
			ok := cn.c == 1 || r.reon == cn.c
			r.mu.Unlock()
			if ok {
				time.Sleep(100 * time.Millisecond)
				if r.cur() == cn {
					r.s.Ev("settle", "c", cn.c)
					return
				}
			}
		}
		time.Sleep(20 * time.Millisecond)
	}
	r.s.Ev("settle", "c", 0)
}

// register a method, or the hijack ("hj")
// one hijack after the other, each serving the names of those before it
func (r *retry) register(m string) {
	if m == "hj" {
		r.hjmu.Lock()
		defer r.hjmu.Unlock()
	}
	r.mu.Lock()
	r.vers++
	v := r.vers
	r.mu.Unlock()
	o := r.s.Op()
	f := func(_ context.Context, req geminio.Request, rsp geminio.Response) {
		rsp.SetData([]byte(fmt.Sprint(v)))
	}
	r.s.Ev("reg", "o", o, "m", m, "v", v)
	var err error
	if m == "hj" {
		h := func(ctx context.Context, _ string, req geminio.Request, rsp geminio.Response) { f(ctx, req, rsp) }
		opt := options.Hijack()
		names := "0"
		for i := 1; i <= v; i++ {
			names += fmt.Sprint("|", i)
		}
		opt.SetMatch(true, "^hj("+names+")$")
		err = r.re.Hijack(h, opt)
		if err == nil {
			r.mu.Lock()
			r.hj = v
			r.mu.Unlock()
		}
	} else {
		err = r.re.Register(context.Background(), m, f)
	}
	r.s.Ev("reg.ret", "o", o, "ok", err == nil)
}

// op is an operation of the application
func (r *retry) op(kind string) {
	o := r.s.Op()
	d := []byte(fmt.Sprintf("%d", o))
	r.s.Ev("op", "o", o, "what", kind, "d", dig(d))
	atomic.AddInt32(&r.ops, 1)
	defer atomic.AddInt32(&r.ops, -1)
	var err error
	switch kind {
	case "call":
		var rsp geminio.Response
		rsp, err = r.re.Call(context.Background(), "echo", r.re.NewRequest(d))
		if err == nil && (rsp.Error() != nil || string(rsp.Data()) != string(d)) {
			err = errors.New("other")
			if rsp.Error() != nil {
				err = rsp.Error()
			}
		}
	case "acall":
		var c *geminio.Call
		ch := make(chan *geminio.Call, 1)
		c, err = r.re.CallAsync(context.Background(), "echo", r.re.NewRequest(d), ch)
		if err == nil {
			c = <-ch
			err = c.Error
			if err == nil && c.Response.Error() != nil {
				err = c.Response.Error()
			}
		}
	case "pub":
		err = r.re.Publish(context.Background(), r.re.NewMessage(d))
	case "apub":
		ch := make(chan *geminio.Publish, 1)
		_, err = r.re.PublishAsync(context.Background(), r.re.NewMessage(d), ch)
		if err == nil {
			err = (<-ch).Error
		}
	case "open":
		var st geminio.Stream
		st, err = r.re.OpenStream()
		if err == nil {
			_, err = st.Write(d)
			b := make([]byte, 100)
			n := 0
			for err == nil && n < len(d) {
				k := 0
				k, err = st.Read(b[n:])
				n += k
			}
			if err == nil && string(b[:n]) != string(d) {
				err = errors.New("other data")
			}
			st.Close()
		}
	case "recv":
		_, err = r.re.Receive(context.Background())
	case "read":
		_, err = r.re.Read(make([]byte, 10))
	case "acc":
		_, err = r.re.AcceptStream()
	case "write":
		_, err = r.re.Write(d)
	}
	t := okerr(errtxt(err))
	r.s.Ev("op.ret", "o", o, "ok", err == nil, "err", t)
}

func (r *retry) bg(f func()) {
	r.wg.Add(1)
	go func() { defer r.wg.Done(); f() }()
}

// probe calls a method from the server's side of a connection
func (r *retry) probe(cn *rconn, m string) {
	p := r.s.Op()
	name := m
	if m == "hj" {
		r.mu.Lock()
		name = fmt.Sprint(m, r.hj)
		r.mu.Unlock()
	}
	r.s.Ev("probe", "o", p, "c", cn.c, "m", m)
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	rsp, err := cn.srv.Call(ctx, name, cn.srv.NewRequest(nil))
	v := 0
	switch {
	case err != nil && strings.HasPrefix(err.Error(), "no such rpc"), err == nil && rsp.Error() != nil && strings.HasPrefix(rsp.Error().Error(), "no such rpc"):
		v = -1
	case err != nil || rsp.Error() != nil:
		v = -2
	default:
		fmt.Sscan(string(rsp.Data()), &v)
	}
	r.s.Ev("probe.ret", "o", p, "v", v)
}

func (r *retry) probes() {
	cn := r.cur()
	if cn == nil {
		return
	}
	var wg sync.WaitGroup
	for _, m := range []string{"a", "b", "c", "hj"} {
		m := m
		wg.Add(1)
		go func() { defer wg.Done(); r.probe(cn, m) }()
	}
	wg.Wait()
}

func (r *retry) lose() {
	r.mu.Lock()
	var cn *rconn
	if n := len(r.conns); n > 0 {
		cn = r.conns[n-1]
	}
	r.mu.Unlock()
	if cn == nil || cn.p == nil {
		return
	}
	if cn.srv != nil && r.rnd.Intn(3) == 0 {
		r.s.Ev("cut", "c", cn.c)
		r.mu.Lock()
		cn.cut = true
		r.mu.Unlock()
		cn.srv.Close()
		return
	}
	cn.p.Cut()
	r.mu.Lock()
	cn.cut = true
	r.mu.Unlock()
}

func retryRun(s *Sys, rnd *rand.Rand) {
	r := &retry{s: s, rnd: rnd}
	o := client.NewEndOptions()
	o.SetLog(s.log(0))
	o.SetDelegate(&rdlg{r: r})
	if rnd.Intn(3) == 0 {
		r.lat = time.Duration(3+rnd.Intn(12)) * time.Millisecond
		if rnd.Intn(2) == 0 {
			r.lat *= 5
		}
	}
	if rnd.Intn(3) == 0 {
		// a timer which outlives the End
		tm := timer.NewTimer()
		defer tm.Close()
		o.SetTimer(tm)
	}
	if rnd.Intn(12) == 0 {
		r.script = []string{pick(rnd, "fail", "refuse", "cut30", "cut31")}
	}
	s.Ev("new")
	re, err := client.NewRetryEndWithDialer(r.dial, o)
	s.Ev("new.ret", "ok", err == nil)
	if err != nil {
		r.wg.Wait()
		time.Sleep(time.Duration(rnd.Intn(2)) * 4 * time.Second)
		s.Ev("end")
		return
	}
	r.re = re
	if rnd.Intn(6) == 0 {
		// the connection may be gone while it's set up
		r.lose()
	}
	inCallback := rnd.Intn(4) == 0
	if inCallback {
		kind := pick(rnd, "call", "pub", "reg")
		cut := pick(rnd, "", "on", "re")
		r.nested = func(on string) {
			if cut == on {
				r.mu.Lock()
				n := len(r.conns)
				r.mu.Unlock()
				if n == 2 {
					r.lose()
				}
			}
			if kind == "reg" {
				r.register("c")
			} else {
				r.op(kind)
			}
		}
	}
	regs := []string{"a", "b", "c", "hj"}
	for i := rnd.Intn(6); i >= 0; i-- {
		r.register(regs[rnd.Intn(4)])
	}
	for _, k := range []string{"recv", "read", "acc"} {
		k := k
		if rnd.Intn(2) == 0 {
			r.bg(func() { r.op(k) })
		}
	}
	losses := 1 + rnd.Intn(3)
	for i := 0; i < losses && !s.Hung(); i++ {
		r.settle()
		r.probes()
		var wg sync.WaitGroup
		for j := rnd.Intn(4); j > 0; j-- {
			k := pick(rnd, "call", "pub", "open", "acall", "apub")
			wg.Add(1)
			r.bg(func() { defer wg.Done(); r.op(k) })
		}
		if rnd.Intn(2) == 0 {
			r.register(regs[rnd.Intn(4)])
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		s.await(done, "operations on a live connection")
		r.mu.Lock()
		for j := rnd.Intn(3); j > 0; j-- {
			r.script = append(r.script, pick(rnd, "fail", "refuse", fmt.Sprintf("cut%d", 10+rnd.Intn(60)), "slow"))
		}
		r.mu.Unlock()
		r.lose()
		// operations while it's down
		for j := rnd.Intn(5); j > 0; j-- {
			k := pick(rnd, "call", "pub", "open", "acall", "apub", "write")
			r.bg(func() {
				time.Sleep(time.Duration(rand.Intn(4500)) * time.Millisecond)
				r.op(k)
			})
		}
		if rnd.Intn(2) == 0 {
			// a registration while they are restored
			m, d := regs[rnd.Intn(4)], time.Duration(rnd.Int63n(int64(4*r.lat+2*time.Millisecond)))
			r.bg(func() {
				r.mu.Lock()
				n := len(r.conns)
				r.mu.Unlock()
				end := time.Now().Add(7 * time.Second)
				for time.Now().Before(end) {
					r.mu.Lock()
					on := r.on > n
					r.mu.Unlock()
					if on {
						time.Sleep(time.Second + d)
						r.register(m)
						break
					}
					time.Sleep(time.Millisecond)
				}
			})
		} else if rnd.Intn(3) == 0 {
			// registrations go on while they are restored
			r.bg(func() {
				time.Sleep(3 * time.Second)
				r.mu.Lock()
				n := len(r.conns)
				r.mu.Unlock()
				end := time.Now().Add(2500 * time.Millisecond)
				for i := 0; time.Now().Before(end); i++ {
					r.mu.Lock()
					back := r.reon >= n-1 && len(r.conns) > n
					r.mu.Unlock()
					r.register(regs[i%4])
					if back {
						break
					}
					time.Sleep(time.Duration(i%3) * time.Millisecond)
				}
			})
		}
		if rnd.Intn(4) == 0 {
			// lost again right after it came back
			time.Sleep(time.Duration(3000+rnd.Intn(1300)) * time.Millisecond)
			r.lose()
		}
		if rnd.Intn(6) == 0 {
			break
		}
	}
	if rnd.Intn(2) == 0 {
		r.settle()
		r.probes()
		r.register(regs[rnd.Intn(4)])
		r.probes()
		if rnd.Intn(2) == 0 && !s.Hung() {
			// closed while it dials
			r.mu.Lock()
			n := len(r.conns)
			r.script = []string{"slow"}
			r.mu.Unlock()
			r.lose()
			d := time.Duration(rnd.Intn(310)) * time.Millisecond
			if rnd.Intn(2) == 0 {
				d = 300*time.Millisecond + time.Duration(rnd.Int63n(int64(r.lat+time.Millisecond)))
			}
			end := time.Now().Add(7 * time.Second)
			for time.Now().Before(end) {
				r.mu.Lock()
				k := len(r.conns)
				r.mu.Unlock()
				if k > n {
					break
				}
				time.Sleep(time.Millisecond)
			}
			time.Sleep(d)
		}
	} else {
		time.Sleep(time.Duration(rnd.Intn(4500)) * time.Millisecond)
	}
	for i := rnd.Intn(2); i >= 0; i-- {
		r.bg(func() {
			s.Ev("close")
			re.Close()
			s.Ev("close.ret")
		})
	}
	done := make(chan struct{})
	go func() { r.wg.Wait(); close(done) }()
	s.await(done, "something of a closed retrying End")
	s.until("the connections of a closed retrying End", func() bool {
		r.mu.Lock()
		defer r.mu.Unlock()
		for _, cn := range r.conns {
			if cn.p != nil && !cn.gone && !cn.cut {
				return false
			}
		}
		return true
	})
	time.Sleep(4 * time.Second)
	s.Ev("end")
}

func init() { scenarios["retry"] = retryRun }
