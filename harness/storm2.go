package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/singchia/geminio"
)

func goAll(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() { defer wg.Done(); f() }()
}

func (s *Sys) quiet(c int) {
	if !s.Hung() {
		s.told(c)
		s.Ev("quiet", "c", c, "raw", true, "msg", true, "prog", false)
	}
}

func sub(rnd *rand.Rand) *rand.Rand { return rand.New(rand.NewSource(rnd.Int63())) }

/************************ heavy load in both directions (C01 C04 C05) ************************/

func scHeavy(s *Sys, rnd *rand.Rand) {
	s.auto = func(h *hinv) ([]byte, []byte, string) { return []byte(fmt.Sprint("r", h.o)), nil, "" }
	cn := s.Dial(1, ConnCfg{Frag: pick(rnd, 0, 0, 3), TCP: rnd.Intn(2) == 0, Cap: pick(rnd, 0, 2000, 20000)})
	if cn == nil {
		return
	}
	ps := cn.pairs(rnd, rnd.Intn(3))
	var wg sync.WaitGroup
	for _, p := range ps {
		for d := 0; d < 2; d++ {
			switch rnd.Intn(3) {
			case 0:
				in := lockedRand(rnd)
				rawFlow(s, rnd, p[d], p[1-d], 150, 1, func() int { return 1 + in(2000) }, func() int { return 4096 }, &wg)
			case 1:
				msgFlow(s, rnd, p[d], p[1-d], msgCfg{n: 150, pubs: 5, recvs: 2, modes: pick(rnd, []string{"sync"}, []string{"async"}, []string{"sync", "async", "amo"})}, &wg)
			case 2:
				if !s.ok(p[1-d].Register("a", "fa"), "register") {
					return
				}
				rpcFlow(s, rnd, p[d], p[1-d], 15, 10, []string{"a"}, &wg)
			}
		}
	}
	wg.Wait()
	s.quiet(1)
	s.Finish(true)
}

/************************ isolation (C02) ************************/

func scIso(s *Sys, rnd *rand.Rand) {
	s.auto = autoReply(rnd)
	nc := 2 + rnd.Intn(2)
	conns := []*Conn{}
	for c := 1; c <= nc; c++ {
		cn := s.Dial(c, ConnCfg{Meta: []byte{byte(c)}, Frag: rnd.Intn(4), TCP: rnd.Intn(4) == 0})
		if cn == nil {
			return
		}
		conns = append(conns, cn)
	}
	var wg sync.WaitGroup
	all := []*End{}
	type cp struct {
		c *Conn
		p [2]*End
	}
	pairs := []cp{}
	for _, cn := range conns {
		for _, p := range cn.pairs(rnd, 1+rnd.Intn(3)) {
			pairs = append(pairs, cp{cn, p})
			all = append(all, p[0], p[1])
		}
	}
	if len(pairs) < nc*2 || s.Hung() {
		return
	}
	victim := rnd.Intn(nc) // one connection, and a stream of another one, end early
	vs := (victim + 1) % nc
	var vstream *[2]*End
	for i := range pairs {
		p := pairs[i].p
		if p[0].c.c == vs+1 && p[0].k != p[0].c.e[0].k && vstream == nil {
			vstream = &pairs[i].p
			continue
		}
		if p[0].c.c == victim+1 {
			continue
		}
		for d := 0; d < 2; d++ {
			a, b := p[d], p[1-d]
			if rnd.Intn(3) > 0 {
				if !s.ok(b.Register("a", fmt.Sprintf("f%d.%d", b.k, b.d)), "register") {
					return
				}
			}
			in := lockedRand(rnd)
			// deadlines on one stream only
			if rnd.Intn(4) == 0 {
				at := s.Now() + 30 + rnd.Intn(100)
				r := sub(rnd)
				goAll(&wg, func() {
					for i := 0; i < 4; i++ {
						a.Deadline("r", at+r.Intn(50)+INF/2)
						a.Deadline("rw", INF)
						time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
					}
				})
			}
			rawFlow(s, rnd, a, b, 5+rnd.Intn(20), 1, func() int { return 1 + in(200) }, func() int { return 1 + in(300) }, &wg)
			msgFlow(s, rnd, a, b, msgCfg{n: 5 + rnd.Intn(20), pubs: 1, recvs: 1, errs: 20, modes: []string{"sync", "async", "amo"}}, &wg)
			rpcFlow(s, rnd, a, b, 4+rnd.Intn(10), 1, []string{"a", "b"}, &wg)
		}
	}
	// mismatched messages and requests
	r := sub(rnd)
	goAll(&wg, func() {
		for i := 0; i < 6; i++ {
			a, b := pick(r, all...), pick(r, all...)
			if a.c.c == victim+1 || b.c.c == victim+1 || (vstream != nil && (a.k == vstream[0].k || b.k == vstream[0].k)) || a.k == b.k {
				continue
			}
			// (the client ids are the same on both sides of a connection)
			o := a.Publish(Pub{Mode: pick(r, "sync", "async", "amo"), Data: []byte("m"), Home: b})
			if !s.ok(o, "mismatched publish") || !s.await(o.comp, "mismatched publish") {
				return
			}
			o = a.Call(Call{Method: "a", Data: []byte("m"), Home: b, Async: r.Intn(2) == 0})
			if !s.ok(o, "mismatched call") || !s.await(o.comp, "mismatched call") {
				return
			}
		}
	})
	time.Sleep(time.Duration(rnd.Intn(8)) * time.Millisecond)
	if vstream != nil {
		o := vstream[rnd.Intn(2)].Close()
		s.ok(o, "close")
	}
	if rnd.Intn(2) == 0 && conns[victim].pipe != nil {
		conns[victim].pipe.Cut()
	} else {
		s.ok(conns[victim].Close(rnd.Intn(2)), "close of the end")
	}
	wg.Wait()
	for c := range conns {
		if c != victim {
			s.quiet(c + 1)
		}
	}
	s.Finish(true)
}

/************************ connection loss (C07) and closes (C12) ************************/

func scLoss(s *Sys, rnd *rand.Rand) {
	lossRun(s, rnd, pick(rnd, "cut", "cutat", "cutat", "eclose", "sclose"))
}
func scEclose(s *Sys, rnd *rand.Rand) {
	lossRun(s, rnd, pick(rnd, "eclose", "eclose2", "eclosemany"))
}

func lossRun(s *Sys, rnd *rand.Rand, how string) {
	s.align = true
	blocked := rnd.Intn(2) == 0
	if !blocked {
		s.auto = autoReply(rnd)
	}
	cn := s.Dial(1, ConnCfg{Meta: []byte("x"), Frag: rnd.Intn(4), Dlg: rnd.Intn(2) == 0, TCP: how != "cut" && how != "cutat" && rnd.Intn(3) == 0})
	if cn == nil {
		return
	}
	other := s.Dial(2, ConnCfg{Meta: []byte("y")})
	if other == nil {
		return
	}
	streams := rnd.Intn(3)
	if how == "eclosemany" {
		streams = 20 + rnd.Intn(60)
	}
	ps := cn.pairs(rnd, streams)
	if ps == nil {
		return
	}
	for _, p := range ps {
		for d := 0; d < 2; d++ {
			if rnd.Intn(2) == 0 || p[0].k == cn.e[0].k {
				if !s.ok(p[d].Register("a", fmt.Sprintf("f%d.%d", p[d].k, d)), "register") {
					return
				}
			}
		}
	}
	var pmu sync.Mutex
	ops := []*Op{}
	add := func(o *Op) *Op {
		pmu.Lock()
		ops = append(ops, o)
		pmu.Unlock()
		return o
	}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	stopped := func() bool {
		select {
		case <-stop:
			return true
		default:
			return s.Hung()
		}
	}
	stall := how == "cut" && rnd.Intn(2) == 0
	// every stream end: something which waits, and traffic until the end
	for i, p := range ps {
		for d := 0; d < 2; d++ {
			a, b := p[d], p[1-d]
			if i > 4 {
				add(a.Read(100))
				continue
			}
			r := sub(rnd)
			switch rnd.Intn(4) {
			case 0:
				add(a.Read(100))
				add(a.Read(10))
			case 1: // raw traffic
				goAll(&wg, func() {
					for !stopped() {
						o := add(b.Read(1 + r.Intn(400)))
						s.ok(o, "read")
						if o.err != "ok" {
							return
						}
					}
				})
				goAll(&wg, func() {
					for n := 0; n < 25 && !stopped(); n++ {
						o := add(a.Write(1 + r.Intn(2000)))
						s.ok(o, "write")
						if o.err != "ok" {
							return
						}
					}
				})
				add(a.Receive(Lim{}))
			case 2:
				add(a.Read(100))
				if r.Intn(2) == 0 {
					add(b.Receive(Lim{}))
				}
				n := 1 + r.Intn(12)
				if r.Intn(4) == 0 {
					n = 20 + r.Intn(13) // no more than a stream queues, see backlog
				}
				for j := 0; j < n; j++ {
					add(a.Publish(Pub{Mode: pick(r, "sync", "async", "amo"), Data: payload(r, j)}))
				}
			case 3:
				add(a.Receive(Lim{}))
			}
			// calls, some with handlers which never return before the end
			for j := 0; j < r.Intn(4); j++ {
				add(a.Call(Call{Method: "a", Data: payload(r, j), Async: r.Intn(2) == 0}))
			}
			if r.Intn(3) == 0 {
				add(b.Register("b", fmt.Sprintf("g%d", b.d)))
			}
		}
	}
	for d := 0; d < 2; d++ {
		for j := 0; j < rnd.Intn(3); j++ {
			add(cn.Accept(d, false))
		}
		for j := 0; j < rnd.Intn(3); j++ {
			add(cn.Open(d, nil, ""))
		}
	}
	pump := make(chan struct{})
	var pwg sync.WaitGroup
	if how == "cutat" && cn.pipe != nil {
		d := rnd.Intn(2)
		cn.pipe.CutAt(d, cn.pipe.Total(d)+rnd.Intn(400))
		// make sure that many bytes go
		goAll(&pwg, func() {
			for i := 0; i < 60; i++ {
				select {
				case <-pump:
					return
				default:
				}
				o := add(ps[0][d].Publish(Pub{Mode: "amo", Data: make([]byte, 16)}))
				s.ok(o, "publish")
				if o.err != "ok" {
					return
				}
				time.Sleep(time.Millisecond)
			}
			cn.pipe.Cut()
		})
	} else {
		time.Sleep(time.Duration(rnd.Intn(6000)) * time.Microsecond)
	}
	if stall {
		d := rnd.Intn(2)
		s.Ev("stall", "c", 1)
		cn.pipe.Stall(d, true)
		r := sub(rnd)
		goAll(&wg, func() {
			for n := 0; n < 40 && !stopped(); n++ {
				add(ps[0][d].Publish(Pub{Mode: pick(r, "sync", "async", "amo"), Data: make([]byte, r.Intn(30000))}))
			}
			for n := 0; n < 5 && !stopped(); n++ {
				add(ps[0][d].Call(Call{Method: "a", Data: make([]byte, r.Intn(30000))}))
			}
		})
		time.Sleep(time.Duration(10+rnd.Intn(20)) * time.Millisecond)
	}
	side := rnd.Intn(2)
	var bwg sync.WaitGroup
	if !stall && how != "sclose" && rnd.Intn(5) == 0 {
		// many streams are being opened at that moment
		d := 1 - side
		n := 40 + rnd.Intn(80)
		for j := 0; j < n; j++ {
			add(cn.Accept(side, false))
		}
		early := rnd.Intn(n)
		goAll(&bwg, func() {
			for j := 0; j < n; j++ {
				add(cn.Open(d, nil, ""))
			}
		})
		time.Sleep(time.Duration(early) * 5 * time.Microsecond)
	}
	switch how {
	case "cut":
		cn.pipe.Cut()
	case "eclose", "eclosemany":
		add(cn.Close(side))
	case "eclose2":
		var g sync.WaitGroup
		for j := 0; j < 2+rnd.Intn(4); j++ {
			d := rnd.Intn(2)
			goAll(&g, func() { add(cn.Close(d)) })
		}
		g.Wait()
	case "sclose":
		// the streams are closed one by one, the connection lives
		for _, p := range ps[1:] {
			d := rnd.Intn(2)
			add(p[d].Close())
			if rnd.Intn(3) == 0 {
				add(p[1-d].Close())
			}
			if rnd.Intn(3) == 0 {
				add(p[d].Close())
			}
		}
	}
	if how == "sclose" {
		// operations of the closed streams end; then the rest
		pmu.Lock()
		live := map[int]bool{}
		_ = live
		pmu.Unlock()
		time.Sleep(5 * time.Millisecond)
		s.closedOps(rnd, ps[1:], true)
		close(stop)
		add(cn.Close(side))
	} else {
		close(stop)
	}
	pwg.Wait()
	bwg.Wait()
	close(pump)
	wg.Wait()
	// everything pending ends
	done := map[int]bool{}
	for {
		pmu.Lock()
		cp := append([]*Op{}, ops...)
		pmu.Unlock()
		n := 0
		for _, o := range cp {
			if done[o.o] {
				continue
			}
			n++
			done[o.o] = true
			if !s.await(o.done, "operation after the loss", "o", o.o) {
				return
			}
			if o.async && !s.await(o.comp, "completion after the loss", "o", o.o) {
				return
			}
		}
		if n == 0 {
			break
		}
	}
	// both sides noticed once their default streams ended
	for d := 0; d < 2; d++ {
		for i := 0; ; i++ {
			o := cn.e[d].Read(1 << 16)
			if !s.ok(o, "read after the loss") {
				return
			}
			if o.err != "ok" {
				break
			}
		}
	}
	for _, p := range ps {
		for d := 0; d < 2; d++ {
			for {
				o := p[d].Read(1 << 16)
				if !s.ok(o, "read after the loss") {
					return
				}
				if o.err != "ok" {
					break
				}
			}
		}
	}
	for d := 0; d < 2; d++ {
		s.Ev("dead", "c", 1, "d", d)
	}
	s.closedOps(rnd, ps, false)
	for d := 0; d < 2; d++ {
		if !s.ok(cn.Open(d, nil, ""), "open on a closed end") {
			return
		}
		for {
			o := cn.Accept(d, false)
			if !s.ok(o, "accept on a closed end") {
				return
			}
			if o.err != "ok" {
				break
			}
		}
	}
	// the other connection isn't harmed
	s.auto = autoReply(rnd)
	s.smoke(rnd, other)
	s.quiet(2)
	s.Finish(true)
}

// closedOps tries operations on ended streams
func (s *Sys) closedOps(rnd *rand.Rand, ps [][2]*End, settle bool) {
	for i, p := range ps {
		if i > 4 {
			return
		}
		for d := 0; d < 2; d++ {
			e := p[d]
			if settle {
				for {
					o := e.Read(1 << 16)
					if !s.ok(o, "read on a closed stream") {
						return
					}
					if o.err != "ok" {
						break
					}
				}
			}
			for j := 0; j < 3; j++ {
				var o *Op
				switch rnd.Intn(6) {
				case 0:
					o = e.Write(rnd.Intn(50) + 1)
				case 1:
					o = e.Publish(Pub{Mode: pick(rnd, "sync", "async", "amo"), Data: []byte("z")})
				case 2:
					o = e.Call(Call{Method: "a", Data: []byte("z"), Async: rnd.Intn(2) == 0})
				case 3:
					o = e.Register("z", "fz")
				case 4:
					o = e.Close()
				case 5:
					for {
						o = e.Receive(Lim{})
						if !s.ok(o, "receive on a closed stream") || o.err != "ok" {
							break
						}
					}
				}
				if !s.ok(o, "operation on a closed stream") {
					return
				}
				if o.async && !s.await(o.comp, "completion on a closed stream", "o", o.o) {
					return
				}
			}
		}
	}
}

// smoke uses a connection in all ways, a little
func (s *Sys) smoke(rnd *rand.Rand, cn *Conn) bool {
	d := rnd.Intn(2)
	a, b := cn.e[d], cn.e[1-d]
	if x, y := cn.OpenPair(rnd, rnd.Intn(2), 77); x != nil {
		if d == 0 {
			a, b = x, y
		} else {
			a, b = y, x
		}
	} else {
		return false
	}
	var wg sync.WaitGroup
	in := lockedRand(rnd)
	rawFlow(s, rnd, a, b, 3, 1, func() int { return 1 + in(50) }, func() int { return 1 + in(50) }, &wg)
	msgFlow(s, rnd, a, b, msgCfg{n: 3, pubs: 1, recvs: 1, modes: []string{"sync", "async"}}, &wg)
	if !s.ok(b.Register("sm", fmt.Sprintf("sm%d", b.k)), "register") {
		return false
	}
	rpcFlow(s, rnd, a, b, 2, 1, []string{"sm"}, &wg)
	wg.Wait()
	return !s.Hung()
}

/************************ limits (C08) ************************/

func scLimit(s *Sys, rnd *rand.Rand) {
	in := lockedRand(rnd)
	s.auto = func(h *hinv) ([]byte, []byte, string) {
		switch in(5) {
		case 0:
		case 4: // a long one
			select {
			case <-h.cend:
				time.Sleep(time.Duration(in(30)) * time.Millisecond)
			case <-time.After(1800 * time.Millisecond):
			}
		case 1:
			time.Sleep(time.Duration(in(250)) * time.Millisecond)
		case 2: // until its context ends, or for long
			select {
			case <-h.cend:
			case <-time.After(time.Duration(300+in(300)) * time.Millisecond):
			}
		case 3:
			time.Sleep(time.Duration(in(30)) * time.Millisecond)
		}
		return []byte(fmt.Sprint("r", h.o)), nil, ""
	}
	cn := s.Dial(1, ConnCfg{Frag: rnd.Intn(3), TCP: rnd.Intn(4) == 0})
	if cn == nil {
		return
	}
	ps := cn.pairs(rnd, rnd.Intn(2))
	var wg sync.WaitGroup
	for _, p := range ps {
		for d := 0; d < 2; d++ {
			a, b := p[d], p[1-d]
			if !s.ok(b.Register("a", fmt.Sprintf("f%d.%d", b.k, b.d)), "register") {
				return
			}
			for w := 0; w < 3; w++ {
				r := sub(rnd)
				goAll(&wg, func() {
					for j := 0; j < 6 && !s.Hung(); j++ {
						l := Lim{}
						switch r.Intn(10) {
						case 6:
							l.Timeout, l.Ctx = 20+r.Intn(200), 3600000
						case 7:
							l.Timeout, l.Ctx = 3600000, 20+r.Intn(200)
						case 8:
							l.Cancel, l.Timeout = true, 3600000
						case 9:
							l.Cancel, l.Ctx = true, 3600000
						case 0:
							l.Timeout = 20 + r.Intn(200)
						case 1:
							l.Ctx = 20 + r.Intn(200)
						case 2:
							l.Timeout, l.Ctx = 20+r.Intn(300), 20+r.Intn(300)
						case 3:
							l.Cancel = true
						case 4:
							l.Cancel = true
							l.Timeout = 100 + r.Intn(200)
						}
						if r.Intn(20) == 0 {
							l.Timeout = -50
						}
						var o *Op
						if r.Intn(2) == 0 {
							o = a.Call(Call{Method: "a", Data: payload(r, j), Async: r.Intn(2) == 0, Lim: l})
						} else {
							o = a.Publish(Pub{Mode: pick(r, "sync", "async"), Data: payload(r, j), Lim: l})
						}
						if l.Cancel {
							n := r.Intn(120)
							if n > 0 {
								time.Sleep(time.Duration(n) * time.Millisecond)
							}
							s.Cancel(o)
						}
						if r.Intn(3) > 0 {
							s.await(o.done, "limited operation", "o", o.o)
							s.await(o.comp, "limited operation", "o", o.o)
						} else {
							goAll(&wg, func() {
								s.await(o.done, "limited operation", "o", o.o)
								s.await(o.comp, "limited operation", "o", o.o)
							})
						}
					}
				})
			}
			// the receiver answers before, around and after the limits
			r := sub(rnd)
			go func() {
				for {
					o := b.Receive(Lim{})
					<-o.done
					if o.err != "ok" {
						return
					}
					n := r.Intn(250)
					switch r.Intn(6) {
					case 0, 1:
						n = 0
					case 2:
						n = 1800
					}
					go func() {
						time.Sleep(time.Duration(n) * time.Millisecond)
						s.Answer(o.m, "")
					}()
				}
			}()
		}
	}
	wg.Wait()
	if s.Hung() {
		return
	}
	// receives with limits
	e := ps[0][0]
	_ = e
	time.Sleep(300 * time.Millisecond)
	s.quiet(1)
	s.Finish(true)
}

// scCtxEnd: a handler must see the end of its caller
func scCtxEnd(s *Sys, rnd *rand.Rand) {
	cn := s.Dial(1, ConnCfg{Frag: rnd.Intn(3)})
	if cn == nil {
		return
	}
	ps := cn.pairs(rnd, rnd.Intn(2))
	var wg sync.WaitGroup
	for _, p := range ps {
		for d := 0; d < 2; d++ {
			a, b := p[d], p[1-d]
			if !s.ok(b.Register("a", fmt.Sprintf("f%d.%d", b.k, b.d)), "register") {
				return
			}
			for j := 0; j < 4; j++ {
				r := sub(rnd)
				l := Lim{}
				switch r.Intn(9) {
				case 4:
					l.Cancel, l.Timeout = true, 3600000
				case 5:
					l.Cancel, l.Ctx = true, 3600000
				case 6:
					l.Cancel, l.Timeout, l.Ctx = true, 7200000, 3600000
				case 7:
					l.Timeout, l.Ctx = 30+r.Intn(200), 3600000
				case 8:
					l.Timeout, l.Ctx = 3600000, 30+r.Intn(200)
				case 0:
					l.Timeout = 30 + r.Intn(200)
				case 1:
					l.Ctx = 30 + r.Intn(200)
				case 2:
					l.Cancel = true
				case 3:
					l.Timeout, l.Ctx = 30+r.Intn(200), 30+r.Intn(200)
				}
				o := a.Call(Call{Method: "a", Data: payload(r, j), Async: r.Intn(2) == 0, Lim: l})
				bystander := a.Call(Call{Method: "a", Data: payload(r, 100+j), Async: r.Intn(2) == 0})
				goAll(&wg, func() {
					h := s.handling(o.o, 5*time.Second)
					if l.Cancel {
						s.Cancel(o)
					}
					s.await(o.done, "limited call", "o", o.o)
					s.await(o.comp, "limited call", "o", o.o)
					if h == nil {
						return // the limit may strike first
					}
					s.await(h.cend, "end of the handler's context", "o", o.o)
					time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
					h.out <- hout{data: []byte("late")}
					// another call isn't ended by that
					g := s.handling(bystander.o, watchdog)
					if g == nil {
						s.Hang("call not handled", "o", bystander.o)
						return
					}
					select {
					case <-g.cend:
					default:
					}
					g.out <- hout{data: []byte(fmt.Sprint("b", bystander.o))}
					s.await(bystander.comp, "call", "o", bystander.o)
				})
			}
		}
	}
	wg.Wait()
	s.quiet(1)
	s.Finish(true)
}

/************************ asynchronous completions (C14) ************************/

func scAsync(s *Sys, rnd *rand.Rand) {
	s.auto = autoReply(rnd)
	loss := rnd.Intn(3) == 0
	cn := s.Dial(1, ConnCfg{Frag: rnd.Intn(4), TCP: !loss && rnd.Intn(3) == 0})
	if cn == nil {
		return
	}
	ps := cn.pairs(rnd, rnd.Intn(3))
	cap := pick(rnd, 4000, 0, 1, 3)
	pubs := make(chan *geminio.Publish, cap)
	calls := make(chan *geminio.Call, cap)
	if cap < 10 {
		s.slow = 2 * time.Millisecond
	}
	go s.DrainPubs(pubs)
	go s.DrainCalls(calls)
	// some completions are looked at when everything else is over
	s.later = make(chan struct{})
	defer func() {
		select {
		case <-s.later:
		default:
			close(s.later)
		}
	}()
	later := rnd.Intn(2) == 0
	var wg sync.WaitGroup
	for _, p := range ps {
		for d := 0; d < 2; d++ {
			a, b := p[d], p[1-d]
			if !s.ok(b.Register("a", fmt.Sprintf("f%d.%d", b.k, b.d)), "register") {
				return
			}
			r := sub(rnd)
			goAll(&wg, func() {
				var pending []*Op
				for j := 0; j < 25; j++ {
					if later && r.Intn(4) == 0 {
						c := Call{Method: "a", Data: payload(r, j), Async: true, Later: true}
						if !s.await(a.Call(c).done, "issue of an asynchronous call") {
							return
						}
						if !s.await(a.Publish(Pub{Mode: "async", Data: payload(r, j), Later: true}).done, "issue of an asynchronous publish") {
							return
						}
					}
					l := Lim{}
					if r.Intn(4) == 0 {
						l.Timeout = 10 + r.Intn(60)
					}
					if r.Intn(6) == 0 {
						l.Cancel = true
					}
					var o *Op
					if r.Intn(2) == 0 {
						c := Call{Method: pick(r, "a", "a", "nope"), Data: payload(r, j), Async: true, Lim: l}
						if r.Intn(2) == 0 {
							c.Chan = calls
						}
						o = a.Call(c)
					} else {
						c := Pub{Mode: "async", Data: payload(r, j), Lim: l}
						if r.Intn(2) == 0 {
							c.Chan = pubs
						}
						o = a.Publish(c)
					}
					if !s.await(o.done, "issue of an asynchronous operation", "o", o.o) {
						return
					}
					if l.Cancel && r.Intn(2) == 0 {
						time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
						s.Cancel(o)
					}
					pending = append(pending, o)
					for len(pending) > 20 {
						s.await(pending[0].comp, "completion", "o", pending[0].o)
						pending = pending[1:]
					}
				}
				for _, o := range pending {
					s.await(o.comp, "completion", "o", o.o)
				}
			})
			in := lockedRand(rnd)
			go func() {
				for {
					o := b.Receive(Lim{})
					<-o.done
					if o.err != "ok" {
						return
					}
					if in(3) == 0 {
						go func() {
							time.Sleep(time.Duration(in(60)) * time.Millisecond)
							s.Answer(o.m, ansTxt(in, 30))
						}()
					} else {
						s.Answer(o.m, ansTxt(in, 30))
					}
				}
			}()
		}
	}
	if loss {
		time.Sleep(time.Duration(rnd.Intn(30)) * time.Millisecond)
		if rnd.Intn(2) == 0 {
			cn.pipe.Cut()
		} else {
			s.ok(cn.Close(rnd.Intn(2)), "close of the end")
		}
	}
	wg.Wait()
	close(s.later)
	time.Sleep(100 * time.Millisecond)
	s.Finish(true)
}

/************************ routing (C06) and remote checks (C15) ************************/

func scRoute(s *Sys, rnd *rand.Rand) { route(s, rnd, false) }
func scCheck(s *Sys, rnd *rand.Rand) { route(s, rnd, true) }

func route(s *Sys, rnd *rand.Rand, check bool) {
	s.auto = autoReply(rnd)
	cfg := ConnCfg{Frag: rnd.Intn(4), Dlg: check || rnd.Intn(2) == 0}
	if check {
		cfg.Check = [2]bool{rnd.Intn(3) > 0, rnd.Intn(3) > 0}
		for d := 0; d < 2; d++ {
			for _, m := range []string{"a", "lm", "x y"} {
				if rnd.Intn(2) == 0 {
					cfg.Local[d] = append(cfg.Local[d], m)
					if rnd.Intn(2) == 0 {
						cfg.Wait[1-d] = append(cfg.Wait[1-d], m)
					}
				}
			}
		}
	}
	if check && rnd.Intn(2) == 0 {
		// one side waits for what the other one registers later, among others
		d := rnd.Intn(2)
		cfg.Wait[d] = nil
		cfg.Stager, cfg.StageGap = d, rnd.Intn(12)
		cfg.Stage = pick(rnd, []string{"z", "bc", "b"}, []string{"b", "z"}, []string{"bc"}, []string{"ab", "z", "b", "bc"})
		n := 1 + rnd.Intn(len(cfg.Stage))
		cfg.Wait[1-d] = append(cfg.Wait[1-d], cfg.Stage[:n]...)
		rnd.Shuffle(len(cfg.Wait[1-d]), func(i, j int) {
			w := cfg.Wait[1-d]
			w[i], w[j] = w[j], w[i]
		})
	}
	cn := s.Dial(1, cfg)
	if cn == nil {
		return
	}
	if len(cfg.Stage) > 0 && !s.until("staged registrations", func() bool { return cn.staged() }) {
		return
	}
	ps := cn.pairs(rnd, rnd.Intn(3))
	methods := []string{"a", "ab", "b", "bc", "z", "lm", "x y"}
	var wg, ewg sync.WaitGroup
	if cfg.Dlg && rnd.Intn(3) > 0 {
		// each learns of a method and calls it at once
		r := lockedRand(rnd)
		cn.emu.Lock()
		cn.eager = func(d, k int, method string) {
			for _, p := range ps {
				if e := p[d]; e.k == k {
					async := r(3) == 0
					ewg.Add(1)
					go func() {
						defer ewg.Done()
						o := e.Call(Call{Method: method, Data: []byte("e"), Async: async})
						s.await(o.comp, "call", "o", o.o)
					}()
				}
			}
		}
		cn.emu.Unlock()
	}
	for _, p := range ps {
		for d := 0; d < 2; d++ {
			e, peer := p[d], p[1-d]
			r := sub(rnd)
			goAll(&wg, func() { // registrations and hijacks, one after the other
				for j := 0; j < 8; j++ {
					var o *Op
					if r.Intn(5) > 0 {
						m := pick(r, methods[:5]...)
						o = e.Register(m, fmt.Sprintf("f%d.%d.%s.%d", e.k, e.d, m, j))
					} else {
						o = e.Hijack(fmt.Sprintf("h%d.%d.%d", e.k, e.d, j), pick(r, "^a", "^b", "b", "^ab$", "q"), pick(r, "all", "match", "match", "non", "non"))
					}
					if !s.ok(o, "registration") {
						return
					}
					time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				}
			})
			rpcFlow(s, rnd, peer, e, 20, 1, methods, &wg)
		}
	}
	wg.Wait()
	cn.emu.Lock()
	cn.eager = nil
	cn.emu.Unlock()
	ewg.Wait()
	// and once more with all settled
	for _, p := range ps {
		for d := 0; d < 2; d++ {
			for _, m := range methods {
				o := p[d].Call(Call{Method: m, Data: []byte("s"), Async: rnd.Intn(2) == 0})
				if !s.await(o.comp, "call", "o", o.o) {
					return
				}
			}
		}
	}
	if cfg.Dlg {
		time.Sleep(20 * time.Millisecond)
	}
	s.quiet(1)
	s.Finish(true)
}

/************************ opening and accepting (C10 C20) ************************/

func scOpen(s *Sys, rnd *rand.Rand) {
	s.auto = autoReply(rnd)
	cfg := ConnCfg{Meta: randMeta(rnd, 3), Frag: rnd.Intn(4), Dlg: rnd.Intn(2) == 0, AccFn: rnd.Intn(3) == 0, TCP: rnd.Intn(5) == 0}
	var mu sync.Mutex
	ends := map[int]*[2]*End{}
	cond := sync.NewCond(&mu)
	early := lockedRand(rnd)
	var ewg sync.WaitGroup
	var cn *Conn
	got := func(e *End, opener bool) {
		mu.Lock()
		p := ends[e.k]
		if p == nil {
			p = &[2]*End{}
			ends[e.k] = p
		}
		p[e.d] = e
		cond.Broadcast()
		mu.Unlock()
		// traffic at once
		ewg.Add(1)
		go func() {
			defer ewg.Done()
			if early(3) > 0 {
				s.ok(e.Write(1+early(100)), "write")
			}
			switch early(3) {
			case 0:
				s.ok(e.Publish(Pub{Mode: "amo", Data: []byte{byte(e.k)}}), "publish")
			case 1:
				s.ok(e.Publish(Pub{Mode: "async", Data: []byte{byte(e.k)}}), "publish")
			}
		}()
	}
	cfg.onAccept = func(e *End) { got(e, false) }
	cn = s.Dial(1, cfg)
	if cn == nil {
		return
	}
	var wg sync.WaitGroup
	n := [2]int{rnd.Intn(12), rnd.Intn(12)}
	for d := 0; d < 2; d++ {
		accs := n[1-d]
		if cfg.AccFn && d == 1 {
			accs = 0
		}
		for w := 0; w < 2; w++ {
			k := accs / 2
			if w == 1 {
				k = accs - accs/2
			}
			r := sub(rnd)
			goAll(&wg, func() {
				for j := 0; j < k; j++ {
					o := cn.Accept(d, r.Intn(2) == 0)
					if !s.ok(o, "accept") || o.st == nil {
						return
					}
					got(o.st, false)
				}
			})
		}
		for w := 0; w < 3; w++ {
			k := n[d] / 3
			if w == 2 {
				k = n[d] - 2*(n[d]/3)
			}
			r := sub(rnd)
			goAll(&wg, func() {
				for j := 0; j < k; j++ {
					o := cn.Open(d, randMeta(r, j), pick(r, peers...))
					if !s.ok(o, "open") || o.st == nil {
						return
					}
					got(o.st, true)
				}
			})
		}
	}
	wg.Wait()
	if s.Hung() {
		return
	}
	// both ends of all
	if !s.until("accept callback", func() bool {
		mu.Lock()
		defer mu.Unlock()
		if len(ends) != n[0]+n[1] {
			return false
		}
		for _, p := range ends {
			if p[0] == nil || p[1] == nil {
				return false
			}
		}
		return true
	}) {
		return
	}
	ewg.Wait()
	want := map[int]bool{cn.e[0].k: true}
	for k, p := range ends {
		want[k] = true
		for d := 0; d < 2; d++ {
			e := p[d]
			// what was sent at once arrives
			for p[1-d].woff > e.roff {
				if !s.ok(e.Read(64), "read of early data") {
					return
				}
			}
			mu.Lock()
			mu.Unlock()
		}
	}
	// early messages
	s.Rec.mu.Lock()
	s.Rec.mu.Unlock()
	for _, p := range ends {
		for d := 0; d < 2; d++ {
			for _, o := range s.opsOf(p[d], "p") {
				_ = o
				m := p[1-d].Receive(Lim{})
				if !s.ok(m, "receive of an early message") {
					return
				}
				s.Answer(m.m, "")
			}
		}
	}
	for d := 0; d < 2; d++ {
		cn.List(d, want)
	}
	// some are closed; ids of the live ones stay apart
	var closing []*Op
	for k, p := range ends {
		if rnd.Intn(3) == 0 {
			d := rnd.Intn(2)
			closing = append(closing, p[d].Close())
			delete(want, k)
			if rnd.Intn(3) == 0 {
				closing = append(closing, p[1-d].Close())
			}
		}
	}
	for _, o := range closing {
		s.ok(o, "close")
	}
	for d := 0; d < 2; d++ {
		cn.List(d, want)
	}
	for k, p := range ends {
		if want[k] && rnd.Intn(2) == 0 {
			var fw sync.WaitGroup
			rawFlow(s, rnd, p[0], p[1], 2, 1, func() int { return 5 }, func() int { return 5 }, &fw)
			rawFlow(s, rnd, p[1], p[0], 2, 1, func() int { return 5 }, func() int { return 5 }, &fw)
			fw.Wait()
		}
	}
	s.quiet(1)
	s.Finish(true)
}

// scOpenLate: more streams than the other side accepts for a while
func scOpenLate(s *Sys, rnd *rand.Rand) {
	s.auto = autoReply(rnd)
	cn := s.Dial(1, ConnCfg{Frag: rnd.Intn(4), Dlg: rnd.Intn(2) == 0})
	if cn == nil {
		return
	}
	d := rnd.Intn(2)
	n := 30 + rnd.Intn(40)
	opens := []*Op{}
	for i := 0; i < n; i++ {
		opens = append(opens, cn.Open(d, randMeta(rnd, i), pick(rnd, peers...)))
	}
	time.Sleep(time.Duration(rnd.Intn(60)) * time.Millisecond)
	var ends [2]map[int]*End
	ends[0], ends[1] = map[int]*End{}, map[int]*End{}
	for i := 0; i < n; i++ {
		o := cn.Accept(1-d, rnd.Intn(2) == 0)
		if !s.ok(o, "accept of an opened stream") || o.st == nil {
			return
		}
		ends[1-d][o.st.k] = o.st
	}
	want := map[int]bool{cn.e[0].k: true}
	for _, o := range opens {
		if !s.ok(o, "open") || o.st == nil {
			return
		}
		ends[d][o.st.k] = o.st
		want[o.st.k] = true
	}
	cn.List(0, want)
	cn.List(1, want)
	var wg sync.WaitGroup
	for k, e := range ends[d] {
		if p := ends[1-d][k]; p != nil && rnd.Intn(4) == 0 {
			rawFlow(s, rnd, e, p, 2, 1, func() int { return 5 }, func() int { return 5 }, &wg)
			rawFlow(s, rnd, p, e, 2, 1, func() int { return 5 }, func() int { return 5 }, &wg)
		}
	}
	wg.Wait()
	s.quiet(1)
	s.Finish(true)
}

// scOpenClose: streams closed the moment they're there
func scOpenClose(s *Sys, rnd *rand.Rand) {
	s.auto = autoReply(rnd)
	in := lockedRand(rnd)
	var mu sync.Mutex
	closes := []*Op{}
	live := map[int]bool{}
	closeIt := func(e *End) {
		o := e.Close()
		mu.Lock()
		closes = append(closes, o)
		live[e.k] = false
		mu.Unlock()
		if in(3) == 0 {
			s.ok(o, "close of a new stream")
		}
	}
	acc := func(e *End) {
		mu.Lock()
		if _, ok := live[e.k]; !ok {
			live[e.k] = true
		}
		mu.Unlock()
		if in(2) == 0 {
			closeIt(e)
		}
	}
	cfg := ConnCfg{Frag: rnd.Intn(4), Dlg: rnd.Intn(3) > 0, AccFn: rnd.Intn(2) == 0, TCP: rnd.Intn(5) == 0, onAccept: acc}
	cn := s.Dial(1, cfg)
	if cn == nil {
		return
	}
	var wg sync.WaitGroup
	for d := 0; d < 2; d++ {
		n := 4 + rnd.Intn(12)
		goAll(&wg, func() {
			for i := 0; i < n; i++ {
				o := cn.Open(d, []byte{byte(i), byte(d)}, "")
				if !s.ok(o, "open") || o.st == nil {
					return
				}
				acc(o.st)
			}
		})
		if d == 0 && cfg.AccFn {
			continue
		}
		goAll(&wg, func() {
			for i := 0; i < n; i++ {
				o := cn.Accept(1-d, in(2) == 0)
				if !s.ok(o, "accept") || o.st == nil {
					return
				}
				acc(o.st)
			}
		})
	}
	wg.Wait()
	if s.Hung() {
		return
	}
	time.Sleep(5 * time.Millisecond)
	mu.Lock()
	cs := append([]*Op{}, closes...)
	mu.Unlock()
	for _, o := range cs {
		if !s.ok(o, "close of a new stream") {
			return
		}
	}
	want := map[int]bool{cn.e[0].k: true}
	mu.Lock()
	for k, ok := range live {
		if ok {
			want[k] = true
		}
	}
	mu.Unlock()
	cn.List(0, want)
	cn.List(1, want)
	if cfg.AccFn {
		s.quiet(1)
	} else if s.smoke(rnd, cn) {
		s.quiet(1)
	}
	s.Finish(true)
}

func (s *Sys) opsOf(e *End, kind string) []int {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := []int{}
	for o, x := range s.ops {
		if x.msg != nil && x.m == 0 && x.pub == e {
			out = append(out, o)
		}
	}
	return out
}

/************************ closing streams (C11) ************************/

func scSclose(s *Sys, rnd *rand.Rand) {
	s.align = true
	s.auto = autoReply(rnd)
	cn := s.Dial(1, ConnCfg{Frag: rnd.Intn(4), Dlg: rnd.Intn(2) == 0, TCP: rnd.Intn(5) == 0})
	if cn == nil {
		return
	}
	ps := cn.pairs(rnd, 2+rnd.Intn(4))
	if ps == nil {
		return
	}
	want := map[int]bool{ps[0][0].k: true}
	var wg sync.WaitGroup
	// one stream has traffic all the time
	in := lockedRand(rnd)
	live := ps[1]
	want[live[0].k] = true
	for d := 0; d < 2; d++ {
		rawFlow(s, rnd, live[d], live[1-d], 40, 1, func() int { return 1 + in(500) }, func() int { return 600 }, &wg)
		msgFlow(s, rnd, live[d], live[1-d], msgCfg{n: 20, pubs: 1, recvs: 1, modes: []string{"sync", "async"}}, &wg)
	}
	for _, p := range ps[2:] {
		p := p
		r := sub(rnd)
		goAll(&wg, func() { s.closeStream(r, p) })
	}
	wg.Wait()
	if s.Hung() {
		return
	}
	for d := 0; d < 2; d++ {
		cn.List(d, want)
	}
	// streams opened later work in full
	if !s.smoke(rnd, cn) {
		return
	}
	s.quiet(1)
	s.Finish(true)
}

// closeStream: data, then a close, which the other side must see after all of it
func (s *Sys) closeStream(rnd *rand.Rand, p [2]*End) {
	d := rnd.Intn(2)
	a, b := p[d], p[1-d]
	var pend []*Op
	readers := rnd.Intn(3)
	early := rnd.Intn(2) == 0
	if early {
		for i := 0; i < readers; i++ {
			pend = append(pend, b.Read(64))
		}
		if rnd.Intn(2) == 0 {
			pend = append(pend, b.Receive(Lim{}))
		}
		if rnd.Intn(2) == 0 {
			pend = append(pend, a.Read(10), a.Receive(Lim{}))
		}
	}
	n := rnd.Intn(25)
	for i := 0; i < n; i++ {
		if !s.ok(a.Write(1+rnd.Intn(3000)), "write") {
			return
		}
	}
	m := rnd.Intn(12)
	if rnd.Intn(4) == 0 {
		m = 30 + rnd.Intn(80)
	}
	for i := 0; i < m; i++ {
		if !s.ok(a.Publish(Pub{Mode: pick(rnd, "async", "amo"), Data: payload(rnd, i)}), "publish") {
			return
		}
	}
	if rnd.Intn(4) == 0 {
		for i := 0; i < rnd.Intn(3); i++ {
			pend = append(pend, b.Publish(Pub{Mode: "sync", Data: payload(rnd, i)}))
			pend = append(pend, b.Call(Call{Method: "none", Data: payload(rnd, i)}))
		}
	}
	both := rnd.Intn(4) == 0
	var wg sync.WaitGroup
	for i := 0; i < 1+rnd.Intn(3); i++ {
		goAll(&wg, func() { s.ok(a.Close(), "close") })
	}
	if both {
		goAll(&wg, func() { s.ok(b.Close(), "close") })
	}
	wg.Wait()
	for _, e := range []*End{b, a} {
		read := func() bool {
			for {
				o := e.Read(1 + rnd.Intn(4000))
				if !s.ok(o, "read after a close") {
					return false
				}
				if o.err != "ok" {
					return true
				}
			}
		}
		// messages beyond what a stream queues keep its end from its readers, see backlog
		if m <= 32 && !read() {
			return
		}
		for {
			o := e.Receive(Lim{})
			if !s.ok(o, "receive after a close") {
				return
			}
			if o.err != "ok" {
				break
			}
			if rnd.Intn(2) == 0 {
				s.Answer(o.m, "")
			}
		}
		if m > 32 && !read() {
			return
		}
	}
	for _, o := range pend {
		if !s.await(o.done, "operation on a closed stream", "o", o.o) {
			return
		}
	}
	if both || rnd.Intn(2) == 0 {
		if !s.ok(b.Close(), "close") {
			return
		}
	}
	s.closedOps(rnd, [][2]*End{p}, false)
}

/************************ known findings ************************/

// scBacklogRaw: more packets of raw bytes than a stream queues, nobody reading
func scBacklogRaw(s *Sys, rnd *rand.Rand) {
	cn := s.Dial(1, ConnCfg{})
	if cn == nil {
		return
	}
	ps := cn.pairs(rnd, 1)
	if ps == nil {
		return
	}
	d := rnd.Intn(2)
	a, b := ps[1][d], ps[1][1-d]
	for i := 0; i < 40; i++ {
		if !s.ok(a.Write(8), "write") {
			return
		}
	}
	time.Sleep(1500 * time.Millisecond)
	for b.roff < a.woff {
		b.Deadline("r", s.Now()+300)
		o := b.Read(8)
		if !s.ok(o, "read") || o.err != "ok" {
			return
		}
	}
}

// scBacklogCut: more messages than a connection queues, nobody receiving, and the transport lost
func scBacklogCut(s *Sys, rnd *rand.Rand)    { backlog(s, rnd, -1) }
func scBacklogClose(s *Sys, rnd *rand.Rand)  { backlog(s, rnd, 0) }
func scBacklogPeer(s *Sys, rnd *rand.Rand)   { backlog(s, rnd, 1) }
func scBacklogSmall(s *Sys, rnd *rand.Rand)  { backlog(s, rnd, 2) }
func scBacklogStream(s *Sys, rnd *rand.Rand) { backlog(s, rnd, 3) }
func scBacklogSPeer(s *Sys, rnd *rand.Rand)  { backlog(s, rnd, 4) }

func backlog(s *Sys, rnd *rand.Rand, who int) {
	cn := s.Dial(1, ConnCfg{})
	if cn == nil {
		return
	}
	ps := cn.pairs(rnd, 1)
	if ps == nil {
		return
	}
	d := rnd.Intn(2)
	a := ps[1][d]
	n := 400
	if who > 1 {
		n = 60
	}
	for i := 0; i < n; i++ {
		o := a.Publish(Pub{Mode: "amo", Data: payload(rnd, i)})
		select {
		case <-o.done:
			continue
		case <-time.After(100 * time.Millisecond):
		}
		break
	}
	o := ps[0][1-d].Read(10)
	if who > 1 {
		o = ps[1][1-d].Read(10)
	}
	time.Sleep(100 * time.Millisecond)
	switch who {
	case -1, 2:
		cn.pipe.Cut()
	case 3:
		s.ok(ps[1][1-d].Close(), "close")
	case 4:
		s.ok(ps[1][d].Close(), "close")
	case 0: // by the receiver
		s.ok(cn.Close(1-d), "close")
	case 1:
		s.ok(cn.Close(d), "close")
	}
	s.await(o.done, "read beside a backlog", "o", o.o)
}

/************************ deadlines (C13) ************************/

func scDeadline(s *Sys, rnd *rand.Rand) {
	s.align = true
	cn := s.Dial(1, ConnCfg{Frag: rnd.Intn(4)})
	if cn == nil {
		return
	}
	ps := cn.pairs(rnd, 1+rnd.Intn(2))
	if ps == nil {
		return
	}
	var wg sync.WaitGroup
	// a stream which was closed before mustn't take timers along
	if rnd.Intn(2) == 0 && len(ps) > 2 {
		p := ps[len(ps)-1]
		p[0].Deadline("rw", s.Now()+40)
		s.ok(p[rnd.Intn(2)].Close(), "close")
		ps = ps[:len(ps)-1]
	}
	for _, p := range ps {
		for d := 0; d < 2; d++ {
			a, b := p[d], p[1-d]
			r := sub(rnd)
			goAll(&wg, func() { s.deadlines(r, a, b) })
		}
	}
	wg.Wait()
	s.quiet(1)
	s.Finish(true)
}

// deadlines of the reads of a, and writes of b
func (s *Sys) deadlines(r *rand.Rand, a, b *End) {
	pend := []*Op{}
	set := INF
	for j := 0; j < 12 && !s.Hung(); j++ {
		which := pick(r, "r", "r", "r")
		switch r.Intn(9) {
		case 0, 1:
			set = s.Now() + 20 + r.Intn(150)
			a.Deadline(which, set)
		case 2:
			set = s.Now() - r.Intn(1000) - 1
			a.Deadline(which, set)
		case 3:
			set = INF
			a.Deadline(which, set)
		case 4: // far away
			set = s.Now() + 3600000
			a.Deadline(which, set)
		case 5, 6:
			if len(pend) < 3 {
				pend = append(pend, a.Read(1+r.Intn(40)))
			}
		case 7:
			// within the receive queue
			if b.woff-a.roff < 1000 {
				o := b.Write(1 + r.Intn(60))
				if !s.await(o.done, "write", "o", o.o) {
					return
				}
			}
		case 8:
			a.Deadline("w", pick(r, s.Now()-5, s.Now()+50, INF))
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(120)) * time.Millisecond)
		}
		live := pend[:0]
		for _, o := range pend {
			select {
			case <-o.done:
			default:
				live = append(live, o)
			}
		}
		pend = live
	}
	// a deadline ends all of them
	at := s.Now() + pick(r, -10, 30, 60)
	a.Deadline("r", at)
	for _, o := range pend {
		if !s.await(o.done, "read with a deadline", "o", o.o) {
			return
		}
	}
	// cleared, everything written is still there
	a.Deadline("r", INF)
	b.Deadline("w", INF)
	for {
		b.wmu.Lock()
		w := b.woff
		b.wmu.Unlock()
		a.rmu.Lock()
		n := a.roff
		a.rmu.Unlock()
		if n >= w {
			break
		}
		if !s.ok(a.Read(4096), "read after clearing the deadline") {
			return
		}
	}
}

// spin waits until t
func spin(t time.Time) {
	for time.Now().Before(t) {
		if time.Until(t) > 200*time.Microsecond {
			time.Sleep(50 * time.Microsecond)
		}
	}
}

// scDlRace has deadlines meet the data, and their being moved
func scDlRace(s *Sys, rnd *rand.Rand) {
	s.align = true
	cn := s.Dial(1, ConnCfg{})
	if cn == nil {
		return
	}
	ps := cn.pairs(rnd, 1)
	if ps == nil {
		return
	}
	p, d := ps[rnd.Intn(len(ps))], rnd.Intn(2)
	a, b := p[d], p[1-d]
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for i := rnd.Intn(4); i > 0; i-- {
		goAll(&wg, func() {
			for {
				select {
				case <-stop:
					return
				default:
					a.st.SetWriteDeadline(time.Time{}) // it has none
				}
			}
		})
	}
	defer wg.Wait()
	defer close(stop)
	write := func() bool {
		o := b.Write(8)
		return s.await(o.done, "write", "o", o.o)
	}
	for i := 0; i < 30 && !s.Hung(); i++ {
		at := s.Now() + 2 + rnd.Intn(3)
		a.Deadline("r", at)
		var pend *Op
		if rnd.Intn(2) == 0 {
			pend = a.Read(16)
		}
		switch rnd.Intn(3) {
		case 0: // moved when it's due
			spin(s.At(at).Add(time.Duration(rnd.Intn(120)-40) * time.Microsecond))
			a.Deadline("r", pick(rnd, INF, s.Now()+3600000))
			if pend != nil {
				time.Sleep(time.Duration(rnd.Intn(2000)) * time.Microsecond)
			}
			o := a.Read(16) // mustn't time out
			time.Sleep(time.Duration(rnd.Intn(2000)) * time.Microsecond)
			if !write() {
				return
			}
			if pend != nil {
				// one of them gets it
				select {
				case <-o.done:
					if !write() {
						return
					}
				case <-pend.done:
					if pend.err == "ok" && !write() {
						return
					}
				case <-time.After(15 * time.Second):
				}
				if !s.await(pend.done, "read", "o", pend.o) {
					return
				}
			}
			if !s.ok(o, "read") {
				return
			}
		case 1: // data come when it's due
			if pend == nil {
				pend = a.Read(16)
			}
			spin(s.At(at).Add(time.Duration(rnd.Intn(500)-400) * time.Microsecond))
			if !write() || !s.await(pend.done, "read", "o", pend.o) {
				return
			}
		case 2: // read when it's due
			if !write() {
				return
			}
			spin(s.At(at).Add(time.Duration(rnd.Intn(120)-60) * time.Microsecond))
			o := a.Read(16)
			if pend == nil || pend.err != "ok" {
				if !s.await(o.done, "read", "o", o.o) {
					return
				}
			}
			if pend != nil && !s.await(pend.done, "read", "o", pend.o) {
				return
			}
			if !s.await(o.done, "read", "o", o.o) {
				return
			}
		}
		a.Deadline("r", INF)
		for a.roff < b.woff {
			if !s.ok(a.Read(4096), "read after clearing the deadline") {
				return
			}
		}
	}
	s.quiet(1)
	s.Finish(true)
}

// write deadlines, with a transport which is stuck
func scWDeadline(s *Sys, rnd *rand.Rand) {
	cn := s.Dial(1, ConnCfg{Cap: 4000})
	if cn == nil {
		return
	}
	ps := cn.pairs(rnd, 1)
	if ps == nil {
		return
	}
	d := rnd.Intn(2)
	a, b := ps[1][d], ps[1][1-d]
	s.Ev("stall", "c", 1)
	cn.pipe.Stall(d, true)
	// until it blocks
	var blocked []*Op
	wrote := 0
	a.Deadline("w", INF)
	for i := 0; i < 400; i++ {
		if rnd.Intn(10) == 0 {
			a.Deadline("w", s.Now()+3600000)
		}
		o := a.Write(3000)
		select {
		case <-o.done:
			wrote++
			continue
		case <-time.After(150 * time.Millisecond):
		}
		blocked = append(blocked, o)
		break
	}
	if len(blocked) == 0 {
		return
	}
	switch rnd.Intn(3) {
	case 0:
		a.Deadline(pick(rnd, "w", "rw"), s.Now()+80)
	case 1:
		a.Deadline(pick(rnd, "w", "rw"), s.Now()-10)
	case 2:
		a.Deadline("w", s.Now()+400)
		a.Deadline("w", s.Now()+60)
	}
	if !s.await(blocked[0].done, "write with a deadline", "o", blocked[0].o) {
		return
	}
	// later ones, too, and other streams aren't affected
	o := a.Write(10)
	if !s.await(o.done, "write with a deadline", "o", o.o) {
		return
	}
	a.Deadline(pick(rnd, "w", "rw"), INF)
	// several at once
	if rnd.Intn(2) == 0 {
		many := []*Op{}
		for i := 2 + rnd.Intn(3); i > 0; i-- {
			many = append(many, a.Write(1+rnd.Intn(3000)))
		}
		time.Sleep(time.Duration(rnd.Intn(20)) * time.Millisecond)
		a.Deadline(pick(rnd, "w", "rw"), s.Now()+pick(rnd, -5, 20, 40))
		for _, o := range many {
			if !s.await(o.done, "write with a deadline", "o", o.o) {
				return
			}
		}
		a.Deadline("rw", INF)
	}
	// let through no more than the reader reads, which has a queue of 32 packets
	frames := func(n int) int { return n * (14 + 8 + 3000) }
	let := 0
	// room for it just when it is due
	for i := rnd.Intn(13); i > 0; i-- {
		at := s.Now() + 4
		a.Deadline("w", at)
		o := a.Write(3000)
		spin(s.At(at).Add(time.Duration(rnd.Intn(400)-250) * time.Microsecond))
		cn.pipe.Allow(d, frames(1))
		let++
		if !s.await(o.done, "write with a deadline", "o", o.o) {
			return
		}
		a.Deadline(pick(rnd, "w", "rw"), INF)
		if o.err == "timeout" {
			o = a.Write(3000)
			select {
			case <-o.done:
			case <-time.After(100 * time.Millisecond):
				cn.pipe.Allow(d, frames(1))
				let++
			}
			if !s.await(o.done, "write", "o", o.o) {
				return
			}
		}
	}
	for end := (let - 2) * 3000; b.roff < end; {
		if !s.ok(b.Read(1<<16), "read") {
			return
		}
	}
	for b.roff < a.woff && !s.Hung() {
		cn.pipe.Allow(d, frames(20))
		let += 20
		for end := (let - 2) * 3000; b.roff < end && b.roff < a.woff; {
			if !s.ok(b.Read(1<<16), "read") {
				return
			}
		}
		if a.woff-b.roff < 12*3000 {
			cn.pipe.Stall(d, false)
		}
	}
	cn.pipe.Stall(d, false)
	o = a.Write(10)
	s.ok(o, "write")
	s.ok(b.Read(100), "read")
	s.quiet(1)
	s.Finish(true)
}

// scCloseFull: a close finds the queues of the stream full
func scCloseFull(s *Sys, rnd *rand.Rand) {
	cn := s.Dial(1, ConnCfg{Cap: 4000})
	if cn == nil {
		return
	}
	ps := cn.pairs(rnd, 1)
	if ps == nil {
		return
	}
	d := rnd.Intn(2)
	a, b := ps[1][d], ps[1][1-d]
	s.Ev("stall", "c", 1)
	cn.pipe.Stall(d, true)
	// until it blocks
	size := 1 + rnd.Intn(3000)
	ops := []*Op{}
	for i := 0; i < 2000; i++ {
		o := a.Publish(Pub{Mode: "amo", Data: payload(rnd, i+size)})
		ops = append(ops, o)
		select {
		case <-o.done:
			continue
		case <-time.After(60 * time.Millisecond):
		}
		break
	}
	c := a.Close()
	if rnd.Intn(2) == 0 {
		ops = append(ops, a.Publish(Pub{Mode: "amo", Data: payload(rnd, 1)}))
	}
	if rnd.Intn(2) == 0 {
		ops = append(ops, a.Close())
	}
	time.Sleep(time.Duration(rnd.Intn(40)) * time.Millisecond)
	cn.pipe.Stall(d, false)
	for !s.Hung() {
		o := b.Receive(Lim{})
		if !s.await(o.done, "receive of what was published before the close", "o", o.o) {
			return
		}
		if o.err != "ok" {
			break
		}
	}
	for _, o := range append(ops, c) {
		if !s.await(o.done, "operation on a closed stream", "o", o.o) {
			return
		}
	}
	// the other streams go on
	e := ps[0][d]
	if !s.ok(e.Publish(Pub{Mode: "amo", Data: payload(rnd, 5)}), "publish") || !s.ok(ps[0][1-d].Receive(Lim{}), "receive") {
		return
	}
	s.Finish(true)
}

func init() {
	scenarios["heavy"] = scHeavy
	scenarios["closefull"] = scCloseFull
	scenarios["iso"] = scIso
	scenarios["loss"] = scLoss
	scenarios["eclose"] = scEclose
	scenarios["limit"] = scLimit
	scenarios["ctxend"] = scCtxEnd
	scenarios["async"] = scAsync
	scenarios["route"] = scRoute
	scenarios["check"] = scCheck
	scenarios["open"] = scOpen
	scenarios["openlate"] = scOpenLate
	scenarios["openclose"] = scOpenClose
	scenarios["sclose"] = scSclose
	scenarios["deadline"] = scDeadline
	scenarios["wdeadline"] = scWDeadline
	scenarios["dlrace"] = scDlRace
	scenarios["backlograw"] = scBacklogRaw
	scenarios["backlogcut"] = scBacklogCut
	scenarios["backlogclose"] = scBacklogClose
	scenarios["backlogpeer"] = scBacklogPeer
	scenarios["backlogsmall"] = scBacklogSmall
	scenarios["backlogstream"] = scBacklogStream
	scenarios["backlogspeer"] = scBacklogSPeer
}
