package main

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"
)

func pick[T any](rnd *rand.Rand, xs ...T) T { return xs[rnd.Intn(len(xs))] }

func (s *Sys) ok(o *Op, what string) bool { return s.await(o.done, what, "o", o.o) }

var metas = [][]byte{nil, {}, []byte("m"), []byte("meta data"), {0, 255, 1, 128, 10, 34, 92}, []byte(`{"a":1}`)}
var peers = []string{"", "p", "peer/1", "ü\"\\ "}

func randMeta(rnd *rand.Rand, n int) []byte {
	if rnd.Intn(4) == 0 {
		return pick(rnd, metas...)
	}
	b := make([]byte, rnd.Intn(40))
	rnd.Read(b)
	return append(b, byte(n>>8), byte(n))
}

// OpenPair opens a stream from side d and accepts it at the other side
func (cn *Conn) OpenPair(rnd *rand.Rand, d int, n int) (a, b *End) {
	s := cn.s
	acc := cn.Accept(1-d, rnd.Intn(2) == 0)
	op := cn.Open(d, randMeta(rnd, n), pick(rnd, peers...))
	if !s.ok(op, "open") || !s.ok(acc, "accept") || op.st == nil || acc.st == nil {
		return nil, nil
	}
	var out [2]*End
	out[d] = op.st
	out[1-d] = acc.st
	return out[0], out[1]
}

// pairs makes n streams and adds the default one, as pairs of ends
func (cn *Conn) pairs(rnd *rand.Rand, n int) [][2]*End {
	out := [][2]*End{{cn.e[0], cn.e[1]}}
	for i := 0; i < n; i++ {
		a, b := cn.OpenPair(rnd, rnd.Intn(2), i)
		if a == nil {
			return nil
		}
		out = append(out, [2]*End{a, b})
	}
	return out
}

/************************ raw ************************/

// flow moves bytes from w to r, keeping few unread packets
type flow struct {
	mu   sync.Mutex
	cond *sync.Cond
	ends []int
	read int
}

func (f *flow) outstanding() int {
	n := 0
	for _, x := range f.ends {
		if x > f.read {
			n++
		}
	}
	return n
}

func rawFlow(s *Sys, rnd *rand.Rand, w, r *End, packets, readers int, sizes func() int, bufs func() int, wg *sync.WaitGroup) {
	f := &flow{}
	f.cond = sync.NewCond(&f.mu)
	in := lockedRand(rnd)
	window := 1 + rnd.Intn(28)
	sz := make([]int, packets)
	total := 0
	al := s.align || readers > 1
	for i := range sz {
		sz[i] = sizes()
		if al {
			sz[i] = up8(sz[i])
		}
		total += sz[i]
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		off := 0
		for _, n := range sz {
			f.mu.Lock()
			for f.outstanding() >= window && !s.Hung() {
				f.cond.Wait()
			}
			off += n
			f.ends = append(f.ends, off)
			f.mu.Unlock()
			o := w.Write(n)
			if !s.ok(o, "write") || o.err != "ok" {
				return
			}
		}
	}()
	for i := 0; i < readers; i++ {
		if readers == 1 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for f.read < total {
					n := bufs()
					if in(20) == 0 {
						n = 0 // nothing may be lost by that
					}
					if in(12) == 0 { // look without waiting
						r.Deadline("r", s.Now()-5)
						for i := 1 + in(4); i > 0 && f.read < total; i-- {
							o := r.Read(bufs())
							if !s.ok(o, "read with a past deadline") {
								break
							}
							if o.err == "ok" {
								f.add(o.n)
							}
						}
						r.Deadline("r", INF)
						continue
					}
					if !f.readOne(s, r, n) {
						return
					}
				}
			}()
			continue
		}
		// the readers left waiting are ended by the close
		go func() {
			for {
				o := r.Read(up8(bufs()))
				<-o.done
				if o.err != "ok" {
					return
				}
				f.mu.Lock()
				f.read += o.n
				f.cond.Broadcast()
				f.mu.Unlock()
			}
		}()
	}
	if readers > 1 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.until("all bytes written read", func() bool {
				f.mu.Lock()
				defer f.mu.Unlock()
				return f.read >= total
			})
			f.mu.Lock()
			f.cond.Broadcast()
			f.mu.Unlock()
		}()
	}
}

func (f *flow) readOne(s *Sys, r *End, n int) bool {
	o := r.Read(n)
	if !s.ok(o, "read of bytes written") || o.err != "ok" {
		f.mu.Lock()
		f.cond.Broadcast()
		f.mu.Unlock()
		return false
	}
	f.add(o.n)
	return true
}

func (f *flow) add(n int) {
	f.mu.Lock()
	f.read += n
	f.cond.Broadcast()
	f.mu.Unlock()
}

func lockedRand(rnd *rand.Rand) func(n int) int {
	var mu sync.Mutex
	r := rand.New(rand.NewSource(rnd.Int63()))
	return func(n int) int {
		mu.Lock()
		defer mu.Unlock()
		return r.Intn(n)
	}
}

func scRaw(s *Sys, rnd *rand.Rand) {
	cfg := ConnCfg{Meta: randMeta(rnd, 1), Frag: rnd.Intn(5), TCP: rnd.Intn(4) == 0}
	cn := s.Dial(1, cfg)
	if cn == nil {
		return
	}
	ps := cn.pairs(rnd, rnd.Intn(3))
	var wg sync.WaitGroup
	for _, p := range ps {
		for d := 0; d < 2; d++ {
			in := lockedRand(rnd)
			style := rnd.Intn(5)
			n := 10 + rnd.Intn(60)
			sizes := func() int {
				switch style {
				case 0:
					return in(4)
				case 1:
					return 1 + in(300)
				case 2:
					return pick2(in, 1, 2, 13, 14, 15, 255, 256, 257, 1023, 4096)
				case 3:
					if in(6) == 0 {
						return pick2(in, 65536, 60000, 32769)
					}
					return 1 + in(5000)
				}
				return 8 * (1 + in(60))
			}
			if style == 3 {
				n = 12
			}
			bstyle := rnd.Intn(4)
			bufs := func() int {
				switch bstyle {
				case 0:
					return 1 + in(8)
				case 1:
					return 1 + in(600)
				case 2:
					return 65536
				}
				return pick2(in, 1, 7, 16, 100, 1000, 5000)
			}
			if (bstyle == 0 || bstyle == 3) && style == 3 {
				bufs = func() int { return 500 + in(9000) }
			}
			if bstyle == 0 && style != 0 && n > 25 {
				n = 25
			}
			readers := 1
			if style == 4 {
				readers = 1 + rnd.Intn(3)
				bufs = func() int { return 8 * (1 + in(40)) }
			}
			rawFlow(s, rnd, p[d], p[1-d], n, readers, sizes, bufs, &wg)
		}
	}
	wg.Wait()
	s.quiet(1)
	s.Finish(true)
}

func pick2(in func(int) int, xs ...int) int { return xs[in(len(xs))] }

/************************ messages ************************/

type msgCfg struct {
	n, pubs, recvs int
	modes          []string
	errs           int // percent answered with an error
	never          int // percent never answered (with a limit)
	async          bool
	jitter         int
	ackLate        bool // acknowledge out of order
	burst          int  // publish so many before any is received
	limits         bool // with limits far away
}

// msgFlow publishes n messages from a to b
func msgFlow(s *Sys, rnd *rand.Rand, a, b *End, c msgCfg, wg *sync.WaitGroup) {
	in := lockedRand(rnd)
	window := 30
	if c.burst > 0 {
		window = c.burst
	}
	sem := make(chan struct{}, window)
	rsd := rnd.Int63()
	var left int32 = int32(c.n)
	var acks sync.WaitGroup
	tag := int32(0)
	for i := 0; i < c.pubs; i++ {
		n := c.n / c.pubs
		if i == 0 {
			n = c.n - (c.pubs-1)*(c.n/c.pubs)
		}
		r := rand.New(rand.NewSource(rsd + int64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			pending := []*Op{}
			for j := 0; j < n; j++ {
				select {
				case sem <- struct{}{}:
				case <-time.After(watchdog):
					s.Hang("messages not received")
					return
				}
				p := Pub{Mode: pick(r, c.modes...), Data: payload(r, int(atomic.AddInt32(&tag, 1)))}
				if r.Intn(3) == 0 {
					p.Topic = pick(r, "t", "topic/1", "")
				}
				if r.Intn(3) == 0 {
					p.Cust = payload(r, j)
				}
				if c.limits {
					switch r.Intn(4) {
					case 0:
						p.Lim.Timeout = 600000 + r.Intn(1000)
					case 1:
						p.Lim.Ctx = 600000 + r.Intn(1000)
					case 2:
						p.Lim.Timeout, p.Lim.Ctx = 700000, 600000
					}
				}
				o := a.Publish(p)
				if p.Mode == "async" {
					if !s.ok(o, "async publish") {
						return
					}
					pending = append(pending, o)
				} else if r.Intn(3) == 0 && p.Mode == "sync" {
					pending = append(pending, o) // concurrent
				} else if !s.ok(o, "publish") {
					return
				}
				if o.err != "" && o.err != "ok" && o.err != "app" {
					return
				}
			}
			for _, o := range pending {
				if !s.await(o.done, "publish", "o", o.o) || !s.await(o.comp, "completion of publish", "o", o.o) {
					return
				}
			}
		}()
	}
	start := time.Now()
	for i := 0; i < c.recvs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			// a burst fills the queues, but the publisher may be held up
			for c.burst > 0 && len(sem) < window && len(sem) < c.n && time.Since(start) < 60*time.Millisecond {
				time.Sleep(time.Millisecond)
			}
			var late []int
			flush := func() {
				for len(late) > 0 {
					i := in(len(late))
					s.Answer(late[i], ansTxt(in, c.errs))
					late = append(late[:i], late[i+1:]...)
				}
			}
			for {
				if atomic.AddInt32(&left, -1) < 0 {
					flush()
					return
				}
				o := b.Receive(Lim{})
				if c.ackLate && len(late) > 0 {
					// a publisher may wait for an answer
					select {
					case <-o.done:
					case <-time.After(3 * time.Millisecond):
						flush()
					}
				}
				if !s.ok(o, "receive of a published message") || o.err != "ok" {
					return
				}
				<-sem
				if s.modeOf(o.m) == "amo" && in(2) == 0 {
					continue // nobody waits for it
				}
				if c.ackLate {
					late = append(late, o.m)
					if len(late) > 5 {
						flush()
					}
				} else {
					s.Answer(o.m, ansTxt(in, c.errs))
				}
			}
		}()
	}
	_ = &acks
}

func ansTxt(in func(int) int, errs int) string {
	if in(100) < errs {
		if in(4) == 0 {
			return oddText(in(100))
		}
		return fmt.Sprintf("app:%d error \"x\" %d", in(1000), in(3))
	}
	return ""
}

func scMsg(s *Sys, rnd *rand.Rand) {
	cn := s.Dial(1, ConnCfg{Meta: randMeta(rnd, 1), Frag: rnd.Intn(4), TCP: rnd.Intn(4) == 0})
	if cn == nil {
		return
	}
	ps := cn.pairs(rnd, rnd.Intn(3))
	var wg sync.WaitGroup
	for _, p := range ps {
		for d := 0; d < 2; d++ {
			c := msgCfg{n: 5 + rnd.Intn(40), pubs: 1 + rnd.Intn(3), recvs: 1 + rnd.Intn(2), errs: pick(rnd, 0, 20, 50), ackLate: rnd.Intn(2) == 0}
			c.modes = pick(rnd, []string{"sync"}, []string{"async"}, []string{"amo"}, []string{"sync", "async", "amo"}, []string{"async", "async", "amo"})
			if rnd.Intn(2) == 0 {
				c.pubs, c.recvs = 1, 1
			}
			c.limits = rnd.Intn(2) == 0
			if rnd.Intn(4) == 0 {
				c.burst, c.n = 34+rnd.Intn(60), 60+rnd.Intn(60)
				c.modes = pick(rnd, []string{"async"}, []string{"amo"}, []string{"async", "amo"})
			}
			msgFlow(s, rnd, p[d], p[1-d], c, &wg)
		}
	}
	wg.Wait()
	s.quiet(1)
	s.Finish(true)
}

/************************ calls ************************/

func autoReply(rnd *rand.Rand) func(h *hinv) ([]byte, []byte, string) {
	in := lockedRand(rnd)
	return func(h *hinv) ([]byte, []byte, string) {
		if in(3) == 0 {
			time.Sleep(time.Duration(in(4000)) * time.Microsecond)
		}
		txt := ""
		if in(6) == 0 {
			txt = fmt.Sprintf("app:call %d failed", h.o)
			if in(4) == 0 {
				txt = oddText(in(100))
			}
		}
		var cust []byte
		if in(2) == 0 {
			cust = []byte(fmt.Sprintf("c%d", h.o))
		}
		data := []byte(fmt.Sprintf("r%d-%d", h.o, in(1000)))
		switch in(6) {
		case 0:
			data = append(data, make([]byte, in(9000))...)
		case 1:
			data = nil
		case 2:
			data = []byte{}
		}
		return data, cust, txt
	}
}

func rpcFlow(s *Sys, rnd *rand.Rand, a, b *End, n, callers int, methods []string, wg *sync.WaitGroup) {
	for i := 0; i < callers; i++ {
		r := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			pending := []*Op{}
			for j := 0; j < n; j++ {
				p := Call{Method: pick(r, methods...), Data: payload(r, j), Async: r.Intn(3) == 0}
				if r.Intn(2) == 0 {
					p.Cust = payload(r, j)
				}
				o := a.Call(p)
				if p.Async || r.Intn(3) == 0 {
					pending = append(pending, o)
					if len(pending) > 20 {
						if !s.await(pending[0].comp, "call", "o", pending[0].o) {
							return
						}
						pending = pending[1:]
					}
				} else if !s.ok(o, "call") {
					return
				}
			}
			for _, o := range pending {
				if !s.await(o.comp, "call", "o", o.o) {
					return
				}
			}
		}()
	}
}

func scRpc(s *Sys, rnd *rand.Rand) {
	s.auto = autoReply(rnd)
	cn := s.Dial(1, ConnCfg{Meta: randMeta(rnd, 1), Frag: rnd.Intn(4), TCP: rnd.Intn(4) == 0, Local: [2][]string{{"lc"}, {"ls"}}})
	if cn == nil {
		return
	}
	ps := cn.pairs(rnd, rnd.Intn(3))
	var wg sync.WaitGroup
	for _, p := range ps {
		for d := 0; d < 2; d++ {
			for _, m := range []string{"a", "ab", "b", "", "\x00\u00e9 %s"} {
				if rnd.Intn(5) > 0 {
					o := p[1-d].Register(m, fmt.Sprintf("f%d.%d.%s", p[d].k, 1-d, m))
					if !s.ok(o, "register") {
						return
					}
				}
			}
			rpcFlow(s, rnd, p[d], p[1-d], 5+rnd.Intn(20), 1+rnd.Intn(3), []string{"a", "ab", "b", "nope", "lc", "ls", "", "\x00\u00e9 %s"}, &wg)
		}
	}
	wg.Wait()
	s.quiet(1)
	s.Finish(true)
}

func init() {
	scenarios["raw"] = scRaw
	scenarios["msg"] = scMsg
	scenarios["rpc"] = scRpc
}
