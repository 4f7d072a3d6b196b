package main

import (
	"context"
	"math/rand"
	"net"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/geminio/server"
)

// ids records what generators of ids are asked
type ids struct {
	s    *Sys
	nums map[string]int
	np   int
}

func (x *ids) num(kind string, v uint64) int {
	k := kind + strconv.FormatUint(v, 10)
	n, ok := x.nums[k]
	if !ok {
		n = len(x.nums) + 1
		x.nums[k] = n
	}
	return n
}

func (x *ids) get(c string, f func() (uint64, bool)) (uint64, bool) {
	r := x.s.Rec
	r.mu.Lock()
	x.np++
	p := x.np
	r.put("i.get", "c", c, "p", p)
	r.mu.Unlock()
	v, ok := f()
	if !ok {
		return 0, false
	}
	r.mu.Lock()
	r.put("i.get.ret", "p", p, "id", x.num(c, v), "odd", v%2 == 1, "zero", v == 0)
	r.mu.Unlock()
	return v, true
}

func (x *ids) note(ev, c string, v uint64) {
	r := x.s.Rec
	r.mu.Lock()
	r.put(ev, "c", c, "id", x.num(c, v))
	r.mu.Unlock()
}

// idgen: the generators themselves
func idgen(s *Sys, rnd *rand.Rand) {
	x := &ids{s: s, nums: map[string]int{}}
	mode := pick(rnd, id.Even, id.Odd, id.Inc, id.Unique, id.Even, id.Odd)
	g := id.NewIDCounter(mode)
	s.Ev("i.new", "c", "g", "mode", string(mode))
	n := 2 + rnd.Intn(7)
	each := 20 + rnd.Intn(150)
	var wg sync.WaitGroup
	var mu, rd sync.Mutex // rd: DelID takes back a reservation as well
	var last uint64
	for i := 0; i < n; i++ {
		wg.Add(1)
		seed := rnd.Int63()
		go func() {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(seed))
			mine := []uint64{}
			for j := 0; j < each; j++ {
				v, _ := x.get("g", func() (uint64, bool) { return g.GetID(), true })
				mine = append(mine, v)
				mu.Lock()
				if v > last {
					last = v
				}
				l := last
				mu.Unlock()
				switch rnd.Intn(12) {
				case 0, 1: // reserve some of what comes next
					a := l + uint64(rnd.Intn(12)) + 1
					rd.Lock()
					for k := uint64(0); k < uint64(1+rnd.Intn(6)); k++ {
						g.ReserveID(a + k)
						x.note("i.res", "g", a+k)
						if mode != id.Unique { // in the next second, too
							g.ReserveID(a + k + 1<<32)
							x.note("i.res", "g", a+k+1<<32)
						}
					}
					rd.Unlock()
				case 2, 3, 4:
					if mode == id.Unique {
						k := rnd.Intn(len(mine))
						v := mine[k]
						mine = append(mine[:k], mine[k+1:]...)
						rd.Lock()
						x.note("i.del", "g", v)
						g.DelID(v)
						rd.Unlock()
					} else {
						g.DelID(mine[rnd.Intn(len(mine))])
					}
					if len(mine) == 0 {
						return
					}
				}
			}
		}()
	}
	wg.Wait()
}

// idburst: all at once, without anything recorded in between which would order them
func idburst(s *Sys, rnd *rand.Rand) {
	idfirst(s, rnd)
	x := &ids{s: s, nums: map[string]int{}}
	mode := pick(rnd, id.Even, id.Odd, id.Inc, id.Unique)
	g := id.NewIDCounter(mode)
	s.Ev("i.new", "c", "g", "mode", string(mode))
	n, each := 8, 200
	if mode == id.Unique {
		each = 60
	}
	got := make([][]uint64, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		got[i] = make([]uint64, each)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for j := range got[i] {
				got[i][j] = g.GetID()
			}
		}(i)
	}
	for p := 1; p <= n*each; p++ {
		s.Ev("i.get", "c", "g", "p", p)
	}
	close(start)
	wg.Wait()
	for i := 0; i < n; i++ {
		for j, v := range got[i] {
			s.Ev("i.get.ret", "p", i*each+j+1, "id", x.num("g", v), "odd", v%2 == 1, "zero", v == 0)
		}
	}
}

// idfirst: what's first handed out by new generators, many times over
func idfirst(s *Sys, rnd *rand.Rand) {
	const callers, each, rounds = 6, 3, 400
	var round, done int32
	var g *id.IDCounter
	got := [callers][each]uint64{}
	for i := 0; i < callers; i++ {
		go func(i int) {
			for r := int32(1); r <= rounds; r++ {
				for k := 0; atomic.LoadInt32(&round) < r; k++ {
					if k > 5000 {
						runtime.Gosched()
					}
				}
				for j := range got[i] {
					got[i][j] = g.GetID()
				}
				atomic.AddInt32(&done, 1)
			}
		}(i)
	}
	for r := int32(1); r <= rounds; r++ {
		mode := pick(rnd, id.Odd, id.Odd, id.Even, id.Inc, id.Unique)
		g = id.NewIDCounter(mode)
		atomic.StoreInt32(&done, 0)
		atomic.StoreInt32(&round, r)
		for atomic.LoadInt32(&done) < callers {
			runtime.Gosched()
		}
		nums := map[uint64]int{}
		all := [][]any{}
		for i := range got {
			for _, v := range got[i] {
				if _, ok := nums[v]; !ok {
					nums[v] = len(nums) + 1
				}
				all = append(all, []any{nums[v], v%2 == 1, v == 0})
			}
		}
		s.Ev("i.burst", "mode", string(mode), "got", all)
	}
}

// idend: what both sides of connections generate
func idend(s *Sys, rnd *rand.Rand) {
	x := &ids{s: s, nums: map[string]int{}}
	s.Ev("i.new", "c", "client", "mode", "inc")
	type pair struct {
		e    [2]geminio.End
		name string
	}
	var ps []pair
	for i := 1 + rnd.Intn(4); i > 0; i-- {
		name := strconv.Itoa(i)
		var p pair
		p.name = name
		_, ok := x.get("client", func() (uint64, bool) {
			var ok bool
			p.e[0], p.e[1], ok = plainPair()
			if !ok {
				return 0, false
			}
			return p.e[1].ClientID(), true
		})
		if !ok {
			continue
		}
		s.Ev("i.new", "c", "p0."+name, "mode", "odd")
		s.Ev("i.new", "c", "p1."+name, "mode", "even")
		s.Ev("i.new", "c", "s."+name, "mode", "inc")
		s.Ev("i.res", "c", "s."+name, "id", x.num("s."+name, 1))
		ps = append(ps, p)
	}
	var wg sync.WaitGroup
	for _, p := range ps {
		p := p
		for d := 0; d < 2; d++ {
			e := p.e[d]
			pk := "p" + strconv.Itoa(d) + "." + p.name
			wg.Add(1)
			go func() { // accept
				defer wg.Done()
				for {
					st, err := e.AcceptStream()
					if err != nil {
						return
					}
					if rnd1(st.StreamID())%3 == 0 {
						st.Close()
					}
				}
			}()
			for i := 0; i < 2; i++ {
				seed := rnd.Int63()
				wg.Add(1)
				go func() {
					defer wg.Done()
					rnd := rand.New(rand.NewSource(seed))
					var st geminio.Stream = e
					for j := 0; j < 40; j++ {
						switch rnd.Intn(8) {
						case 0:
							x.get("s."+p.name, func() (uint64, bool) {
								st2, err := e.OpenStream()
								if err != nil {
									return 0, false
								}
								st = st2
								return st2.StreamID(), true
							})
						case 1:
							ctx, cancel := context.WithTimeout(context.Background(), 30*time.Millisecond)
							m := st.NewMessage([]byte("x"))
							x.get(pk, func() (uint64, bool) { return m.ID(), true })
							st.Publish(ctx, m, options.Publish())
							cancel()
						case 2, 3, 4:
							x.get(pk, func() (uint64, bool) { return st.NewMessage(nil).ID(), true })
						default:
							x.get(pk, func() (uint64, bool) { return st.NewRequest(nil).ID(), true })
						}
					}
				}()
			}
		}
	}
	done := make(chan struct{})
	go func() {
		time.Sleep(time.Duration(200+rnd.Intn(200)) * time.Millisecond)
		for _, p := range ps {
			p.e[rnd.Intn(2)].Close()
		}
		wg.Wait()
		close(done)
	}()
	s.await(done, "ids")
}

// plainPair connects without recording anything
func plainPair() (c, d geminio.End, ok bool) {
	p := NewPipe()
	ch := make(chan geminio.End, 1)
	go func() {
		o := server.NewEndOptions()
		o.SetLog(quietLog)
		e, err := server.NewEndWithConn(p.conns[1], o)
		if err != nil {
			p.Cut()
		}
		ch <- e
	}()
	o := client.NewEndOptions()
	o.SetLog(quietLog)
	c, err := client.NewEndWithDialer(func() (net.Conn, error) { return p.conns[0], nil }, o)
	if err != nil {
		p.Cut()
	}
	d = <-ch
	return c, d, c != nil && d != nil
}

func rnd1(x uint64) uint64 { return x * 0x9E3779B97F4A7C15 >> 40 }

func init() {
	scenarios["idgen"] = idgen
	scenarios["idburst"] = idburst
	scenarios["idend"] = idend
}
