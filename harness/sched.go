package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"time"
)

// Replay of behaviours of Net.tla: the transport lets pass one packet at a time, when the
// behaviour delivers it, and the users act in between.  What they observe is recorded as ever,
// and judged by the monitor alone.  Where the code does something else than the model, which it
// may, the replay lets everything go on freely.

type label struct {
	A      string `json:"a"`
	K      int    `json:"k"`
	D      int    `json:"d"`
	O      int    `json:"o"`
	M      int    `json:"m"`
	Len    int    `json:"len"`
	Mode   string `json:"mode"`
	Method string `json:"method"`
	Fn     string `json:"fn"`
	Kind   string `json:"kind"`
	Err    string `json:"err"`
	Ty     string `json:"ty"`
	Async  bool   `json:"async"`
	Bad    bool   `json:"bad"`
	L      []int  `json:"l"`   // packets which are on their way before
	Lim    int    `json:"lim"` // ms from then, 0 none
	Which  string `json:"which"`
	Raw    bool   `json:"raw"`
	Msg    bool   `json:"msg"`
}

type schedule struct {
	Chk bool    `json:"chk"`
	Pre bool    `json:"pre"`
	Sch []label `json:"sch"`
}

var schedules []schedule

func loadSchedules(path string) {
	f, err := os.Open(path)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 16<<20)
	for sc.Scan() {
		if len(sc.Bytes()) == 0 {
			continue
		}
		var x schedule
		if err := json.Unmarshal(sc.Bytes(), &x); err != nil {
			panic("harness: schedule: " + err.Error())
		}
		schedules = append(schedules, x)
		var h hschedule
		if json.Unmarshal(sc.Bytes(), &h) == nil && len(h.Dlg) > 0 {
			hschedules = append(hschedules, h)
		}
	}
}

// frames tells the types and sizes of the complete packets side d sent which weren't delivered
func (p *Pipe) frames(d int) (typs []string, size []int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	b := p.dir[d].buf
	for len(b) >= 14 {
		n := 14 + int(binary.BigEndian.Uint32(b[10:]))
		if len(b) < n {
			break
		}
		typs = append(typs, wnames[b[1]])
		size = append(size, n)
		b = b[n:]
	}
	return
}

// promote moves a dismiss or its acknowledgement to the front, past dismisses of other streams
// and the disconnect: in which order those are sent is a race, or the order of a map
func (p *Pipe) promote(d int, typ string, sid uint64) {
	p.mu.Lock()
	defer p.mu.Unlock()
	b := p.dir[d].buf
	at := 0
	for len(b)-at >= 14 {
		n := 14 + int(binary.BigEndian.Uint32(b[at+10:]))
		if len(b)-at < n {
			return
		}
		t := wnames[b[at+1]]
		id := uint64(0)
		if t == "dsm" || t == "dsmack" {
			id = binary.BigEndian.Uint64(b[at+14:])
		}
		if t == typ && (sid == 0 || id == sid) {
			x := append([]byte(nil), b[at:at+n]...)
			copy(b[n:], b[:at])
			copy(b, x)
			return
		}
		if t != "dis" && (t != "dsm" || id == sid) {
			return
		}
		at += n
	}
}

var modelTypes = map[string]string{"raw": "raw", "msg": "msg", "mack": "msgack", "req": "req", "rsp": "rsp", "cancel": "cancel",
	"reg": "reg", "rack": "regack", "sess": "ses", "sack": "sesack", "dis": "dsm", "dsack": "dsmack", "disc": "dis", "dack": "disack"}

const schedWait = 700 * time.Millisecond

func poll(wait time.Duration, f func() bool) bool {
	end := time.Now().Add(wait)
	for i := 0; !f(); i++ {
		if time.Now().After(end) {
			return false
		}
		if i < 50 {
			time.Sleep(20 * time.Microsecond)
		} else {
			time.Sleep(500 * time.Microsecond)
		}
	}
	return true
}

func isDone(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func scSched(s *Sys, rnd *rand.Rand) {
	s.pert = 0
	if len(schedules) == 0 {
		panic("harness: no schedules")
	}
	sc := schedules[int(s.seed%100000)%len(schedules)]
	cn := s.Dial(1, ConnCfg{Meta: randMeta(rnd, 1), Dlg: true, Frag: rnd.Intn(5), Check: [2]bool{sc.Chk, sc.Chk}})
	if cn == nil {
		return
	}
	ends := map[[2]int]*End{{1, 0}: cn.e[0], {1, 1}: cn.e[1]}
	if sc.Pre {
		a, b := cn.OpenPair(rnd, 0, 2)
		if a == nil || b == nil {
			s.Finish(true)
			return
		}
		ends[[2]int{2, 0}], ends[[2]int{2, 1}] = a, b
	}
	p := cn.pipe
	p.Stall(0, true)
	p.Stall(1, true)
	ops := map[int]*Op{}
	calls := map[int]int{} // ours by the model's
	cut, over := false, false
	why := ""
	miss := func(i int, l label, f string, a ...interface{}) {
		why = fmt.Sprintf("%d %s: ", i, l.A) + fmt.Sprintf(f, a...)
	}
	same := func(a, b string) bool {
		if a == b {
			return true
		}
		soft := map[string]bool{"eof": true, "other": true, "timeout": true}
		return soft[a] && soft[b]
	}
	for i, l := range sc.Sch {
		if s.Hung() || why != "" {
			break
		}
		e := ends[[2]int{l.K, l.D}]
		switch l.A {
		case "ret", "hin", "hctx", "quiet", "fin", "tick", "dl":
		default:
			if !cut && l.L != nil {
				for d := 0; d < 2; d++ {
					if !poll(schedWait, func() bool { t, _ := p.frames(d); return len(t) >= l.L[d] }) {
						t, _ := p.frames(d)
						miss(i, l, "side %d sent %v, not %d packets", d, t, l.L[d])
					}
				}
				if why != "" {
					continue
				}
			}
		}
		switch l.A {
		case "write", "read", "pub", "recv", "reg", "hij", "call", "sclose", "dl":
			if e == nil {
				miss(i, l, "no stream %d at %d", l.K, l.D)
				continue
			}
		case "cancel":
			if ops[l.O] == nil {
				miss(i, l, "no operation")
				continue
			}
		}
		data := []byte(fmt.Sprint(l.O, "-", rnd.Intn(1000)))
		lim := Lim{Cancel: true}
		if l.Lim > 0 {
			if rnd.Intn(2) == 0 && l.A != "recv" {
				lim.Timeout = l.Lim
			} else {
				lim.Ctx = l.Lim
			}
			if rnd.Intn(4) == 0 && l.A != "recv" { // the earlier one counts
				lim.Timeout, lim.Ctx = l.Lim+rnd.Intn(2)*5000, l.Lim
			}
		}
		switch l.A {
		case "write":
			o := e.Write(l.Len)
			ops[l.O] = o
			if !poll(schedWait, func() bool { return isDone(o.done) }) {
				miss(i, l, "it waits")
			}
		case "read":
			ops[l.O] = e.Read(l.Len)
		case "pub":
			x := Pub{Mode: l.Mode, Data: data, Topic: pick(rnd, "", "t"), Cust: data[:rnd.Intn(2)], Lim: lim}
			o := e.Publish(x)
			ops[l.O] = o
			calls[l.O] = o.o
			if l.Mode != "sync" && !poll(schedWait, func() bool { return isDone(o.done) }) {
				miss(i, l, "it waits")
			}
		case "recv":
			ops[l.O] = e.Receive(lim)
		case "ans":
			txt := ""
			if l.Kind != "done" {
				txt = "app:" + fmt.Sprint(calls[l.M])
			}
			if !s.received(calls[l.M], 0) {
				miss(i, l, "message not received")
				continue
			}
			s.Answer(calls[l.M], txt)
		case "reg":
			ops[l.O] = e.Register(l.Method, fmt.Sprint("f", s.Now(), "-", l.Fn))
		case "hij":
			o := e.Hijack(l.Fn, "^a", l.Mode)
			if !poll(schedWait, func() bool { return isDone(o.done) }) {
				miss(i, l, "it waits")
			}
		case "call":
			o := e.Call(Call{Method: l.Method, Data: data, Cust: data[:1], Async: l.Async, Lim: lim})
			ops[l.O] = o
			calls[l.O] = o.o
			if l.Async && !poll(schedWait, func() bool { return isDone(o.done) }) {
				miss(i, l, "it waits")
			}
		case "out", "hin", "hctx":
			var h *hinv
			if !poll(schedWait, func() bool { h = s.handling(calls[l.O], 0); return h != nil }) {
				miss(i, l, "no handler")
				continue
			}
			switch l.A {
			case "out":
				x := hout{data: append([]byte("r"), h.data...), cust: []byte("rc")}
				if l.Bad {
					x = hout{txt: "app:h" + fmt.Sprint(h.o)}
				}
				h.out <- x
			case "hctx":
				if !poll(schedWait, func() bool { return isDone(h.cend) }) {
					miss(i, l, "its context lives")
				}
			}
		case "cancel":
			s.Cancel(ops[l.O])
		case "open":
			ops[l.O] = cn.Open(l.D, []byte(fmt.Sprint("m", l.O)), fmt.Sprint("p", l.O))
		case "acc":
			ops[l.O] = cn.Accept(l.D, rnd.Intn(2) == 0)
		case "tick":
			time.Sleep(200 * time.Millisecond)
		case "dl":
			at := INF
			if l.Lim != 0 {
				at = s.Now() + l.Lim
			}
			e.Deadline(map[string]string{"r": "r", "w": "w", "b": "rw"}[l.Which], at)
		case "sclose":
			o := e.Close()
			ops[l.O] = o
			if !poll(schedWait, func() bool { return isDone(o.done) }) {
				miss(i, l, "it waits")
			}
		case "eclose":
			ops[l.O] = cn.Close(l.D)
			over = true
		case "cut":
			p.Cut()
			cut = true
		case "dlv":
			d := 1 - l.D // who sent it
			var t []string
			var n []int
			if !poll(schedWait, func() bool { t, n = p.frames(d); return len(t) > 0 }) {
				miss(i, l, "nothing to deliver")
				continue
			}
			if typ := modelTypes[l.Ty]; typ == "dsm" || typ == "dsmack" {
				sid := uint64(0)
				for x, e := range ends {
					if x[0] == l.K {
						sid = e.sid()
					}
				}
				p.promote(d, typ, sid)
				t, n = p.frames(d)
			}
			if t[0] != modelTypes[l.Ty] {
				miss(i, l, "%s instead of %s", t[0], l.Ty)
				continue
			}
			want := p.Total(d) + n[0]
			p.Allow(d, n[0])
			if !poll(schedWait, func() bool { return p.Total(d) >= want }) {
				miss(i, l, "nobody reads")
			}
		case "ret":
			o := ops[l.O]
			if o == nil {
				miss(i, l, "no operation")
				continue
			}
			ch := o.done
			if o.async {
				ch = o.comp
			}
			if !poll(schedWait, func() bool { return isDone(ch) }) {
				miss(i, l, "it waits")
				continue
			}
			if !same(o.err, l.Err) {
				miss(i, l, "%s instead of %s", o.err, l.Err)
				continue
			}
			if l.K != 0 && o.st != nil {
				d := o.st.d
				if x := ends[[2]int{l.K, 1 - d}]; x != nil && x.k != o.st.k {
					miss(i, l, "another stream")
					continue
				}
				ends[[2]int{l.K, d}] = o.st
			}
		case "quiet":
			s.settle(80*time.Millisecond, time.Second)
			s.told(1)
			for d := 0; d < 2 && why == ""; d++ {
				if t, _ := p.frames(d); len(t) > 0 { // more than in the model
					miss(i, l, "side %d sent %v", d, t)
				}
			}
			if why != "" {
				continue
			}
			s.Ev("quiet", "c", 1, "raw", l.Raw, "msg", l.Msg, "prog", true)
			for d := 0; d < 2; d++ {
				want := map[int]bool{}
				for x, e := range ends {
					if x[1] == d && !sc.closed(x[0]) {
						want[e.k] = true
					}
				}
				cn.List(d, want)
			}
		}
	}
	p.Stall(0, false)
	p.Stall(1, false)
	if why != "" {
		s.Ev("note", "what", "diverged at "+why)
		if !s.Hung() && !cut && !over {
			// nothing may be stuck
			for d := 0; d < 2; d++ {
				for n := 0; n < 5; n++ {
					o := cn.Accept(d, false)
					if !poll(500*time.Millisecond, func() bool { return isDone(o.done) }) {
						break
					}
				}
			}
			s.settle(1500*time.Millisecond, 8*time.Second)
			s.told(1)
			s.Ev("quiet", "c", 1, "raw", false, "msg", false, "prog", true)
		}
	}
	s.Finish(true)
}

// closed tells whether stream k was closed
func (x *schedule) closed(k int) bool {
	for _, l := range x.Sch {
		if l.A == "sclose" && l.K == k {
			return true
		}
	}
	return false
}

// settle waits until nothing was recorded for some time
var calm time.Duration = 1 // how much more patience

func (s *Sys) settle(still, most time.Duration) {
	still, most = still*calm, most*calm
	end := time.Now().Add(most)
	n, at := -1, time.Now()
	for time.Now().Before(end) && !s.Hung() {
		s.Rec.mu.Lock()
		m := s.Rec.n
		s.Rec.mu.Unlock()
		if m != n {
			n, at = m, time.Now()
		}
		if time.Since(at) >= still {
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func init() { scenarios["sched"] = scSched }
