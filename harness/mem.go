package main

import (
	"errors"
	"io"
	"math/rand"
	"net"
	"sync"
	"time"
)

var errReset = errors.New("transport reset")

// Pipe is an in-memory transport between two sides, whose network can fragment, stall and be cut.
type Pipe struct {
	mu   sync.Mutex
	cond *sync.Cond
	dir  [2]half // dir[d]: what side d sent
	shut [2]bool // closed by side d
	cut  bool
	frag func(n int) int // how many of n available bytes a Read gets
	cap  int
	// cut as soon as cutAt[d] bytes of side d were delivered
	cutAt   [2]int
	onCut   func()
	onClose func(d int)
	stall   [2]bool
	credit  [2]int // bytes which may pass nevertheless
	conns   [2]*memConn
	tap     func(d int, b []byte)
}

type half struct {
	buf   []byte
	total int // delivered
}

type memConn struct {
	p *Pipe
	d int
}

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

func NewPipe() *Pipe {
	p := &Pipe{cap: 256 << 10, cutAt: [2]int{-1, -1}}
	p.cond = sync.NewCond(&p.mu)
	p.conns = [2]*memConn{{p, 0}, {p, 1}}
	return p
}

// Frag sets a random fragmentation
func (p *Pipe) Frag(seed int64, mode int) {
	rnd := rand.New(rand.NewSource(seed))
	switch mode {
	case 1: // byte by byte
		p.frag = func(n int) int { return 1 }
	case 2: // small
		p.frag = func(n int) int { return 1 + rnd.Intn(7) }
	case 3: // any
		p.frag = func(n int) int { return 1 + rnd.Intn(n) }
	case 4: // around header borders
		p.frag = func(n int) int { return []int{1, 13, 14, 15, 22, 23, 27, 29}[rnd.Intn(8)] }
	}
}

func (p *Pipe) Cut() {
	p.mu.Lock()
	p.doCut()
	p.mu.Unlock()
}

func (p *Pipe) doCut() {
	if p.cut {
		return
	}
	if p.onCut != nil {
		p.onCut()
	}
	p.cut = true
	p.cond.Broadcast()
}

func (p *Pipe) Stall(d int, on bool) {
	p.mu.Lock()
	p.stall[d] = on
	p.cond.Broadcast()
	p.mu.Unlock()
}

// Allow lets n bytes of side d pass a stall
func (p *Pipe) Allow(d, n int) {
	p.mu.Lock()
	p.credit[d] += n
	p.cond.Broadcast()
	p.mu.Unlock()
}

func (p *Pipe) CutAt(d, n int) {
	p.mu.Lock()
	p.cutAt[d] = n
	if p.dir[d].total >= n {
		p.doCut()
	}
	p.mu.Unlock()
}

func (p *Pipe) Total(d int) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.dir[d].total
}

func (c *memConn) Read(b []byte) (int, error) {
	p := c.p
	p.mu.Lock()
	defer p.mu.Unlock()
	h := &p.dir[1-c.d]
	for {
		if p.cut {
			return 0, errReset
		}
		if p.shut[c.d] {
			return 0, net.ErrClosed
		}
		if len(h.buf) > 0 && (!p.stall[1-c.d] || p.credit[1-c.d] > 0) {
			n := len(b)
			if p.stall[1-c.d] {
				if n > p.credit[1-c.d] {
					n = p.credit[1-c.d]
				}
			}
			if n > len(h.buf) {
				n = len(h.buf)
			}
			if p.frag != nil {
				if f := p.frag(n); f < n {
					n = f
				}
			}
			at := p.cutAt[1-c.d]
			if at >= 0 && h.total+n >= at {
				n = at - h.total
			}
			if n > 0 {
				copy(b, h.buf[:n])
				if p.tap != nil {
					p.tap(1-c.d, h.buf[:n])
				}
				h.buf = h.buf[n:]
				h.total += n
				if p.stall[1-c.d] {
					p.credit[1-c.d] -= n
				}
			}
			if at >= 0 && h.total >= at {
				p.doCut()
				if n <= 0 {
					continue
				}
			}
			p.cond.Broadcast()
			return n, nil
		}
		if p.shut[1-c.d] && len(h.buf) == 0 {
			return 0, io.EOF
		}
		p.cond.Wait()
	}
}

func (c *memConn) Write(b []byte) (int, error) {
	p := c.p
	p.mu.Lock()
	defer p.mu.Unlock()
	h := &p.dir[c.d]
	n := 0
	for n < len(b) {
		if p.cut {
			return n, errReset
		}
		if p.shut[c.d] {
			return n, net.ErrClosed
		}
		if p.shut[1-c.d] {
			return n, errors.New("broken pipe")
		}
		room := p.cap - len(h.buf)
		if room <= 0 {
			p.cond.Wait()
			continue
		}
		if room > len(b)-n {
			room = len(b) - n
		}
		h.buf = append(h.buf, b[n:n+room]...)
		n += room
		p.cond.Broadcast()
	}
	return n, nil
}

func (c *memConn) Close() error {
	p := c.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.shut[c.d] {
		return net.ErrClosed
	}
	if p.onClose != nil {
		p.onClose(c.d)
	}
	p.shut[c.d] = true
	p.cond.Broadcast()
	return nil
}

func (c *memConn) LocalAddr() net.Addr  { return memAddr([]string{"client", "server"}[c.d]) }
func (c *memConn) RemoteAddr() net.Addr { return memAddr([]string{"server", "client"}[c.d]) }

func (c *memConn) SetDeadline(t time.Time) error      { return nil }
func (c *memConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *memConn) SetWriteDeadline(t time.Time) error { return nil }

// tcpConn observes the closing of a real connection
type tcpConn struct {
	net.Conn
	once    sync.Once
	onClose func()
}

func (c *tcpConn) Close() error {
	c.once.Do(c.onClose)
	return c.Conn.Close()
}
