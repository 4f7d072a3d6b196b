package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/jumboframes/armorigo/synchub"
	"github.com/singchia/geminio/application"
)

const INF = 2000000000

// watchdog: something which must happen and didn't for this long hangs
var watchdog = 25 * time.Second

// Rec records the events of one run, in one global order.
type Rec struct {
	mu   sync.Mutex
	t0   time.Time
	buf  []byte
	n    int
	hung bool
	bad  string
	// real 64-bit ids to small numbers
	cids map[uint64]int
	ks   map[string]int // conn/stream id -> k
	nk   int
	nop  int
	// packet id -> operation, per conn/stream/origin side
	msgs  map[string]int
	calls map[string]int
}

func NewRec() *Rec {
	r := &Rec{t0: time.Now(), cids: map[uint64]int{0: 0}, ks: map[string]int{}, msgs: map[string]int{}, calls: map[string]int{}}
	r.Ev("reset")
	return r
}

func (r *Rec) Now() int { return int(time.Since(r.t0) / time.Millisecond) }

// At is the absolute time for a time of the run
func (r *Rec) At(ms int) time.Time { return r.t0.Add(time.Duration(ms) * time.Millisecond) }

func (r *Rec) Ms(t time.Time) int { return int(t.Sub(r.t0) / time.Millisecond) }

func (r *Rec) put(ev string, kv ...interface{}) {
	b := r.buf
	b = append(b, `{"ev":"`...)
	b = append(b, ev...)
	b = append(b, fmt.Sprintf(`","t":%d`, r.Now())...)
	for i := 0; i+1 < len(kv); i += 2 {
		b = append(b, ',', '"')
		b = append(b, kv[i].(string)...)
		b = append(b, '"', ':')
		v, err := json.Marshal(kv[i+1])
		if err != nil {
			panic(err)
		}
		b = append(b, v...)
	}
	b = append(b, '}', '\n')
	r.buf = b
	r.n++
}

func (r *Rec) Ev(ev string, kv ...interface{}) {
	r.mu.Lock()
	r.put(ev, kv...)
	r.mu.Unlock()
}

func (r *Rec) Hang(what string, kv ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.hung {
		return
	}
	r.hung = true
	r.put("hang", append([]interface{}{"what", what}, kv...)...)
}

func (r *Rec) Hung() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.hung
}

// op numbers
func (r *Rec) Op() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nop++
	return r.nop
}

// with the lock held
func (r *Rec) cid(id uint64) int {
	n, ok := r.cids[id]
	if !ok {
		n = len(r.cids)
		r.cids[id] = n
	}
	return n
}

// K numbers the stream (lock held)
func (r *Rec) k(c int, sid uint64) int {
	key := fmt.Sprintf("%d/%d", c, sid)
	n, ok := r.ks[key]
	if !ok {
		r.nk++
		n = r.nk
		r.ks[key] = n
	}
	return n
}

func (r *Rec) K(c int, sid uint64) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.k(c, sid)
}

func idkey(c, d int, id uint64) string { return fmt.Sprintf("%d/%d/%d", c, d, id) }

func dig(b []byte) string {
	if len(b) <= 12 {
		return hex.EncodeToString(b)
	}
	return fmt.Sprintf("%s:%d:%08x", hex.EncodeToString(b[:4]), len(b), crc32.ChecksumIEEE(b))
}

// errors of the application: any text, other errors' included
var oddTexts = map[string]bool{"x": true, "EOF": true, "\x00\u00fc\t\u2028\U0001f600": true, strings.Repeat("long ", 2000): true, "timeout": true, "\n": true}

func oddText(i int) string {
	ks := []string{}
	for k := range oddTexts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks[i%len(ks)]
}

func cls(err error) (string, string) {
	if err == nil {
		return "ok", ""
	}
	txt := err.Error()
	switch {
	case err == io.EOF:
		return "eof", ""
	case errors.Is(err, context.Canceled):
		return "cancel", ""
	case errors.Is(err, os.ErrDeadlineExceeded), errors.Is(err, context.DeadlineExceeded), errors.Is(err, synchub.ErrSyncTimeout):
		return "timeout", ""
	case err == application.ErrMismatchClientID, err == application.ErrMismatchStreamID:
		return "mismatch", ""
	case err == application.ErrRemoteRPCUnregistered:
		return "unreg", ""
	case strings.HasPrefix(txt, "no such rpc"):
		return "nosuch", ""
	case strings.HasPrefix(txt, "app:"), oddTexts[txt]:
		return "app", txt
	}
	return "other", txt
}
