package main

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"io"
)

// The wire format, written down again independently of geminio's packet package.

type frame struct {
	typ     string
	id      uint64
	sid     uint64 // stream, or the id a session negotiates
	nid     uint64
	cid     uint64
	acq     bool
	hb      int // seconds
	ret     byte
	data    []byte // payload: value, raw bytes
	m       string // method, key
	err     string
	meta    []byte
	peer    string
	cust    []byte
	topic   string
	ctyp    int
	body    []byte // overrides the encoding
	code    byte   // overrides the type
	rawbody bool
	forged  bool
}

var wcodes = map[string]byte{
	"conn": 0x01, "connack": 0x02, "dis": 0x11, "disack": 0x12, "hb": 0x21, "hback": 0x22,
	"ses": 0x31, "sesack": 0x32, "dsm": 0x41, "dsmack": 0x42, "msg": 0x51, "msgack": 0x52,
	"raw": 0x61, "req": 0x71, "rsp": 0x72, "cancel": 0x73, "reg": 0x81, "regack": 0x82,
}
var wnames = map[byte]string{}

func init() {
	for n, c := range wcodes {
		wnames[c] = n
	}
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func jobj(kv ...interface{}) []byte {
	m := map[string]interface{}{}
	for i := 0; i < len(kv); i += 2 {
		switch v := kv[i+1].(type) {
		case string:
			if v != "" {
				m[kv[i].(string)] = v
			}
		case []byte:
			if len(v) > 0 {
				m[kv[i].(string)] = b64(v)
			}
		}
	}
	b, _ := json.Marshal(m)
	return b
}

func u64(x uint64) []byte { return binary.BigEndian.AppendUint64(nil, x) }

func cat(xs ...[]byte) []byte {
	out := []byte{}
	for _, x := range xs {
		out = append(out, x...)
	}
	return out
}

func (f *frame) encode() []byte {
	var b []byte
	switch f.typ {
	case "conn":
		fl := byte(0x04)
		if f.acq {
			fl |= 0x08
		}
		switch f.hb {
		case 20:
			fl |= 0x10
		case 80:
			fl |= 0x20
		case 320:
			fl |= 0x30
		}
		b = cat([]byte{fl, 0}, u64(f.cid), jobj("meta", f.meta))
	case "connack":
		b = cat([]byte{f.ret}, u64(f.cid), jobj("error", f.err))
	case "dis", "hb", "hback":
	case "disack":
		b = cat([]byte{f.ret}, jobj("error", f.err))
	case "ses":
		fl := byte(0)
		if f.acq {
			fl |= 0x10
		}
		b = cat([]byte{0, fl}, u64(f.nid), jobj("meta", f.meta, "peer", f.peer))
	case "sesack":
		b = cat([]byte{0, 0}, u64(f.nid), u64(f.sid), jobj("error", f.err))
	case "dsm", "dsmack":
		b = cat(u64(f.sid), jobj("error", f.err))
	case "msg", "msgack", "req", "rsp":
		b = cat(u64(f.sid), jobj("key", []byte(f.m), "value", f.data, "error", f.err, "custom", f.cust, "topic", f.topic))
	case "raw":
		b = cat(u64(f.sid), f.data)
	case "cancel":
		b = cat(u64(f.sid), []byte{0, byte(f.ctyp)})
	case "reg":
		b = cat(u64(f.sid), []byte(f.m))
	case "regack":
		b = cat(u64(f.sid), jobj("error", f.err))
	}
	code := wcodes[f.typ]
	if f.code != 0 {
		code = f.code
	}
	if f.rawbody {
		b = f.body
	}
	return cat([]byte{1, code}, u64(f.id), binary.BigEndian.AppendUint32(nil, uint32(len(b))), b)
}

var errFrame = errors.New("bad frame")

func readFrame(r io.Reader) (*frame, error) {
	h := make([]byte, 14)
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, err
	}
	f := &frame{typ: wnames[h[1]], id: binary.BigEndian.Uint64(h[2:])}
	n := binary.BigEndian.Uint32(h[10:])
	if h[0] != 1 || f.typ == "" || n > 64<<20 {
		return nil, errFrame
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	need := map[string]int{"conn": 10, "connack": 9, "disack": 1, "ses": 10, "sesack": 18, "dsm": 8, "dsmack": 8,
		"msg": 8, "msgack": 8, "req": 8, "rsp": 8, "raw": 8, "cancel": 10, "reg": 8, "regack": 8}[f.typ]
	if len(b) < need {
		return nil, errFrame
	}
	var js []byte
	switch f.typ {
	case "conn":
		f.acq = b[0]&8 != 0
		f.hb = []int{5, 20, 80, 320}[b[0]>>4&3]
		f.cid = binary.BigEndian.Uint64(b[2:])
		js = b[10:]
	case "connack":
		f.ret = b[0]
		f.cid = binary.BigEndian.Uint64(b[1:])
		js = b[9:]
	case "disack":
		f.ret = b[0]
		js = b[1:]
	case "ses":
		f.acq = b[1]&0x10 != 0
		f.nid = binary.BigEndian.Uint64(b[2:])
		js = b[10:]
	case "sesack":
		f.nid = binary.BigEndian.Uint64(b[2:])
		f.sid = binary.BigEndian.Uint64(b[10:])
		js = b[18:]
	case "dsm", "dsmack", "msg", "msgack", "req", "rsp", "regack":
		f.sid = binary.BigEndian.Uint64(b)
		js = b[8:]
	case "raw":
		f.sid = binary.BigEndian.Uint64(b)
		f.data = b[8:]
	case "cancel":
		f.sid = binary.BigEndian.Uint64(b)
		f.ctyp = int(b[9])
	case "reg":
		f.sid = binary.BigEndian.Uint64(b)
		f.m = string(b[8:])
	}
	if js != nil {
		var x struct {
			Meta, Key, Value, Custom []byte
			Error, Peer, Topic       string
		}
		if err := json.Unmarshal(js, &x); err != nil {
			return nil, errFrame
		}
		f.meta, f.data, f.m, f.err, f.peer, f.cust, f.topic = x.Meta, x.Value, string(x.Key), x.Error, x.Peer, x.Custom, x.Topic
	}
	return f, nil
}
