package h

import (
	"bytes"
	"encoding/binary"
	"strconv"

	"go.f110.dev/go-memcached/server"
	"verif/harness/vx"
)

// handler is a server.Handler that records the requests it gets.
type handler struct {
	reqs []*server.Request
	f    func(r *server.Request) ([]*server.Response, error)
}

func (h *handler) ServeRequest(r *server.Request) ([]*server.Response, error) {
	h.reqs = append(h.reqs, r)
	return h.f(r)
}

// front is a running server.
type front struct {
	l *vx.Listener
	s *server.Server
}

func newFront(h server.Handler, conns ...*vx.Conn) *front {
	f := &front{l: vx.NewListener(), s: &server.Server{Handler: h}}
	for _, c := range conns {
		f.l.Offer(c)
	}
	vx.Go("accept", func() { f.s.Serve(f.l) })
	return f
}

// okResponses is a handler's answer of success.
func okResponses(r *server.Request, bin bool) []*server.Response {
	hit := func(k string) *server.Response {
		return &server.Response{Key: k, Flags: be32(5), Value: []byte("v"), Cas: 7, TTL: 9}
	}
	switch r.Opcode {
	case server.OpcodeGet:
		if len(r.Keys) > 0 {
			var l []*server.Response
			for _, k := range r.Keys {
				l = append(l, hit(k))
			}
			return l
		}
		return []*server.Response{hit(r.Key)}
	case server.OpcodeIncrement, server.OpcodeDecrement:
		return []*server.Response{{Key: r.Key, Value: counter(12, bin)}}
	case server.OpcodeVersion:
		return []*server.Response{{Value: []byte("1.6.24")}}
	}
	return []*server.Response{{Key: r.Key}}
}

func counter(n uint64, bin bool) []byte {
	if bin {
		return binary.BigEndian.AppendUint64(nil, n)
	}
	return strconv.AppendUint(nil, n, 10)
}

func sp(b []byte, s ...string) []byte {
	for _, x := range s {
		b = append(append(b, ' '), x...)
	}
	return b
}

func utoa(v uint64) string { return string(strconv.AppendUint(nil, v, 10)) }
func itoa(v int64) string  { return string(strconv.AppendInt(nil, v, 10)) }

// encode writes a request the way a client of the protocol does.
func encode(r *Req) []byte {
	switch {
	case r.Bin:
		return encodeBinary(r)
	case r.Meta:
		return encodeMeta(r)
	}
	return encodeText(r)
}

func encodeText(r *Req) []byte {
	k := string(r.Key())
	var b []byte
	switch r.Op {
	case "get":
		if r.Gets {
			b = []byte("gets")
			for _, k := range r.Keys {
				b = sp(b, string(k))
			}
		} else {
			b = sp([]byte("get"), k)
		}
	case "set", "add", "replace":
		b = sp([]byte(r.Op), k, utoa(uint64(r.Flags)), itoa(r.Exp), itoa(int64(len(r.Val))))
		b = append(b, "\r\n"...)
		b = append(b, r.Val...)
	case "delete":
		b = sp([]byte(r.Op), k)
	case "incr", "decr":
		b = sp([]byte(r.Op), k, utoa(r.Delta))
	case "touch":
		b = sp([]byte(r.Op), k, itoa(r.Exp))
	case "flush":
		b = []byte("flush_all")
	case "version":
		b = []byte("version")
	}
	return append(b, "\r\n"...)
}

func encodeMeta(r *Req) []byte {
	k := string(r.Key())
	var b []byte
	switch r.Op {
	case "get":
		b = sp([]byte("mg"), k)
		for _, f := range r.Want {
			b = sp(b, string(rune(f)))
		}
		if r.Quiet {
			b = sp(b, "q")
		}
	case "touch":
		b = sp([]byte("mg"), k, "T"+itoa(r.Exp))
	case "set", "add", "replace", "cas":
		b = sp([]byte("ms"), k, itoa(int64(len(r.Val))))
		if r.Flags != 0 {
			b = sp(b, "F"+utoa(uint64(r.Flags)))
		}
		if r.HasExp {
			b = sp(b, "T"+itoa(r.Exp))
		}
		if r.Op == "cas" {
			b = sp(b, "C"+utoa(r.Cas))
		}
		mode := map[string]string{"add": "ME", "replace": "MR"}[r.Op]
		if r.Mode != "" {
			mode = r.Mode
		}
		if mode != "" {
			b = sp(b, mode)
		}
		if r.MetaOpaque != "" {
			b = sp(b, "O"+r.MetaOpaque)
		}
		for _, f := range r.Want {
			b = sp(b, string(rune(f)))
		}
		b = append(b, "\r\n"...)
		b = append(b, r.Val...)
	case "delete":
		b = sp([]byte("md"), k)
	}
	return append(b, "\r\n"...)
}

func encodeBinary(r *Req) []byte {
	var ext, val []byte
	key := r.Key()
	switch r.Op {
	case "set", "add", "replace", "cas":
		ext = append(be32(r.Flags), be32(uint32(r.Exp))...)
		val = r.Val
	case "incr", "decr":
		ext = binary.BigEndian.AppendUint64(nil, r.Delta)
		ext = binary.BigEndian.AppendUint64(ext, r.Init)
		ext = append(ext, be32(uint32(r.Exp))...)
	case "touch":
		ext = be32(uint32(r.Exp))
	}
	b := make([]byte, 24)
	b[0] = 0x80
	b[1] = opcodeOf(r)
	binary.BigEndian.PutUint16(b[2:], uint16(len(key)))
	b[4] = byte(len(ext))
	binary.BigEndian.PutUint32(b[8:], uint32(len(ext)+len(key)+len(val)))
	binary.BigEndian.PutUint32(b[12:], r.Opaque)
	binary.BigEndian.PutUint64(b[16:], r.Cas)
	b = append(b, ext...)
	b = append(b, key...)
	return append(b, val...)
}

func opcodeOf(r *Req) byte {
	switch r.Op {
	case "get":
		if r.Quiet {
			return opGetKQ
		}
		return opGet
	case "set", "cas":
		return opSet
	case "add":
		return opAdd
	case "replace":
		return opReplace
	case "delete":
		return opDelete
	case "incr":
		return opIncr
	case "decr":
		return opDecr
	case "touch":
		return opTouch
	case "flush":
		return opFlush
	case "noop":
		return opNoop
	case "version":
		return opVersion
	}
	return 0xff
}

// Rep is one parsed reply.
type Rep struct {
	Kind  string // hit miss stored notstored exists notfound deleted touched ok number version noop error malformed
	Items []*Out // hits of a get
	N     uint64
	Text  []byte
	// binary
	Status  uint16
	Opcode  byte
	Opaque  uint32
	Cas     uint64
	Tokens  [][]byte // meta: tokens after the code
	Why     string
	Flagged map[byte]string
}

func badRep(why string) *Rep { return &Rep{Kind: "malformed", Why: why} }

func cutLine(b []byte) ([]byte, int) {
	for i := range b {
		if b[i] == '\n' {
			if i == 0 || b[i-1] != '\r' {
				return nil, -1
			}
			return b[:i-1], i + 1
		}
	}
	return nil, 0
}

// parseReply takes the reply to r off the front of b. A nil reply means there is none (yet).
func parseReply(r *Req, b []byte) (*Rep, int) {
	if len(b) == 0 {
		return nil, 0
	}
	switch {
	case r.Bin:
		return parseBinaryReply(r, b)
	case r.Meta:
		return parseMetaReply(r, b)
	}
	return parseTextReply(r, b)
}

func errorLine(l []byte) bool {
	return string(l) == "ERROR" || bytes.HasPrefix(l, []byte("CLIENT_ERROR ")) || bytes.HasPrefix(l, []byte("SERVER_ERROR "))
}

func parseTextReply(r *Req, b []byte) (*Rep, int) {
	l, n := cutLine(b)
	if n < 0 {
		return badRep("line ending"), len(b)
	}
	if n == 0 {
		return nil, 0
	}
	if errorLine(l) {
		return &Rep{Kind: "error", Text: l}, n
	}
	word := string(l)
	switch r.Op {
	case "get":
		rep := &Rep{Kind: "miss"}
		for {
			if string(l) == "END" {
				return rep, n
			}
			t := bytes.Split(l, []byte(" "))
			if len(t) < 4 || string(t[0]) != "VALUE" || len(t) > 5 || (len(t) == 5) != r.Gets {
				return badRep("value line"), len(b)
			}
			fl, ok1 := number(t[2], 32)
			sz, ok2 := number(t[3], 31)
			if !ok1 || !ok2 {
				return badRep("value line numbers"), len(b)
			}
			o := &Out{Kind: "hit", Key: t[1], Flags: uint32(fl)}
			if r.Gets {
				c, ok := number(t[4], 64)
				if !ok {
					return badRep("value line cas"), len(b)
				}
				o.Cas = c
			}
			if len(b) < n+int(sz)+2 {
				return nil, 0
			}
			o.Val = b[n : n+int(sz)]
			if b[n+int(sz)] != '\r' || b[n+int(sz)+1] != '\n' {
				return badRep("value ending"), len(b)
			}
			n += int(sz) + 2
			rep.Kind = "hit"
			rep.Items = append(rep.Items, o)
			var m int
			l, m = cutLine(b[n:])
			if m < 0 {
				return badRep("line ending"), len(b)
			}
			if m == 0 {
				return nil, 0
			}
			n += m
		}
	case "set", "add", "replace", "cas":
		switch word {
		case "STORED":
			return &Rep{Kind: "stored"}, n
		case "NOT_STORED":
			return &Rep{Kind: "notstored"}, n
		case "EXISTS":
			return &Rep{Kind: "exists"}, n
		case "NOT_FOUND":
			return &Rep{Kind: "notfound"}, n
		}
	case "delete":
		switch word {
		case "DELETED":
			return &Rep{Kind: "deleted"}, n
		case "NOT_FOUND":
			return &Rep{Kind: "notfound"}, n
		}
	case "touch":
		switch word {
		case "TOUCHED":
			return &Rep{Kind: "touched"}, n
		case "NOT_FOUND":
			return &Rep{Kind: "notfound"}, n
		}
	case "incr", "decr":
		if word == "NOT_FOUND" {
			return &Rep{Kind: "notfound"}, n
		}
		if v, ok := number(l, 64); ok {
			return &Rep{Kind: "number", N: v}, n
		}
	case "flush":
		if word == "OK" {
			return &Rep{Kind: "ok"}, n
		}
	case "version":
		if bytes.HasPrefix(l, []byte("VERSION ")) {
			return &Rep{Kind: "version", Text: l[8:]}, n
		}
	}
	return badRep("reply to " + r.Op), len(b)
}

func parseMetaReply(r *Req, b []byte) (*Rep, int) {
	l, n := cutLine(b)
	if n < 0 {
		return badRep("line ending"), len(b)
	}
	if n == 0 {
		return nil, 0
	}
	if errorLine(l) {
		return &Rep{Kind: "error", Text: l}, n
	}
	t := bytes.Split(l, []byte(" "))
	rep := &Rep{Flagged: map[byte]string{}}
	args := t[1:]
	code := string(t[0])
	var val []byte
	if code == "VA" {
		if r.Op != "get" || len(args) == 0 {
			return badRep("value reply"), len(b)
		}
		sz, ok := number(args[0], 31)
		if !ok {
			return badRep("value size"), len(b)
		}
		args = args[1:]
		if len(b) < n+int(sz)+2 {
			return nil, 0
		}
		val = b[n : n+int(sz)]
		if b[n+int(sz)] != '\r' || b[n+int(sz)+1] != '\n' {
			return badRep("value ending"), len(b)
		}
		n += int(sz) + 2
	}
	for _, a := range args {
		if len(a) == 0 {
			return badRep("empty flag"), len(b)
		}
		rep.Flagged[a[0]] = string(a[1:])
	}
	rep.Tokens = args
	switch {
	case r.Op == "get" && (code == "VA" || code == "HD"):
		rep.Kind = "hit"
		o := &Out{Kind: "hit", Val: val, Key: r.Key(), TTL: -2}
		ok := true
		for i, f := range []byte("fctsk") {
			s, has := rep.Flagged[f]
			if !has {
				continue
			}
			var v uint64
			switch i {
			case 0:
				v, ok = number([]byte(s), 32)
				o.Flags = uint32(v)
			case 1:
				o.Cas, ok = number([]byte(s), 64)
			case 2:
				o.TTL, ok = signed([]byte(s), 64)
			case 3:
				v, ok = number([]byte(s), 31)
				if ok && code == "VA" && int(v) != len(val) {
					return badRep("size flag"), len(b)
				}
			case 4:
				o.Key = []byte(s)
			}
			if !ok {
				return badRep("flag value"), len(b)
			}
		}
		rep.Items = []*Out{o}
	case r.Op == "get" && l != nil && string(l) == "EN":
		rep.Kind = "miss"
	case code == "HD":
		rep.Kind = map[string]string{"touch": "touched", "delete": "deleted"}[r.Op]
		if rep.Kind == "" {
			rep.Kind = "stored"
		}
	case code == "EN" && r.Op == "touch":
		rep.Kind = "notfound"
	case code == "NF" && r.Op != "get":
		rep.Kind = "notfound"
	case code == "NS" && r.Op != "delete" && r.Op != "get" && r.Op != "touch":
		rep.Kind = "notstored"
	case code == "EX" && r.Op != "get" && r.Op != "touch":
		rep.Kind = "exists"
	default:
		return badRep("reply to " + r.Op), len(b)
	}
	return rep, n
}

func parseBinaryReply(r *Req, b []byte) (*Rep, int) {
	if len(b) < 24 {
		return nil, 0
	}
	if b[0] != 0x81 {
		return badRep("magic"), len(b)
	}
	kl := int(binary.BigEndian.Uint16(b[2:]))
	el := int(b[4])
	tl := int(binary.BigEndian.Uint32(b[8:]))
	if kl+el > tl {
		return badRep("lengths"), len(b)
	}
	if len(b) < 24+tl {
		return nil, 0
	}
	n := 24 + tl
	rep := &Rep{Opcode: b[1], Status: binary.BigEndian.Uint16(b[6:]), Opaque: binary.BigEndian.Uint32(b[12:]), Cas: binary.BigEndian.Uint64(b[16:])}
	ext, key, val := b[24:24+el], b[24+el:24+el+kl], b[24+el+kl:n]
	if rep.Opcode != opcodeOf(r) {
		return badRep("opcode of the reply"), n
	}
	if b[5] != 0 {
		return badRep("data type"), n
	}
	switch rep.Status {
	case 0:
	case 1:
		rep.Kind = "notfound"
		if r.Op == "get" {
			rep.Kind = "miss"
		}
		return rep, n
	case 2:
		rep.Kind = "exists"
		return rep, n
	case 5:
		rep.Kind = "notstored"
		return rep, n
	default:
		rep.Kind, rep.Text = "error", val
		return rep, n
	}
	switch r.Op {
	case "get":
		if el != 4 {
			return badRep("extras of a hit"), n
		}
		rep.Kind = "hit"
		o := &Out{Kind: "hit", Key: key, Val: val, Flags: binary.BigEndian.Uint32(ext), Cas: rep.Cas}
		if len(key) == 0 {
			if r.Quiet {
				return badRep("no key in a hit of a quiet get"), n
			}
			o.Key = r.Key()
		}
		rep.Items = []*Out{o}
		return rep, n
	case "incr", "decr":
		if el != 0 || kl != 0 || len(val) != 8 {
			return badRep("counter reply"), n
		}
		rep.Kind, rep.N = "number", binary.BigEndian.Uint64(val)
		return rep, n
	case "version":
		if el != 0 || kl != 0 {
			return badRep("version reply"), n
		}
		rep.Kind, rep.Text = "version", val
		return rep, n
	case "touch":
		rep.Kind = "touched"
		if kl != 0 || (el != 0 && el != 4) || len(val) != 0 {
			return badRep("touch reply"), n
		}
		return rep, n
	}
	if tl != 0 {
		return badRep("unexpected body"), n
	}
	rep.Kind = map[string]string{"set": "stored", "add": "stored", "replace": "stored", "cas": "stored", "delete": "deleted", "flush": "ok", "noop": "noop"}[r.Op]
	return rep, n
}

// The operations of a front end.
var frontOps = [][]string{
	{"get", "gets", "set", "add", "replace", "delete", "incr", "decr", "touch", "flush", "version"},
	{"get", "set", "cas", "add", "replace", "delete", "touch"},
	{"get", "getkq", "set", "cas", "add", "replace", "delete", "incr", "decr", "touch", "flush", "version", "noop"},
}

// frontReq is a plain request of the given kind.
func frontReq(proto int, op string) *Req {
	r := &Req{Op: op, Meta: proto == meta, Bin: proto == bin, Keys: [][]byte{[]byte("key")}}
	switch op {
	case "gets":
		r.Op, r.Gets = "get", true
		r.Keys = [][]byte{[]byte("key"), []byte("kez")}
	case "getkq":
		r.Op, r.Quiet, r.Want = "get", true, []byte{'k'}
	case "get":
		if proto == meta {
			r.Want = []byte("vfct")
		}
	case "set", "add", "replace", "cas":
		r.Val, r.Flags, r.Exp, r.HasExp = []byte("value"), 3, 60, true
		if op == "cas" {
			r.Cas = 77
		}
	case "incr", "decr":
		r.Delta = 5
	case "touch":
		r.Exp, r.HasExp = 30, true
	case "flush", "version", "noop":
		r.Keys = nil
	}
	return r
}

// checkRequest asserts that what the handler got is what the request says.
func checkRequest(q *server.Request, r *Req, lbl string) {
	want := map[string]server.Opcode{"get": server.OpcodeGet, "set": server.OpcodeSet, "cas": server.OpcodeSet, "add": server.OpcodeAdd, "replace": server.OpcodeReplace,
		"delete": server.OpcodeDelete, "incr": server.OpcodeIncrement, "decr": server.OpcodeDecrement, "touch": server.OpcodeTouch, "flush": server.OpcodeFlush,
		"version": server.OpcodeVersion, "noop": server.OpcodeNoop}[r.Op]
	lbl += " " + r.Op
	vx.Assert(q.Opcode == want, lbl+": the operation")
	if r.Op == "flush" || r.Op == "version" || r.Op == "noop" {
		return
	}
	keys := q.Keys
	if len(keys) == 0 {
		keys = []string{q.Key}
	}
	vx.Assert(len(keys) == len(r.Keys), lbl+": as many keys as asked")
	for i := range keys {
		vx.Assert(i >= len(r.Keys) || keys[i] == string(r.Keys[i]), lbl+": the key")
	}
	switch r.Op {
	case "get":
		if r.Meta {
			if q.GetOpt == nil {
				vx.Fail(lbl + ": the flags")
				return
			}
			o := q.GetOpt
			has := func(f byte) bool { return bytes.IndexByte(r.Want, f) >= 0 }
			vx.Assert(o.Meta, lbl+": is a meta request")
			vx.Assert(o.Value == has('v') && o.Flag == has('f') && o.Cas == has('c') && o.TTL == has('t') && o.Key == has('k') && o.Size == has('s') && o.NoReply == r.Quiet, lbl+": the flags")
		} else if r.Bin {
			vx.Assert((q.GetOpt != nil && q.GetOpt.NoReply) == r.Quiet, lbl+": quiet or not")
		}
	case "set", "cas", "add", "replace":
		vx.Assert(eqb(q.Value, r.Val), lbl+": the value")
		if q.SetOpt == nil {
			vx.Fail(lbl + ": the options")
			return
		}
		vx.Assert(int64(q.SetOpt.Expiration) == r.Exp, lbl+": the expiration")
		vx.Assert(q.SetOpt.CasValue == r.Cas && q.SetOpt.Cas == (r.Cas != 0), lbl+": the CAS token")
		vx.Assert(q.SetOpt.Meta == r.Meta, lbl+": meta or not")
		if r.Meta {
			vx.Assert(uint32(q.SetOpt.Flag) == r.Flags, lbl+": the flags")
			vx.Assert(!q.SetOpt.Invalidate && !q.SetOpt.NoReply, lbl+": no option that was not asked for")
			vx.Assert(q.SetOpt.Key == (bytes.IndexByte(r.Want, 'k') >= 0), lbl+": the return flags")
		} else {
			vx.Assert(len(q.Flags) == 4 && u32(q.Flags) == r.Flags, lbl+": the flags")
		}
	case "incr", "decr":
		vx.Assert(uint64(q.Delta) == r.Delta, lbl+": the amount")
		if r.Bin {
			vx.Assert(q.SetOpt != nil && int64(q.SetOpt.Expiration) == r.Exp, lbl+": the expiration")
		}
	case "touch":
		vx.Assert(q.SetOpt != nil && int64(q.SetOpt.Expiration) == r.Exp, lbl+": the expiration")
	case "delete":
		vx.Assert((q.DelOpt != nil && q.DelOpt.Meta) == r.Meta, lbl+": meta or not")
	}
}
