package h

import (
	"bytes"
	"encoding/binary"
	"strconv"
)

// A reference memcached front end: it parses the requests of the text, meta and binary protocols and
// encodes replies. It knows nothing about the code under test.

type Req struct {
	Bin    bool
	Meta   bool
	Op     string // get set add replace cas delete incr decr touch flush version noop invalidate
	Keys   [][]byte
	Flags  uint32
	Exp    int64
	HasExp bool
	Val    []byte
	Cas    uint64
	Delta  uint64
	Init   uint64
	Quiet  bool
	Gets   bool   // text: CAS tokens were asked for
	Want   []byte // meta: return flags in order; binary get: 'k' if the key is to be returned
	Opcode byte
	Opaque uint32
	Why    string // malformed: the reason

	MetaOpaque string // meta: the opaque token, if any
	Mode       string // meta: the mode token if it is not the usual one
}

func (r *Req) Key() []byte {
	if len(r.Keys) == 0 {
		return nil
	}
	return r.Keys[0]
}

func bad(why string, n int) (*Req, int) { return &Req{Op: "malformed", Why: why}, n }

func legalKey(k []byte, text bool) bool {
	if len(k) == 0 || len(k) > 250 {
		return false
	}
	if text {
		for _, b := range k {
			if b <= 32 || b == 127 {
				return false
			}
		}
	}
	return true
}

func number(t []byte, bits int) (uint64, bool) {
	if len(t) == 0 {
		return 0, false
	}
	if t[0] < '0' || t[0] > '9' {
		return 0, false
	}
	v, err := strconv.ParseUint(string(t), 10, bits)
	return v, err == nil
}

func signed(t []byte, bits int) (int64, bool) {
	if len(t) == 0 {
		return 0, false
	}
	if t[0] != '-' && (t[0] < '0' || t[0] > '9') {
		return 0, false
	}
	v, err := strconv.ParseInt(string(t), 10, bits)
	return v, err == nil
}

// parse takes one request off the front of b. A nil request means more bytes are needed.
func parse(b []byte, bin bool) (*Req, int) {
	if bin {
		return parseBinary(b)
	}
	return parseText(b)
}

func parseText(b []byte) (*Req, int) {
	nl := -1
	for i := range b {
		if b[i] == '\n' {
			nl = i
			break
		}
	}
	if nl < 0 {
		return nil, 0
	}
	n := nl + 1
	if nl == 0 || b[nl-1] != '\r' {
		return bad("line ending", n)
	}
	tok := bytes.Split(b[:nl-1], []byte(" "))
	for _, t := range tok {
		if len(t) == 0 {
			return bad("empty token", n)
		}
	}
	args := tok[1:]
	r := &Req{}
	switch cmd := string(tok[0]); cmd {
	case "get", "gets":
		if len(args) == 0 {
			return bad("no key", n)
		}
		r.Op, r.Gets = "get", cmd == "gets"
		for _, k := range args {
			if !legalKey(k, true) {
				return bad("key", n)
			}
			r.Keys = append(r.Keys, append([]byte(nil), k...))
		}
		return r, n
	case "set", "add", "replace", "cas":
		want := 4
		if cmd == "cas" {
			want = 5
		}
		if len(args) != want {
			return bad("arguments", n)
		}
		r.Op = cmd
		fl, ok1 := number(args[1], 32)
		exp, ok2 := signed(args[2], 64)
		size, ok3 := number(args[3], 31)
		if !ok1 || !ok2 || !ok3 || !legalKey(args[0], true) {
			return bad("arguments", n)
		}
		if cmd == "cas" {
			c, ok := number(args[4], 64)
			if !ok {
				return bad("cas", n)
			}
			r.Cas = c
		}
		r.Keys = [][]byte{append([]byte(nil), args[0]...)}
		r.Flags, r.Exp, r.HasExp = uint32(fl), exp, true
		return data(r, b, n, int(size))
	case "delete", "incr", "decr", "touch":
		want := 2
		if cmd == "delete" {
			want = 1
		}
		if len(args) != want || !legalKey(args[0], true) {
			return bad("arguments", n)
		}
		r.Op = cmd
		r.Keys = [][]byte{append([]byte(nil), args[0]...)}
		ok := true
		switch cmd {
		case "incr", "decr":
			r.Delta, ok = number(args[1], 64)
		case "touch":
			r.Exp, ok = signed(args[1], 64)
			r.HasExp = true
		}
		if !ok {
			return bad("arguments", n)
		}
		return r, n
	case "flush_all":
		if len(args) != 0 {
			return bad("arguments", n)
		}
		r.Op = "flush"
		return r, n
	case "version":
		if len(args) != 0 {
			return bad("arguments", n)
		}
		r.Op = "version"
		return r, n
	case "mn":
		if len(args) != 0 {
			return bad("arguments", n)
		}
		r.Op, r.Meta = "noop", true
		return r, n
	case "mg":
		return parseMeta(r, "mg", args, b, n)
	case "ms":
		return parseMeta(r, "ms", args, b, n)
	case "md":
		return parseMeta(r, "md", args, b, n)
	}
	return bad("command", n)
}

func parseMeta(r *Req, cmd string, args [][]byte, b []byte, n int) (*Req, int) {
	r.Meta = true
	if len(args) == 0 || !legalKey(args[0], true) {
		return bad("key", n)
	}
	r.Keys = [][]byte{append([]byte(nil), args[0]...)}
	fl := args[1:]
	size := 0
	if cmd == "ms" {
		if len(fl) == 0 {
			return bad("size", n)
		}
		s, ok := number(fl[0], 31)
		if !ok {
			return bad("size", n)
		}
		size = int(s)
		fl = fl[1:]
		r.Op = "set"
		r.HasExp = true
	}
	value, inval := false, false
	mode := byte('S')
	for i, f := range fl {
		for _, g := range fl[:i] {
			if g[0] == f[0] {
				return bad("duplicate flag", n)
			}
		}
		arg := f[1:]
		c := f[0]
		switch c {
		case 'T':
			v, ok := signed(arg, 64)
			if !ok {
				return bad("T", n)
			}
			r.Exp, r.HasExp = v, true
			continue
		case 'F':
			v, ok := number(arg, 32)
			if !ok || cmd != "ms" {
				return bad("F", n)
			}
			r.Flags = uint32(v)
			continue
		case 'C':
			v, ok := number(arg, 64)
			if !ok || cmd == "mg" {
				return bad("C", n)
			}
			r.Cas = v
			continue
		case 'M':
			if cmd != "ms" || len(arg) != 1 {
				return bad("M", n)
			}
			mode = arg[0]
			continue
		case 'O':
			return bad("opaque not expected", n)
		}
		if len(arg) != 0 {
			return bad("flag token", n)
		}
		switch c {
		case 'I':
			inval = true
		case 'q':
			r.Quiet = true
		case 'v':
			value = true
			r.Want = append(r.Want, c)
		case 'k', 'f', 'c', 't', 's':
			r.Want = append(r.Want, c)
		default:
			return bad("flag", n)
		}
	}
	switch cmd {
	case "mg":
		r.Op = "get"
		if r.HasExp {
			r.Op = "touch"
			if value {
				return bad("get and touch", n)
			}
		} else if !value {
			return bad("get without value", n)
		}
		return r, n
	case "md":
		r.Op = "delete"
		if inval || r.HasExp {
			r.Op = "invalidate"
		}
		return r, n
	}
	switch mode {
	case 'S', 's':
	case 'E', 'e':
		r.Op = "add"
	case 'R', 'r':
		r.Op = "replace"
	default:
		return bad("mode", n)
	}
	if r.Cas != 0 {
		if r.Op != "set" {
			return bad("cas with mode", n)
		}
		r.Op = "cas"
	}
	return data(r, b, n, size)
}

func data(r *Req, b []byte, n, size int) (*Req, int) {
	if len(b) < n+size+2 {
		return nil, 0
	}
	if b[n+size] != '\r' || b[n+size+1] != '\n' {
		return bad("data block ending", n+size+2)
	}
	r.Val = append([]byte{}, b[n:n+size]...)
	return r, n + size + 2
}

const (
	opGet     = 0x00
	opSet     = 0x01
	opAdd     = 0x02
	opReplace = 0x03
	opDelete  = 0x04
	opIncr    = 0x05
	opDecr    = 0x06
	opFlush   = 0x08
	opGetQ    = 0x09
	opNoop    = 0x0a
	opVersion = 0x0b
	opGetK    = 0x0c
	opGetKQ   = 0x0d
	opTouch   = 0x1c
)

func parseBinary(b []byte) (*Req, int) {
	if len(b) < 24 {
		return nil, 0
	}
	if b[0] != 0x80 {
		return bad("magic", len(b))
	}
	kl := int(binary.BigEndian.Uint16(b[2:]))
	el := int(b[4])
	tl := int(binary.BigEndian.Uint32(b[8:]))
	if kl+el > tl {
		return bad("lengths", len(b))
	}
	if len(b) < 24+tl {
		return nil, 0
	}
	n := 24 + tl
	if b[5] != 0 || b[6] != 0 || b[7] != 0 {
		return bad("data type or vbucket", n)
	}
	r := &Req{Bin: true, Opcode: b[1], Opaque: binary.BigEndian.Uint32(b[12:]), Cas: binary.BigEndian.Uint64(b[16:])}
	ext := b[24 : 24+el]
	key := append([]byte(nil), b[24+el:24+el+kl]...)
	val := append([]byte{}, b[24+el+kl:n]...)
	wantExt, wantKey, wantVal := 0, true, false
	switch r.Opcode {
	case opGet, opGetQ, opGetK, opGetKQ:
		r.Op = "get"
		r.Quiet = r.Opcode == opGetQ || r.Opcode == opGetKQ
		if r.Opcode == opGetK || r.Opcode == opGetKQ {
			r.Want = []byte{'k'}
		}
	case opSet, opAdd, opReplace:
		r.Op = []string{"set", "add", "replace"}[r.Opcode-opSet]
		wantExt, wantVal = 8, true
		if r.Op == "set" && r.Cas != 0 {
			r.Op = "cas"
		}
	case opDelete:
		r.Op = "delete"
	case opIncr, opDecr:
		r.Op = []string{"incr", "decr"}[r.Opcode-opIncr]
		wantExt = 20
	case opTouch:
		r.Op = "touch"
		wantExt = 4
	case opFlush:
		r.Op = "flush"
		wantKey = false
	case opNoop:
		r.Op = "noop"
		wantKey = false
	case opVersion:
		r.Op = "version"
		wantKey = false
	default:
		return bad("opcode", n)
	}
	if el != wantExt {
		return bad("extras", n)
	}
	if wantKey != (kl > 0) || kl > 250 {
		return bad("key", n)
	}
	if !wantVal && len(val) > 0 {
		return bad("unexpected value", n)
	}
	if wantKey {
		r.Keys = [][]byte{key}
	}
	r.Val = val
	switch wantExt {
	case 8:
		r.Flags = binary.BigEndian.Uint32(ext)
		r.Exp, r.HasExp = int64(int32(binary.BigEndian.Uint32(ext[4:]))), true
	case 20:
		r.Delta = binary.BigEndian.Uint64(ext)
		r.Init = binary.BigEndian.Uint64(ext[8:])
		r.Exp, r.HasExp = int64(int32(binary.BigEndian.Uint32(ext[16:]))), true
	case 4:
		r.Exp, r.HasExp = int64(int32(binary.BigEndian.Uint32(ext))), true
	}
	return r, n
}

// Out is the outcome of one request.
type Out struct {
	Kind  string // hit miss stored notstored exists notfound deleted number touched ok version nonnumeric error
	Key   []byte
	Val   []byte
	Flags uint32
	Cas   uint64
	TTL   int64 // -1: never expires
	N     uint64
	Text  []byte // version, or the error message
	// binary
	Status uint16
}

// reply encodes the outcome of r, as memcached does.
func reply(r *Req, o *Out) []byte {
	if r.Bin {
		return replyBinary(r, o)
	}
	if o.Kind == "error" {
		return append(append([]byte{}, o.Text...), "\r\n"...)
	}
	if r.Meta {
		return replyMeta(r, o)
	}
	return replyText(r, o)
}

func replyText(r *Req, o *Out) []byte {
	switch o.Kind {
	case "hit":
		return textValue(r, o)
	case "miss":
		return nil
	case "end":
		return []byte("END\r\n")
	case "stored":
		return []byte("STORED\r\n")
	case "notstored":
		return []byte("NOT_STORED\r\n")
	case "exists":
		return []byte("EXISTS\r\n")
	case "notfound":
		return []byte("NOT_FOUND\r\n")
	case "deleted":
		return []byte("DELETED\r\n")
	case "touched":
		return []byte("TOUCHED\r\n")
	case "ok":
		return []byte("OK\r\n")
	case "number":
		return append(strconv.AppendUint(nil, o.N, 10), "\r\n"...)
	case "version":
		return append(append([]byte("VERSION "), o.Text...), "\r\n"...)
	case "nonnumeric":
		return []byte("CLIENT_ERROR cannot increment or decrement non-numeric value\r\n")
	}
	panic("reply " + o.Kind)
}

func textValue(r *Req, o *Out) []byte {
	b := append([]byte("VALUE "), o.Key...)
	b = append(b, ' ')
	b = strconv.AppendUint(b, uint64(o.Flags), 10)
	b = append(b, ' ')
	b = strconv.AppendInt(b, int64(len(o.Val)), 10)
	if r.Gets {
		b = append(b, ' ')
		b = strconv.AppendUint(b, o.Cas, 10)
	}
	b = append(b, "\r\n"...)
	b = append(b, o.Val...)
	return append(b, "\r\n"...)
}

func replyMeta(r *Req, o *Out) []byte {
	switch o.Kind {
	case "hit":
		b := strconv.AppendInt([]byte("VA "), int64(len(o.Val)), 10)
		for _, f := range r.Want {
			switch f {
			case 'v':
				continue
			case 'k':
				b = append(append(b, " k"...), o.Key...)
			case 'f':
				b = strconv.AppendUint(append(b, " f"...), uint64(o.Flags), 10)
			case 'c':
				b = strconv.AppendUint(append(b, " c"...), o.Cas, 10)
			case 't':
				b = strconv.AppendInt(append(b, " t"...), o.TTL, 10)
			case 's':
				b = strconv.AppendInt(append(b, " s"...), int64(len(o.Val)), 10)
			}
		}
		b = append(b, "\r\n"...)
		b = append(b, o.Val...)
		return append(b, "\r\n"...)
	case "miss":
		return []byte("EN\r\n")
	case "noop":
		return []byte("MN\r\n")
	case "stored", "deleted", "touched":
		return []byte("HD\r\n")
	case "notstored":
		return []byte("NS\r\n")
	case "exists":
		return []byte("EX\r\n")
	case "notfound":
		if r.Op == "touch" {
			return []byte("EN\r\n")
		}
		return []byte("NF\r\n")
	}
	panic("meta reply " + o.Kind)
}

func replyBinary(r *Req, o *Out) []byte {
	var ext, key, val []byte
	var cas uint64
	status := uint16(0)
	switch o.Kind {
	case "hit":
		ext = binary.BigEndian.AppendUint32(nil, o.Flags)
		if len(r.Want) > 0 {
			key = o.Key
		}
		val, cas = o.Val, o.Cas
	case "miss", "notfound":
		status, val = 1, []byte("Not found")
		if o.Kind == "miss" && len(r.Want) > 0 {
			key, val = o.Key, nil
		}
	case "stored":
		cas = o.Cas
	case "touched":
		ext = binary.BigEndian.AppendUint32(nil, o.Flags)
		cas = o.Cas
	case "exists":
		status, val = 2, []byte("Data exists for key.")
	case "notstored":
		status, val = 5, []byte("Not stored.")
	case "nonnumeric":
		status, val = 6, []byte("Non-numeric server-side value for incr or decr")
	case "deleted", "ok", "noop":
	case "number":
		val = binary.BigEndian.AppendUint64(nil, o.N)
		cas = o.Cas
	case "version":
		val = o.Text
	case "error":
		status, val = o.Status, o.Text
	default:
		panic("binary reply " + o.Kind)
	}
	return binFrame(r.Opcode, status, ext, key, val, r.Opaque, cas)
}

func binFrame(opcode byte, status uint16, ext, key, val []byte, opaque uint32, cas uint64) []byte {
	b := make([]byte, 24, 24+len(ext)+len(key)+len(val))
	b[0], b[1] = 0x81, opcode
	binary.BigEndian.PutUint16(b[2:], uint16(len(key)))
	b[4] = byte(len(ext))
	binary.BigEndian.PutUint16(b[6:], status)
	binary.BigEndian.PutUint32(b[8:], uint32(len(ext)+len(key)+len(val)))
	binary.BigEndian.PutUint32(b[12:], opaque)
	binary.BigEndian.PutUint64(b[16:], cas)
	b = append(b, ext...)
	b = append(b, key...)
	return append(b, val...)
}
