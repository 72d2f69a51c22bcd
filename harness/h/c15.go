package h

import (
	"errors"
	"fmt"

	merrors "go.f110.dev/go-memcached/errors"
	"go.f110.dev/go-memcached/server"
	"verif/harness/vx"
)

// exchange sends one request to a server and parses what comes back.
func exchange(r *Req, f func(q *server.Request) ([]*server.Response, error), lbl string) (*Rep, *vx.Conn) {
	calls := 0
	h := &handler{f: func(q *server.Request) ([]*server.Response, error) {
		calls++
		l, err := f(q)
		var out []*server.Response
		for _, w := range l {
			x := *w // what is compared with must not be the server's
			x.Value, x.Flags = append([]byte(nil), w.Value...), append([]byte(nil), w.Flags...)
			if w.Flags == nil {
				x.Flags = nil
			}
			out = append(out, &x)
		}
		return out, err
	}}
	c := vx.NewConn("c0", nil)
	newFront(h, c)
	c.Feed(encode(r))
	vx.Idle()
	vx.Assert(calls == 1, lbl+": the handler is called once")
	b := c.Written()
	vx.ObsB("reply", b)
	rep, n := parseReply(r, b)
	vx.Assert(n == len(b), lbl+": there is one reply")
	if rep == nil {
		return nil, c
	}
	vx.Assert(rep.Kind != "malformed", lbl+": the reply is well-formed")
	vx.Obs("why", rep.Why)
	if r.Bin {
		vx.Assert(rep.Opaque == r.Opaque, lbl+": the opaque is echoed")
	}
	return rep, c
}

// metaWants are the return flags of a meta get.
var metaWants = []string{"v", "vf", "vc", "vt", "vk", "vs", "vfct", "kfvcts", "f", "c", "t", "s", "k", "tkcsf"}

func isText(r *Req) bool { return !r.Bin && !r.Meta }

// checkHit compares an item of a reply with what the handler said.
func checkHit(o *Out, r *Req, key string, w *server.Response, lbl string) {
	vx.Assert(string(o.Key) == key, lbl+": the key is right")
	want := func(f byte) bool { return !r.Meta || contains(r.Want, f) }
	if want('v') {
		vx.Assert(eqb(o.Val, w.Value), lbl+": the value is the handler's")
	}
	if want('f') {
		fl := uint32(0)
		if len(w.Flags) == 4 {
			fl = u32(w.Flags)
		}
		vx.Assert(o.Flags == fl, lbl+": the flags are the handler's")
	}
	if r.Bin || r.Gets || r.Meta && want('c') {
		vx.Assert(o.Cas == uint64(w.Cas), lbl+": the CAS token is the handler's")
	}
	if r.Meta && want('t') {
		vx.Assert(o.TTL == w.TTL, lbl+": the time to live is the handler's")
	}
}

func contains(b []byte, c byte) bool {
	for _, x := range b {
		if x == c {
			return true
		}
	}
	return false
}

// Hits.
func C15_hits() {
	vx.Bound("get of every protocol (meta with 14 choices of return flags, quiet and plain binary): a hit with a value of 0..3 arbitrary bytes or of 255, 4060, 4096, 8192, 65536 and 70000 bytes; any flags, none or 4 bytes; any CAS token, any time to live; the handler naming the key or not; key of 2 arbitrary bytes, any opaque")
	proto := vx.Choose("proto", 3)
	r := frontReq(proto, "get")
	switch proto {
	case meta:
		r.Want = []byte(metaWants[vx.Choose("want", len(metaWants))])
	case bin:
		if vx.Bool("quiet") {
			r = frontReq(proto, "getkq")
		}
		r.Opaque = vx.U32("opaque")
	}
	r.Keys[0] = []byte(symKey("key", 2, proto))
	w := &server.Response{Key: string(r.Keys[0]), TTL: -1}
	if vx.Bool("no key") {
		w.Key = ""
	}
	switch vx.Choose("arbitrary", 4) {
	case 0:
		w.Value = vx.Bytes("val", vx.Choose("vlen", 4))
		w.Flags = be32(7)
	case 1:
		w.Value, w.Flags = []byte("v"), vx.Bytes("flags", 4)
	case 2:
		w.Value, w.Cas = []byte("v"), int64(vx.U64("cas"))
		if vx.Bool("ttl") {
			w.TTL = int64(vx.Int("ttl", 0, 1<<31))
		}
	case 3:
		l := []int{255, 4060, 4096, 8192, 65536, 70000}
		w.Value = edgeVal("val", l[vx.Choose("big", len(l))])
	}
	lbl := protoName[proto] + " get"
	rep, c := exchange(r, func(q *server.Request) ([]*server.Response, error) { return []*server.Response{w}, nil }, lbl)
	vx.Assert(!c.IsClosed(), lbl+": the connection stays open")
	if rep == nil {
		vx.Fail(lbl + ": there is a reply")
		return
	}
	vx.Assert(rep.Kind == "hit" && len(rep.Items) == 1, lbl+": a hit is a hit")
	for _, o := range rep.Items {
		checkHit(o, r, string(r.Keys[0]), w, lbl)
	}
	if r.Meta {
		vx.Assert(len(rep.Tokens) == len(noV(r.Want)), lbl+": the return flags are those asked for")
		for i, f := range noV(r.Want) {
			vx.Assert(i < len(rep.Tokens) && rep.Tokens[i][0] == f, lbl+": the return flags come in order")
		}
	}
}

func noV(b []byte) []byte {
	var l []byte
	for _, x := range b {
		if x != 'v' && x != 'q' {
			l = append(l, x)
		}
	}
	return l
}

// Multi-gets.
func C15_multi() {
	vx.Bound("gets of 1..3 (thorough: 4) keys, each a hit with an arbitrary byte, flags of 10 and CAS token of 19 digits, a miss reported or left out, or failing")
	n := 1 + vx.Choose("n", 3)
	if vx.Thorough() {
		n = 1 + vx.Choose("n4", 4)
	}
	r := &Req{Op: "get", Gets: true}
	var out []*server.Response
	var hits []*server.Response
	failed := false
	for i := 0; i < n; i++ {
		k := "k" + string('a'+byte(i))
		r.Keys = append(r.Keys, []byte(k))
		switch vx.Choose("result", 4) {
		case 0:
			w := &server.Response{Key: k, Value: vx.Bytes("val", 1), Flags: be32(uint32(vx.Int("flags", 1000000000, 1<<32-1))), Cas: int64(vx.Int("cas", 1000000000000000000, 1<<62))}
			out, hits = append(out, w), append(hits, w)
		case 1:
			out = append(out, &server.Response{Key: k, Error: merrors.ItemNotFound})
		case 2:
		case 3:
			out = append(out, &server.Response{Key: k, Error: errors.New("broken")})
			failed = true
		}
	}
	rep, c := exchange(r, func(q *server.Request) ([]*server.Response, error) { return out, nil }, "gets")
	vx.Assert(!c.IsClosed(), "gets: the connection stays open")
	if rep == nil {
		vx.Fail("gets: there is a reply")
		return
	}
	if failed {
		vx.Assert(rep.Kind == "error", "gets: an error is an error")
		return
	}
	vx.Assert(rep.Kind == "hit" || len(hits) == 0 && rep.Kind == "miss", "gets: hits are hits")
	vx.Assert(len(rep.Items) == len(hits), "gets: every hit is returned")
	for i, o := range rep.Items {
		if i < len(hits) {
			checkHit(o, r, hits[i].Key, hits[i], "gets")
		}
	}
}

var okKind = map[string]string{"set": "stored", "cas": "stored", "add": "stored", "replace": "stored", "delete": "deleted", "touch": "touched",
	"flush": "ok", "version": "version", "noop": "noop", "incr": "number", "decr": "number", "get": "hit"}

func mayMiss(op string) bool {
	switch op {
	case "flush", "version", "noop", "add":
		return false
	}
	return true
}

// Successes and failures of every operation.
func C15_results() {
	vx.Bound("every supported command with a 2-byte arbitrary key and any opaque; the handler answers with success, not found, exists (where they make sense; plain and wrapped), a protocol error of any other status, an error of 0..3 arbitrary bytes of text, no response, or fails")
	proto := vx.Choose("proto", 3)
	ops := frontOps[proto]
	r := frontReq(proto, ops[vx.Choose("op", len(ops))])
	for i := range r.Keys {
		r.Keys[i] = append([]byte(symKey("key", 2, proto)), byte('a'+i))
	}
	if r.Bin {
		r.Opaque = vx.U32("opaque")
	}
	lbl := protoName[proto] + " " + r.Op
	if r.Quiet {
		lbl += " (quiet)"
	}
	store := isBodied(r)
	fail := func(err error) func(q *server.Request) ([]*server.Response, error) {
		return func(q *server.Request) ([]*server.Response, error) {
			return []*server.Response{{Key: q.Key, Error: err}}, nil
		}
	}
	wrap := func(err error) error {
		if vx.Bool("wrapped") {
			return fmt.Errorf("proxy: %w", err)
		}
		return err
	}
	var want []string
	var f func(q *server.Request) ([]*server.Response, error)
	var status uint16
	kind := vx.Choose("result", 7)
	switch kind {
	case 0:
		f = func(q *server.Request) ([]*server.Response, error) { return okResponses(q, proto == bin), nil }
		want = []string{okKind[r.Op]}
	case 1:
		if !mayMiss(r.Op) {
			vx.Stop()
		}
		f = fail(wrap(merrors.ItemNotFound))
		switch r.Op {
		case "get":
			want = []string{"miss"}
			if r.Quiet {
				want = append(want, "")
			}
		case "replace":
			want = []string{"notfound", "notstored"}
		default:
			want = []string{"notfound"}
		}
	case 2:
		if !store {
			vx.Stop()
		}
		f = fail(wrap(merrors.ItemExists))
		want = []string{"exists"}
		if r.Op == "add" {
			want = append(want, "notstored")
		}
	case 3:
		status = vx.U16("status")
		vx.Assume(status != 0 && status != 1 && status != 2 && status != 5)
		f = fail(&merrors.MemcachedError{Status: status, Message: "busy"})
		want = []string{"error"}
	case 4:
		f = fail(errors.New(string(vx.Bytes("text", vx.Choose("tlen", 4)))))
		want = []string{"error"}
	case 5:
		f = func(q *server.Request) ([]*server.Response, error) { return nil, nil }
		// nothing was said to have been done
		switch {
		case r.Op == "get" && r.Quiet:
			want = []string{"miss", ""}
		case r.Op == "get":
			want = []string{"miss"}
		default:
			want = nil
		}
	case 6:
		f = func(q *server.Request) ([]*server.Response, error) { return nil, errors.New("broken") }
		want = []string{"error"}
	}
	rep, c := exchange(r, f, lbl)
	if kind == 6 && rep == nil {
		vx.Assert(c.IsClosed(), lbl+": a failed request is answered or the connection ends")
		return
	}
	got := ""
	if rep != nil {
		got = rep.Kind
	}
	vx.Obs("kind", got)
	if want == nil {
		vx.Assert(got != "" && got != "hit", lbl+": there is a reply")
	} else {
		vx.Assert(has(want, got), lbl+": the reply says what the handler said")
	}
	if kind != 6 {
		vx.Assert(!c.IsClosed(), lbl+": the connection stays open")
	}
	if rep == nil {
		return
	}
	if r.Bin && kind == 3 {
		vx.Assert(rep.Status == status, lbl+": the status is the handler's")
	}
	if kind == 0 {
		switch rep.Kind {
		case "number":
			vx.Assert(rep.N == 12, lbl+": the number is the handler's")
		case "version":
			vx.Assert(string(rep.Text) == "1.6.24", lbl+": the version is the handler's")
		case "hit":
			vx.Assert(len(rep.Items) == len(r.Keys), lbl+": every hit")
		}
	}
	vx.Reach("result " + got)
}

// Numbers and versions.
func C15_values() {
	vx.Bound("increment, decrement (any 64-bit number over binary, 1..4 digits over text) and version (0..3 arbitrary printable bytes, or a text that starts like the reply)")
	proto := []int{text, bin}[vx.Choose("proto", 2)]
	r := frontReq(proto, []string{"incr", "decr", "version"}[vx.Choose("op", 3)])
	if proto == bin {
		r.Opaque = vx.U32("opaque")
	}
	w := &server.Response{Key: "key"}
	n := uint64(0)
	switch {
	case r.Op == "version":
		k := vx.Choose("n", 7)
		if k > 3 {
			w.Value = []byte([]string{"VERSION", "VERSION-1.6", "VERSIONS 1.6 of 2"}[k-4])
			k = 0
		}
		for i := 0; i < k; i++ {
			w.Value = append(w.Value, vx.Range("c", 33, 126))
		}
	case proto == bin:
		n = vx.U64("n")
		w.Value = counter(n, true)
		w.Cas = int64(vx.U64("cas"))
	default:
		k := []int{1, 2, 3, 4}[vx.Choose("digits", 4)]
		for i := 0; i < k; i++ {
			lo := byte('0')
			if i == 0 && k > 1 {
				lo = '1'
			}
			d := vx.Range("d", lo, '9')
			w.Value = append(w.Value, d)
			n = n*10 + uint64(d-'0')
		}
	}
	lbl := protoName[proto] + " " + r.Op
	rep, c := exchange(r, func(q *server.Request) ([]*server.Response, error) { return []*server.Response{w}, nil }, lbl)
	vx.Assert(!c.IsClosed(), lbl+": the connection stays open")
	if rep == nil {
		vx.Fail(lbl + ": there is a reply")
		return
	}
	vx.Assert(rep.Kind == okKind[r.Op], lbl+": success is success")
	if r.Op == "version" {
		vx.Assert(eqb(rep.Text, w.Value), lbl+": the version is the handler's")
		return
	}
	vx.Assert(rep.N == n, lbl+": the number is the handler's")
	if r.Bin {
		vx.Assert(rep.Cas == uint64(w.Cas), lbl+": the CAS token is the handler's")
	}
}

// Meta requests with every flag.
func C15_meta() {
	vx.Bound("ms with the key returned and an opaque; the modes; success, not found, exists and errors; md and touch")
	r := frontReq(meta, []string{"set", "add", "replace"}[vx.Choose("op", 3)])
	r.Keys[0] = []byte(symKey("key", 2, meta))
	r.Want = []byte("k")
	want := 1
	if r.MetaOpaque = []string{"", "7", "-7", "9223372036854775807", "-9223372036854775808"}[vx.Choose("opaque", 5)]; r.MetaOpaque != "" {
		want = 2
	}
	k := vx.Choose("result", 4)
	var err error
	switch k {
	case 1:
		err = merrors.ItemNotFound
	case 2:
		err = merrors.ItemExists
	case 3:
		err = errors.New("broken")
	}
	lbl := "meta " + r.Op
	rep, c := exchange(r, func(q *server.Request) ([]*server.Response, error) {
		return []*server.Response{{Error: err}}, nil
	}, lbl)
	vx.Assert(!c.IsClosed(), lbl+": the connection stays open")
	if rep == nil {
		vx.Fail(lbl + ": there is a reply")
		return
	}
	if err != nil {
		vx.Assert(rep.Kind != "stored", lbl+": a failure is not a success")
		vx.Assert(k != 3 || rep.Kind == "error", lbl+": an error is an error")
		return
	}
	vx.Assert(rep.Kind == "stored", lbl+": success is success")
	vx.Assert(rep.Flagged['k'] == string(r.Keys[0]) && len(rep.Tokens) == want, lbl+": the key is returned")
	vx.Assert(rep.Flagged['O'] == r.MetaOpaque, lbl+": the opaque is returned")
}

// Multi-gets of many keys.
func C15_many() {
	vx.Bound("gets of 17, 65, 100, 257 (thorough: also 1025) keys of 1..5 or 250 bytes, all hits or every third, values of 0, 1 (arbitrary) and 300 bytes")
	ns := []int{17, 65, 100, 257}
	if vx.Thorough() {
		ns = append(ns, 1025)
	}
	n := ns[vx.Choose("n", len(ns))]
	step := 1 + 2*vx.Choose("step", 2)
	long := vx.Bool("long")
	r := &Req{Op: "get", Gets: true}
	var out, hits []*server.Response
	for i := 0; i < n; i++ {
		k := "k" + utoa(uint64(n-i))
		if long {
			k += longText(250 - len(k))
		}
		r.Keys = append(r.Keys, []byte(k))
		if i%step != 0 {
			if i%2 == 0 {
				out = append(out, &server.Response{Key: k, Error: merrors.ItemNotFound})
			}
			continue
		}
		w := &server.Response{Key: k, Flags: be32(uint32(i)), Cas: int64(i)}
		switch i / step % 3 {
		case 0:
			w.Value = []byte{vx.U8("val")}
		case 1:
			w.Value = []byte(longText(300))
		}
		out, hits = append(out, w), append(hits, w)
	}
	rep, c := exchange(r, func(q *server.Request) ([]*server.Response, error) { return out, nil }, "gets of many keys")
	vx.Assert(!c.IsClosed(), "gets of many keys: the connection stays open")
	if rep == nil {
		vx.Fail("gets of many keys: there is a reply")
		return
	}
	vx.Assert(rep.Kind == "hit" && len(rep.Items) == len(hits), "gets of many keys: every hit is returned")
	for i, o := range rep.Items {
		if i < len(hits) {
			checkHit(o, r, hits[i].Key, hits[i], "gets of many keys")
		}
	}
}
