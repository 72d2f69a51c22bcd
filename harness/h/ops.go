package h

import (
	"context"
	"encoding/binary"
	"errors"
	"net"
	"time"

	"go.f110.dev/go-memcached/client"
	merrors "go.f110.dev/go-memcached/errors"
	"verif/harness/vx"
)

const (
	text = iota
	meta
	bin
)

var protoName = []string{"text", "meta", "binary"}

const (
	oGet = iota
	oGetMulti
	oSet
	oAdd
	oReplace
	oDelete
	oIncr
	oDecr
	oTouch
	oFlush
	oVersion
	nOps
)

var opName = []string{"get", "getmulti", "set", "add", "replace", "delete", "incr", "decr", "touch", "flush", "version"}

// Call is one client operation with its arguments.
type Call struct {
	op    int
	key   string
	keys  []string
	item  *client.Item
	delta int
	exp   int
}

// Res is what the operation returned.
type Res struct {
	item  *client.Item
	items []*client.Item
	n     int64
	ver   string
	err   error
}

func (c *Call) do(s client.Server) (r Res) {
	switch c.op {
	case oGet:
		r.item, r.err = s.Get(c.key)
	case oGetMulti:
		r.items, r.err = s.GetMulti(c.keys...)
	case oSet:
		r.err = s.Set(c.item)
	case oAdd:
		r.err = s.Add(c.item)
	case oReplace:
		r.err = s.Replace(c.item)
	case oDelete:
		r.err = s.Delete(c.key)
	case oIncr:
		r.n, r.err = s.Increment(c.key, c.delta, c.exp)
	case oDecr:
		r.n, r.err = s.Decrement(c.key, c.delta, c.exp)
	case oTouch:
		r.err = s.Touch(c.key, c.exp)
	case oFlush:
		r.err = s.Flush()
	case oVersion:
		r.ver, r.err = s.Version()
	}
	return
}

func isStore(op int) bool { return op == oSet || op == oAdd || op == oReplace }
func isArith(op int) bool { return op == oIncr || op == oDecr }

// dial connects a handle of the given protocol over conns handed out one per dial.
func dial(proto int, conns ...*vx.Conn) client.Server {
	i := 0
	vx.OnDial(func(network, addr string) (net.Conn, error) {
		if i >= len(conns) {
			return nil, errRefused
		}
		i++
		if conns[i-1] == nil {
			return nil, errRefused
		}
		return conns[i-1], nil
	})
	return newHandle(proto, "srv")
}

// dialOpts is dial with one connection and options.
func dialOpts(proto int, conn *vx.Conn, opts ...client.ServerOpt) client.Server {
	vx.OnDial(func(network, addr string) (net.Conn, error) {
		if conn == nil {
			return nil, errRefused
		}
		c := conn
		conn = nil
		return c, nil
	})
	return newHandle(proto, "srv", opts...)
}

type refused struct{}

func (refused) Error() string { return "connection refused" }

var errRefused error = refused{}

func newHandle(proto int, name string, opts ...client.ServerOpt) client.Server {
	return newHandleAt(proto, name, name, opts...)
}

func newHandleAt(proto int, name, addr string, opts ...client.ServerOpt) client.Server {
	var s client.Server
	var err error
	switch proto {
	case text:
		s, err = client.NewServerWithTextProtocol(context.Background(), name, "tcp", addr, opts...)
	case meta:
		s, err = client.NewServerWithMetaProtocol(context.Background(), name, "tcp", addr, opts...)
	case bin:
		s, err = client.NewServerWithBinaryProtocol(context.Background(), name, "tcp", addr, opts...)
	}
	vx.Assert(err == nil, "connecting succeeds")
	return s
}

// symKey is any legal key of n bytes.
func symKey(name string, n int, proto int) string {
	b := make([]byte, n)
	for i := range b {
		if proto == bin {
			b[i] = vx.U8(name)
		} else {
			b[i] = vx.Range(name, 33, 255)
			vx.Assume(b[i] != 127)
		}
	}
	return string(b)
}

// edgeKey is a legal key of n bytes of which the first two and the last one are arbitrary.
func edgeKey(name string, n int, proto int) string {
	if n <= 4 {
		return symKey(name, n, proto)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%23)
	}
	copy(b, symKey(name, 2, proto))
	copy(b[n-1:], symKey(name, 1, proto))
	return string(b)
}

// edgeVal is a value of n bytes, arbitrary at both ends.
func edgeVal(name string, n int) []byte {
	if n <= 6 {
		return vx.Bytes(name, n)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/256)
	}
	copy(b, vx.Bytes(name, 2))
	copy(b[n-3:], vx.Bytes(name, 3))
	return b
}

func u32(b []byte) uint32 {
	if len(b) != 4 {
		return 0
	}
	return binary.BigEndian.Uint32(b)
}

func be32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

func eqb(a, b []byte) bool { return string(a) == string(b) }

// serve answers each complete request with f(request).
func serveWith(proto int, f func(r *Req) []byte) func(c *vx.Conn) {
	return func(c *vx.Conn) {
		for {
			r, n := parse(c.In, proto == bin)
			if r == nil {
				return
			}
			c.In = c.In[n:]
			if b := f(r); len(b) > 0 {
				c.Send(b)
			}
		}
	}
}

func obsRes(r Res) {
	vx.Obs("err", errName(r.err))
	if r.item != nil {
		obsItem(r.item)
	}
	for _, i := range r.items {
		obsItem(i)
	}
	vx.ObsI("n", int(r.n))
	vx.Obs("ver", r.ver)
}

func obsItem(i *client.Item) {
	vx.Obs("item.key", i.Key)
	vx.ObsB("item.val", i.Value)
	vx.ObsB("item.flags", i.Flags)
	vx.ObsI("item.exp", i.Expiration)
	vx.ObsI("item.cas", int(i.Cas))
}

func errName(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, merrors.ItemNotFound):
		return "notfound"
	case errors.Is(err, merrors.ItemExists):
		return "exists"
	}
	return "other"
}

// newItem is a plain item.
func newItem(key, val string, cas bool) *client.Item {
	it := &client.Item{Key: key, Value: []byte(val), Flags: be32(3), Expiration: 60}
	if cas {
		it.Cas = 0x0102030405060708
	}
	return it
}

func setTimeout(s client.Server, d time.Duration) {
	switch x := s.(type) {
	case *client.ServerWithTextProtocol:
		x.Timeout = d
	case *client.ServerWithMetaProtocol:
		x.Timeout = d
	case *client.ServerWithBinaryProtocol:
		x.Timeout = d
	}
}
