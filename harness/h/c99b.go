package h

import (
	"bufio"
	"bytes"
	"container/heap"
	"container/list"
	"encoding/hex"
	"hash/fnv"
	"io"
	"log"
	"math"
	"net"
	"net/textproto"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"verif/harness/vx"
)

type intHeap []int

func (h intHeap) Len() int           { return len(h) }
func (h intHeap) Less(i, j int) bool { return h[i] < h[j] }
func (h intHeap) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *intHeap) Push(x any)        { *h = append(*h, x.(int)) }
func (h *intHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Parts of the library that refactorings might come to use.
func C99_more() {
	b := vx.Bytes("b", 2)
	h := &intHeap{5, 2, 8}
	heap.Init(h)
	heap.Push(h, 1)
	vx.Assert(heap.Pop(h).(int) == 1 && heap.Pop(h).(int) == 2, "heap")
	l := list.New()
	l.PushBack(1)
	l.PushFront(0)
	vx.Assert(l.Front().Value.(int) == 0 && l.Len() == 2, "list")
	f := fnv.New32a()
	f.Write([]byte("a"))
	vx.ObsI("fnv", int(f.Sum32()))
	vx.Assert(hex.EncodeToString([]byte{1, 0xab}) == "01ab", "hex")
	vx.Assert(reflect.DeepEqual([]byte{1}, []byte{1}) && !reflect.DeepEqual(map[string]int{"a": 1}, map[string]int{"a": 2}), "deep equal")
	vx.Assert(net.JoinHostPort("::1", "80") == "[::1]:80", "join")
	host, port, err := net.SplitHostPort("a:1")
	vx.Assert(err == nil && host == "a" && port == "1", "split")
	var out bytes.Buffer
	bufs := net.Buffers{[]byte("x"), b, []byte("y")}
	n, err := bufs.WriteTo(&out)
	vx.Assert(n == 4 && err == nil && out.Bytes()[1] == b[0], "buffers")
	tr := textproto.NewReader(bufio.NewReader(strings.NewReader("one\r\ntwo\r\n")))
	line, err := tr.ReadLine()
	vx.Assert(line == "one" && err == nil, "textproto")
	log.SetOutput(io.Discard)
	log.Printf("nothing %v", err)
	vx.Assert(math.MaxUint32 == 1<<32-1, "max")
	vx.Assert(strconv.FormatInt(int64(b[0]), 10) == utoa(uint64(b[0])), "format")
	vx.Assert(string(strconv.AppendUint(nil, uint64(b[1]), 10)) == utoa(uint64(b[1])), "append uint")
	vx.Assert(utf8.RuneLen('é') == 2, "rune")
	rw := bufio.NewReadWriter(bufio.NewReader(bytes.NewReader([]byte("ab\r\n"))), bufio.NewWriter(&out))
	s, err := rw.ReadString('\n')
	vx.Assert(s == "ab\r\n" && err == nil, "read string")
	rw.WriteRune('x')
	rw.Flush()
	pk, err := bufio.NewReader(bytes.NewReader([]byte("abcdef"))).Peek(3)
	vx.Assert(string(pk) == "abc" && err == nil, "peek")
	line2, pre, err := bufio.NewReaderSize(strings.NewReader(strings.Repeat("x", 40)+"\n"), 16).ReadLine()
	vx.Assert(len(line2) == 16 && pre && err == nil, "read line")
	vx.Assert(strings.Title("ab") == "Ab" && strings.Index("chicken", "ken") == 4, "strings") //nolint
	vx.Assert(bytes.IndexByte([]byte("abc"), 'c') == 2 && bytes.LastIndexByte([]byte("abcb"), 'b') == 3, "bytes")
}

func C99_pipe() {
	a, b := net.Pipe()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		buf := make([]byte, 2)
		_, err := io.ReadFull(b, buf)
		vx.Assert(err == nil && string(buf) == "hi", "pipe")
		b.Close()
	}()
	a.Write([]byte("hi"))
	wg.Wait()
	_, err := a.Read(make([]byte, 1))
	vx.Assert(err == io.EOF, "pipe end")
}

func C99_select() {
	c, stop, err := make(chan int), make(chan struct{}), make(chan error, 1)
	go func() {
		defer close(err)
		for {
			select {
			case x := <-c:
				if x == 3 {
					err <- io.EOF
					return
				}
			case <-stop:
				return
			case <-time.After(time.Minute):
				err <- io.ErrNoProgress
				return
			}
		}
	}()
	for i := 1; i <= 3; i++ {
		c <- i
	}
	vx.Assert(<-err == io.EOF, "select")
	_, ok := <-err
	vx.Assert(!ok, "closed")
	close(stop)
	select {
	case <-stop:
	default:
		vx.Fail("default")
	}
	t := time.NewTimer(time.Hour)
	vx.Assert(t.Stop(), "stop")
	t.Reset(time.Second)
	<-t.C
	sem := make(chan struct{}, 2)
	sem <- struct{}{}
	vx.Assert(len(sem) == 1 && cap(sem) == 2, "len")
}
