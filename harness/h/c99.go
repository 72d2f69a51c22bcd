package h

// Self-tests of the engine's treatment of the standard library: not properties of the repository.

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"maps"
	"math"
	"math/bits"
	"os"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/tabwriter"
	"time"
	"unicode"
	"unicode/utf8"

	"verif/harness/vx"
)

var _ = tabwriter.NewWriter

type hdr struct {
	Magic, Opcode uint8
	Key           uint16
	Extra, Type   uint8
	Status        uint16
	Body, Opaque  uint32
	Cas           uint64
}

func C99_binaryRead() {
	b := vx.Bytes("b", 24)
	var h hdr
	vx.Assert(binary.Read(bytes.NewReader(b), binary.BigEndian, &h) == nil, "read")
	vx.Assert(h.Cas == binary.BigEndian.Uint64(b[16:]) && h.Status == binary.BigEndian.Uint16(b[6:]), "fields")
	vx.ObsI("cas", int(h.Cas))
}

func C99_binaryWrite() {
	h := hdr{Magic: 0x80, Key: vx.U16("k"), Cas: vx.U64("c")}
	var w bytes.Buffer
	vx.Assert(binary.Write(&w, binary.BigEndian, h) == nil, "write")
	vx.Assert(w.Len() == 24 && binary.BigEndian.Uint64(w.Bytes()[16:]) == h.Cas, "bytes")
	vx.Assert(binary.Write(&w, binary.BigEndian, &h) == nil, "write")
	vx.Assert(binary.Write(&w, binary.BigEndian, uint32(7)) == nil, "write")
	vx.Assert(binary.Write(&w, binary.BigEndian, []uint16{1, 2}) == nil, "write")
	vx.ObsB("b", w.Bytes())
}

func C99_binaryAppend() {
	k := vx.U16("k")
	b := binary.BigEndian.AppendUint16(nil, k)
	b = binary.BigEndian.AppendUint64(b, vx.U64("x"))
	vx.Assert(binary.Size(hdr{}) == 24, "size")
	vx.ObsB("b", b)
}

func C99_sscanf() {
	var name string
	var n int
	c, err := fmt.Sscanf("VALUE 12", "%s %d", &name, &n)
	vx.Assert(c == 2 && err == nil && name == "VALUE" && n == 12, "sscanf")
	c, err = fmt.Sscan("7 x", &n, &name)
	vx.Assert(c == 2 && err == nil && n == 7, "sscan")
	c, err = fmt.Fscanf(strings.NewReader("VALUE 13\r\n"), "%s %d\r\n", &name, &n)
	vx.Assert(c == 2 && err == nil && n == 13, "fscanf")
}

func C99_sscanfSym() {
	d := vx.Range("d", '0', '9')
	var n int
	c, err := fmt.Sscanf("incr "+string([]byte{d}), "incr %d", &n)
	vx.Assert(c == 1 && err == nil && n == int(d-'0'), "sscanf")
}

func C99_scanner() {
	b := append(vx.Bytes("b", 3), "\r\nxy\r\n"...)
	sc := bufio.NewScanner(bytes.NewReader(b))
	n := 0
	for sc.Scan() {
		n += len(sc.Text())
	}
	vx.Assert(sc.Err() == nil, "scan")
	vx.ObsI("n", n)
}

func C99_bufio() {
	b := append(vx.Bytes("b", 2), "\r\nabc\r\n"...)
	r := bufio.NewReader(bytes.NewReader(b))
	l, err := r.ReadSlice('\n')
	vx.ObsB("l", l)
	vx.Assert(err == nil, "slice")
	r.Reset(bytes.NewReader(b))
	l, more, err := r.ReadLine()
	vx.ObsB("l", l)
	vx.Assert(!more && err == nil, "line")
	r = bufio.NewReaderSize(bytes.NewReader(b), 64)
	s, err := r.ReadString('\n')
	vx.Obs("s", s)
	p, err := r.Peek(1)
	vx.Obs("p", string(p))
	k, err := r.Discard(1)
	vx.ObsI("k", k)
	vx.ObsI("buf", r.Buffered())
	c, err := r.ReadByte()
	vx.ObsI("c", int(c))
	r.UnreadByte()
	rn, sz, err := r.ReadRune()
	vx.ObsI("rune", int(rn)+sz)
	var w bytes.Buffer
	bw := bufio.NewWriterSize(&w, 16)
	bw.WriteByte('x')
	bw.WriteRune('é')
	bw.WriteString("0123456789abcdefghij")
	io.WriteString(bw, "zz")
	vx.ObsI("av", bw.Available())
	bw.Write(bw.AvailableBuffer())
	bw.ReadFrom(bytes.NewReader(b))
	bw.Flush()
	vx.ObsB("w", w.Bytes())
	r.WriteTo(&w)
}

func C99_io() {
	b := vx.Bytes("b", 4)
	var w bytes.Buffer
	n, err := io.Copy(&w, bytes.NewReader(b))
	vx.Assert(n == 4 && err == nil, "copy")
	n, err = io.CopyN(&w, bytes.NewReader(b), 2)
	vx.Assert(n == 2 && err == nil, "copyn")
	n, err = io.CopyN(io.Discard, bytes.NewReader(b), 4)
	vx.Assert(n == 4 && err == nil, "discard")
	all, err := io.ReadAll(io.LimitReader(bytes.NewReader(b), 3))
	vx.ObsB("all", all)
	all, err = io.ReadAll(io.TeeReader(bytes.NewReader(b), &w))
	all, err = io.ReadAll(io.MultiReader(bytes.NewReader(b), strings.NewReader("x")))
	vx.ObsB("all", all)
	_, err = io.ReadAtLeast(bytes.NewReader(b), make([]byte, 8), 5)
	vx.Assert(err == io.ErrUnexpectedEOF, "atleast")
	mw := io.MultiWriter(&w, io.Discard)
	mw.Write(b)
	sr := io.NewSectionReader(bytes.NewReader(b), 1, 2)
	all, _ = io.ReadAll(sr)
	vx.ObsB("sec", all)
	pr, pw := io.Pipe()
	go func() { pw.Write(b); pw.Close() }()
	all, _ = io.ReadAll(pr)
	vx.ObsB("pipe", all)
}

func C99_bytes() {
	b := vx.Bytes("b", 2)
	l, r, ok := bytes.Cut(b, []byte(" "))
	vx.Assert(!ok || len(l)+len(r) == 1, "cut")
	vx.ObsB("l", l)
	vx.ObsB("r", r)
	_ = ok
	vx.ObsI("fields", len(bytes.Fields(b)))
	vx.ObsI("split", len(bytes.SplitN(b, []byte(" "), 2)))
	vx.ObsB("trim", bytes.TrimSpace(b))
	vx.ObsB("tr", bytes.TrimRight(b, "\r\n"))
	vx.ObsB("tl", bytes.TrimLeft(b, " "))
	vx.ObsB("tp", bytes.TrimPrefix(b, []byte("a")))
	x, f := bytes.CutPrefix(b, []byte("VA "))
	_, _ = x, f
	vx.ObsI("cnt", bytes.Count(b, []byte(" ")))
	vx.ObsI("any", bytes.IndexAny(b, " \r"))
	vx.ObsI("has", boolInt(bytes.Contains(b, []byte("ab")))+boolInt(bytes.ContainsAny(b, "xy"))+boolInt(bytes.HasSuffix(b, crlfB)))
	vx.ObsB("rep", bytes.Repeat([]byte("ab"), 3))
	vx.ObsB("clone", bytes.Clone(b))
	vx.ObsB("join", bytes.Join([][]byte{b, b}, []byte(",")))
	vx.ObsB("ra", bytes.ReplaceAll(b, []byte("a"), []byte("bb")))
	vx.ObsI("if", bytes.IndexFunc(b, func(r rune) bool { return r <= ' ' }))
	vx.ObsB("up", bytes.ToUpper([]byte("abC")))
	vx.ObsI("lf", bytes.LastIndex(b, []byte("a")))
	var buf bytes.Buffer
	buf.Write(b)
	buf.WriteString("x")
	buf.WriteByte('y')
	fmt.Fprintf(&buf, "%d", 7)
	buf.Truncate(3)
	buf.Grow(10)
	c, _ := buf.ReadByte()
	vx.ObsI("c", int(c))
	vx.ObsB("next", buf.Next(1))
	vx.Obs("str", buf.String())
	vx.ObsI("eqf", boolInt(bytes.EqualFold([]byte("aB"), []byte("Ab"))))
}

var crlfB = []byte("\r\n")

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func C99_strings() {
	vx.Assert(true, "observed")
	s := string(vx.Bytes("s", 2))
	l, r, _ := strings.Cut(s, " ")
	vx.Obs("l", l+"|"+r)
	vx.ObsI("f", len(strings.Fields(s)))
	vx.ObsI("sp", len(strings.SplitN(s, " ", 2)))
	vx.ObsI("sa", len(strings.SplitAfter(s, " ")))
	vx.Obs("t", strings.TrimRight(s, "\r\n"))
	vx.Obs("ts", strings.TrimSpace(s))
	vx.Obs("tf", strings.TrimFunc(s, unicode.IsSpace))
	vx.ObsI("ia", strings.IndexAny(s, " \t"))
	vx.ObsI("if", strings.IndexFunc(s, func(r rune) bool { return r <= ' ' || r == 0x7f }))
	vx.ObsI("ib", strings.IndexByte(s, 'x'))
	vx.ObsI("ic", boolInt(strings.ContainsRune(s, 'x'))+boolInt(strings.ContainsAny(s, "ab"))+boolInt(strings.ContainsFunc(s, unicode.IsControl)))
	vx.Obs("rp", strings.Repeat("ab", 2))
	vx.Obs("ra", strings.ReplaceAll(s, "a", "b"))
	vx.Obs("map", strings.Map(func(r rune) rune { return r }, "abc"))
	vx.Obs("lo", strings.ToLower("aBc"))
	vx.Obs("nr", strings.NewReplacer("\r", " ", "\n", " ").Replace(s))
	vx.Obs("nr2", strings.NewReplacer("\r\n", " ").Replace("a\r\nb"))
	var b strings.Builder
	b.Grow(10)
	b.WriteString(s)
	b.WriteByte('c')
	b.WriteRune('r')
	fmt.Fprintf(&b, "%d", 8)
	vx.Obs("b", b.String())
	vx.ObsI("eqf", boolInt(strings.EqualFold("aB", "Ab")))
	rd := strings.NewReader(s)
	x, _ := rd.ReadByte()
	vx.ObsI("x", int(x))
	y, ok := strings.CutSuffix(s, "\r\n")
	_, _ = y, ok
	vx.Obs("clone", strings.Clone(s))
	for i, c := range s {
		_, _ = i, c
	}
	for part := range strings.SplitSeq("a b c", " ") {
		vx.Obs("p", part)
	}
	for part := range strings.FieldsSeq("a b c") {
		vx.Obs("p", part)
	}
	vx.ObsI("cnt", utf8.RuneCountInString("aé")+boolInt(utf8.ValidString("a")))
}

func C99_strconv() {
	d := []byte{vx.Range("a", '0', '9'), vx.Range("b", '0', '9')}
	n, err := strconv.Atoi(string(d))
	vx.Assert(err == nil && n == int(d[0]-'0')*10+int(d[1]-'0'), "atoi")
	u, err := strconv.ParseUint(string(d), 10, 16)
	vx.Assert(err == nil && int(u) == n, "parseuint")
	_, err = strconv.ParseUint("x", 10, 32)
	var ne *strconv.NumError
	vx.Assert(errors.As(err, &ne) && ne.Err == strconv.ErrSyntax && errors.Is(err, strconv.ErrSyntax), "numerror")
	vx.Obs("e", err.Error())
	vx.Obs("q", strconv.Quote("a\r\n"))
	vx.Obs("i", strconv.Itoa(n))
	vx.Obs("x", strconv.FormatUint(uint64(n), 16))
	vx.ObsB("ap", strconv.AppendInt(nil, int64(n), 10))
	vx.ObsB("aq", strconv.AppendQuote(nil, "x"))
	b, err := strconv.ParseBool("true")
	vx.Assert(b && err == nil, "bool")
	h, err := strconv.ParseInt("-ff", 16, 64)
	vx.Assert(h == -255 && err == nil, "hex")
	z, err := strconv.ParseInt("0x1f", 0, 64)
	vx.Assert(z == 31 && err == nil, "base 0")
}

func C99_fmt() {
	n := vx.U16("n")
	vx.Obs("d", fmt.Sprintf("%d %s %v %q %x %t %c %5d|%-5d|%05d|%v", n, "s", []byte("ab"), "q", "hex", true, 'c', 7, 8, 9, proto("z")))
	vx.Obs("o", fmt.Sprintf("%d %v %s %q", opc(3), opc(4), proto("p"), proto("q")))
	vx.Obs("o", fmt.Sprint(opc(n&7)))
	vx.Obs("se", fmt.Sprintf("%v %v", []string{"a", "b"}, []byte{1}))
	vx.Obs("w", fmt.Errorf("a %w: %d", io.EOF, 3).Error())
	vx.Assert(errors.Is(fmt.Errorf("a %w", io.EOF), io.EOF), "wrap")
	vx.Obs("p", fmt.Sprint("a", 1, 2, "b"))
	vx.Obs("ln", fmt.Sprintln("a", 1))
	vx.Obs("ap", string(fmt.Appendf(nil, "%d", 5)))
	vx.Obs("t", fmt.Sprintf("%v %#v", io.EOF, "x"))
	vx.Obs("b", fmt.Sprintf("%s|%.3s|%10s|%*d|%%|%02x|%X|%o|%b|%U", []byte("abc"), "abcdef", "r", 4, 2, 10, 255, 8, 5, 'x'))
	vx.Obs("f", fmt.Sprintf("%.2f %g %e", 1.5, 2.25, 1e10))
	vx.Obs("n", fmt.Sprintf("%v %d", nil, "bad"))
	vx.Obs("dur", fmt.Sprint(1500*time.Millisecond, time.Duration(0)))
	vx.Obs("st", fmt.Sprintf("%s", fmt.Stringer(time.Second)))
}

func C99_errors() {
	e := errors.Join(io.EOF, io.ErrUnexpectedEOF)
	vx.Assert(errors.Is(e, io.EOF) && errors.Is(e, io.ErrUnexpectedEOF), "join")
	vx.Obs("e", e.Error())
	w := fmt.Errorf("%w and %w", io.EOF, os.ErrNotExist)
	vx.Assert(errors.Is(w, os.ErrNotExist), "two")
	vx.Assert(errors.Unwrap(fmt.Errorf("x %w", io.EOF)) == io.EOF, "unwrap")
	var t interface{ Timeout() bool }
	vx.Assert(errors.As(fmt.Errorf("x %w", vx.ErrTimeout), &t) && t.Timeout(), "as iface")
	vx.Assert(errors.Is(vx.ErrTimeout, vx.ErrTimeout), "is")
}

type pair struct {
	k string
	v int
}

func C99_sort() {
	a := []int{int(vx.U8("a")), int(vx.U8("b")), int(vx.U8("c"))}
	b := slices.Clone(a)
	sort.Ints(a)
	slices.Sort(b)
	vx.Assert(slices.Equal(a, b) && a[0] <= a[1] && a[1] <= a[2], "sorted")
	i := sort.Search(len(a), func(i int) bool { return a[i] >= 100 })
	j, _ := slices.BinarySearch(a, 100)
	k := sort.SearchInts(a, 100)
	vx.Assert(i == j && j == k, "search")
	p := []pair{{"b", 2}, {"a", 1}, {"c", 0}}
	slices.SortFunc(p, func(x, y pair) int { return strings.Compare(x.k, y.k) })
	sort.SliceStable(p, func(i, j int) bool { return p[i].v < p[j].v })
	sort.Sort(byK(p))
	sort.Stable(byK(p))
	slices.SortStableFunc(p, func(x, y pair) int { return x.v - y.v })
	vx.Obs("p", p[0].k+p[1].k+p[2].k)
	_, f := slices.BinarySearchFunc(p, 1, func(e pair, t int) int { return e.v - t })
	vx.Assert(f, "bsf")
	slices.Reverse(a)
	vx.Assert(slices.Contains(a, b[0]) && slices.Index(a, b[0]) >= 0 && slices.Max(a) == b[2], "contains")
	vx.ObsI("del", len(slices.Delete(a, 0, 1))+len(slices.Insert(b, 1, 7))+len(slices.Compact([]int{1, 1, 2}))+len(slices.Concat(a, b)))
	vx.Assert(sort.SliceIsSorted(p, func(i, j int) bool { return p[i].v < p[j].v }), "is sorted")
}

type byK []pair

func (b byK) Len() int           { return len(b) }
func (b byK) Less(i, j int) bool { return b[i].k < b[j].k }
func (b byK) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

func C99_maps() {
	m := map[string]int{"a": 1, "b": 2, "c": 3}
	ks := slices.Sorted(maps.Keys(m))
	vx.Obs("ks", strings.Join(ks, ""))
	vs := slices.Collect(maps.Values(m))
	slices.Sort(vs)
	vx.ObsI("vs", vs[0]*100+vs[1]*10+vs[2])
	c := maps.Clone(m)
	maps.DeleteFunc(c, func(k string, v int) bool { return v == 2 })
	vx.Assert(len(c) == 2 && !maps.Equal(m, c), "clone")
	maps.Copy(c, m)
	clear(m)
	vx.Assert(len(m) == 0 && len(c) == 3, "copy")
	type key struct {
		a string
		b int
	}
	mm := map[key][]int{}
	mm[key{"x", 1}] = append(mm[key{"x", 1}], 5)
	vx.Assert(len(mm[key{"x", 1}]) == 1, "struct key")
	for i := range 3 {
		defer func() { _ = i }()
	}
	mi := map[interface{}]int{1: 1, "a": 2}
	vx.Assert(mi["a"] == 2, "iface key")
}

func C99_sync() {
	var mu sync.RWMutex
	var wg sync.WaitGroup
	n := 0
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			n++
			mu.Unlock()
			mu.RLock()
			_ = n
			mu.RUnlock()
		}()
	}
	wg.Wait()
	vx.Assert(n == 2, "n")
	wg.Go(func() { n++ })
	wg.Wait()
	var once sync.Once
	once.Do(func() { n++ })
	f := sync.OnceValue(func() int { return n })
	vx.Assert(f() == 4, "once value")
	sync.OnceFunc(func() { n++ })()
	var c atomic.Int64
	c.Add(3)
	vx.Assert(c.Load() == 3 && c.CompareAndSwap(3, 4), "atomic")
	var ab atomic.Bool
	ab.Store(true)
	vx.Assert(ab.Swap(false), "bool")
	var ap atomic.Pointer[hdr]
	ap.Store(&hdr{Key: 1})
	vx.Assert(ap.Load().Key == 1, "pointer")
	var av atomic.Value
	av.Store("x")
	vx.Assert(av.Load().(string) == "x", "value")
	cond := sync.NewCond(&sync.Mutex{})
	ready := false
	go func() { cond.L.Lock(); ready = true; cond.L.Unlock(); cond.Broadcast() }()
	cond.L.Lock()
	for !ready {
		cond.Wait()
	}
	cond.L.Unlock()
	var sm sync.Map
	sm.Store("a", 1)
	v, ok := sm.Load("a")
	vx.Assert(ok && v.(int) == 1, "map")
	pool := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	b := pool.Get().(*bytes.Buffer)
	b.Reset()
	pool.Put(b)
	var x int32
	atomic.AddInt32(&x, 1)
	vx.Assert(atomic.LoadInt32(&x) == 1, "addint32")
}

func C99_time() {
	t0 := time.Now()
	tk := time.NewTicker(time.Second)
	<-tk.C
	tk.Reset(2 * time.Second)
	<-tk.C
	tk.Stop()
	vx.Assert(time.Since(t0) >= 3*time.Second, "ticks")
	tm := time.NewTimer(time.Second)
	select {
	case <-tm.C:
	case <-time.After(10 * time.Second):
		vx.Fail("order")
	}
	tm.Reset(time.Second)
	vx.Assert(tm.Stop(), "stopped")
	done := make(chan bool)
	time.AfterFunc(time.Second, func() { close(done) })
	<-done
	d := time.Now().Add(time.Minute)
	vx.Assert(d.After(t0) && t0.Before(d) && !d.IsZero() && time.Until(d) > 0 && d.Sub(t0) > time.Minute, "arith")
	var zero time.Time
	vx.Assert(zero.IsZero() && zero.Unix() < 0, "zero")
	_ = time.Unix(5, 0).Unix()
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	<-ctx.Done()
	vx.Assert(ctx.Err() == context.DeadlineExceeded, "ctx")
	ctx2, cancel2 := context.WithCancel(context.WithValue(context.Background(), "k", 1))
	cancel2()
	<-ctx2.Done()
	vx.Assert(ctx2.Err() == context.Canceled && ctx2.Value("k") == 1, "cancel")
	ctx3, cancel3 := context.WithCancelCause(context.Background())
	cancel3(io.EOF)
	vx.Assert(context.Cause(ctx3) == io.EOF, "cause")
	_, has := ctx.Deadline()
	vx.Assert(has, "deadline")
	stop := context.AfterFunc(ctx2, func() {})
	stop()
}

func C99_hash() {
	h := sha1.New()
	io.WriteString(h, "a/1")
	s := h.Sum(nil)
	x := sha1.Sum([]byte("a/1"))
	vx.Assert(bytes.Equal(s, x[:]), "sha1")
	c := crc32.NewIEEE()
	c.Write([]byte("key"))
	vx.Assert(c.Sum32() == crc32.ChecksumIEEE([]byte("key")), "crc")
	b := vx.Bytes("b", 4)
	vx.Assert(crc32.Checksum(b, crc32.IEEETable) == crc32.ChecksumIEEE(b), "checksum")
	vx.Assert(crc32.Update(0, crc32.IEEETable, b) == crc32.ChecksumIEEE(b), "update")
	c.Reset()
	c.Write(b)
	vx.Assert(c.Sum32() == crc32.ChecksumIEEE(b), "digest")
}

func C99_bits() {
	x := vx.U32("x")
	vx.ObsI("r", int(bits.Reverse32(x))+bits.OnesCount32(x)+bits.LeadingZeros32(x)+bits.Len32(x))
	vx.ObsI("b", int(bits.ReverseBytes32(x)))
	vx.ObsI("m", int(min(x, 5))+int(max(x, 7)))
	vx.Assert(math.MaxInt32 == 1<<31-1, "max")
	vx.ObsI("f", int(math.Floor(2.5))+int(float64(7)*2))
	hi, lo := bits.Mul64(uint64(x), 1<<40)
	vx.ObsI("hl", int(hi+lo))
}

type num interface{ ~int | ~uint64 }

func sum[T num](l ...T) (s T) {
	for _, x := range l {
		s += x
	}
	return
}

type opt func(*hdr)

func C99_lang() {
	vx.Assert(sum(1, 2, 3) == 6, "generic")
	h := &hdr{}
	for _, o := range []opt{func(h *hdr) { h.Key = 1 }} {
		o(h)
	}
	vx.Assert(h.Key == 1, "option")
	func() {
		defer func() { recover() }()
		panic("x")
	}()
	seq := func(yield func(int) bool) {
		for i := 0; i < 3; i++ {
			if !yield(i) {
				return
			}
		}
	}
	t := 0
	for i := range seq {
		if i == 2 {
			break
		}
		t += i
	}
	vx.Assert(t == 1, "range func")
	ch := make(chan int, 3)
	ch <- 1
	ch <- 2
	close(ch)
	for v := range ch {
		t += v
	}
	vx.Assert(t == 4, "chan range")
	arr := [4]byte{1, 2, 3, 4}
	sl := arr[1:3:3]
	a2 := [2]byte(sl)
	vx.Assert(a2 == [2]byte{2, 3}, "array conv")
	var i interface{} = h
	switch x := i.(type) {
	case fmt.Stringer:
		vx.Fail("stringer")
	case *hdr:
		vx.Assert(x == h, "ptr")
	}
	f := (*bytes.Buffer).Len
	vx.Assert(f(&bytes.Buffer{}) == 0, "method expr")
	var bb bytes.Buffer
	g := bb.Len
	vx.Assert(g() == 0, "method value")
	goto end
end:
	x := 5
	x &^= 1
	vx.Assert(x == 4, "andnot")
	var e error
	_, ok := e.(*strconv.NumError)
	vx.Assert(!ok, "nil assert")
}

type opc byte
type proto string

func C99_fmtReflect() {
	vx.Assert(fmt.Sprint(1) == "1", "fmt")
	vx.Obs("m", fmt.Sprintf("%v %v %v", map[string]int{"a": 1}, [2]int{1, 2}, &hdr{}))
	vx.Obs("T", fmt.Sprintf("%T %+v", 1, hdr{}))
}
