// Package self exercises the engine with language and library features that the code
// under test may use: every sampled path is compared with a native run.
package self

import (
	"bufio"
	"bytes"
	"container/list"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"maps"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/WatchBeam/rtmp/zzverif/sym"
)

type pair struct {
	A uint32
	B uint16
	C [3]byte
}

//verif:property SELF
func Structs() {
	var p, q pair
	b := sym.Bytes("b", 9)
	sym.Assert(binary.Read(bytes.NewReader(b), binary.BigEndian, &p) == nil, "read")
	sym.Assert(binary.Size(p) == 9, "size")
	var w bytes.Buffer
	sym.Assert(binary.Write(&w, binary.LittleEndian, p) == nil, "write")
	sym.Assert(binary.Read(&w, binary.LittleEndian, &q) == nil && p == q, "equal")
	x, err := binary.Append(nil, binary.BigEndian, &q)
	sym.Assert(err == nil && sym.EqBytes(x, b), "append")
	n, err := binary.Decode(b, binary.BigEndian, &q)
	sym.Assert(err == nil && n == 9, "decode")
	sym.Observe("a", uint64(q.A))
	sym.ObserveBytes("x", x)
	var xs [2]uint32
	sym.Assert(binary.Read(bytes.NewReader(b), binary.BigEndian, xs[:]) == nil, "read slice")
	sym.Observe("x1", uint64(xs[1]))
	sym.Cover("ok")
}

//verif:property SELF
func SyncMap() {
	var m sync.Map
	k := sym.Uint32("k")
	_, ok := m.Load(k)
	sym.Assert(!ok, "empty")
	m.Store(k, 7)
	m.Store(uint32(3), 8)
	v, ok := m.Load(uint32(3))
	sym.Assert(ok && v == 8, "load")
	v, loaded := m.LoadOrStore(k, 9)
	sym.Observe("v", uint64(v.(int)))
	sym.Assert(loaded, "loaded")
	n := 0
	m.Range(func(k, v any) bool { n++; return true })
	sym.Observe("n", uint64(n))
	v, loaded = m.LoadAndDelete(k)
	sym.Assert(loaded, "deleted")
	m.Delete(k)
	_, ok = m.Load(k)
	sym.Assert(!ok, "gone")
	v, loaded = m.Swap(k, 1)
	sym.Assert(!loaded && v == nil, "swap")
	sym.Assert(m.CompareAndSwap(k, 1, 2), "cas")
	sym.Cover("ok")
}

//verif:property SELF
func Pools() {
	p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	b := p.Get().(*bytes.Buffer)
	b.WriteString("hello")
	p.Put(b)
	c := p.Get().(*bytes.Buffer)
	sym.Assert(c.Len() == 0 || c.Len() == 5, "pooled")
	sym.Cover("ok")
}

//verif:property SELF
func Conds() {
	var mu sync.Mutex
	c := sync.NewCond(&mu)
	ready := 0
	done := make(chan int)
	for i := 0; i < 2; i++ {
		go func() {
			mu.Lock()
			for ready == 0 {
				c.Wait()
			}
			ready--
			mu.Unlock()
			done <- 1
		}()
	}
	mu.Lock()
	ready = 2
	c.Broadcast()
	mu.Unlock()
	<-done
	<-done
	sym.Cover("ok")
}

//verif:property SELF
//verif:mode full
func CondsAny() { Conds() }

//verif:property SELF
func Contexts() {
	ctx, cancel := context.WithCancel(context.Background())
	ctx2 := context.WithValue(ctx, pair{}, 5)
	sym.Assert(ctx2.Value(pair{}) == 5, "value")
	done := make(chan struct{})
	go func() { <-ctx2.Done(); close(done) }()
	sym.Assert(ctx.Err() == nil, "live")
	cancel()
	<-done
	sym.Assert(errors.Is(ctx.Err(), context.Canceled), "cancelled")
	sym.Cover("ok")
}

//verif:property SELF
func Timers() {
	select {
	case <-time.After(time.Millisecond):
		sym.Cover("fired")
	}
	t := time.NewTimer(time.Hour)
	sym.Assert(t.Stop(), "stopped")
	c := make(chan int)
	time.AfterFunc(time.Millisecond, func() { c <- 1 })
	<-c
	time.Sleep(time.Millisecond)
	ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
	<-ctx.Done()
	cancel()
	start := time.Now()
	_ = time.Since(start) > time.Hour
	sym.Cover("ok")
}

//verif:property SELF
func Text() {
	n := 1234567
	s := strconv.Itoa(n) + ":" + strconv.FormatUint(uint64(n), 16) + fmt.Sprintf("|%d|%v|%s|%x|%q", n, true, "x", 255, "q")
	sym.Observe("len", uint64(len(strings.Split(s, "|"))))
	v, err := strconv.Atoi("42")
	sym.Assert(err == nil && v == 42, "atoi")
	_, err = strconv.Atoi("x")
	sym.Assert(err != nil, "atoi error")
	sym.Assert(strings.HasPrefix(s, "1234567:12d687|"), "itoa")
	sym.Assert(strings.Contains(strings.ToUpper("abc"), "BC"), "upper")
	var sb strings.Builder
	sb.WriteByte('a')
	sb.WriteString("bc")
	sb.WriteRune('é')
	sym.Assert(sb.String() == "abcé", "builder")
	sym.Assert(hex.EncodeToString([]byte{1, 255}) == "01ff", "hex")
	e := fmt.Errorf("wrap %d: %w", 3, io.EOF)
	sym.Assert(errors.Is(e, io.EOF), "is")
	j := errors.Join(io.EOF, io.ErrShortWrite)
	sym.Assert(errors.Is(j, io.ErrShortWrite), "join")
	var pe *strconv.NumError
	sym.Assert(errors.As(err, &pe) && pe.Func == "Atoi", "as")
	for i, r := range "aé" {
		sym.Observe("r", uint64(i)<<32|uint64(r))
	}
	sym.Cover("ok")
}

//verif:property SELF
func Streams() {
	b := sym.Bytes("b", 12)
	br := bufio.NewReaderSize(bytes.NewReader(b), 16)
	x, err := br.ReadByte()
	sym.Assert(err == nil && x == b[0], "readbyte")
	pk, err := br.Peek(3)
	sym.Assert(err == nil && sym.EqBytes(pk, b[1:4]), "peek")
	var out bytes.Buffer
	bw := bufio.NewWriter(&out)
	n, err := io.CopyN(bw, br, 5)
	sym.Assert(err == nil && n == 5, "copyn")
	bw.WriteByte(9)
	bw.Flush()
	var o2 bytes.Buffer
	mw := io.MultiWriter(&out, &o2)
	tr := io.TeeReader(io.LimitReader(br, 2), mw)
	rest, err := io.ReadAll(tr)
	sym.Assert(err == nil && len(rest) == 2, "readall")
	mr := io.MultiReader(bytes.NewReader(rest), strings.NewReader("ab"))
	all, err := io.ReadAll(mr)
	sym.Assert(err == nil, "multireader")
	out.Write(all)
	out.Truncate(out.Len() - 1)
	c, _ := out.ReadByte()
	out.UnreadByte()
	sym.Assert(c == b[1], "unread")
	nx := out.Next(2)
	sym.ObserveBytes("nx", nx)
	sym.ObserveBytes("out", out.Bytes())
	sym.ObserveBytes("o2", o2.Bytes())
	pr, pw := io.Pipe()
	go func() { pw.Write(b[:4]); pw.Close() }()
	p, err := io.ReadAll(pr)
	sym.Assert(err == nil && sym.EqBytes(p, b[:4]), "pipe")
	sr := io.NewSectionReader(bytes.NewReader(b), 2, 3)
	s, _ := io.ReadAll(sr)
	sym.ObserveBytes("s", s)
	buf := make([]byte, 4)
	_, err = io.CopyBuffer(&out, bytes.NewReader(b), buf)
	sym.Assert(err == nil, "copybuffer")
	sym.Assert(bytes.HasPrefix(b, b[:2]) && bytes.Equal(bytes.Repeat([]byte{1}, 2), []byte{1, 1}), "bytes")
	sym.Assert(bytes.Compare([]byte{1}, []byte{2}) < 0 && bytes.IndexByte([]byte{3, 4}, 4) == 1, "compare")
	cl := bytes.Clone(b)
	sym.Assert(sym.EqBytes(cl, b), "clone")
	sym.Cover("ok")
}

type stack[T any] struct{ xs []T }

func (s *stack[T]) push(x T) { s.xs = append(s.xs, x) }
func (s *stack[T]) all() func(func(int, T) bool) {
	return func(yield func(int, T) bool) {
		for i, x := range s.xs {
			if !yield(i, x) {
				return
			}
		}
	}
}

type num interface{ ~int | ~uint32 }

func sum[T num](xs ...T) (t T) {
	for _, x := range xs {
		t += x
	}
	return
}

//verif:property SELF
func Language() {
	var s stack[uint32]
	s.push(sym.Uint32("x"))
	s.push(4)
	t := uint32(0)
	for i, x := range s.all() {
		t += x * uint32(i+1)
		if i == 1 {
			break
		}
	}
	sym.Observe("t", uint64(t))
	sym.Assert(sum(1, 2, 3) == 6, "sum")
	xs := []int{3, 1, 2}
	slices.Sort(xs)
	sort.Slice(xs, func(i, j int) bool { return xs[i] > xs[j] })
	sym.Assert(xs[0] == 3 && slices.Contains(xs, 1) && slices.Index(xs, 1) == 2 && slices.Max(xs) == 3, "slices")
	slices.Reverse(xs)
	xs = slices.Insert(xs, 1, 9)
	xs = slices.Delete(xs, 0, 1)
	sym.Assert(len(xs) == 3 && xs[0] == 9, "insert")
	m := map[string]int{"a": 1, "b": 2}
	keys := slices.Sorted(maps.Keys(m))
	sym.Assert(len(keys) == 2 && keys[0] == "a", "keys")
	delete(m, "a")
	clear(m)
	sym.Assert(len(m) == 0 && min(3, 2) == 2 && max(1.5, 2) == 2, "builtins")
	l := list.New()
	l.PushBack(1)
	l.PushFront(2)
	sym.Assert(l.Front().Value == 2 && l.Len() == 2, "list")
	for i := range 3 {
		defer func() { sym.Observe("d", uint64(i)) }()
	}
	func() {
		defer func() {
			r := recover()
			sym.Assert(r != nil, "recovered")
		}()
		var z []int
		_ = z[len(xs)]
	}()
	i := 0
loop:
	if i < 3 {
		i++
		goto loop
	}
	arr := [2][2]int{{1, 2}, {3, 4}}
	brr := arr
	brr[1][1] = 5
	sym.Assert(arr != brr && arr[1][1] == 4, "arrays")
	part := [2]int(xs[1:3])
	part[0] = 7
	sym.Assert(xs[1] != 7 && part[1] == xs[2], "slice to array")
	f := s.push
	f(6)
	g := (*stack[uint32]).push
	g(&s, 7)
	sym.Assert(len(s.xs) == 4, "method values")
	var e any = errors.New("x")
	switch v := e.(type) {
	case fmt.Stringer:
		sym.Fail("stringer")
	case error:
		sym.Assert(v.Error() == "x", "switch")
	}
	st := struct{ a, b int }{1, 2}
	sym.Assert(st == struct{ a, b int }{1, 2}, "anonymous")
	sym.Cover("ok")
}

//verif:property SELF
func Atomics() {
	var i atomic.Int64
	var u atomic.Uint32
	var b atomic.Bool
	var p atomic.Pointer[pair]
	var v atomic.Value
	i.Add(3)
	u.Store(4)
	sym.Assert(u.CompareAndSwap(4, 5) && u.Load() == 5, "cas")
	sym.Assert(!b.Swap(true) && b.Load(), "bool")
	p.Store(&pair{A: 9})
	sym.Assert(p.Load().A == 9, "pointer")
	v.Store("x")
	sym.Assert(v.Load() == "x", "value")
	var once sync.Once
	for range 2 {
		once.Do(func() { i.Add(1) })
	}
	of := sync.OnceValue(func() int { i.Add(1); return 5 })
	sym.Assert(of() == 5 && of() == 5, "oncevalue")
	sym.Assert(i.Load() == 5, "once")
	var rw sync.RWMutex
	rw.RLock()
	rw.RLock()
	rw.RUnlock()
	rw.RUnlock()
	rw.Lock()
	rw.Unlock()
	var wg sync.WaitGroup
	for range 3 {
		wg.Go(func() { i.Add(1) })
	}
	wg.Wait()
	sym.Assert(i.Load() == 8, "go")
	sym.Cover("ok")
}

//verif:property SELF
//verif:mode full race
func AtomicsAny() {
	var i atomic.Int64
	var m sync.Map
	done := make(chan struct{})
	go func() { i.Add(1); m.Store(1, 2); close(done) }()
	i.Add(1)
	m.Store(2, 3)
	<-done
	sym.Assert(i.Load() == 2, "lost update")
	_, ok := m.Load(1)
	sym.Assert(ok, "lost store")
	sym.Cover("ok")
}
