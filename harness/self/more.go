package self

import (
	"bytes"
	"context"
	"crypto/subtle"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"iter"
	"math"
	"math/bits"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unsafe"

	"github.com/WatchBeam/rtmp/zzverif/sym"
)

//verif:property SELF
//verif:mode full
func ContextLate() {
	ctx, cancel := context.WithCancelCause(context.Background())
	done := make(chan struct{})
	go func() { <-ctx.Done(); close(done) }()
	cancel(io.EOF)
	<-done
	<-ctx.Done()
	sym.Assert(context.Cause(ctx) == io.EOF && ctx.Err() == context.Canceled, "cause")
	sub, stop := context.WithCancel(ctx)
	<-sub.Done()
	stop()
	sym.Cover("ok")
}

//verif:property SELF
func ContextAfter() {
	ctx, cancel := context.WithCancel(context.Background())
	ran := make(chan struct{})
	context.AfterFunc(ctx, func() { close(ran) })
	cancel()
	<-ran
	sym.Cover("ok")
}

//verif:property SELF
func Compare() {
	a, b := sym.Bytes("a", 6), sym.Bytes("b", 6)
	x := subtle.ConstantTimeCompare(a, b) == 1
	sym.Assert(x == bytes.Equal(a, b), "subtle")
	sym.Assert(x == slices.Equal(a, b), "slices")
	sym.Assert(x == ([6]byte(a) == [6]byte(b)), "arrays")
	sym.Assert(x == (string(a) == string(b)), "strings")
	sym.Assert(x == (bytes.Compare(a, b) == 0), "compare")
	d := byte(0)
	for i := range a {
		d |= a[i] ^ b[i]
	}
	sym.Assert(x == (d == 0), "xor")
	sym.Cover("ok")
}

//verif:property SELF
func Iterators() {
	b := sym.Bytes("b", 7)
	var got []byte
	for c := range slices.Chunk(b, 3) {
		got = append(got, c...)
		got = append(got, byte(len(c)))
	}
	sym.ObserveBytes("got", got)
	sym.Assert(len(slices.Concat(b, got)) == 17, "concat")
	seq := func(yield func(int) bool) {
		for i := range 4 {
			if !yield(i) {
				return
			}
		}
	}
	var s iter.Seq[int] = seq
	n := 0
	for i := range s {
		if i == 3 {
			break
		}
		n += i
	}
	sym.Assert(n == 3, "sum")
	sym.Assert(len(slices.Collect(s)) == 4, "collect")
	sym.Cover("ok")
}

//verif:property SELF
func Strings() {
	sym.Assert(strings.EqualFold("Publish", "pUBLISH"), "fold")
	sym.Assert(len(strings.Fields(" a b  c ")) == 3 && strings.TrimSpace(" x ") == "x", "fields")
	sym.Assert(strings.ReplaceAll("aXbX", "X", "-") == "a-b-", "replace")
	sym.Assert(strings.Title("abc") == "Abc" && strings.Repeat("ab", 2) == "abab", "title")
	sym.Assert(strings.Map(func(r rune) rune { return r + 1 }, "abc") == "bcd", "map")
	before, after, ok := strings.Cut("k=v", "=")
	sym.Assert(ok && before == "k" && after == "v", "cut")
	sym.Assert(strings.IndexFunc("abC", unicode.IsUpper) == 2, "upper")
	sym.Assert(strconv.Quote("a\n") == `"a\n"` && strconv.FormatFloat(1.5, 'g', -1, 64) == "1.5", "strconv")
	sym.Assert(string(bytes.TrimRight([]byte("ab\x00\x00"), "\x00")) == "ab", "trim")
	sym.Assert(len(bytes.Split([]byte("a,b"), []byte(","))) == 2, "split")
	sym.Cover("ok")
}

type named struct {
	A int
	B string
}

func (n named) String() string { return "n" + n.B }

//verif:property SELF
func Format() {
	_ = fmt.Sprintf("%d %s %v %+v %T %x %08b %5.2f %p", 3, "s", named{1, "b"}, struct{ X int }{4}, named{}, []byte{1, 2}, 5, 1.5, nil)
	sym.Assert(fmt.Sprintln("x", 1) == "x 1\n" && fmt.Sprint(1, 2, "a", 3) == "1 2a3", "spaces")
	_ = fmt.Sprint(errors.New("e"))
	_ = fmt.Sprintln(io.EOF, nil, []int{1})
	_ = fmt.Sprintf("%v", sym.Uint32("x"))
	_ = fmt.Sprintf("%s %x", sym.Bytes("y", 3), sym.Byte("z"))
	sym.Cover("ok")
}

//verif:property SELF
func Numbers() {
	x := sym.Uint32("x")
	sym.Assert(bits.ReverseBytes32(bits.ReverseBytes32(x)) == x, "reverse")
	sym.Assert(bits.RotateLeft32(x, 8) == x<<8|x>>24, "rotate")
	sym.Observe("lz", uint64(bits.LeadingZeros32(x)))
	sym.Observe("oc", uint64(bits.OnesCount32(x)))
	sym.Assert(math.Float64frombits(math.Float64bits(2.5)) == 2.5, "float")
	var b [4]byte
	binary.NativeEndian.PutUint32(b[:], x)
	sym.Assert(binary.LittleEndian.Uint32(b[:]) == x, "native")
	vb := binary.AppendUvarint(nil, uint64(x))
	y, n := binary.Uvarint(vb)
	sym.Assert(n == len(vb) && y == uint64(x), "varint")
	sym.Assert(sort.SearchInts([]int{1, 3, 5}, 4) == 2, "search")
	i, ok := slices.BinarySearch([]int{1, 3, 5}, 3)
	sym.Assert(ok && i == 1, "binarysearch")
	sym.Cover("ok")
}

//verif:property SELF
func Raw() {
	b := sym.Bytes("b", 4)
	s := unsafe.String(&b[0], len(b))
	sym.Assert(s == string(b), "string")
	sym.Assert(unsafe.Sizeof(named{}) == 24, "size")
	sym.Cover("ok")
}

//verif:property SELF
//verif:mode full
func Scheduling() {
	n := 0
	var mu sync.Mutex
	run := sync.OnceFunc(func() { n++ })
	var wg sync.WaitGroup
	for range 2 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			run()
			runtime.Gosched()
		}()
	}
	wg.Wait()
	sym.Assert(n == 1, "once")
	if mu.TryLock() {
		mu.Unlock()
	}
	sym.Cover("ok")
}

//verif:property SELF
func Reflection() {
	v := reflect.New(reflect.TypeOf(named{})).Interface()
	sym.Assert(v.(*named).A == 0, "new")
	t := reflect.TypeOf(v).Elem()
	sym.Assert(t.Name() == "named" && t.Kind() == reflect.Struct && t.NumField() == 2 && t.Field(1).Name == "B", "type")
	rv := reflect.ValueOf(v).Elem()
	rv.Field(0).SetInt(5)
	sym.Assert(rv.Field(0).Int() == 5 && v.(*named).A == 5, "set")
	rv.Set(reflect.Zero(t))
	sym.Assert(v.(*named).A == 0, "zero")
	sym.Assert(reflect.ValueOf(nil2()).IsNil(), "nil")
	sym.Cover("ok")
}

func nil2() *named { return nil }
