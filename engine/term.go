package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Terms: hash-consed bit-vector (width 1..64) and boolean (width 0) expressions.

type Op uint8

const (
	OConst Op = iota // bv constant or bool constant (width 0: val 0/1)
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // hi, lo in val: hi<<8|lo
	OZExt
	OSExt
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
	OIte
)

type Term struct {
	op   Op
	w    uint8 // 0 = bool
	id   int32
	val  uint64
	name string
	args []*Term
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int32
	name    string
}

var (
	termTab  = map[termKey]*Term{}
	termNAry = map[string]*Term{}
	termSeq  int32
	vTrue    = mkRaw(OConst, 0, 1, "")
	vFalse   = mkRaw(OConst, 0, 0, "")
)

func mkRaw(op Op, w uint8, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, w: w, val: val, name: name, a: -1, b: -1, c: -1}
	switch len(args) {
	case 3:
		k.c = args[2].id
		fallthrough
	case 2:
		k.b = args[1].id
		fallthrough
	case 1:
		k.a = args[0].id
	}
	if t := termTab[k]; t != nil {
		return t
	}
	termSeq++
	t := &Term{op: op, w: w, id: termSeq, val: val, name: name, args: append([]*Term(nil), args...)}
	termTab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1 // booleans
	}
	return (uint64(1) << w) - 1
}

func mkConst(w uint8, v uint64) *Term { return mkRaw(OConst, w, v&mask(w), "") }
func mkBool(b bool) *Term {
	if b {
		return vTrue
	}
	return vFalse
}
func mkVar(name string, w uint8) *Term { return mkRaw(OVar, w, 0, name) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t == vTrue }
func (t *Term) isFalse() bool { return t == vFalse }

// sval is the sign-extended constant value.
func (t *Term) sval() int64 { return sext(t.val, t.w) }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func evalOp(op Op, w uint8, val uint64, a []uint64, aw []uint8) uint64 {
	m := mask(w)
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (a[0] + a[1]) & m
	case OSub:
		return (a[0] - a[1]) & m
	case OMul:
		return (a[0] * a[1]) & m
	case OUDiv:
		if a[1] == 0 {
			return m
		}
		return a[0] / a[1]
	case OURem:
		if a[1] == 0 {
			return a[0]
		}
		return a[0] % a[1]
	case OSDiv:
		x, y := sext(a[0], w), sext(a[1], w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a[0], w), sext(a[1], w)
		if y == 0 {
			return a[0]
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a[0] & a[1]
	case OOr:
		return a[0] | a[1]
	case OXor:
		return a[0] ^ a[1]
	case ONot:
		return ^a[0] & m
	case OShl:
		if a[1] >= uint64(w) {
			return 0
		}
		return (a[0] << a[1]) & m
	case OLShr:
		if a[1] >= uint64(w) {
			return 0
		}
		return a[0] >> a[1]
	case OAShr:
		sh := a[1]
		if sh >= uint64(w) {
			sh = uint64(w) - 1
		}
		return uint64(sext(a[0], w)>>sh) & m
	case OConcat:
		return ((a[0] << aw[1]) | a[1]) & m
	case OExtract:
		lo := val & 0xff
		return (a[0] >> lo) & m
	case OZExt:
		return a[0]
	case OSExt:
		return uint64(sext(a[0], aw[0])) & m
	case OEq:
		return b2u(a[0] == a[1])
	case OUlt:
		return b2u(a[0] < a[1])
	case OUle:
		return b2u(a[0] <= a[1])
	case OSlt:
		return b2u(sext(a[0], aw[0]) < sext(a[1], aw[1]))
	case OSle:
		return b2u(sext(a[0], aw[0]) <= sext(a[1], aw[1]))
	case OBNot:
		return 1 - a[0]
	case OBAnd:
		for _, x := range a {
			if x == 0 {
				return 0
			}
		}
		return 1
	case OBOr:
		for _, x := range a {
			if x != 0 {
				return 1
			}
		}
		return 0
	case OIte:
		if a[0] != 0 {
			return a[1]
		}
		return a[2]
	}
	panic("evalOp")
}

func fold(op Op, w uint8, val uint64, args ...*Term) *Term {
	vs := make([]uint64, len(args))
	ws := make([]uint8, len(args))
	for i, a := range args {
		if !a.isConst() {
			return nil
		}
		vs[i] = a.val
		ws[i] = a.w
	}
	return mkConst(w, evalOp(op, w, val, vs, ws))
}

func mkBin(op Op, a, b *Term) *Term {
	if a.w != b.w && op != OConcat {
		panic(fmt.Sprintf("mkBin width mismatch op %d: %d %d", op, a.w, b.w))
	}
	w := a.w
	if r := fold(op, w, 0, a, b); r != nil {
		return r
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	// b is the constant, if any, for commutative ops
	switch op {
	case OAdd:
		if b.isConst() && b.val == 0 {
			return a
		}
		// (x + c1) + c2
		if b.isConst() && a.op == OAdd && a.args[1].isConst() {
			return mkBin(OAdd, a.args[0], mkConst(w, a.args[1].val+b.val))
		}
	case OSub:
		if a == b {
			return mkConst(w, 0)
		}
		if b.isConst() {
			return mkBin(OAdd, a, mkConst(w, -b.val))
		}
	case OMul:
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OUDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
	case OAnd:
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// x & low-mask: extract + zext
			if n := bits.Len64(b.val); b.val == mask(uint8(n)) && n < int(w) {
				return mkZExt(mkExtract(a, uint8(n-1), 0), w)
			}
		}
		if a == b {
			return a
		}
	case OOr:
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
		if r := orDisjoint(a, b); r != nil {
			return r
		}
	case OXor:
		if b.isConst() && b.val == 0 {
			return a
		}
		if a == b {
			return mkConst(w, 0)
		}
	case OShl:
		if b.isConst() {
			s := b.val
			if s == 0 {
				return a
			}
			if s >= uint64(w) {
				return mkConst(w, 0)
			}
			return mkConcat(mkExtract(a, w-1-uint8(s), 0), mkConst(uint8(s), 0))
		}
	case OLShr:
		if b.isConst() {
			s := b.val
			if s == 0 {
				return a
			}
			if s >= uint64(w) {
				return mkConst(w, 0)
			}
			return mkZExt(mkExtract(a, w-1, uint8(s)), w)
		}
	case OAShr:
		if b.isConst() && b.val == 0 {
			return a
		}
	}
	return mkRaw(op, w, 0, "", a, b)
}

// knownZero returns a mask of bits known to be zero.
func knownZero(t *Term, depth int) uint64 {
	if t.isConst() {
		return ^t.val & mask(t.w)
	}
	if depth > 6 {
		return 0
	}
	switch t.op {
	case OConcat:
		return (knownZero(t.args[0], depth+1)<<t.args[1].w | knownZero(t.args[1], depth+1)) & mask(t.w)
	case OZExt:
		return (mask(t.w) &^ mask(t.args[0].w)) | knownZero(t.args[0], depth+1)
	}
	return 0
}

// orDisjoint turns an or of terms without common bits into a concatenation, when the split is at a clean boundary.
func orDisjoint(a, b *Term) *Term {
	w := a.w
	za, zb := knownZero(a, 0), knownZero(b, 0)
	if za|zb != mask(w) || za == 0 || zb == 0 {
		return nil
	}
	// cut into maximal runs in which one side is known zero
	var out *Term
	hi := int(w) - 1
	for hi >= 0 {
		bit := uint64(1) << uint(hi)
		useA := zb&bit != 0
		lo := hi
		for lo-1 >= 0 {
			nb := uint64(1) << uint(lo-1)
			ok := (useA && zb&nb != 0) || (!useA && za&nb != 0)
			if !ok {
				break
			}
			lo--
		}
		src := b
		if useA {
			src = a
		}
		p := mkExtract(src, uint8(hi), uint8(lo))
		if out == nil {
			out = p
		} else {
			out = mkConcat(out, p)
		}
		hi = lo - 1
	}
	return out
}

func mkNot(a *Term) *Term {
	if r := fold(ONot, a.w, 0, a); r != nil {
		return r
	}
	if a.op == ONot {
		return a.args[0]
	}
	return mkRaw(ONot, a.w, 0, "", a)
}

func mkNeg(a *Term) *Term { return mkBin(OSub, mkConst(a.w, 0), a) }

func mkConcat(a, b *Term) *Term {
	w := a.w + b.w
	if r := fold(OConcat, w, 0, a, b); r != nil {
		return r
	}
	if a.isConst() && a.val == 0 {
		return mkZExt(b, w)
	}
	// merge adjacent extracts
	if a.op == OExtract && b.op == OExtract && a.args[0] == b.args[0] {
		ah, al := uint8(a.val>>8), uint8(a.val&0xff)
		bh, bl := uint8(b.val>>8), uint8(b.val&0xff)
		if al == bh+1 {
			return mkExtract(a.args[0], ah, bl)
		}
	}
	if a.op == OConcat {
		// right-associate
		return mkConcat(a.args[0], mkConcat(a.args[1], b))
	}
	if a.op == OZExt {
		return mkZExt(mkConcat(a.args[0], b), w)
	}
	if b.op == OConcat {
		// try merging a with head of b
		h := b.args[0]
		if a.op == OExtract && h.op == OExtract && a.args[0] == h.args[0] && uint8(a.val&0xff) == uint8(h.val>>8)+1 {
			return mkConcat(mkConcat(a, h), b.args[1])
		}
		if a.isConst() && h.isConst() {
			return mkConcat(mkConcat(a, h), b.args[1])
		}
	}
	return mkRaw(OConcat, w, 0, "", a, b)
}

func mkExtract(a *Term, hi, lo uint8) *Term {
	if lo == 0 && hi == a.w-1 {
		return a
	}
	w := hi - lo + 1
	val := uint64(hi)<<8 | uint64(lo)
	if a.isConst() {
		return mkConst(w, a.val>>lo)
	}
	switch a.op {
	case OExtract:
		l0 := uint8(a.val & 0xff)
		return mkExtract(a.args[0], hi+l0, lo+l0)
	case OZExt:
		iw := a.args[0].w
		if lo >= iw {
			return mkConst(w, 0)
		}
		if hi < iw {
			return mkExtract(a.args[0], hi, lo)
		}
		return mkZExt(mkExtract(a.args[0], iw-1, lo), w)
	case OSExt:
		iw := a.args[0].w
		if hi < iw {
			return mkExtract(a.args[0], hi, lo)
		}
	case OConcat:
		bw := a.args[1].w
		if hi < bw {
			return mkExtract(a.args[1], hi, lo)
		}
		if lo >= bw {
			return mkExtract(a.args[0], hi-bw, lo-bw)
		}
		return mkConcat(mkExtract(a.args[0], hi-bw, 0), mkExtract(a.args[1], bw-1, lo))
	case OAnd, OOr, OXor:
		return mkBin(a.op, mkExtract(a.args[0], hi, lo), mkExtract(a.args[1], hi, lo))
	case ONot:
		return mkNot(mkExtract(a.args[0], hi, lo))
	case OAdd, OMul, OSub:
		if lo == 0 {
			return mkBin(a.op, mkExtract(a.args[0], hi, 0), mkExtract(a.args[1], hi, 0))
		}
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return mkIte(a.args[0], mkExtract(a.args[1], hi, lo), mkExtract(a.args[2], hi, lo))
		}
	}
	return mkRaw(OExtract, w, val, "", a)
}

func mkZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext narrower")
	}
	if a.isConst() {
		return mkConst(w, a.val)
	}
	if a.op == OZExt {
		return mkZExt(a.args[0], w)
	}
	return mkRaw(OZExt, w, 0, "", a)
}

func mkSExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return mkConst(w, uint64(sext(a.val, a.w)))
	}
	if a.op == OZExt {
		return mkZExt(a.args[0], w)
	}
	return mkRaw(OSExt, w, 0, "", a)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return vTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("mkEq width %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return vFalse
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return mkBNot(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			iw := a.args[0].w
			if b.val>>iw != 0 {
				return vFalse
			}
			return mkEq(a.args[0], mkConst(iw, b.val))
		case OConcat:
			lw := a.args[1].w
			return mkAnd(mkEq(a.args[0], mkConst(a.args[0].w, b.val>>lw)), mkEq(a.args[1], mkConst(lw, b.val)))
		case OAdd:
			if a.args[1].isConst() {
				return mkEq(a.args[0], mkConst(a.w, b.val-a.args[1].val))
			}
		case OIte:
			if a.args[1].isConst() && a.args[2].isConst() {
				e1, e2 := a.args[1].val == b.val, a.args[2].val == b.val
				switch {
				case e1 && e2:
					return vTrue
				case e1:
					return a.args[0]
				case e2:
					return mkBNot(a.args[0])
				default:
					return vFalse
				}
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
			return mkEq(a.args[0], b.args[0])
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return mkRaw(OEq, 0, 0, "", a, b)
}

func mkCmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("mkCmp width")
	}
	if r := fold(op, 0, 0, a, b); r != nil {
		return r
	}
	if a == b {
		return mkBool(op == OUle || op == OSle)
	}
	switch op {
	case OUlt:
		if b.isConst() && b.val == 0 {
			return vFalse
		}
		if a.isConst() && a.val == mask(a.w) {
			return vFalse
		}
		if a.op == OZExt && b.isConst() && b.val > mask(a.args[0].w) {
			return vTrue
		}
	case OUle:
		if a.isConst() && a.val == 0 {
			return vTrue
		}
		if b.isConst() && b.val == mask(b.w) {
			return vTrue
		}
	}
	// zero-extended operands: signed comparison is unsigned
	if op == OSlt || op == OSle {
		na := knownZero(a, 0)>>(a.w-1)&1 == 1
		nb := knownZero(b, 0)>>(b.w-1)&1 == 1
		if na && nb {
			if op == OSlt {
				return mkCmp(OUlt, a, b)
			}
			return mkCmp(OUle, a, b)
		}
	}
	return mkRaw(op, 0, 0, "", a, b)
}

func mkBNot(a *Term) *Term {
	if a.isConst() {
		return mkBool(a.val == 0)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return mkRaw(OBNot, 0, 0, "", a)
}

func mkNAry(op Op, args []*Term) *Term {
	if len(args) <= 3 {
		return mkRaw(op, 0, 0, "", args...)
	}
	var sb strings.Builder
	sb.WriteByte(byte(op))
	for _, a := range args {
		sb.WriteString(strconv.Itoa(int(a.id)))
		sb.WriteByte(',')
	}
	k := sb.String()
	if t := termNAry[k]; t != nil {
		return t
	}
	termSeq++
	t := &Term{op: op, w: 0, id: termSeq, args: append([]*Term(nil), args...)}
	termNAry[k] = t
	return t
}

func mkAnd(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.isTrue() {
			continue
		}
		if t.isFalse() {
			return vFalse
		}
		if t.op == OBAnd {
			out = append(out, t.args...)
			continue
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return vTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkNAry(OBAnd, out)
}

func mkOr(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.isFalse() {
			continue
		}
		if t.isTrue() {
			return vTrue
		}
		if t.op == OBOr {
			out = append(out, t.args...)
			continue
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return vFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkNAry(OBOr, out)
}

func mkIte(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return mkBNot(c)
		}
	}
	return mkRaw(OIte, a.w, 0, "", c, a, b)
}

// resize converts an integer term to another width.
func resize(a *Term, w uint8, signed bool) *Term {
	switch {
	case a.w == w:
		return a
	case a.w > w:
		return mkExtract(a, w-1, 0)
	case signed:
		return mkSExt(a, w)
	default:
		return mkZExt(a, w)
	}
}

// Model is an assignment of variables.
type Model struct {
	vals map[string]uint64
	memo map[int32]uint64
}

func newModel() *Model { return &Model{vals: map[string]uint64{}, memo: map[int32]uint64{}} }

func (m *Model) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m.vals[t.name] & mask1(t.w)
	}
	if v, ok := m.memo[t.id]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OBAnd:
		r = 1
		for _, a := range t.args {
			if m.eval(a) == 0 {
				r = 0
				break
			}
		}
	case OBOr:
		r = 0
		for _, a := range t.args {
			if m.eval(a) != 0 {
				r = 1
				break
			}
		}
	default:
		var vs [3]uint64
		var ws [3]uint8
		for i, a := range t.args {
			vs[i] = m.eval(a)
			ws[i] = a.w
		}
		r = evalOp(t.op, t.w, t.val, vs[:len(t.args)], ws[:len(t.args)])
	}
	m.memo[t.id] = r
	return r
}

func mask1(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (t *Term) String() string {
	if t.isConst() {
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("0x%x:%d", t.val, t.w)
	}
	if t.op == OVar {
		return t.name
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%s", opName[t.op])
	for i, a := range t.args {
		if i > 5 {
			sb.WriteString(" ...")
			break
		}
		sb.WriteString(" " + a.String())
	}
	sb.WriteString(")")
	if sb.Len() > 300 {
		return sb.String()[:300] + "..."
	}
	return sb.String()
}

var opName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBNot: "not", OBAnd: "and", OBOr: "or", OIte: "ite",
	OExtract: "extract", OZExt: "zext", OSExt: "sext"}
