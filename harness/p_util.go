package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/dmitryikh/leaves/mat"
	"github.com/dmitryikh/leaves/util"
	"pgregory.net/rapid"
)

// ---------- C31: number helpers ----------

// NumCase is a pair of slices (B from A by changing some values), a threshold
// and scores.
type NumCase struct {
	A   []F    `json:"a"`
	B   []F    `json:"b"`
	Thr F      `json:"thr"`
	I   []int  `json:"i"`
	Raw []byte `json:"raw"`
	// the slices go on with Tail small numbers, a number in Every differing
	Tail  int `json:"tail,omitempty"`
	Every int `json:"every,omitempty"`
}

func genNum(t *rapid.T) *NumCase {
	c := &NumCase{A: []F{}, B: []F{}}
	exact := pct(t, "exact", 70) // differences and thresholds are small multiples of 1/8
	val := func(name string) F {
		if exact {
			return F(float64(ir(t, name, -80, 80)) / 8)
		}
		return F(oneOf(t, name, specialF[:6])) + F(rapid.Float64Range(-1e300, 1e300).Draw(t, name+"f"))
	}
	c.Thr = F(math.Abs(float64(val("thr"))))
	if pct(t, "zero", 20) {
		c.Thr = 0
	}
	for i, n := 0, ir(t, "n", 0, 12); i < n; i++ {
		a := val("a")
		b := a
		switch uni(t, "how", 5) {
		case 0:
		case 1:
			b = a + c.Thr
		case 2:
			b = a - c.Thr
		case 3:
			b = val("b")
		case 4:
			b = a + c.Thr*F(oneOf(t, "f", []float64{0.5, -0.5, 2, -2, 1.0625, -1.0625}))
		}
		c.A, c.B = append(c.A, a), append(c.B, b)
	}
	if pct(t, "length", 10) {
		if rapid.Bool().Draw(t, "longer") {
			c.B = append(c.B, val("more"))
		} else if len(c.B) > 0 {
			c.B = c.B[:len(c.B)-1]
		}
	}
	c.I = []int{oneOf(t, "i", []int{0, 1, -1, math.MaxInt, math.MinInt, 31, 1 << 40}) + 0, ir(t, "j", -5, 5)}
	c.Raw = rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "raw")
	if c.Thr < 1e300 && uni(t, "tail", 100) >= 97 {
		c.Tail = oneOf(t, "tailn", []int{20, 64, 130, 260, 1025, 4100})
		if pct(t, "longtail", 3) {
			c.Tail = oneOf(t, "longtailn", []int{33000, 66000, 140000})
		}
		c.Every = oneOf(t, "every", []int{0, 1, 2, c.Tail, c.Tail})
	}
	return c
}

// apart compares |a-b| with thr in exact arithmetic: 1 more, -1 not more, 0 too
// close to tell after rounding.
func apart(a, b, thr float64) int {
	d := new(big.Float).SetPrec(3000).SetFloat64(a)
	d.Sub(d, new(big.Float).SetFloat64(b))
	d.Abs(d)
	t := new(big.Float).SetPrec(3000).SetFloat64(thr)
	if e, acc := d.Float64(); acc == big.Exact { // the difference needs no rounding
		if e > thr {
			return 1
		}
		return -1
	}
	lim := new(big.Float).SetPrec(3000).Mul(t, big.NewFloat(1+1e-12))
	if d.Cmp(lim) > 0 {
		return 1
	}
	lim.Mul(t, big.NewFloat(1-1e-12))
	if d.Cmp(lim) < 0 {
		return -1
	}
	return 0
}

func numCheck(c *NumCase, x *Ctx) error {
	if len(c.I) != 2 || len(c.Raw) != 8 {
		return nil
	}
	a, b, thr := fs(c.A), fs(c.B), float64(c.Thr)
	mism, unsure := 0, false
	if c.Tail > 0 && len(a) == len(b) {
		x.label("long slices")
		la, lb := append([]float64(nil), a...), append([]float64(nil), b...)
		more := 0
		for i := 1; i <= c.Tail; i++ {
			v := float64(i % 17)
			la, lb = append(la, v), append(lb, v)
			if c.Every > 0 && i%c.Every == 0 {
				lb[len(lb)-1] += 2*thr + 1
				more++
			}
		}
		n0, err0 := util.NumMismatchedFloat64Slices(a, b, thr)
		n, err := util.NumMismatchedFloat64Slices(la, lb, thr)
		if err0 != nil || err != nil || n != n0+more {
			return verr("NumMismatchedFloat64Slices finds %d (%v) mismatches; %d (%v) in slices with %d further pairs of which %d differ", n0, err0, n, err, c.Tail, more)
		}
		if eq := util.AlmostEqualFloat64Slices(la, lb, thr); (eq == nil) != (n == 0) {
			return verr("AlmostEqualFloat64Slices of %d values with %d mismatches gives %v", len(la), n, eq)
		}
		util.SigmoidFloat64SliceInplace(la)
		for i, v := range la[len(a):] {
			if w := sigmoidRef(float64((i + 1) % 17)); !(math.Abs(v-w) <= 1e-12*w) {
				return verr("logistic function of element %d of %d (%d) gives %v, want %v", len(a)+i, len(la), (i+1)%17, v, w)
			}
		}
	}
	for i := range a {
		if i >= len(b) || math.IsInf(a[i], 0) || math.IsInf(b[i], 0) {
			continue
		}
		switch s := apart(a[i], b[i], thr); s {
		case 1:
			mism++
		case 0:
			unsure = true
		}
	}
	for i := range a {
		if math.IsInf(a[i], 0) || i < len(b) && math.IsInf(b[i], 0) {
			unsure = true
		}
	}
	x.label("mismatches=%d", min(mism, 3))
	x.nontrivialIf(len(a) > 1)
	ka, kb := fmt.Sprint(a), fmt.Sprint(b)
	n, err := util.NumMismatchedFloat64Slices(a, b, thr)
	eq := util.AlmostEqualFloat64Slices(a, b, thr)
	if len(a) != len(b) {
		x.label("different lengths")
		if err == nil || eq == nil {
			return verr("slices of %d and %d values are compared without error (%v, %v)", len(a), len(b), err, eq)
		}
	} else if !unsure {
		if err != nil || n != mism {
			return verr("NumMismatchedFloat64Slices(%v, %v, %v) = %d, %v; want %d", a, b, thr, n, err, mism)
		}
		if (eq == nil) != (mism == 0) {
			return verr("AlmostEqualFloat64Slices(%v, %v, %v) = %v; %d pairs differ", a, b, thr, eq, mism)
		}
	}
	for i := range a {
		if i < len(b) && !math.IsInf(a[i], 0) && !math.IsInf(b[i], 0) {
			if s := apart(a[i], b[i], thr); s != 0 && util.AlmostEqualFloat64(a[i], b[i], thr) != (s < 0) {
				return verr("AlmostEqualFloat64(%v, %v, %v) = %v", a[i], b[i], thr, s > 0)
			}
		}
	}
	if fmt.Sprint(a) != ka || fmt.Sprint(b) != kb {
		return verr("the compared slices were changed")
	}
	i, j := c.I[0], c.I[1]
	for _, p := range [][2]int{{i, j}, {j, i}, {i, i}} {
		w := p[0]
		if p[1] < w {
			w = p[1]
		}
		if g := util.MinInt(p[0], p[1]); g != w {
			return verr("MinInt(%d, %d) = %d", p[0], p[1], g)
		}
	}
	// bytes
	var le, be uint64
	for k := 0; k < 8; k++ {
		le |= uint64(c.Raw[k]) << (8 * k)
		be |= uint64(c.Raw[k]) << (56 - 8*k)
	}
	raw := append([]byte(nil), c.Raw...)
	for _, little := range []bool{true, false} {
		w := math.Float64frombits(be)
		if little {
			w = math.Float64frombits(le)
		}
		if g := util.Float64FromBytes(raw, little); !bitSame(g, w) {
			return verr("Float64FromBytes(%v, %v) = %v, want %v", c.Raw, little, g, w)
		}
	}
	if !bytes.Equal(raw, c.Raw) {
		return verr("Float64FromBytes changes its input")
	}
	// logistic function
	a = append(a, float64(int16(le))/43, float64(int16(le>>16))/43, float64(int16(le>>32))/3000)
	v := append([]float64(nil), a...)
	util.SigmoidFloat64SliceInplace(v)
	for k := range a {
		w := sigmoidRef(a[k])
		for _, g := range []float64{v[k], util.Sigmoid(a[k])} {
			if !(math.Abs(g-w) <= 1e-12*w+1e-307) {
				return verr("logistic function of %v gives %v, want %v", a[k], g, w)
			}
		}
	}
	return nil
}

// ---------- C32: parameter blocks ----------

// ParamCase is a text of several blocks of key=value lines.
type ParamCase struct {
	Blocks []Block `json:"blocks"`
	CRLF   bool    `json:"crlf,omitempty"`
	NoEnd  bool    `json:"noend,omitempty"` // no line end and no blank line after the last line
	Mode   int     `json:"mode"`
	Buf    int     `json:"buf"`
	Seed   uint64  `json:"seed"`
	Fail   int     `json:"fail"` // > 0: the stream fails after that many bytes (modulo its length)
}

// Block is one block; Pre are the blank lines before it.
type Block struct {
	Pre   []string `json:"pre,omitempty"`
	Lines []Param  `json:"lines"`
	End   string   `json:"end,omitempty"`   // white space of the blank line
	PreN  int      `json:"pren,omitempty"`  // further blank lines before it
	More  int      `json:"more,omitempty"`  // further lines
	Times int      `json:"times,omitempty"` // further copies of the last line's value
}

// full lists what More, PreN and Times stand for.
func (b Block) full() Block {
	b.Pre = append([]string{}, b.Pre...)
	for i := 0; i < b.PreN; i++ {
		b.Pre = append(b.Pre, "")
	}
	b.Lines = append([]Param{}, b.Lines...)
	if n := len(b.Lines); b.Times > 0 && n > 0 {
		p := &b.Lines[n-1]
		p.V = strings.TrimSpace(strings.Repeat(p.V+" ", min(b.Times, 1+(1<<22)/(len(p.V)+1))))
	}
	for i := 0; i < b.More; i++ {
		b.Lines = append(b.Lines, Param{K: fmt.Sprintf("more %d", i), V: strconv.Itoa(3 * i), Eq: true})
	}
	b.PreN, b.More, b.Times = 0, 0, 0
	return b
}

// Param is a line. Without Eq there is only a key.
type Param struct {
	K  string `json:"k"`
	V  string `json:"v"`
	Eq bool   `json:"eq"`
	W  string `json:"w,omitempty"` // white space around the line
}

var intTexts = []string{"0", "1", "-1", "7", "31", "32", "-128", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "007", "16777217"}
var floatTexts = []string{"0.5", "-2.25e+10", "1e-320", "1.7976931348623157e+308", "inf", "-inf", "nan", "1.0000000180025095e-35", "0.1", ".5", "5.", "-0", "123456789.123456789", "16777217"}
var wordTexts = []string{"a", "tree", "gbdt", "v3", "x=y", "=", "==", "[0:1]", "none", "12a", "1.5.2", "-", "--1", "1,2", "é", "1e", "NULL", "e5"}

func genParams(t *rapid.T) *ParamCase {
	c := &ParamCase{CRLF: pct(t, "crlf", 25), NoEnd: pct(t, "noend", 20), Mode: uni(t, "mode", 6), Buf: oneOf(t, "buf", bufSizes[:9]), Seed: rapid.Uint64().Draw(t, "seed")}
	if pct(t, "fails", 15) {
		c.Fail = 1 + uni(t, "fail", 1<<12)
	}
	for i, n := 0, ir(t, "blocks", 1, 3); i < n; i++ {
		b := Block{}
		for j, l := 0, ir(t, "pre", 0, 2); j < l; j++ {
			b.Pre = append(b.Pre, oneOf(t, "blank", []string{"", "", " ", "\t"}))
		}
		for j, l := 0, ir(t, "lines", 1, 7); j < l; j++ {
			p := Param{K: fmt.Sprintf("%s%d", oneOf(t, "key", []string{"k", "num_leaves", "Tree", "a b", "é", "left_child"}), j), Eq: !pct(t, "bare", 10)}
			if p.Eq {
				var toks []string
				kind := uni(t, "kind", 5)
				for k, m := 0, ir(t, "tokens", 1, 6); k < m; k++ {
					switch kind {
					case 0:
						toks = append(toks, oneOf(t, "int", intTexts[:12]))
					case 1:
						toks = append(toks, oneOf(t, "int", intTexts))
					case 2:
						toks = append(toks, oneOf(t, "float", floatTexts))
					case 3:
						toks = append(toks, strconv.FormatFloat(rapid.Float64().Draw(t, "f"), 'g', -1, 64))
					case 4:
						toks = append(toks, oneOf(t, "word", wordTexts))
					}
				}
				if pct(t, "mixed", 10) {
					toks[uni(t, "where", len(toks))] = oneOf(t, "word", wordTexts)
				}
				p.V = strings.Join(toks, " ")
				if pct(t, "novalue", 6) {
					p.V = ""
				}
				if pct(t, "long", 1) {
					p.V = strings.TrimSpace(strings.Repeat(p.V+" ", oneOf(t, "times", []int{100, 700, 3000})))
				}
			}
			if pct(t, "white", 10) {
				p.W = oneOf(t, "w", []string{" ", "\t", "  "})
			}
			b.Lines = append(b.Lines, p)
		}
		if pct(t, "whiteend", 15) {
			b.End = oneOf(t, "end", []string{" ", "\t", "  "})
		}
		switch uni(t, "largeblock", 1024) {
		case 300, 301:
			b.PreN = oneOf(t, "blanks", []int{50, 120, 256, 300, 1100, 5000})
		case 302:
			b.More = oneOf(t, "keys", []int{130, 257, 300, 1100, 5000})
		case 303:
			b.Times = oneOf(t, "elements", []int{5000, 33000, 66000, 70000})
		}
		c.Blocks = append(c.Blocks, b)
	}
	return c
}

func paramCheck(c *ParamCase, x *Ctx) error {
	if len(c.Blocks) == 0 {
		return nil
	}
	cc := *c
	c = &cc
	c.Blocks = append([]Block{}, c.Blocks...)
	for i, b := range c.Blocks {
		if b.PreN+b.More+b.Times > 0 {
			x.label("large block")
			c.Blocks[i] = b.full()
		}
	}
	var text bytes.Buffer
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	lines := 0
	for i, b := range c.Blocks {
		for _, p := range b.Pre {
			text.WriteString(p + nl)
		}
		if len(b.Lines) == 0 {
			return nil
		}
		for j, p := range b.Lines {
			lines++
			if j > 0 || len(p.W) > 1 {
				text.WriteString(p.W)
			}
			text.WriteString(p.K)
			if p.Eq {
				text.WriteString("=" + p.V)
			}
			text.WriteString(p.W)
			if c.NoEnd && i == len(c.Blocks)-1 && j == len(b.Lines)-1 {
				continue
			}
			text.WriteString(nl)
			if j == len(b.Lines)-1 && !(c.NoEnd && i == len(c.Blocks)-1) {
				text.WriteString(b.End + nl)
			}
		}
	}
	b := text.Bytes()
	x.nontrivialIf(lines > 1)
	x.label("blocks=%d", len(c.Blocks))
	if c.Fail > 0 {
		// a failing stream: no block that needs what comes after the fault
		x.label("failing stream")
		at := c.Fail % len(b)
		ch := &chunks{b[:at], newRng(c.Seed), c.Mode, false, errStream, nil}
		r := bufio.NewReaderSize(ch, c.Buf)
		for i := range c.Blocks {
			p, err := util.ReadParamsUntilBlank(r)
			if err != nil {
				return nil
			}
			for _, q := range c.Blocks[i].Lines {
				if v, err := p.ToString(q.K); err != nil || v != q.V {
					return verr("the stream fails after %d of %d bytes, but block %d is read, with %q = %q (%v), want %q", at, len(b), i, q.K, v, err, q.V)
				}
			}
		}
		return verr("the stream fails after %d of %d bytes, but all blocks are read", at, len(b))
	}
	r := bufio.NewReaderSize(&chunks{b, newRng(c.Seed), c.Mode, c.Seed&1 == 1, io.EOF, nil}, c.Buf)
	for i, blk := range c.Blocks {
		p, err := util.ReadParamsUntilBlank(r)
		if err != nil {
			return verr("block %d of %q is refused: %v", i, trim(text.String(), 300), err)
		}
		if len(p) != len(blk.Lines) {
			return verr("block %d has %d keys, %d are read", i, len(blk.Lines), len(p))
		}
		for _, q := range blk.Lines {
			if !p.Contains(q.K) {
				return verr("block %d has no key %q", i, q.K)
			}
			if v, err := p.ToString(q.K); err != nil || v != q.V {
				return verr("ToString(%q) = %q, %v; want %q", q.K, v, err, q.V)
			}
			if p.Compare(q.K, q.V) != nil || p.Compare(q.K, q.V+"x") == nil || q.V != "" && p.Compare(q.K, q.V[1:]) == nil {
				return verr("Compare(%q, ...) is wrong for the value %q", q.K, q.V)
			}
			if q.V == "" {
				continue
			}
			toks := strings.Split(q.V, " ")
			if s, err := p.ToStrSlice(q.K); err != nil || strings.Join(s, "\x00") != strings.Join(toks, "\x00") {
				return verr("ToStrSlice(%q) = %q, %v; want %q", q.K, s, err, toks)
			}
			one, oneErr := p.ToInt(q.K)
			if v, ok := intRef(q.V, math.MinInt64, math.MaxInt64); ok != (oneErr == nil) || ok && int64(one) != v.Int64() {
				return verr("ToInt of %q gives %d, %v", q.V, one, oneErr)
			}
			i32, err32 := p.ToInt32Slice(q.K)
			u32, errU := p.ToUint32Slice(q.K)
			f64, errF := p.ToFloat64Slice(q.K)
			ok32, okU, okF := true, true, true
			for _, s := range toks {
				_, a := intRef(s, math.MinInt32, math.MaxInt32)
				_, b := intRef(s, 0, math.MaxUint32)
				_, f := floatRef(s)
				ok32, okU, okF = ok32 && a, okU && b && s[0] != '-', okF && f
			}
			if ok32 != (err32 == nil) || okU != (errU == nil) || okF != (errF == nil) {
				return verr("value %q: errors of ToInt32Slice: %v, ToUint32Slice: %v, ToFloat64Slice: %v", trim(q.V, 200), err32, errU, errF)
			}
			if ok32 && len(i32) != len(toks) || okU && len(u32) != len(toks) || okF && len(f64) != len(toks) {
				return verr("value %q: %d, %d, %d numbers", trim(q.V, 200), len(i32), len(u32), len(f64))
			}
			for k, s := range toks {
				if ok32 {
					if v, _ := intRef(s, math.MinInt32, math.MaxInt32); v.Int64() != int64(i32[k]) {
						return verr("ToInt32Slice of %q: number %d is %d", trim(q.V, 200), k, i32[k])
					}
				}
				if okU {
					if v, _ := intRef(s, 0, math.MaxUint32); v.Int64() != int64(u32[k]) {
						return verr("ToUint32Slice of %q: number %d is %d", trim(q.V, 200), k, u32[k])
					}
				}
				if okF {
					if v, _ := floatRef(s); !bitSame(v, f64[k]) {
						return verr("ToFloat64Slice of %q: number %d is %v, want %v", trim(q.V, 200), k, f64[k], v)
					}
				}
			}
			x.label("value int32=%v uint32=%v float=%v", ok32, okU, okF)
		}
		no := "no such key"
		_, e1 := p.ToInt(no)
		_, e2 := p.ToString(no)
		_, e3 := p.ToStrSlice(no)
		_, e4 := p.ToFloat64Slice(no)
		_, e5 := p.ToUint32Slice(no)
		_, e6 := p.ToInt32Slice(no)
		for k, e := range []error{e1, e2, e3, e4, e5, e6, p.Compare(no, "")} {
			if e == nil {
				return verr("getter %d gives no error for a missing key", k)
			}
		}
		if p.Contains(no) {
			return verr("Contains a missing key")
		}
	}
	if p, err := util.ReadParamsUntilBlank(r); err == nil {
		return verr("a block is read behind the last one: %v", p)
	}
	return nil
}

func intRef(s string, lo, hi int64) (*big.Int, bool) {
	d := strings.TrimPrefix(s, "-")
	if d == "" || strings.Trim(d, "0123456789") != "" {
		return nil, false
	}
	v, _ := new(big.Int).SetString(s, 10)
	return v, v.Cmp(big.NewInt(lo)) >= 0 && v.Cmp(big.NewInt(hi)) <= 0
}

// floatRef reads the number texts of the generator by exact arithmetic.
func floatRef(s string) (float64, bool) {
	if f, ok := floatSeen[s]; ok {
		return f.v, f.ok
	}
	v, ok := floatExact(s)
	if len(floatSeen) > 1<<16 {
		clear(floatSeen)
	}
	floatSeen[s] = floatMemo{v, ok}
	return v, ok
}

type floatMemo struct {
	v  float64
	ok bool
}

var floatSeen = map[string]floatMemo{}

func floatExact(s string) (float64, bool) {
	switch strings.TrimLeft(s, "+-") {
	case "inf":
		if s[0] == '-' {
			return math.Inf(-1), true
		}
		return math.Inf(1), true
	case "nan":
		return math.NaN(), true
	}
	if strings.Trim(s, "0123456789+-.e") != "" || strings.Count(s, ".") > 1 || strings.Trim(s, "+-.e") == "" {
		return 0, false
	}
	m, e, has := strings.Cut(s, "e")
	if has && strings.Trim(e, "+-") == "" || strings.Trim(m, "+-.") == "" || strings.HasPrefix(s, "--") || strings.LastIndexAny(m, "+-") > 0 {
		return 0, false
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		harnessFail("number %q", s)
	}
	v, _ := r.Float64()
	if v == 0 && s[0] == '-' {
		v = math.Copysign(0, -1)
	}
	return v, true
}

// ---------- C33: nothing is left behind ----------

// LeakCase is a history of calls that use files and goroutines.
type LeakCase struct {
	M   *Model   `json:"m"`
	X   Mat      `json:"x"`
	Txt *TxtCase `json:"txt"`
	Ops []Op     `json:"ops"`
}

var leakKinds = []string{"load", "loadcut", "loadfail", "trans", "dense", "csr", "refused", "txt", "txtcut", "tocsv", "missing", "wrong"}

func genLeak(t *rapid.T) *LeakCase {
	m := genModel(t, GenOpt{Fams: allFams, Obj: true, MaxBig: 40, NoHugeNF: true, MaxEst: 3})
	c := &LeakCase{M: m, Txt: genTxt(t)}
	c.X = Mat{Rows: genRows(t, m, 1, 2), More: ir(t, "more", 0, 60), Seed: rapid.Uint64().Draw(t, "seed")}
	for i, n := 0, ir(t, "ops", 1, 10); i < n; i++ {
		c.Ops = append(c.Ops, Op{oneOf(t, "op", leakKinds), uni(t, "a", 1<<12), ir(t, "b", 0, 7), ir(t, "c", 0, 9), 0})
	}
	return c
}

// leftBehind counts open files below dir and goroutines with frames of the library.
func leftBehind(dir string) (files, gos int, what string) {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		harnessFail("%v", err)
	}
	for _, e := range ents {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (l == dir || strings.HasPrefix(l, dir+"/")) {
			files++
			what += "open: " + strings.TrimPrefix(l, dir) + "\n"
		}
	}
	if runtime.NumGoroutine() > 1 {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, "github.com/dmitryikh/leaves") {
				gos++
				what += trim(g, 600) + "\n"
			}
		}
	}
	return
}

func leakCheck(c *LeakCase, x *Ctx) error {
	m := c.M.prepare()
	if c.Txt == nil {
		return nil
	}
	x.label("fam=%s", m.Fam)
	dir, err := os.MkdirTemp(x.dir, "leak")
	if err != nil {
		harnessFail("%v", err)
	}
	defer os.RemoveAll(dir)
	if dir, err = filepath.EvalSymlinks(dir); err != nil {
		harnessFail("%v", err)
	}
	b := m.bytes()
	text := c.Txt.text()
	write := func(name string, b []byte) string {
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			harnessFail("%v", err)
		}
		return p
	}
	e, err := m.load(false)
	if err != nil {
		return err
	}
	rows := m.matrix(&c.X)
	flatRows, csr := flat(rows), explicitCSR(rows)
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // collected files are closed
	threads := []int{0, 1, 2, 3, 8, 100, -1, 4, 5, 16}
	used := map[string]bool{}
	for i, op := range c.Ops {
		used[op.K] = true
		switch op.K {
		case "load", "trans":
			_, _ = loadFile(m.Fam, write("model", b), op.K == "trans")
		case "loadcut":
			_, _ = loadFile(m.Fam, write("cut", b[:op.A%len(b)]), op.B&1 == 1)
		case "loadfail":
			r := bufio.NewReader(&chunks{b[:op.A%len(b)], newRng(uint64(op.A)), op.B % 6, false, errStream, nil})
			_, _ = loadReader(m.Fam, r, false)
		case "wrong": // the loader of another family
			fam := allFams[op.A%len(allFams)]
			if fam != LGJ {
				_, _ = loadFile(fam, write("other", b), false)
			}
		case "missing":
			_, _ = loadFile(m.Fam, filepath.Join(dir, "none"), false)
			_, _ = loadFile(m.Fam, dir, false)
			c.Txt.load(nil, filepath.Join(dir, "none"))
			c.Txt.load(nil, dir)
		case "dense":
			p := make([]float64, e.NOutputGroups()*len(rows))
			if err := e.PredictDense(flatRows, len(rows), len(rows[0]), p, op.B, threads[op.C%len(threads)]); err != nil {
				return err
			}
		case "csr":
			p := make([]float64, e.NOutputGroups()*len(rows))
			if err := e.PredictCSR(csr.ptr, csr.col, csr.val, p, op.B, threads[op.C%len(threads)]); err != nil {
				return err
			}
		case "refused":
			p := make([]float64, e.NOutputGroups()*len(rows)-1)
			if e.PredictDense(flatRows, len(rows), len(rows[0]), p, op.B, threads[op.C%len(threads)]) == nil ||
				e.PredictCSR(csr.ptr, csr.col, csr.val, p, op.B, threads[op.C%len(threads)]) == nil {
				return verr("short output slice is accepted")
			}
		case "txt":
			c.Txt.load(nil, write("matrix", text))
		case "txtcut":
			c.Txt.load(nil, write("matrixcut", append(text[:op.A%len(text):op.A%len(text)], "x:y,:z"...)))
		case "tocsv":
			d, err := mat.DenseMatFromArray(flatRows, len(rows), len(rows[0]))
			if err != nil {
				return verr("%v", err)
			}
			if err := d.ToCsvFile(filepath.Join(dir, "out.csv"), ","); err != nil {
				return verr("%v", err)
			}
			_ = d.ToCsvFile(filepath.Join(dir, "no", "such", "out.csv"), ",")
			_ = d.ToCsvFile(dir, ",")
			if st, err := os.Stat("/dev/full"); err == nil && st.Mode()&os.ModeDevice != 0 {
				full := filepath.Join(dir, "full")
				if err := os.Symlink("/dev/full", full); err == nil || os.IsExist(err) {
					if d.ToCsvFile(full, ",") == nil {
						return verr("writing to a full device succeeds")
					}
					n := 0
					ents, _ := os.ReadDir("/proc/self/fd")
					for _, e := range ents {
						if l, _ := os.Readlink("/proc/self/fd/" + e.Name()); l == "/dev/full" {
							n++
						}
					}
					if n > 0 {
						return verr("call %d (%s) leaves the device open", i, op.K)
					}
				}
			}
		}
		if f, _, what := leftBehind(dir); f > 0 {
			return verr("call %d (%s) leaves %d files open:\n%s", i, op.K, f, what)
		}
	}
	x.nontrivialIf(len(used) > 1)
	for k := range used {
		x.label("uses %s", k)
	}
	// goroutines of the last calls may still be on their way out
	gos, what := 0, ""
	for i := 0; i < 3000; i++ {
		if _, gos, what = leftBehind(dir); gos == 0 {
			return nil
		}
		runtime.Gosched()
		time.Sleep(time.Millisecond)
	}
	return verr("%d goroutines of the library are still there 3 s after the last call:\n%s", gos, what)
}

func init() {
	register(Prop{ID: "C31", Quick: 640000, Thorough: 8000000, Rule: "rapid draws two slices of numbers of which some pairs differ by exactly, more or less than the threshold, or whose lengths differ, two integers and eight bytes; comparisons are checked in exact arithmetic, byte decoding bit by bit, the logistic function within 1e-12. Non-trivial: at least two numbers."},
		genNum, numCheck)
	register(Prop{ID: "C32", Quick: 400000, Thorough: 4000000, Rule: "rapid draws texts of one to three blocks of key=value lines (numbers at the limits of the integer types, all number formats, words, values with '=', no value, white space around lines, CRLF, blank lines, missing last line end), the pieces in which they arrive and the buffer size, or a point where the stream fails; blocks and every getter are compared with the drawn lines and with exact integer and rational arithmetic. Non-trivial: two or more lines."},
		genParams, paramCheck)
	register(Prop{ID: "C33", Quick: 14000, Thorough: 600000, Procs: 4, Rule: "rapid draws a model, a matrix text and up to ten calls - loads and matrix reads from good, cut, foreign and missing files, from failing streams, matrix writes to good, impossible and full places, batch predictions with many thread counts, refused calls; after each call no file below the case's directory may be open (garbage collection is off), at the end no goroutine with a frame of the library may be left. Non-trivial: at least two kinds of calls."},
		genLeak, leakCheck)
}
