package main

import (
	"encoding/binary"
	"math"
	"strings"

	"github.com/dmitryikh/leaves/util"
	"pgregory.net/rapid"
)

// ---------- C25, C26 ----------

// LayCase is a model, a way to write it down and rows.
type LayCase struct {
	M *Model `json:"m"`
	L Layout `json:"l"`
	X Mat    `json:"x"`
	T bool   `json:"t"`
}

func genLay(fams []string) func(t *rapid.T) *LayCase {
	return func(t *rapid.T) *LayCase {
		c := &LayCase{M: genModel(t, GenOpt{NoLay: true, Fams: fams, BigPct: 6, Obj: pct(t, "trans", 60), MaxBig: 300}), L: genLayout(t)}
		c.T = c.M.canTransform() && pct(t, "t", 40)
		if pct(t, "one", 30) {
			// a single deviation from the plain form
			l := Layout{Seed: c.L.Seed}
			p := []*bool{&l.Order, &l.Extra, &l.Blank, &l.CRLF, &l.Names, &l.Trail, &l.Deleted, &l.Stats, &l.Short, &l.Rewrite, &l.DropPut, &l.Renum, &l.BigEnd, &l.Share}
			var use []int
			switch c.M.Fam {
			case LGT:
				use = []int{0, 1, 2, 3, 4, 5, 8}
			case LGJ:
				use = []int{0, 1, 2, 4, 5, 8}
			case XGL:
				use = []int{5, 7}
			case SKL:
				use = []int{0, 1, 5, 7, 9, 10, 11, 12, 13, 14, 15}
			default:
				use = []int{0, 1, 5, 6, 7}
			}
			switch i := oneOf(t, "which", use); i {
			case 14:
				l.IntL = 1 + uni(t, "intl", 2)
			case 15:
				l.Esc = 1 + uni(t, "esc", 2)
			default:
				*p[i] = true
			}
			c.L = l
		}
		if !c.T && (c.M.Fam == LGT || c.M.xg()) && pct(t, "objname", 8) {
			// without its transformation the objective of a model has no part in a prediction
			o := oneOf(t, "objective", []string{"x", "my_objective", "reg:some new one", "binary:logistic2", "rank:map@5-", strings.Repeat("objective_", 7), strings.Repeat("long_", 60), strings.Repeat("very long name ", 5000)})
			c.L.OvS = map[string]string{"objective": strings.TrimSpace(o)}
		}
		c.X = Mat{Rows: genRows(t, c.M, 1, 3), More: 10, Seed: rapid.Uint64().Draw(t, "matseed")}
		return c
	}
}

// craft makes a finite float of bytes that need escapes in pickles or look
// like parts of escapes.
func craft(t *rapid.T) F {
	menu := []byte{'\n', '\\', 0, '\r', 0x1a, 'u', 'U', 'x', '0', '1', 'a', 'f', '.', '\'', 0x7f, 0x80, 0xff, 0xc2, ' ', '\t', 0x0b, 0x85}
	b := make([]byte, 8)
	for i := range b {
		b[i] = oneOf(t, "byte", menu)
	}
	switch uni(t, "pattern", 4) {
	case 0:
		copy(b[uni(t, "at", 3):], "\\u000a")
	case 1:
		copy(b[uni(t, "at", 3):], "\\u0")
	case 2:
		b[5], b[6] = '\\', '\\'
	}
	b[7] = oneOf(t, "top", []byte{0x3f, 0x40, 0xbf, 0xc0, 0x40, 0x41, 0x0a, 0x5c, 0x00, 0x0d, 0x1a, '0', 'A'})
	v := math.Float64frombits(binary.LittleEndian.Uint64(b))
	if math.IsNaN(v) || math.Abs(v) > 1e150 {
		v = 10
	}
	return F(v)
}

func genPickle(t *rapid.T) *LayCase {
	c := genLay([]string{SKL})(t)
	m := c.M
	if !pct(t, "craft", 50) || m.Many != nil {
		return c
	}
	for i := range m.Trees {
		if m.Trees[i].Big != nil {
			continue
		}
		for j := range m.Trees[i].V {
			if rapid.Bool().Draw(t, "craftleaf") {
				m.Trees[i].V[j] = craft(t)
			}
		}
		for j := range m.Trees[i].S {
			if rapid.Bool().Draw(t, "craftthr") {
				m.Trees[i].S[j].T = craft(t)
			}
		}
	}
	for i := range m.Prior {
		if rapid.Bool().Draw(t, "craftprior") {
			m.Prior[i] = craft(t)
		}
	}
	if rapid.Bool().Draw(t, "plainlr") {
		m.LR = 1
	}
	m.trees, m.w, m.pools = nil, nil, nil
	m.prepare()
	return c
}

func layCheck(c *LayCase, x *Ctx) error {
	m := c.M.prepare()
	classify(x, m)
	for n, b := range map[string]bool{"order": c.L.Order, "extra": c.L.Extra, "blank": c.L.Blank, "crlf": c.L.CRLF, "names": c.L.Names, "trail": c.L.Trail, "deleted": c.L.Deleted, "stats": c.L.Stats,
		"short": c.L.Short, "rewrite": c.L.Rewrite, "dropput": c.L.DropPut, "renum": c.L.Renum, "bigend": c.L.BigEnd, "share": c.L.Share, "intl": c.L.IntL > 0, "esc": c.L.Esc > 0} {
		if b {
			x.label("layout " + n)
		}
	}
	rows := m.matrix(&c.X)
	plain, other := m.bytes(), m.bytesLay(&c.L)
	x.nontrivialIf(string(plain) != string(other))
	e, err := loadBytes(m.Fam, plain, c.T)
	if err != nil {
		return verr("well-formed model is refused: %v", err)
	}
	want, err := observe(e, rows, m.Fam == XGL)
	if err != nil {
		return err
	}
	e, err = loadBytes(m.Fam, other, c.T)
	if err != nil {
		return verr("the same model in another form is refused: %v", err)
	}
	got, err := observe(e, rows, m.Fam == XGL)
	if err != nil {
		return err
	}
	if err := want.differs(got, m.lg()); err != nil {
		return verr("the same model in another form: %v", err)
	}
	for i, r := range rows {
		v, mag := m.raw(r, 0)
		for k := range v {
			if !closeTo(got.raw[i*m.K+k], v[k], mag[k]) {
				return verr("row %d, class %d: prediction %v, reference %v", i, k, got.raw[i*m.K+k], v[k])
			}
		}
	}
	return nil
}

// ---------- C30 ----------

// BitCase is a set as a list and a bitset of any words.
type BitCase struct {
	List  []int    `json:"list"`
	Words []uint32 `json:"words"`
	Probe []uint32 `json:"probe"`
	Long  int      `json:"long,omitempty"` // further words
	Fill  uint32   `json:"fill,omitempty"` // repeated word of the longer slice and list
}

func genBits(t *rapid.T) *BitCase {
	c := &BitCase{List: []int{}, Words: []uint32{}}
	maxV := oneOf(t, "max", []int{31, 32, 64, 200, 5000, 1 << 15})
	if pct(t, "huge", 3) {
		maxV = 1 << 20
	}
	for i, n := 0, ir(t, "n", 0, 20); i < n; i++ {
		switch uni(t, "kind", 3) {
		case 0:
			c.List = append(c.List, uni(t, "any", maxV+1))
		case 1:
			c.List = append(c.List, min(maxV, oneOf(t, "edge", catEdges)))
		case 2:
			c.List = append(c.List, min(maxV, 32*uni(t, "w", 6)+oneOf(t, "b", []int{0, 31})))
		}
	}
	for i, n := 0, ir(t, "nw", 0, 8); i < n; i++ {
		switch uni(t, "wkind", 4) {
		case 0:
			c.Words = append(c.Words, 0)
		case 1:
			c.Words = append(c.Words, 1<<uint(uni(t, "bit", 32)))
		case 2:
			c.Words = append(c.Words, rapid.Uint32().Draw(t, "word"))
		case 3:
			c.Words = append(c.Words, oneOf(t, "wedge", []uint32{math.MaxUint32, 1 << 31, 0x55555555, 0xaaaaaaaa, 0xfffffffe, 0x7fffffff, 0xffff0000}))
		}
	}
	for i := 0; i < 4; i++ {
		c.Probe = append(c.Probe, oneOf(t, "probe", []uint32{32, 33, 63, 64, 65, 95, 255, 256, 1 << 16, 1 << 31, math.MaxUint32 - 31, math.MaxUint32}))
	}
	if uni(t, "long", 200) >= 194 {
		c.Long = oneOf(t, "longn", []int{7, 8, 9, 16, 70, 300, 1030, 2049, 2100})
		if pct(t, "longer", 4) {
			c.Long = oneOf(t, "longern", []int{70000, 1 << 17})
		}
		c.Fill = oneOf(t, "fill", []uint32{0, math.MaxUint32, 1, 1 << 31, 0x55555555, 0x10000})
	}
	return c
}

func bitCheck(c *BitCase, x *Ctx) error {
	x.nontrivialIf(len(c.List) > 1 || len(c.Words) > 0)
	set := map[int]bool{}
	top := -1
	for _, v := range c.List {
		set[v] = true
		top = max(top, v)
	}
	x.label("list: %d words", min(5, (top+32)/32))
	if c.Long > 0 {
		x.label("longer slices")
		d := &BitCase{Probe: c.Probe[:1]}
		for i := 0; i < c.Long; i++ {
			d.Words = append(d.Words, c.Fill)
			for b := 0; b < 32 && c.Long < 3000; b++ {
				if c.Fill>>uint(b)&1 == 1 {
					d.List = append(d.List, i*32+b)
				}
			}
		}
		d.Words = append(d.Words, c.Words...)
		if err := bitCheck(d, x); err != nil {
			return verr("%.200s", err.Error())
		}
	}
	list := append([]int(nil), c.List...)
	bs := util.ConstructBitset(list)
	if !eqInts(list, c.List) {
		return verr("ConstructBitset changes its input %v", c.List)
	}
	if want := (top + 32) / 32; len(bs) != want {
		return verr("ConstructBitset(%v) has %d words, want %d", c.List, len(bs), want)
	}
	ones := 0
	for i, w := range bs {
		for b := 0; b < 32; b++ {
			if on := w>>uint(b)&1 == 1; on != set[i*32+b] {
				return verr("ConstructBitset(%v): bit %d is %v", c.List, i*32+b, on)
			} else if on {
				ones++
			}
		}
	}
	if ones != len(set) {
		return verr("ConstructBitset(%v) has %d bits", c.List, ones)
	}
	for _, words := range [][]uint32{bs, c.Words} {
		n, first := 0, -1
		for i, w := range words {
			for b := 0; b < 32; b++ {
				on := w&(1<<uint(b)) != 0
				if on {
					n++
					if first < 0 {
						first = i*32 + b
					}
				}
				if util.FindInBitsetUint32(w, uint32(b)) != on {
					return verr("FindInBitsetUint32(%#x, %d) is %v", w, b, !on)
				}
			}
			for _, p := range c.Probe {
				if util.FindInBitsetUint32(w, p) {
					return verr("FindInBitsetUint32(%#x, %d) is true", w, p)
				}
			}
		}
		if got := util.NumberOfSetBits(words); int(got) != n {
			return verr("NumberOfSetBits(%#x) is %d, want %d", words, got, n)
		}
		got, err := util.FirstNonZeroBit(words)
		if (err == nil) != (first >= 0) || err == nil && int(got) != first {
			return verr("FirstNonZeroBit(%#x) is %d, %v, want %d", words, got, err, first)
		}
	}
	return nil
}

func init() {
	register(Prop{ID: "C25", Quick: 192000, Thorough: 1200000, Rule: "rapid draws a model of any file kind but pickle and a layout (key order, extra keys, blank lines, CRLF, feature names, data after the model, pruned XGBoost nodes, reserved fields and statistics, node numbering, number format; a third with only one of them); the file in that layout and the plain file must load to the same metadata and the same predictions bit by bit (raw, transformed; leaf indices for LightGBM), equal to the reference evaluation. Non-trivial: the two files differ."},
		genLay([]string{LGT, LGJ, XGT, XGD, XGL}), layCheck)
	register(Prop{ID: "C26", Quick: 35000, Thorough: 800000, Rule: "rapid draws a scikit-learn model, half of them with leaf values, thresholds and priors made of bytes that pickles escape or that look like escapes, and an encoding (I/L integers, memo use and numbering, equal trees as one shared object, byte order of float arrays, dict order, extra attributes, escaping style, data after the model; a third with only one deviation); metadata and predictions must equal those of the plain encoding bit by bit and the reference evaluation. Non-trivial: the two files differ."},
		genPickle, layCheck)
	register(Prop{ID: "C30", Quick: 350000, Thorough: 5000000, Rule: "rapid draws lists of non-negative integers (word edges preferred) and slices of words; the helpers are compared bit by bit with a set. Non-trivial: a list of two or more or a non-empty slice."},
		genBits, bitCheck)
}
