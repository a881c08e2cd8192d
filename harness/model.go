package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"os"
	"sort"

	"github.com/dmitryikh/leaves"
	"pgregory.net/rapid"
)

// Families of models.
const (
	LGT = "lgt" // LightGBM text
	LGJ = "lgj" // LightGBM JSON
	XGT = "xgt" // XGBoost gbtree
	XGD = "xgd" // XGBoost dart
	XGL = "xgl" // XGBoost gblinear
	SKL = "skl" // scikit-learn GradientBoostingClassifier
)

var allFams = []string{LGT, LGJ, XGT, XGD, XGL, SKL}
var treeFams = []string{LGT, LGJ, XGT, XGD, SKL}

// Split is an inner node. Children >= 0 are inner nodes, ^child is a leaf.
type Split struct {
	F int   `json:"f"`
	T F     `json:"t"`
	C []int `json:"c,omitempty"`
	D bool  `json:"d,omitempty"`
	M int   `json:"m,omitempty"` // missing type: 0 none, 1 zero, 2 NaN
	L int   `json:"l"`
	R int   `json:"r"`
}

func (s *Split) cat() bool { return s.C != nil }

// Tree is a tree in LightGBM's own numbering: split i turns a leaf into inner
// node i, the left part keeps the leaf's number, the right part is leaf i+1.
type Tree struct {
	S   []Split `json:"s,omitempty"`
	V   []F     `json:"v,omitempty"`
	Big *Big    `json:"big,omitempty"`
}

// Big describes a tree that is expanded from a seed.
type Big struct {
	Seed   uint64 `json:"seed"`
	Leaves int    `json:"leaves"`
	Shape  int    `json:"shape"` // 0 random, 1 left chain, 2 right chain, 3 balanced, 4 zigzag
}

// Many describes many small trees that are expanded from a seed.
type Many struct {
	Seed   uint64 `json:"seed"`
	NEst   int    `json:"nest"`
	Leaves int    `json:"leaves"`
}

// Model is a model of any family, independent of its file form.
type Model struct {
	Fam   string  `json:"fam"`
	K     int     `json:"k"`  // raw outputs
	NF    int     `json:"nf"` // features
	Used  []int   `json:"used,omitempty"`
	CatF  []int   `json:"catf,omitempty"` // categorical features
	CatN  []int   `json:"catn,omitempty"` // categorical features whose splits all have missing type NaN
	Trees []Tree  `json:"trees,omitempty"`
	Many  *Many   `json:"many,omitempty"`
	W     []F     `json:"w,omitempty"` // dart weights
	Base  F       `json:"base,omitempty"`
	Lin   []F     `json:"lin,omitempty"`
	LinS  *uint64 `json:"lins,omitempty"` // seed of linear weights
	LR    F       `json:"lr,omitempty"`
	Prior []F     `json:"prior,omitempty"`
	RF    bool    `json:"rf,omitempty"`
	Ver   int     `json:"ver,omitempty"`
	Obj   string  `json:"obj,omitempty"`
	Lay   *Layout `json:"lay,omitempty"` // how the file is written

	trees []Tree
	w     []float64
	lin   []float64
	pools *pools
}

// ---------- expansion ----------

func (m *Model) isCatFeature(f int) bool { return has(m.CatF, f) }

func has(l []int, v int) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func (m *Model) prepare() *Model {
	if m.trees != nil || m.lin != nil {
		return m
	}
	switch {
	case m.Fam == XGL:
		n := (m.NF + 1) * m.K
		m.lin = make([]float64, n)
		if m.LinS != nil {
			r := newRng(*m.LinS)
			for i := range m.lin {
				m.lin[i] = f32((r.Float() - 0.5) * 8)
			}
		} else {
			for i := range m.lin {
				m.lin[i] = float64(m.Lin[i])
			}
		}
		return m
	case m.Many != nil:
		r := newRng(m.Many.Seed)
		for i := 0; i < m.Many.NEst*m.K; i++ {
			n := 1 + r.Intn(m.Many.Leaves)
			m.trees = append(m.trees, m.expand(Big{r.U64(), n, 0}))
		}
	default:
		for _, t := range m.Trees {
			if t.Big != nil {
				t = m.expand(*t.Big)
			}
			m.trees = append(m.trees, t)
		}
	}
	m.w = make([]float64, len(m.trees))
	for i := range m.w {
		m.w[i] = 1
		if m.Fam == XGD {
			if len(m.W) == len(m.trees) {
				m.w[i] = float64(m.W[i])
			} else {
				m.w[i] = f32(0.25 + float64(i%7)*0.5)
			}
		}
	}
	return m
}

func (m *Model) expand(b Big) Tree {
	r := newRng(b.Seed)
	t := Tree{}
	t.V = make([]F, b.Leaves)
	for i := range t.V {
		v := math.Round((r.Float()-0.5)*1e6)/1e4 + float64(i)*1e-7
		if m.Fam == XGT || m.Fam == XGD {
			v = f32(math.Round((r.Float()-0.5)*1e6)/8 + float64(i)/1024)
		}
		t.V[i] = F(v)
	}
	// position of each leaf: inner node and side
	type slot struct {
		node  int
		right bool
	}
	pos := make([]slot, 1, b.Leaves)
	pos[0] = slot{-1, false}
	// interval of a chain's threshold, so that all nodes are reachable
	for i := 0; i+1 < b.Leaves; i++ {
		leaf := 0
		switch b.Shape {
		case 0:
			leaf = r.Intn(i + 1)
		case 1:
			leaf = 0
		case 2:
			leaf = i
		case 3:
			leaf = i
			// breadth first: split the leaves in order of creation
			leaf = breadthLeaf(i)
		case 4:
			leaf = 0
			if i%2 == 1 {
				leaf = i
			}
		}
		s := Split{F: m.Used[r.Intn(len(m.Used))], D: r.Bool(), M: m.fixMissing(r.Intn(3))}
		if m.isCatFeature(s.F) {
			n := 1 + r.Intn(6)
			max := []int{4, 30, 32, 70, 300}[r.Intn(5)]
			for j := 0; j < n; j++ {
				s.C = append(s.C, r.Intn(max))
			}
			s.C = normCats(s.C)
			s.D = false
			s.M = 0
			if has(m.CatN, s.F) {
				s.M = 2
			}
		} else {
			// a chain on one feature is walked from outside to inside
			v := (r.Float() - 0.5) * 200
			switch b.Shape {
			case 1:
				v = 100 - 200*float64(i)/float64(b.Leaves)
			case 2:
				v = -100 + 200*float64(i)/float64(b.Leaves)
			}
			s.T = F(m.fixThr(v))
		}
		s.L, s.R = ^leaf, ^(i + 1)
		if p := pos[leaf]; p.node >= 0 {
			if p.right {
				t.S[p.node].R = i
			} else {
				t.S[p.node].L = i
			}
		}
		t.S = append(t.S, s)
		pos[leaf] = slot{i, false}
		pos = append(pos, slot{i, true})
	}
	return t
}

// breadthLeaf is the leaf split by the i-th split of a balanced tree.
func breadthLeaf(i int) int {
	level := 0
	for i+1 >= 1<<uint(level+1) {
		level++
	}
	return i + 1 - 1<<uint(level)
}

func normCats(c []int) []int {
	sort.Ints(c)
	out := c[:0]
	for i, v := range c {
		if i == 0 || v != c[i-1] {
			out = append(out, v)
		}
	}
	return out
}

func (m *Model) xg() bool { return m.Fam == XGT || m.Fam == XGD || m.Fam == XGL }
func (m *Model) lg() bool { return m.Fam == LGT || m.Fam == LGJ }

// single tells whether inputs have to be representable in single precision.
func (m *Model) single() bool { return !m.lg() }

func (m *Model) fixThr(v float64) float64 {
	if m.xg() {
		return to32(v)
	}
	return v
}

func (m *Model) fixMissing(v int) int {
	if m.lg() {
		return v
	}
	if m.xg() {
		return 2
	}
	return 0
}

// ---------- reference ----------

func goLeft(fam string, s *Split, x float64) bool {
	switch fam {
	case XGT, XGD:
		if math.IsNaN(x) {
			return s.D
		}
		return x < float64(s.T)
	case SKL:
		return x <= float64(s.T)
	}
	if s.cat() {
		if math.IsNaN(x) || x <= -1 || x >= 1<<31 {
			return false
		}
		c := int(x) // truncates
		i := sort.SearchInts(s.C, c)
		return i < len(s.C) && s.C[i] == c
	}
	if math.IsNaN(x) {
		if s.M == 2 || s.M == 1 {
			return s.D
		}
		x = 0
	}
	if s.M == 1 && x > -1e-35 && x <= 1e-35 {
		return s.D
	}
	return x <= float64(s.T)
}

func (t *Tree) leaf(fam string, row []float64) int {
	if len(t.S) == 0 {
		return 0
	}
	i := 0
	for {
		s := &t.S[i]
		next := s.R
		if goLeft(fam, s, row[s.F]) {
			next = s.L
		}
		if next < 0 {
			return ^next
		}
		i = next
	}
}

func (m *Model) nEst() int {
	if m.Fam == XGL {
		return 1
	}
	m.prepare()
	return len(m.trees) / m.K
}

// raw returns raw scores of the row and the sums of their terms' magnitudes.
func (m *Model) raw(row []float64, nEst int) (v, mag []float64) {
	m.prepare()
	v, mag = make([]float64, m.K), make([]float64, m.K)
	add := func(k int, x float64) {
		v[k] += x
		mag[k] += math.Abs(x)
	}
	if m.Fam == XGL {
		for k := 0; k < m.K; k++ {
			add(k, float64(m.Base))
			add(k, m.lin[m.NF*m.K+k])
			for f := 0; f < m.NF; f++ {
				if !math.IsNaN(row[f]) {
					add(k, row[f]*m.lin[f*m.K+k])
				}
			}
		}
		return
	}
	if nEst <= 0 || nEst > m.nEst() {
		nEst = m.nEst()
	}
	for k := 0; k < m.K; k++ {
		if m.xg() {
			add(k, float64(m.Base))
		}
		if m.Fam == SKL {
			add(k, float64(m.Prior[k]))
		}
		for i := 0; i < nEst; i++ {
			id := i*m.K + k
			t := &m.trees[id]
			x := float64(t.V[t.leaf(m.Fam, row)])
			if m.Fam == SKL {
				x *= float64(m.LR)
			}
			if m.Fam == XGD {
				x *= m.w[id]
			}
			add(k, x)
		}
		if m.RF {
			v[k] /= float64(nEst)
			mag[k] /= float64(nEst)
		}
	}
	return
}

func (m *Model) nLeaves() []int {
	m.prepare()
	if m.Fam == XGL {
		return []int{}
	}
	n := m.nEst()
	r := make([]int, n*m.K)
	for k := 0; k < m.K; k++ {
		for i := 0; i < n; i++ {
			r[k*n+i] = len(m.trees[i*m.K+k].V)
		}
	}
	return r
}

func (m *Model) name() string {
	switch m.Fam {
	case XGT:
		return "xgboost.gbtree"
	case XGD:
		return "xgboost.dart"
	case XGL:
		return "xgboost.gblinear"
	case SKL:
		return "sklearn.ensemble.GradientBoostingClassifier"
	}
	if m.RF {
		return "lightgbm.rf"
	}
	return "lightgbm.gbdt"
}

// truncated returns the model of the first n estimators.
func (m *Model) truncated(n int) *Model {
	m.prepare()
	c := *m
	c.Many = nil
	c.Trees = m.trees[:n*m.K]
	c.trees = nil
	c.W = nil
	if m.Fam == XGD {
		for _, w := range m.w[:n*m.K] {
			c.W = append(c.W, F(w))
		}
	}
	return c.prepare()
}

// sibling is a model of the same structure and, in most cases, of the same
// file size with other leaf values or weights.
func (m *Model) sibling() *Model {
	c := *m
	c.trees, c.w, c.lin, c.pools = nil, nil, nil, nil
	rev := func(v []F) []F {
		r := make([]F, len(v))
		for i := range v {
			r[len(v)-1-i] = v[i]
		}
		return r
	}
	if c.LinS != nil {
		s := *c.LinS + 1
		c.LinS = &s
	}
	c.Lin = rev(m.Lin)
	if m.Trees != nil {
		c.Trees = nil
		for _, t := range m.Trees {
			t.V = rev(t.V)
			if t.Big != nil {
				b := *t.Big
				b.Seed++
				t.Big = &b
			}
			c.Trees = append(c.Trees, t)
		}
	}
	return &c
}

// ---------- generation ----------

type GenOpt struct {
	HugeCat  bool // JSON: single categories up to 2^31-1
	Fams     []string
	MaxEst   int // drawn small models
	MaxK     int
	BigPct   int  // percentage of big models
	NoCat    bool // no categorical splits
	CatPct   int  // chance of a feature to be categorical
	MaxBig   int  // leaves of a big tree
	Obj      bool // draw objectives
	NoWild   bool
	MinEst   int
	Multi    bool // several outputs preferred
	NoHugeNF bool
	MinLeaf  int
	NoLay    bool // plain files
	Huge     int  // chance of a huge model, in 1/10000
}

func ir(t *rapid.T, name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, name) }

var boolGen = rapid.Bool()

// uni draws uniformly from [0,n); rapid's integer ranges prefer small numbers.
func uni(t *rapid.T, name string, n int) int {
	v := 0
	for b := 1; b < 4*n; b *= 2 {
		v *= 2
		if boolGen.Draw(t, name) {
			v++
		}
	}
	return v % n
}

// pct is true with the given chance in percent, false is simpler.
func pct(t *rapid.T, name string, p int) bool { return uni(t, name, 128) >= 128-(p*128+50)/100 }

func oneOf[E any](t *rapid.T, name string, v []E) E { return v[uni(t, name, len(v))] }

var specialThr = []float64{0, 1, -1, 0.5, 2, 3, 1.0000000180025095e-35, -1e-35 * 1.0000000180025095, 1e-36, -1e-36, 1e-30, 10.5, 100, 255.99999999999997,
	16777216, 16777217, 4294967296.5, 1e15, -1e15, 1e300, -1e300, 5e-324, 0.1, 1. / 3, math.Pi, 3.4028234663852886e38, 1.1754943508222875e-38}

func genThr(t *rapid.T, m *Model) F {
	var v float64
	switch ir(t, "thrkind", 0, 4) {
	case 0:
		v = float64(ir(t, "thrint", -3, 6))
	case 1:
		v = float64(ir(t, "thrhalf", -3, 6)) + 0.5
	case 2:
		v = oneOf(t, "thrspec", specialThr)
	case 3:
		v = rapid.Float64Range(-1000, 1000).Draw(t, "thrfloat")
	case 4:
		v = rapid.Float64Range(-1e30, 1e30).Draw(t, "thrwide")
	}
	if v == 0 {
		v = 0 // no negative zero from rounding
	}
	if m.Fam == LGT && uni(t, "thrinf", 128) == 127 {
		v = math.Inf(1 - 2*uni(t, "thrneg", 2))
	}
	return F(m.fixThr(v))
}

var catEdges = []int{0, 1, 2, 7, 15, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 127, 128, 255, 256, 1000, 1023, 1024, 32767, 65535, 65536, 100000}

func genCats(t *rapid.T) []int {
	var c []int
	kind := ir(t, "catkind", 0, 6)
	if uni(t, "catmany", 64) == 63 {
		kind = 7
	}
	switch kind {
	case 0:
		c = []int{ir(t, "cat1", 0, 40)}
	case 1:
		c = []int{oneOf(t, "cat1e", catEdges)}
	case 2: // one word
		for i, n := 0, ir(t, "ncat", 2, 8); i < n; i++ {
			c = append(c, ir(t, "cat", 0, 31))
		}
	case 3: // several words
		for i, n := 0, ir(t, "ncat", 2, 8); i < n; i++ {
			c = append(c, ir(t, "cat", 0, 200))
		}
	case 4: // edges
		for i, n := 0, ir(t, "ncat", 2, 6); i < n; i++ {
			c = append(c, oneOf(t, "cate", catEdges))
		}
	case 5: // all bits of one word, one bit left out or not
		w := ir(t, "word", 0, 3)
		hole := ir(t, "hole", 0, 40)
		for i := 0; i < 32; i++ {
			if i != hole {
				c = append(c, w*32+i)
			}
		}
	case 6: // first bits of several words
		for i, n := 0, ir(t, "nword", 2, 5); i < n; i++ {
			c = append(c, i*32+oneOf(t, "bit", []int{0, 31, 1, 30}))
		}
	case 7: // hundreds
		from, step := ir(t, "catfrom", 0, 40), ir(t, "catstep", 1, 3)
		for i, n := 0, oneOf(t, "ncatmany", []int{100, 255, 256, 257, 300, 512, 513}); i < n; i++ {
			c = append(c, from+i*step)
		}
	}
	return normCats(c)
}

func genLeafVal(t *rapid.T, m *Model, i int, wild bool) F {
	var v float64
	if !wild {
		v = float64(ir(t, "leaf", -4000, 4000))/8 + float64(i)/1024
	} else {
		switch ir(t, "leafkind", 0, 3) {
		case 0:
			v = rapid.Float64Range(-10, 10).Draw(t, "leaff")
		case 1:
			v = rapid.Float64Range(-1e9, 1e9).Draw(t, "leafbig")
		case 2:
			v = rapid.Float64Range(-1e-9, 1e-9).Draw(t, "leafsmall")
		case 3:
			v = oneOf(t, "leafspec", []float64{0, 1, -1, 0.1, 1e-300, 123456789.123456789, -0.30000000000000004, 1e22})
		}
	}
	if m.xg() {
		v = to32(v)
	}
	return F(v)
}

func genTree(t *rapid.T, m *Model, maxLeaves int, o *GenOpt) Tree {
	lo := 1
	if o.MinLeaf > 1 {
		lo = o.MinLeaf
	}
	n := ir(t, "leaves", lo, maxLeaves)
	wild := !o.NoWild && pct(t, "wild", 20)
	tr := Tree{}
	for i := 0; i < n; i++ {
		tr.V = append(tr.V, genLeafVal(t, m, i, wild))
	}
	type slot struct {
		node  int
		right bool
	}
	pos := []slot{{-1, false}}
	for i := 0; i+1 < n; i++ {
		leaf := ir(t, "split", 0, i)
		s := Split{F: oneOf(t, "feat", m.Used)}
		if m.isCatFeature(s.F) {
			s.C = genCats(t)
			if o.HugeCat && m.Fam == LGJ && len(s.C) == 1 && pct(t, "hugecat", 20) {
				s.C[0] = oneOf(t, "hugecatv", []int{1<<24 - 1, 1 << 24, 1<<24 + 1, 1 << 30, 1<<30 + 5, 1<<31 - 1, 1<<31 - 128, 123456789})
			}
			if has(m.CatN, s.F) {
				s.M = 2
			} else if pct(t, "catmisszero", 10) {
				s.M = 1
			}
		} else {
			s.T = genThr(t, m)
			s.D = rapid.Bool().Draw(t, "dl")
			s.M = m.fixMissing(ir(t, "miss", 0, 2))
		}
		s.L, s.R = ^leaf, ^(i + 1)
		if p := pos[leaf]; p.node >= 0 {
			if p.right {
				tr.S[p.node].R = i
			} else {
				tr.S[p.node].L = i
			}
		}
		tr.S = append(tr.S, s)
		pos[leaf] = slot{i, false}
		pos = append(pos, slot{i, true})
	}
	return tr
}

func genModel(t *rapid.T, o GenOpt) *Model {
	m := genModel1(t, o)
	if !o.NoLay && pct(t, "laid out", 25) {
		l := genLayout(t)
		m.Lay = &l
	}
	return m
}

func genModel1(t *rapid.T, o GenOpt) *Model {
	m := &Model{Fam: oneOf(t, "fam", o.Fams)}
	if o.MaxEst == 0 {
		o.MaxEst = 4
	}
	if o.MaxK == 0 {
		o.MaxK = 4
	}
	if o.MaxBig == 0 {
		o.MaxBig = 600
	}
	if o.MinEst == 0 {
		o.MinEst = 1
	}
	big := pct(t, "big", o.BigPct)
	huge := o.Huge > 0 && uni(t, "huge", 1<<14) >= 1<<14-(o.Huge*(1<<14))/10000
	big = big || huge
	m.K = 1
	mult := 35
	if o.Multi {
		mult = 70
	}
	if pct(t, "multi", mult) {
		m.K = ir(t, "k", 2, o.MaxK)
		if o.MaxK == 4 && (pct(t, "manyk", 8) || huge && pct(t, "hugek", 40)) {
			m.K = ir(t, "kbig", 5, 40)
			if huge {
				m.K = ir(t, "khuge", 250, 520)
			}
		}
	}
	if m.Fam == SKL && m.K == 2 {
		m.K = 3
	}
	// features
	m.NF = ir(t, "nf", 1, 7)
	if big && pct(t, "widenf", 40) {
		m.NF = oneOf(t, "nfbig", []int{40, 257, 300, 1000})
		if !o.NoHugeNF && m.Fam != XGL && pct(t, "hugenf", 25) {
			m.NF = oneOf(t, "nfhuge", []int{65536, 65537, 70001})
		}
	}
	if m.Fam != XGL {
		if m.NF <= 7 {
			nu := ir(t, "nused", 1, m.NF)
			for i := 0; i < nu; i++ {
				m.Used = append(m.Used, i)
			}
			// which features are used
			if off := ir(t, "usedoff", 0, m.NF-nu); off > 0 {
				for i := range m.Used {
					m.Used[i] += off
				}
			}
		} else {
			m.Used = normCats([]int{0, m.NF - 1, ir(t, "u1", 0, m.NF-1), ir(t, "u2", 0, m.NF-1), ir(t, "u3", 0, 255%m.NF)})
		}
		if m.lg() && !o.NoCat {
			p := o.CatPct
			if p == 0 {
				p = 30
			}
			for _, f := range m.Used {
				if pct(t, "iscat", p) {
					m.CatF = append(m.CatF, f)
					if pct(t, "catnan", 60) {
						m.CatN = append(m.CatN, f)
					}
				}
			}
		}
	}
	switch m.Fam {
	case LGT:
		m.Ver = ir(t, "ver", 2, 3)
		m.RF = pct(t, "rf", 20)
	case LGJ:
		m.Ver = 2
	case SKL:
		m.LR = F(oneOf(t, "lr", []float64{0.1, 1, 0.5, 0.05, 1e-3, 2, 0.1, 0.1, 1, 0.05, 0, -0.25}))
		if pct(t, "lrfree", 30) {
			m.LR = F(rapid.Float64Range(1e-4, 4).Draw(t, "lrv"))
		}
		p := rapid.Float64Range(-5, 5).Draw(t, "prior0")
		for k := 0; k < m.K; k++ {
			if m.K == 1 {
				m.Prior = append(m.Prior, F(p))
			} else {
				m.Prior = append(m.Prior, F(rapid.Float64Range(0, 1).Draw(t, "prior")))
			}
		}
	case XGT, XGD, XGL:
		m.Base = F(f32(oneOf(t, "base", []float64{0.5, 0, -1.25, 3, 0.1, -7.5})))
	}
	m.Obj = genObj(t, m, o.Obj)
	if m.Fam == XGL {
		if m.NF > 7 || pct(t, "linseed", 20) {
			s := rapid.Uint64().Draw(t, "lins")
			m.LinS = &s
		} else {
			for i := 0; i < (m.NF+1)*m.K; i++ {
				m.Lin = append(m.Lin, F(f32(float64(ir(t, "lw", -800, 800))/16)))
			}
		}
		return m.prepare()
	}
	if big && pct(t, "many", 40) {
		m.Many = &Many{rapid.Uint64().Draw(t, "manyseed"), ir(t, "manyn", 20, 130), ir(t, "manyl", 1, 9)}
		if huge {
			m.Many.NEst = ir(t, "manyhuge", 250, 3000)
			if m.K == 1 && m.Fam != SKL && pct(t, "mosttrees", 30) {
				m.Many.NEst = oneOf(t, "mostn", []int{32769, 40000, 65537, 66000})
				m.Many.Leaves = min(m.Many.Leaves, 2)
			}
		}
		if !huge && m.K < 5 && pct(t, "hundreds", 25) {
			m.Many.NEst, m.Many.Leaves = ir(t, "manyest", 130, 520), min(m.Many.Leaves, 3)
		}
		if m.K > 40 {
			m.Many.NEst = 4
		} else if m.K > 4 {
			m.Many.NEst /= 4
		}
		if m.Many.NEst < o.MinEst {
			m.Many.NEst = o.MinEst
		}
		return m.prepare()
	}
	nEst := ir(t, "nest", o.MinEst, o.MaxEst)
	if m.K > 4 && nEst > 2 {
		nEst = 2
	}
	if nEst < o.MinEst {
		nEst = o.MinEst
	}
	for i := 0; i < nEst*m.K; i++ {
		if big && i == 0 {
			b := &Big{rapid.Uint64().Draw(t, "bigseed"), 0, ir(t, "bigshape", 0, 4)}
			max := o.MaxBig
			b.Leaves = ir(t, "bigleaves", 9, max)
			if huge {
				b.Leaves = oneOf(t, "hugeleaves", []int{1025, 4097, 33000, 70000, 140000})
				if m.Fam == SKL {
					b.Leaves = min(b.Leaves, 33000)
				} else if m.Fam == LGJ {
					b.Leaves = min(b.Leaves, 5000)
				} else if o.HugeCat && len(m.CatF) > 0 && pct(t, "hugecats", 40) {
					b.Leaves = 260000
				}
				if b.Leaves > 5000 && (b.Shape == 1 || b.Shape == 2 || b.Shape == 4) {
					b.Shape = 0
				}
			}
			if b.Shape != 3 && b.Shape != 0 && b.Leaves > 300 && m.Fam == LGJ {
				b.Leaves = 300 // nested text
			}
			m.Trees = append(m.Trees, Tree{Big: b})
			continue
		}
		ml := 8
		if m.K > 3 || nEst > 4 {
			ml = 4
		}
		if o.MinLeaf > ml {
			ml = o.MinLeaf
		}
		m.Trees = append(m.Trees, genTree(t, m, ml, &o))
	}
	if m.Fam == XGD {
		for range m.Trees {
			m.W = append(m.W, F(f32(oneOf(t, "w", []float64{1, 0.5, 0.25, 0, 0.1, 2, 0.9090909, -0.5, 1e-6, 123.5}))))
		}
	}
	return m.prepare()
}

// genObj draws an objective that fits the family and number of outputs.
// Without `tr` the objective has no meaning.
func genObj(t *rapid.T, m *Model, tr bool) string {
	switch m.Fam {
	case LGT:
		if m.K == 1 {
			return oneOf(t, "obj", []string{"binary sigmoid:1", "regression", "regression_l1", "poisson", "gamma", "tweedie"})
		}
		if !tr && pct(t, "ova", 20) {
			return fmt.Sprintf("multiclassova num_class:%d sigmoid:1", m.K)
		}
		return fmt.Sprintf("multiclass num_class:%d", m.K)
	case XGT, XGD, XGL:
		if m.K == 1 {
			if tr {
				return "binary:logistic"
			}
			return oneOf(t, "obj", []string{"binary:logistic", "reg:linear", "rank:pairwise", "count:poisson"})
		}
		return oneOf(t, "obj", []string{"multi:softprob", "multi:softmax"})
	}
	return ""
}

// wantTransform is the name of the transformation the model's objective asks
// for, "" if leaves documents none.
func (m *Model) wantTransform() string {
	switch m.Fam {
	case LGT:
		if m.RF {
			return "raw"
		}
		switch {
		case m.Obj == "binary sigmoid:1":
			return "logistic"
		case m.Obj == "poisson" || m.Obj == "gamma" || m.Obj == "tweedie":
			return "exponential"
		case m.Obj == "regression" || m.Obj == "regression_l1":
			return "raw"
		case m.Obj == fmt.Sprintf("multiclass num_class:%d", m.K):
			return "softmax"
		}
	case XGT, XGD, XGL:
		if m.Obj == "binary:logistic" {
			return "logistic"
		}
	}
	return ""
}

// ---------- files and loading ----------

func (m *Model) bytes() []byte { return m.bytesLay(m.Lay) }

func loadBytes(fam string, b []byte, tr bool) (*leaves.Ensemble, error) {
	return loadReader(fam, bufio.NewReader(bytes.NewReader(b)), tr)
}

func loadReader(fam string, r *bufio.Reader, tr bool) (*leaves.Ensemble, error) {
	switch fam {
	case LGT:
		return leaves.LGEnsembleFromReader(r, tr)
	case LGJ:
		return leaves.LGEnsembleFromJSON(r, tr)
	case XGT, XGD:
		return leaves.XGEnsembleFromReader(r, tr)
	case XGL:
		return leaves.XGBLinearFromReader(r, tr)
	case SKL:
		return leaves.SKEnsembleFromReader(r, tr)
	}
	panic("unknown family " + fam)
}

func loadFile(fam, path string, tr bool) (*leaves.Ensemble, error) {
	switch fam {
	case LGT:
		return leaves.LGEnsembleFromFile(path, tr)
	case LGJ:
		f, err := os.Open(path)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		return leaves.LGEnsembleFromJSON(f, tr)
	case XGT, XGD:
		return leaves.XGEnsembleFromFile(path, tr)
	case XGL:
		return leaves.XGBLinearFromFile(path, tr)
	case SKL:
		return leaves.SKEnsembleFromFile(path, tr)
	}
	panic("unknown family " + fam)
}

func (m *Model) load(tr bool) (*leaves.Ensemble, error) {
	e, err := loadBytes(m.Fam, m.bytes(), tr)
	if err != nil {
		return nil, verr("well-formed %s model is refused: %v", m.Fam, err)
	}
	return e, nil
}

// canTransform: the model can be loaded with its transformation.
func (m *Model) canTransform() bool { return m.wantTransform() != "" }
