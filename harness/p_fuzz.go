package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves"
	"pgregory.net/rapid"
)

// ---------- C24 ----------

// FuzzCase is a well-formed model, contradicting fields, changes of its bytes,
// and the loader that gets the result.
type FuzzCase struct {
	M    *Model `json:"m,omitempty"`
	L    Layout `json:"l"`
	Raw  []byte `json:"raw,omitempty"` // instead of a model
	Fam  string `json:"fam"`           // loader
	T    bool   `json:"t,omitempty"`
	Muts []Mut  `json:"muts"`
	Seed uint64 `json:"seed"` // rows
}

// Mut is a change of bytes. A and B are places, modulo what there is.
type Mut struct {
	Op string `json:"op"`
	A  int    `json:"a"`
	B  int    `json:"b,omitempty"`
	N  int    `json:"n,omitempty"`
	S  string `json:"s,omitempty"`
}

var mutText = []string{"0", "1", "-1", "2", "-2", "3", "31", "32", "99", "2147483647", "2147483648", "4294967295", "4294967296", "-2147483648", "-2147483649", "1000000000", "9223372036854775807", "-9223372036854775808",
	"9223372036854775808", "1e400", "nan", "inf", "-inf", "", "0.5", "1e-400", "x", "+1", "0x10", "1_0", " ", "1.", "null", "-0"}
var mutJSON = []string{"null", "{}", "[]", "\"\"", "\"x\"", "-1", "0", "1", "1e308", "true", "[1]", "{\"leaf_value\":1}", "\"1||2\"", "\"-1\"", "\"a||b\"", "\"||\"", "\"4294967296\"", "\"31||31\"", "1.5", "\"<=\"", "\"==\"", "\"NaN\"", "2147483648", "100000000", "2000000000"}
var mutWords = []int{0, 1, 2, 3, -1, -2, 5, 7, 31, 100, 65535, math.MaxInt32, math.MinInt32, math.MinInt32 + 1, 1 << 30, 1 << 24, 0x7f800000, 0x7fc00000, -0x800000}
var mutPickle = []string{"(", ".", "0", "2", "F1.5\n", "I1\n", "L5L\n", "N", "Px\n", "R", "S'a'\n", "Vx\n", "a", "b", "cnumpy\nndarray\n", "d", "g0\n", "g1\n", "g999\n", "ix\ny\n", "l", "p0\n", "p1\n", "s", "t", "L\n", "LL\n", "I\n", "F\n", "V\\u\n", "V\\u00\n", "(t", "(l", "(d", "}", "]", ")", "\x80\x02", "L-1L\n", "I-9\n", "V\n", "(I1\nt", "(Vk\nI1\nd"}

var numberRe = regexp.MustCompile(`-?[0-9][0-9.eE+\-]*`)
var jsonValRe = regexp.MustCompile(`:\s*("[^"]*"|-?[0-9][0-9.eE+\-]*|true|false|null)`)

func genMut(t *rapid.T, fam string) Mut {
	ops := []string{"flip", "set", "insert", "delete", "dup", "cut", "move"}
	switch fam {
	case LGT:
		ops = append(ops, "num", "num", "num", "num", "num", "tok-", "tok+", "line-", "line+", "line~", "val", "numcopy", "numcopy", "numcopy")
	case LGJ:
		ops = append(ops, "num", "num", "num", "json", "json", "json", "json", "numcopy", "jsoncopy", "jsoncopy", "jtree", "jtree", "jtree")
	case SKL:
		ops = append(ops, "num", "num", "op+", "op+", "op~", "arg", "arg", "line-", "line+", "line~", "numcopy", "word8", "word8")
	default:
		ops = append(ops, "word", "word", "word", "word", "word", "word", "wordcopy", "wordcopy", "word8")
	}
	m := Mut{Op: oneOf(t, "op", ops), A: uni(t, "a", 1<<16)}
	switch m.Op {
	case "flip":
		m.N = uni(t, "bit", 8)
	case "set":
		m.N = int(oneOf(t, "byte", []byte{0, 1, '\n', ' ', '=', '-', '.', '|', '"', '\\', 'L', 0x7f, 0x80, 0xff, '9', '0', '(', '\r'}))
	case "insert":
		m.S = string(rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, "bytes"))
	case "delete", "dup":
		m.N = 1 + ir(t, "len", 0, 100)
	case "move", "numcopy", "wordcopy", "jsoncopy":
		m.B = uni(t, "b", 1<<16)
		m.N = 1 + ir(t, "len", 0, 60)
	case "num", "tok+", "val", "arg":
		m.S = oneOf(t, "text", mutText)
		if pct(t, "nearby", 40) {
			m.S = "" // original ±N
			m.N = oneOf(t, "delta", []int{-1, 1, 2, -2, 10})
		} else if pct(t, "small", 40) {
			m.S = strconv.Itoa(uni(t, "smalln", 12) - 3)
		}
	case "json":
		m.S = oneOf(t, "json", mutJSON)
	case "jtree":
		m.B, m.N = uni(t, "b", 1<<16), uni(t, "how", 4)
		m.S = oneOf(t, "json", mutJSON)
	case "word", "word8":
		m.N = oneOf(t, "word", mutWords)
		if pct(t, "small", 40) {
			m.N = uni(t, "smalln", 20) - 3
		}
	case "op+", "op~":
		m.S = oneOf(t, "pickle", mutPickle)
	case "line-", "line+", "line~":
		m.B = uni(t, "b", 1<<16)
	}
	return m
}

func replaceAt(b []byte, lo, hi int, s string) []byte {
	out := append([]byte(nil), b[:lo]...)
	out = append(out, s...)
	return append(out, b[hi:]...)
}

func (m *Mut) apply(b []byte) []byte {
	if len(b) == 0 {
		return append(b, m.S...)
	}
	a := m.A % len(b)
	if m.A&1 == 1 {
		a = len(b) - 1 - a // places near both ends
	}
	switch m.Op {
	case "flip":
		b[a] ^= 1 << uint(m.N)
	case "set":
		b[a] = byte(m.N)
	case "insert":
		return replaceAt(b, a, a, m.S)
	case "delete":
		return replaceAt(b, a, min(a+m.N, len(b)), "")
	case "dup":
		return replaceAt(b, a, a, string(b[a:min(a+m.N, len(b))]))
	case "cut":
		return b[:a]
	case "move":
		to := m.B % len(b)
		return replaceAt(b, to, to, string(b[a:min(a+m.N, len(b))]))
	case "num", "numcopy":
		toks := numberRe.FindAllIndex(b, -1)
		if len(toks) == 0 {
			return b
		}
		k := toks[m.A%len(toks)]
		old := string(b[k[0]:k[1]])
		s := m.S
		if m.Op == "numcopy" {
			k2 := toks[m.B%len(toks)]
			s = string(b[k2[0]:k2[1]])
		} else if m.N != 0 {
			s = nearby(old, m.N)
		}
		return replaceAt(b, k[0], k[1], s)
	case "tok-", "tok+", "val":
		lines := bytes.Split(b, []byte("\n"))
		var with []int
		for i, l := range lines {
			if bytes.IndexByte(l, '=') > 0 {
				with = append(with, i)
			}
		}
		if len(with) == 0 {
			return b
		}
		i := with[m.A%len(with)]
		key, val, _ := strings.Cut(string(lines[i]), "=")
		f := strings.Split(val, " ")
		j := (m.A / len(with)) % len(f)
		switch m.Op {
		case "tok-":
			f = append(f[:j:j], f[j+1:]...)
		case "tok+":
			f = append(f[:j:j], append([]string{m.S}, f[j:]...)...)
		case "val":
			f = []string{m.S}
		}
		lines[i] = []byte(key + "=" + strings.Join(f, " "))
		return bytes.Join(lines, []byte("\n"))
	case "line-", "line+", "line~":
		lines := bytes.Split(b, []byte("\n"))
		i, j := m.A%len(lines), m.B%len(lines)
		switch m.Op {
		case "line-":
			lines = append(lines[:i:i], lines[i+1:]...)
		case "line+":
			lines = append(lines[:j:j], append([][]byte{lines[i]}, lines[j:]...)...)
		case "line~":
			lines[i], lines[j] = lines[j], lines[i]
		}
		return bytes.Join(lines, []byte("\n"))
	case "json", "jsoncopy":
		toks := jsonValRe.FindAllSubmatchIndex(b, -1)
		if len(toks) == 0 {
			return b
		}
		k := toks[m.A%len(toks)]
		s := m.S
		if m.Op == "jsoncopy" {
			k2 := toks[m.B%len(toks)]
			s = string(b[k2[2]:k2[3]])
		}
		return replaceAt(b, k[2], k[3], s)
	case "jtree":
		return jsonTree(b, m)
	case "word", "wordcopy", "word8":
		// fields are aligned to the end of a binary model, but not to its start
		n := 4
		if m.Op == "word8" {
			n = 8
		}
		if len(b) < n {
			return b
		}
		at := func(v int) int {
			words := len(b) / 4
			p := len(b) - 4*(1+(v/2)%words)
			if v%4 == 3 {
				p = 4 * ((v / 4) % words) // header
			}
			return min(p, len(b)-n)
		}
		p := at(m.A)
		switch m.Op {
		case "word":
			binary.LittleEndian.PutUint32(b[p:], uint32(m.N))
		case "wordcopy":
			q := at(m.B)
			copy(b[p:p+4], append([]byte(nil), b[q:q+4]...))
		case "word8":
			binary.LittleEndian.PutUint64(b[p:], uint64(m.N))
		}
	case "arg": // the argument of an opcode, short ones preferred
		lines := bytes.Split(b, []byte("\n"))
		i := m.A % len(lines)
		for k := 0; k < 8 && len(lines[i]) > 6; k++ {
			i = (i + 1) % len(lines)
		}
		l := lines[i]
		k := bytes.IndexAny(l, "VILFcgp")
		if k < 0 {
			return b
		}
		lines[i] = append(append([]byte(nil), l[:k+1]...), m.S...)
		return bytes.Join(lines, []byte("\n"))
	case "op+", "op~":
		// at a line's start
		var starts []int
		for i := range b {
			if i == 0 || b[i-1] == '\n' {
				starts = append(starts, i)
			}
		}
		p := starts[m.A%len(starts)]
		if m.Op == "op+" {
			return replaceAt(b, p, p, m.S)
		}
		if p < len(b) {
			return replaceAt(b, p, p+1, m.S)
		}
	}
	return b
}

// jsonTree replaces, copies or removes a value of any kind.
func jsonTree(b []byte, m *Mut) []byte {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var root any
	if dec.Decode(&root) != nil {
		return b
	}
	type slot struct {
		v   any
		set func(any)
		del func()
	}
	var slots []slot
	var walk func(o any)
	walk = func(o any) {
		switch x := o.(type) {
		case map[string]any:
			for _, k := range jsonKeys(x) {
				slots = append(slots, slot{x[k], func(v any) { x[k] = v }, func() { delete(x, k) }})
				walk(x[k])
			}
		case []any:
			for i := range x {
				slots = append(slots, slot{x[i], func(v any) { x[i] = v }, func() {
					copy(x[i:], x[i+1:])
					x[len(x)-1] = nil
				}})
				walk(x[i])
			}
		}
	}
	walk(root)
	if len(slots) == 0 {
		return b
	}
	s := slots[m.A%len(slots)]
	switch m.N {
	case 0:
		var v any
		if json.Unmarshal([]byte(m.S), &v) == nil {
			s.set(v)
		}
	case 1:
		s.del()
	default: // a copy through text makes no cycles
		c, err := json.Marshal(slots[m.B%len(slots)].v)
		if err != nil {
			return b
		}
		s.set(json.RawMessage(c))
	}
	out, err := json.Marshal(root)
	if err != nil {
		return b
	}
	return out
}

func jsonKeys(m map[string]any) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func nearby(old string, d int) string {
	if v, err := strconv.Atoi(old); err == nil {
		return strconv.Itoa(v + d)
	}
	if v, err := strconv.ParseFloat(old, 64); err == nil {
		return strconv.FormatFloat(v+float64(d), 'g', -1, 64)
	}
	return old + strconv.Itoa(d)
}

// fields that make a file contradict itself, by family
var fuzzKeys = map[string][]string{
	LGT: {"num_class", "num_tree_per_iteration", "+trees", "+tree_sizes"},
	LGJ: {"num_class", "num_tree_per_iteration", "+trees"},
	XGT: {"header.features", "model.trees", "model.roots", "model.features", "groups", "+trees", "@at", "@node", "left", "right", "feat", "leaf", "split", "tree.roots", "tree.features", "count", "group", "@node", "left", "right"},
	XGL: {"header.features", "model.features", "groups", "+weights"},
	SKL: {"n_estimators", "n_classes_", "+classes_", "+priors", "shape0", "shape1", "+list", "@at", "@node", "left", "right", "feat", "count", "+values", "+nodes", "@node", "left", "right"},
}

var rawTokens = []string{"tree\n", "version=v2\n", "num_class=1\n", "num_tree_per_iteration=1\n", "max_feature_idx=0\n", "tree_sizes=1\n", "\n", "Tree=0\n", "num_leaves=1\n", "num_cat=0\n", "leaf_value=1\n", "num_leaves=2\n", "num_cat=1\n",
	"{\"name\":\"tree\",\"version\":\"v2\",\"num_class\":1,\"num_tree_per_iteration\":1,\"max_feature_idx\":0,\"tree_info\":[", "{\"num_leaves\":1,\"tree_structure\":", "{\"leaf_value\":1}", "}", "]}", "null", "{", "[", ",",
	"(", "l", "d", "t", "R", "b", ".", "I1\n", "Vx\n", "p0\n", "g0\n", "a", "s", "ccopy_reg\n_reconstructor\n", "N", "\x00\x00\x00\x00", "\x01\x00\x00\x00", "\xff\xff\xff\xff", "\x06\x00\x00\x00\x00\x00\x00\x00gbtree"}

func genFuzz(t *rapid.T) *FuzzCase {
	c := &FuzzCase{Seed: rapid.Uint64().Draw(t, "seed"), Muts: []Mut{}}
	if pct(t, "raw", 4) {
		c.Fam = oneOf(t, "loader", allFams)
		if rapid.Bool().Draw(t, "tokens") {
			for i, n := 0, ir(t, "ntok", 0, 30); i < n; i++ {
				c.Raw = append(c.Raw, oneOf(t, "tok", rawTokens)...)
			}
		} else {
			c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 600).Draw(t, "raw")
		}
		if c.Raw == nil {
			c.Raw = []byte{}
		}
		return c
	}
	c.M = genModel(t, GenOpt{NoLay: true, Fams: allFams, BigPct: 3, Obj: pct(t, "trans", 50), MaxBig: 60, NoHugeNF: true, MaxEst: 3})
	c.L = genLayout(t)
	m := c.M
	c.Fam = m.Fam
	if m.Fam != SKL && rapid.Bool().Draw(t, "notrail") {
		c.L.Trail = false
	}
	if pct(t, "wrongloader", 3) {
		c.Fam = oneOf(t, "loader", allFams)
	}
	c.T = m.canTransform() && pct(t, "t", 25)
	fam := m.Fam
	if fam == XGD {
		fam = XGT
	}
	if pct(t, "fields", 35) {
		c.L.Ov = map[string]int{}
		for i, n := 0, ir(t, "nfields", 1, 4); i < n; i++ {
			k := oneOf(t, "field", fuzzKeys[fam])
			switch k[0] {
			case '+': // resizes data
				c.L.Ov[k[1:]] = uni(t, "size", 12)
			case '@':
				c.L.Ov[k[1:]] = uni(t, "place", 6)
			default:
				c.L.Ov[k] = uni(t, "value", 12) - 2
				if pct(t, "bigvalue", 40) {
					c.L.Ov[k] = oneOf(t, "word", mutWords)
				}
			}
		}
	}
	if fam == SKL && pct(t, "counts", 2) {
		// counts that agree with each other, but not with the array
		n := oneOf(t, "count", []int{-1, 0, 100, 65535, 1 << 24, 1 << 30, math.MaxInt32, 1 << 40, 1 << 62})
		if c.L.Ov == nil {
			c.L.Ov = map[string]int{}
		}
		c.L.Ov["n_estimators"], c.L.Ov["shape0"] = n, n
	}
	if fam == SKL && pct(t, "objects", 50) {
		for i, n := 0, ir(t, "nobj", 1, 3); i < n; i++ {
			c.L.Py = append(c.L.Py, PyMut{oneOf(t, "pyop", pyMutOps), uni(t, "pya", 1<<12), uni(t, "pyb", 1<<12), uni(t, "pyn", 64)})
		}
	}
	lo := 1
	if c.L.Ov != nil || c.L.Py != nil {
		lo = 0
	}
	n := 1
	if c.L.Py != nil && pct(t, "nomuts", 60) {
		n = 0
	} else if lo == 0 || pct(t, "manymuts", 45) {
		n = ir(t, "nmuts", lo, 5)
	}
	for i := 0; i < n; i++ {
		c.Muts = append(c.Muts, genMut(t, m.Fam))
	}
	return c
}

func (c *FuzzCase) bytes() []byte {
	b := append([]byte(nil), c.Raw...)
	if c.M != nil {
		b = c.M.prepare().bytesLay(&c.L)
	}
	for i := range c.Muts {
		b = c.Muts[i].apply(b)
	}
	return b
}

var catRe = regexp.MustCompile(`[0-9]+(\|\|[0-9]*)+`)

// knownBitsets is the allowance for the finding that the JSON loader turns a
// list of categories into a bitset as long as its largest number.
func knownBitsets(fam string, b []byte) uint64 {
	if fam != LGJ || !bytes.Contains(b, []byte("||")) {
		return 0
	}
	sum := uint64(0)
	for _, s := range catRe.FindAll(b, -1) {
		top := uint64(0)
		for _, v := range strings.Split(string(s), "||") {
			if n, err := strconv.ParseUint(v, 10, 31); err == nil {
				top = max(top, n)
			}
		}
		// the bitset, and copies of all bitsets of the tree while it grows
		sum += top
	}
	return sum
}

func heapAllocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// allocLimit is how much a load may allocate, freed memory included.
func allocLimit(fam string, b []byte) uint64 {
	return 32<<20 + 1000*uint64(len(b)) + knownBitsets(fam, b)
}

var fuzzVals = []float64{0, 1, -1, 0.5, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, -1e300, 1e-40, 31, 32, 33, 63, 64, 1 << 31, 1<<31 - 1, 1 << 32, -0.5, 255, 4294967295, 5e-324, 100000}

// exercise makes all kinds of predictions.
func exercise(e *leaves.Ensemble, m *Model, seed uint64, x *Ctx) error {
	nf := e.NFeatures()
	if nf < 0 || nf > 1e6 {
		x.label("predictions skipped: %s features", map[bool]string{true: "negative", false: "too many"}[nf < 0])
		return nil
	}
	_ = fmt.Sprint(e.Name(), e.NEstimators(), e.NRawOutputGroups(), e.Transformation().Name())
	nl := e.NLeaves()
	if m == nil || m.Fam != XGL {
		for i, n := range nl {
			if n < 1 {
				return verr("tree %d has %d leaves", i, n)
			}
		}
	}
	g := newRng(seed)
	nrows := 20
	if nf > 10000 {
		nrows = 3
	}
	rows := make([][]float64, nrows)
	for i := range rows {
		rows[i] = make([]float64, nf+1)
		for j := 0; j < len(rows[i]); j++ {
			if i == 0 {
				continue
			}
			rows[i][j] = fuzzVals[g.Intn(len(fuzzVals))]
			if i%3 == 2 {
				rows[i][j] = (g.Float() - 0.5) * 300
			}
		}
	}
	if m != nil && nf == m.NF && nf < 10000 {
		for _, r := range m.matrix(&Mat{More: 10, Seed: seed}) {
			rows = append(rows, append(r, 0))
		}
	}
	views := []*leaves.Ensemble{e, e.EnsembleWithRawPredictions(), e.EnsembleWithLeafPredictions()}
	for _, v := range views {
		k := v.NOutputGroups()
		if k < 0 || k > 1e6 {
			return verr("%d outputs", k)
		}
		if k*len(rows) > 4e6 {
			x.label("predictions skipped: too many outputs")
			continue
		}
		out := make([]float64, k*len(rows))
		for i, r := range rows {
			v.PredictSingle(r, 0)
			v.Predict(r, i%3, out[i*k:])
		}
		v.PredictDense(flat(rows), len(rows), nf+1, out, 0, 2)
		c := explicitCSR(rows)
		v.PredictCSR(c.ptr, c.col, c.val, out, 0, 2)
		v.PredictCSR(c.ptr[:3], c.col, c.val, out, 1, 1)
		x.count("rows predicted", len(rows))
	}
	return nil
}

func fuzzCheck(c *FuzzCase, x *Ctx) error {
	b := c.bytes()
	x.label("loader %s", c.Fam)
	if c.M == nil {
		x.label("free bytes")
	} else {
		for i := range c.Muts {
			x.label("%s %s", c.M.Fam, c.Muts[i].Op)
		}
		for i := range c.L.Py {
			x.label("pickled object: %s", c.L.Py[i].Op)
		}
	}
	a := heapAllocs()
	e, err := loadBytes(c.Fam, b, c.T)
	used := heapAllocs() - a
	if lim := allocLimit(c.Fam, b); used > lim {
		return verr("loading %d bytes allocates %d bytes (limit %d)", len(b), used, lim)
	}
	x.count("allocated KiB", int(used>>10))
	x.count("input KiB", len(b)>>10)
	if err != nil {
		x.label("refused by %s", c.Fam)
		if e != nil {
			return verr("a model and an error: %v", err)
		}
		x.nontrivialIf(len(b) > 0)
		return nil
	}
	x.label("loaded by %s", c.Fam)
	x.nontrivial()
	var m *Model
	if c.M != nil && c.M.Fam == c.Fam {
		m = c.M
	}
	return exercise(e, m, c.Seed, x)
}

// knownFuzz reproduces the listed finding.
func knownFuzz() []string {
	b := []byte(`{"name":"tree","version":"v2","num_class":1,"num_tree_per_iteration":1,"max_feature_idx":0,"tree_info":[{"num_leaves":2,"num_cat":1,"tree_structure":` +
		`{"split_feature":0,"threshold":"1||1000000000","decision_type":"==","default_left":false,"missing_type":"None","left_child":{"leaf_value":1},"right_child":{"leaf_value":2}}}]}`)
	a := heapAllocs()
	loadBytes(LGJ, b, false)
	if used := heapAllocs() - a; used > 32<<20+1000*uint64(len(b)) {
		return []string{fmt.Sprintf("LGEnsembleFromJSON of a categorical split with threshold \"1||1000000000\" (%d bytes of JSON) allocates %d MiB (ConstructBitset in unmarshalTree)", len(b), used>>20)}
	}
	return nil
}

func init() {
	cover := &Cover{240, func(i int) (byte, uint64, []byte) {
		c := rapid.Custom(genFuzz).Example(i + 1)
		k := 0
		for k < len(allFams)-1 && allFams[k] != c.Fam {
			k++
		}
		return byte(2 * k), c.Seed, c.bytes()
	}, func(k byte, n uint64, b []byte) any {
		return &FuzzCase{Fam: allFams[int(k>>1)%len(allFams)], T: k&1 == 1, Seed: n, Raw: b, Muts: []Mut{}}
	}}
	register(Prop{ID: "C24", Quick: 250000, Thorough: 6000000, Cover: cover, Known: knownFuzz, Rule: "rapid draws a well-formed model of any family in a drawn layout, up to 4 contradicting fields (counts, shapes, links, features) and up to 5 changes of its bytes (bits, bytes, ranges, numbers, words, lines, JSON values, pickle operations; values taken from edges, neighbours and other places of the file), a few with another family's loader, and a few free byte strings; the load must return within 40 s of processor time and 32 MiB + 1000 times the input's size of cumulative allocation, without panic; a loaded model must then serve scalar, single, dense, sparse and parallel predictions of all views on rows of special values without panic. Non-trivial: input is not empty; case_classes tells how many loads were refused and served."},
		genFuzz, fuzzCheck)
}
