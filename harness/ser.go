package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Layout lists choices of a file's form that have no prediction meaning. The
// details of each choice come from Seed.
type Layout struct {
	Seed    uint64 `json:"seed"`
	Order   bool   `json:"order,omitempty"`   // key order, node numbering
	Extra   bool   `json:"extra,omitempty"`   // extra keys, sections, attributes
	Blank   bool   `json:"blank,omitempty"`   // extra blank lines / whitespace
	CRLF    bool   `json:"crlf,omitempty"`    //
	Names   bool   `json:"names,omitempty"`   // odd feature names
	Trail   bool   `json:"trail,omitempty"`   // data after the model
	End     bool   `json:"end,omitempty"`     // nothing after the model
	Deleted bool   `json:"deleted,omitempty"` // pruned XGBoost nodes
	Stats   bool   `json:"stats,omitempty"`   // statistics and reserved fields
	Short   bool   `json:"short,omitempty"`   // shortest number format
	Rewrite bool   `json:"rewrite,omitempty"` // pickle: no sharing of objects
	DropPut bool   `json:"dropput,omitempty"` // pickle: unused memo entries dropped
	Renum   bool   `json:"renum,omitempty"`   // pickle: memo entries renumbered
	BigEnd  bool   `json:"bigend,omitempty"`  // pickle: arrays of floats in big-endian byte order
	Share   bool   `json:"share,omitempty"`   // pickle: equal trees are one object
	IntL    int    `json:"intl,omitempty"`    // pickle: 0 L everywhere (python 3), 1 I, 2 mixed
	Esc     int    `json:"esc,omitempty"`     // pickle: 0 python<3.8, 1 python>=3.8, 2 any

	// contradicting edits of single fields
	Ov  map[string]int    `json:"ov,omitempty"`
	OvS map[string]string `json:"ovs,omitempty"`
	Py  []PyMut           `json:"py,omitempty"` // changes of the pickled objects
}

func (l *Layout) ov(key string, def int) int {
	if v, ok := l.Ov[key]; ok {
		return v
	}
	return def
}

func (l *Layout) ovs(key string, def string) string {
	if v, ok := l.OvS[key]; ok {
		return v
	}
	return def
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// resize repeats or drops the last elements.
func resize[E any](v []E, n int) []E {
	for len(v) > 0 && len(v) < n {
		v = append(v[:len(v):len(v)], v[len(v)-1])
	}
	if n < len(v) {
		v = v[:max(n, 0)]
	}
	return v
}

func (m *Model) bytesLay(lay *Layout) []byte {
	m.prepare()
	l := lay
	if l == nil {
		l = &Layout{}
	}
	switch m.Fam {
	case LGT:
		return m.lgText(l)
	case LGJ:
		return m.lgJSON(l)
	case XGT, XGD:
		return m.xgTree(l)
	case XGL:
		return m.xgLinear(l)
	case SKL:
		return m.skPickle(l)
	}
	panic("family")
}

// ---------- LightGBM text ----------

func fmtNum(v float64, l *Layout) string {
	if l.Short {
		return strconv.FormatFloat(v, 'g', -1, 64)
	}
	return strings.Replace(strings.Replace(fmt.Sprintf("%.17g", v), "+Inf", "inf", 1), "-Inf", "-inf", 1)
}

const dropKey = "\x01drop"

func joinN[E any](v []E, f func(E) string) string {
	s := make([]string, len(v))
	for i, x := range v {
		s[i] = f(x)
	}
	return strings.Join(s, " ")
}

type kv struct{ k, v string }

var oddNames = []string{"Column_0", "a=b", "==", "x=1 y", "tree=2", "num_class=9", "имя", "a:b", "leaf_value=3", "version=v9", "Tree=0", "f{}[]", "=", "num_leaves=1"}

func (m *Model) featureNames(r *Rng, l *Layout) string {
	n := m.NF
	if n > 50 {
		n = 50
	}
	s := make([]string, n)
	for i := range s {
		s[i] = fmt.Sprintf("Column_%d", i)
		if l.Names {
			s[i] = oddNames[r.Intn(len(oddNames))]
		}
	}
	return strings.Join(s, " ")
}

func (m *Model) lgText(l *Layout) []byte {
	r := newRng(l.Seed)
	trees := make([]string, len(m.trees))
	for i := range m.trees {
		trees[i] = m.lgTreeText(i, r, l)
	}
	head := []kv{{"version", l.ovs("version", fmt.Sprintf("v%d", m.Ver))}, {"num_class", fmt.Sprint(l.ov("num_class", m.K))}, {"num_tree_per_iteration", fmt.Sprint(l.ov("num_tree_per_iteration", m.K))}, {"label_index", "0"},
		{"max_feature_idx", fmt.Sprint(m.NF - 1)}}
	if o := l.ovs("objective", m.Obj); o != "" {
		head = append(head, kv{"objective", o})
	}
	if m.RF {
		head = append(head, kv{"average_output", "\x00"})
	}
	head = append(head, kv{"feature_names", m.featureNames(r, l)}, kv{"feature_infos", joinN(make([]int, min(m.NF, 50)), func(int) string { return "[-1:1]" })},
		kv{"tree_sizes", joinN(resize(trees, l.ov("tree_sizes", len(trees))), func(s string) string { return fmt.Sprint(len(s)) })})
	trees = resize(trees, l.ov("trees", len(trees)))
	if l.Extra {
		head = append(head, kv{"monotone_constraints", joinN(make([]int, min(m.NF, 50)), func(int) string { return "0" })}, kv{"leaf_value", "7 7"}, kv{"num_leaves", "99"}, kv{"some_new_key", "a b c"})
		if r.Intn(64) == 0 {
			// many of them, with long names and values
			for i, n := 0, []int{40, 260, 1100}[r.Intn(3)]; i < n; i++ {
				head = append(head, kv{fmt.Sprintf("new_%d%s", i, strings.Repeat("_key", i%70)), strings.Repeat("v", i)})
			}
		}
	}
	if len(l.OvS) > 0 {
		// edits may also remove a key
		h := head[:0]
		for _, e := range head {
			if l.ovs(e.k, "") != dropKey {
				h = append(h, e)
			}
		}
		head = h
	}
	if l.Order {
		p := r.Perm(len(head))
		h := make([]kv, len(head))
		for i, j := range p {
			h[i] = head[j]
		}
		head = h
	}
	var b strings.Builder
	blank := func(lo int) {
		n := lo
		if l.Blank {
			n += r.Intn(3)
			if r.Intn(256) == 0 {
				n += []int{30, 130, 300, 1100}[r.Intn(4)]
			}
		}
		for i := 0; i < n; i++ {
			b.WriteString("\n")
		}
	}
	blank(0)
	b.WriteString("tree\n")
	writeKV(&b, head)
	blank(1)
	for i, t := range trees {
		b.WriteString(t)
		if l.End && i+1 == len(trees) {
			b.WriteString("\n")
		} else if i+1 < len(trees) || !l.Trail || r.Bool() {
			if m.Ver == 2 {
				blank(2)
			} else {
				blank(1)
			}
		}
	}
	if l.End {
	} else if !l.Trail {
		b.WriteString("end of trees\n\nfeature importances:\nColumn_0=3\n\nparameters:\n[boosting: gbdt]\n[objective: x]\n\nend of parameters\n\npandas_categorical:null\n")
	} else {
		switch r.Intn(4) {
		case 0:
		case 1:
			b.WriteString("\nend of trees\n")
		case 2:
			b.WriteString("\n\nTree=77\nnum_leaves=1\nleaf_value=9\nnum_cat=0\n\n\x00\xff===\n")
		case 3:
			b.WriteString("\nend of trees\n\nfeature importances:\na=b=c=1\n\nparameters:\n" + strings.Repeat("[x: y]\n", r.Intn(200)) + "\npandas_categorical:[[\"a\", \"b=c\"]]")
		}
	}
	s := b.String()
	if l.CRLF {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return []byte(s)
}

func writeKV(b *strings.Builder, h []kv) {
	for _, e := range h {
		if e.v == "\x00" {
			b.WriteString(e.k + "\n")
		} else {
			b.WriteString(e.k + "=" + e.v + "\n")
		}
	}
}

func bitset(c []int) []uint32 {
	w := make([]uint32, c[len(c)-1]/32+1)
	for _, v := range c {
		w[v/32] |= 1 << uint(v%32)
	}
	return w
}

func (m *Model) lgTreeText(i int, r *Rng, l *Layout) string {
	t := &m.trees[i]
	num := func(v float64) string { return fmtNum(v, l) }
	var thr []float64
	var dec []int
	var words []uint32
	bounds := []int{0}
	for j := range t.S {
		s := &t.S[j]
		d := s.M << 2
		if s.cat() {
			d |= 1
			thr = append(thr, float64(len(bounds)-1))
			words = append(words, bitset(s.C)...)
			bounds = append(bounds, len(words))
		} else {
			thr = append(thr, float64(s.T))
		}
		if s.D {
			d |= 2
		}
		dec = append(dec, d)
	}
	ncat := len(bounds) - 1
	cnt := func() string { return fmt.Sprint(1 + r.Intn(500)) }
	body := []kv{
		{"num_leaves", fmt.Sprint(len(t.V))}, {"num_cat", fmt.Sprint(ncat)},
		{"split_feature", joinN(t.S, func(s Split) string { return fmt.Sprint(s.F) })},
		{"split_gain", joinN(t.S, func(s Split) string { return "1.5" })},
		{"threshold", joinN(thr, num)},
		{"decision_type", joinN(dec, func(d int) string { return fmt.Sprint(d) })},
		{"left_child", joinN(t.S, func(s Split) string { return fmt.Sprint(s.L) })},
		{"right_child", joinN(t.S, func(s Split) string { return fmt.Sprint(s.R) })},
		{"leaf_value", joinN(t.V, func(v F) string { return num(float64(v)) })},
	}
	if m.Ver == 3 {
		body = append(body, kv{"leaf_weight", joinN(t.V, func(v F) string { return "2.5" })})
	}
	body = append(body, kv{"leaf_count", joinN(t.V, func(v F) string { return cnt() })},
		kv{"internal_value", joinN(t.S, func(s Split) string { return "0.25" })})
	if m.Ver == 3 {
		body = append(body, kv{"internal_weight", joinN(t.S, func(s Split) string { return "3" })})
	}
	body = append(body, kv{"internal_count", joinN(t.S, func(s Split) string { return cnt() })})
	if ncat > 0 {
		body = append(body, kv{"cat_boundaries", joinN(bounds, func(v int) string { return fmt.Sprint(v) })},
			kv{"cat_threshold", joinN(words, func(v uint32) string { return fmt.Sprint(v) })})
	}
	body = append(body, kv{"shrinkage", "0.1"})
	if l.ov("linear", -1) == i {
		// leaves with linear functions of features
		body = append(body, kv{"is_linear", "1"},
			kv{"leaf_const", joinN(t.V, func(v F) string { return num(float64(v)) })},
			kv{"num_features", joinN(t.V, func(v F) string { return "1" })},
			kv{"leaf_features", joinN(t.V, func(v F) string { return "0 " })},
			kv{"leaf_coeff", joinN(t.V, func(v F) string { return "0.5 " })})
	} else if l.Extra {
		body = append(body, kv{"is_linear", "0"})
	}
	if l.Extra {
		body = append(body, kv{"version", "v9"}, kv{"num_class", "5"}, kv{"flag", "\x00"}, kv{"note", "a=b=c"})
	}
	if l.Order {
		p := r.Perm(len(body))
		h := make([]kv, len(body))
		for a, j := range p {
			h[a] = body[j]
		}
		body = h
	}
	var b strings.Builder
	fmt.Fprintf(&b, "Tree=%d\n", i)
	writeKV(&b, body)
	return b.String()
}

// ---------- LightGBM JSON ----------

type jobj struct {
	keys []string
	vals []any
}

func (o *jobj) add(k string, v any) { o.keys = append(o.keys, k); o.vals = append(o.vals, v) }

func (m *Model) lgJSON(l *Layout) []byte {
	r := newRng(l.Seed)
	o := &jobj{}
	o.add("name", l.ovs("name", "tree"))
	o.add("version", l.ovs("version", "v2"))
	o.add("num_class", l.ov("num_class", m.K))
	o.add("num_tree_per_iteration", l.ov("num_tree_per_iteration", m.K))
	o.add("label_index", 0)
	o.add("max_feature_idx", m.NF-1)
	o.add("feature_names", strings.Split(m.featureNames(r, l), " "))
	var trees []any
	for i := range m.trees {
		t := &m.trees[i]
		ncat := 0
		for j := range t.S {
			if t.S[j].cat() {
				ncat++
			}
		}
		x := &jobj{}
		x.add("tree_index", i)
		x.add("num_leaves", len(t.V))
		x.add("num_cat", ncat)
		x.add("shrinkage", 0.1)
		root := -1
		if len(t.S) > 0 {
			root = 0
		}
		x.add("tree_structure", jsonNode(t, root, r, l))
		if l.Extra {
			x.add("extra_tree_key", map[string]any{"num_leaves": 3, "a": []int{1, 2}})
		}
		trees = append(trees, x)
	}
	trees = resize(trees, l.ov("trees", len(trees)))
	if trees == nil {
		trees = []any{}
	}
	if l.ovs("tree_info", "") == "null" {
		o.add("tree_info", nil)
	} else {
		o.add("tree_info", trees)
	}
	for i := 0; i < len(o.keys); i++ {
		if l.ovs(o.keys[i], "") == dropKey {
			o.keys = append(o.keys[:i:i], o.keys[i+1:]...)
			o.vals = append(o.vals[:i:i], o.vals[i+1:]...)
			i--
		}
	}
	if l.Extra {
		o.add("objective", "binary sigmoid:1")
		o.add("average_output", false)
		o.add("pandas_categorical", []any{[]int{1, 2}, nil})
		o.add("feature_infos", map[string]any{"Column_0": map[string]any{"min_value": -1.5, "max_value": 1e300, "values": []int{}}})
		o.add("monotone_constraints", []int{})
	}
	var b bytes.Buffer
	jsonWrite(&b, o, r, l)
	if l.Trail {
		b.WriteString([]string{"\n", "\n{\"name\":\"x\"}", "   ]]] trailing", "\x00\xff"}[r.Intn(4)])
	}
	return b.Bytes()
}

func jsonNode(t *Tree, i int, r *Rng, l *Layout) *jobj {
	o := &jobj{}
	if i < 0 {
		if len(t.V) > 1 || l.Extra {
			o.add("leaf_index", ^i)
		}
		o.add("leaf_value", float64(t.V[^i]))
		if len(t.V) > 1 {
			o.add("leaf_count", 1+r.Intn(300))
		}
		if l.Extra {
			o.add("leaf_weight", 2.5)
			o.add("new_leaf_key", "v")
		}
		return o
	}
	s := &t.S[i]
	o.add("split_index", i)
	o.add("split_feature", s.F)
	o.add("split_gain", 1.5)
	if s.cat() {
		cats := append([]int(nil), s.C...)
		if l.Order {
			for i := len(cats) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				cats[i], cats[j] = cats[j], cats[i]
			}
		}
		o.add("threshold", strings.ReplaceAll(joinN(cats, func(c int) string { return fmt.Sprint(c) }), " ", "||"))
		o.add("decision_type", "==")
	} else {
		o.add("threshold", float64(s.T))
		o.add("decision_type", "<=")
	}
	o.add("default_left", s.D)
	o.add("missing_type", []string{"None", "Zero", "NaN"}[s.M])
	o.add("internal_value", 0.5)
	o.add("internal_count", 1+r.Intn(300))
	if l.Extra {
		o.add("internal_weight", 3)
		o.add("leaf_value", 12345.5)
		o.add("new_key", []any{nil, true})
	}
	o.add("left_child", jsonNode(t, s.L, r, l))
	o.add("right_child", jsonNode(t, s.R, r, l))
	return o
}

func jsonWrite(b *bytes.Buffer, v any, r *Rng, l *Layout) {
	ws := func() {
		if l.Blank {
			b.WriteString([]string{"", " ", "\n", "\t", "\r\n  "}[r.Intn(5)])
		}
	}
	switch x := v.(type) {
	case *jobj:
		p := make([]int, len(x.keys))
		for i := range p {
			p[i] = i
		}
		if l.Order {
			p = r.Perm(len(p))
		}
		b.WriteByte('{')
		for i, j := range p {
			if i > 0 {
				b.WriteByte(',')
			}
			ws()
			k, _ := json.Marshal(x.keys[j])
			b.Write(k)
			ws()
			b.WriteByte(':')
			ws()
			jsonWrite(b, x.vals[j], r, l)
			ws()
		}
		b.WriteByte('}')
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			ws()
			jsonWrite(b, e, r, l)
			ws()
		}
		b.WriteByte(']')
	case float64:
		if l.Short {
			b.WriteString(strconv.FormatFloat(x, 'g', -1, 64))
		} else {
			fmt.Fprintf(b, "%.17g", x)
		}
	default:
		k, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		b.Write(k)
	}
}

// ---------- XGBoost binary ----------

type leW struct{ bytes.Buffer }

func (w *leW) p(v ...any) {
	for _, x := range v {
		if i, ok := x.(int); ok {
			x = int32(i)
		}
		if err := binary.Write(&w.Buffer, binary.LittleEndian, x); err != nil {
			panic(err)
		}
	}
}
func (w *leW) str(s string) {
	w.p(uint64(len(s)))
	w.WriteString(s)
}
func (w *leW) reserved(n int, r *Rng, l *Layout) {
	for i := 0; i < n; i++ {
		v := int32(0)
		if l.Stats {
			v = int32(r.U64())
		}
		w.p(v)
	}
}

func (m *Model) xgHeader(w *leW, r *Rng, l *Layout) {
	nclass := 0
	if m.K > 1 {
		nclass = m.K
	}
	w.p(float32(m.Base), uint32(l.ov("header.features", m.NF)), nclass)
	if l.Trail && !l.End {
		w.p(1, 0)
	} else {
		w.p(0, 0)
	}
	w.reserved(29, r, l)
	w.str(l.ovs("objective", m.Obj))
	w.str(l.ovs("booster", map[string]string{XGT: "gbtree", XGD: "dart", XGL: "gblinear"}[m.Fam]))
}

// xgNode is a node of the XGBoost form of a tree.
type xgNode struct {
	parent, l, r int
	leaf         bool
	left         bool
	def          bool
	feat         int
	info         float64
	deleted      bool
}

// xgNodes lays the tree out: the root is node 0, children are allocated in
// pairs, in breadth-first order. Order permutes the numbers, Deleted adds
// nodes that are not reachable.
func xgNodes(t *Tree, r *Rng, l *Layout) []xgNode {
	type item struct{ src, dst int }
	nodes := []xgNode{{parent: -1}}
	root := 0
	if len(t.S) == 0 {
		root = -1
	}
	q := []item{{root, 0}}
	for len(q) > 0 {
		it := q[0]
		q = q[1:]
		if it.src < 0 {
			nodes[it.dst].leaf = true
			nodes[it.dst].info = float64(t.V[^it.src])
			continue
		}
		if l.Deleted && r.Intn(3) == 0 {
			// a pruned pair of leaves
			for i := 0; i < 2; i++ {
				nodes = append(nodes, xgNode{parent: it.dst, leaf: true, deleted: true, info: 1e6, left: i == 0})
			}
		}
		s := &t.S[it.src]
		a := len(nodes)
		nodes = append(nodes, xgNode{parent: it.dst, left: true}, xgNode{parent: it.dst})
		n := &nodes[it.dst]
		n.l, n.r, n.def, n.feat, n.info = a, a+1, s.D, s.F, float64(s.T)
		q = append(q, item{s.L, a}, item{s.R, a + 1})
	}
	if l.Deleted && (len(t.S) == 0 || r.Bool()) {
		// a whole pruned subtree
		b := len(nodes)
		nodes = append(nodes, xgNode{parent: 0, deleted: true, l: b + 1, r: b + 2, feat: 0, info: 0.5}, xgNode{parent: b, deleted: true, leaf: true, left: true, info: -5e5}, xgNode{parent: b, deleted: true, leaf: true, info: 5e5})
	}
	if l.Order && len(nodes) > 1 {
		p := r.Perm(len(nodes) - 1)
		to := func(i int) int {
			if i <= 0 {
				return i
			}
			return 1 + p[i-1]
		}
		out := make([]xgNode, len(nodes))
		for i, n := range nodes {
			n.parent = to(n.parent)
			if !n.leaf {
				n.l, n.r = to(n.l), to(n.r)
			}
			out[to(i)] = n
		}
		nodes = out
	}
	return nodes
}

func (m *Model) xgTree(l *Layout) []byte {
	r := newRng(l.Seed)
	w := &leW{}
	m.xgHeader(w, r, l)
	nt := l.ov("trees", len(m.trees))
	w.p(l.ov("model.trees", nt), l.ov("model.roots", 1), l.ov("model.features", m.NF), 0, int64(0), l.ov("groups", m.K), 0)
	w.reserved(32, r, l)
	trees := resize(m.trees, nt)
	at := l.ov("at", -1) // the tree that is edited
	for i := range trees {
		nodes := xgNodes(&trees[i], r, l)
		roots, features := 1, m.NF
		if i == at || at == -2 {
			roots, features = l.ov("tree.roots", 1), l.ov("tree.features", m.NF)
			if f := l.ov("split", -1); f >= 0 {
				nodes[0].feat = f
			}
			if i := l.ov("node", -1); i >= 0 {
				n := &nodes[i%len(nodes)]
				if v := l.ov("left", n.l); v != n.l {
					n.l, n.leaf = v, false
				}
				if v := l.ov("right", n.r); v != n.r {
					n.r, n.leaf = v, false
				}
				n.feat = l.ov("feat", n.feat)
				n.leaf = l.ov("leaf", b2i(n.leaf)) != 0
			}
		}
		deleted := 0
		for _, n := range nodes {
			if n.deleted {
				deleted++
			}
		}
		leafVec := 0
		if l.Extra && r.Bool() {
			leafVec = 1
		}
		count := len(nodes)
		if i == at {
			count = l.ov("count", count)
		}
		w.p(roots, count, deleted, 6, features, leafVec)
		w.reserved(31, r, l)
		for _, n := range nodes {
			parent := int32(n.parent)
			if n.left {
				parent = int32(uint32(parent) | 1<<31)
			}
			if n.leaf {
				sidx := uint32(0)
				if n.deleted {
					sidx = math.MaxUint32
				}
				right := int32(-1)
				if l.Deleted && !n.deleted && r.Bool() {
					// a split turned into a leaf keeps its other fields
					sidx = uint32(r.Intn(m.NF)) | uint32(r.Intn(2))<<31
					if r.Intn(4) == 0 {
						right = int32(r.Intn(9))
					}
				}
				w.p(parent, -1, right, sidx, float32(n.info))
				continue
			}
			sidx := uint32(n.feat)
			if n.def {
				sidx |= 1 << 31
			}
			if n.deleted {
				sidx = math.MaxUint32
			}
			w.p(parent, n.l, n.r, sidx, float32(n.info))
		}
		for range nodes {
			if l.Stats {
				w.p(math.Float32frombits(uint32(r.U64())), float32(r.Float()), float32(-1), int32(r.U64()))
			} else {
				w.p(float32(1), float32(2), float32(0.5), 0)
			}
		}
		if leafVec > 0 {
			n := r.Intn(5)
			w.p(uint64(n))
			for j := 0; j < n; j++ {
				w.p(float32(j))
			}
		}
	}
	for i := range trees {
		g := i % m.K
		if i == at {
			g = l.ov("group", g)
		}
		if i == l.ov("at2", -1) {
			g = l.ov("group2", g)
		}
		w.p(g)
	}
	if l.ovs("booster", map[string]string{XGD: "dart"}[m.Fam]) == "dart" {
		ws := resize(m.w, l.ov("weights", nt))
		w.p(uint64(len(ws)))
		for _, x := range ws {
			w.p(float32(x))
		}
	}
	m.xgTrail(w, r, l)
	return w.Bytes()
}

func (m *Model) xgTrail(w *leW, r *Rng, l *Layout) {
	if l.Trail && !l.End {
		// attributes and whatever a later version appends
		w.p(uint64(1))
		w.str("best_iteration")
		w.str("12")
		n := r.Intn(100)
		for i := 0; i < n; i++ {
			w.WriteByte(byte(r.U64()))
		}
	}
}

func (m *Model) xgLinear(l *Layout) []byte {
	r := newRng(l.Seed)
	w := &leW{}
	m.xgHeader(w, r, l)
	w.p(uint32(l.ov("model.features", m.NF)), l.ov("groups", m.K))
	w.reserved(32, r, l)
	lin := resize(m.lin, l.ov("weights", len(m.lin)))
	w.p(uint64(len(lin)))
	for _, x := range lin {
		w.p(float32(x))
	}
	m.xgTrail(w, r, l)
	return w.Bytes()
}
