package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"
)

// A writer of protocol 0 pickles that follows Python 3's pickler.

type (
	pyGlobal struct{ mod, name string }
	pyStr    struct{ b []byte }
	pyInt    int
	pyBool   bool
	pyFloat  float64
	pyNone   struct{}
	pyTuple  struct{ items []any }
	pyList   struct{ items []any }
	pyDict   struct {
		keys []string
		vals []any
	}
	pyReduce struct {
		f, args any
		state   any // nil: no BUILD
	}
)

func (d *pyDict) set(k string, v any) {
	for i := range d.keys {
		if d.keys[i] == k {
			d.vals[i] = v
			return
		}
	}
	d.keys = append(d.keys, k)
	d.vals = append(d.vals, v)
}

// edit drops attributes or replaces them by strings.
func (p *pickler) edit(d *pyDict, l *Layout, prefix string) {
	for i := 0; i < len(d.keys); i++ {
		switch v, ok := l.OvS[prefix+d.keys[i]]; {
		case !ok:
		case v == dropKey:
			d.keys = append(d.keys[:i:i], d.keys[i+1:]...)
			d.vals = append(d.vals[:i:i], d.vals[i+1:]...)
			i--
		default:
			d.vals[i] = p.str(v)
		}
	}
}

type pOp struct {
	s    string
	memo int // for 'p' and 'g'
	kind byte
}

type pickler struct {
	l    *Layout
	r    *Rng
	ops  []pOp
	memo map[any]int
	next int
	// objects which Python shares
	globals map[pyGlobal]*pyGlobal
	strs    map[string]*pyStr
	dtypes  map[string]*pyReduce
	bObj    *pyReduce
	trees   map[string]*pyReduce
}

func newPickler(r *Rng, l *Layout) *pickler {
	return &pickler{l: l, r: r, memo: map[any]int{}, globals: map[pyGlobal]*pyGlobal{}, strs: map[string]*pyStr{}, dtypes: map[string]*pyReduce{}, trees: map[string]*pyReduce{}}
}

func (p *pickler) global(mod, name string) *pyGlobal {
	k := pyGlobal{mod, name}
	if p.globals[k] == nil {
		p.globals[k] = &pyGlobal{mod, name}
	}
	return p.globals[k]
}
func (p *pickler) str(s string) *pyStr {
	if p.strs[s] == nil {
		p.strs[s] = &pyStr{[]byte(s)}
	}
	return p.strs[s]
}
func tup(items ...any) *pyTuple { return &pyTuple{items} }

func (p *pickler) bytesObj(b []byte) *pyReduce {
	return &pyReduce{p.global("_codecs", "encode"), tup(&pyStr{b}, p.str("latin1")), nil}
}

func (p *pickler) dtype(s string) *pyReduce {
	if d := p.dtypes[s]; d != nil {
		return d
	}
	end, size, align, flags := "<", -1, -1, 0
	var names, fields any = pyNone{}, pyNone{}
	name := strings.TrimSuffix(s, ">")
	if name != s {
		end = ">"
	}
	if s == "O8" {
		end, flags = "|", 63
	}
	if s == "V56" {
		end, size, align, flags = "|", 56, 1, 16
		n := []string{"left_child", "right_child", "feature", "threshold", "impurity", "n_node_samples", "weighted_n_node_samples"}
		f := []string{"i8", "i8", "i8", "f8", "f8", "i8", "f8"}
		d := &pyDict{}
		nt := tup()
		for i := range n {
			nt.items = append(nt.items, p.str(n[i]))
			d.set(n[i], tup(p.dtype(f[i]), pyInt(8*i)))
		}
		names, fields = nt, d
	}
	d := &pyReduce{p.global("numpy", "dtype"), tup(p.str(name), pyInt(0), pyInt(1)),
		tup(pyInt(3), p.str(end), pyNone{}, names, fields, pyInt(size), pyInt(align), pyInt(flags))}
	p.dtypes[s] = d
	return d
}

func (p *pickler) ndarray(dt string, shape []int, data any, fortran ...bool) *pyReduce {
	if p.bObj == nil {
		p.bObj = p.bytesObj([]byte("b"))
	}
	sh := tup()
	for _, x := range shape {
		sh.items = append(sh.items, pyInt(x))
	}
	return &pyReduce{p.global("numpy.core.multiarray", "_reconstruct"), tup(p.global("numpy", "ndarray"), tup(pyInt(0)), p.bObj),
		tup(pyInt(1), sh, p.dtype(dt), pyBool(len(fortran) > 0 && fortran[0]), data)}
}

func le8(vals ...any) []byte {
	var b bytes.Buffer
	for _, v := range vals {
		if i, ok := v.(int); ok {
			v = int64(i)
		}
		binary.Write(&b, binary.LittleEndian, v)
	}
	return b.Bytes()
}

func (p *pickler) object(cls *pyGlobal, state *pyDict) *pyReduce {
	return &pyReduce{p.global("copy_reg", "_reconstructor"), tup(cls, p.global("__builtin__", "object"), pyNone{}), state}
}

func (p *pickler) scalar(dt string, b []byte) *pyReduce {
	return &pyReduce{p.global("numpy.core.multiarray", "scalar"), tup(p.dtype(dt), p.bytesObj(b)), nil}
}

// f8 picks the byte order of an array of floats.
func (p *pickler) f8(b []byte) (string, []byte) {
	if !p.l.BigEnd || p.r.Intn(4) == 0 {
		return "f8", b
	}
	b = append([]byte{}, b...)
	for i := 0; i+8 <= len(b); i += 8 {
		slices.Reverse(b[i : i+8])
	}
	return "f8>", b
}

func (p *pickler) f8array(shape []int, b []byte) *pyReduce {
	dt, b := p.f8(b)
	return p.ndarray(dt, shape, p.bytesObj(b))
}

// ---- writing ----

func (p *pickler) op(s string) { p.ops = append(p.ops, pOp{s: s}) }
func (p *pickler) put(o any) {
	p.memo[o] = p.next
	p.ops = append(p.ops, pOp{kind: 'p', memo: p.next})
	p.next++
}
func (p *pickler) get(o any) bool {
	if p.l.Rewrite && p.r.Intn(4) > 0 {
		return false
	}
	if id, ok := p.memo[o]; ok {
		p.ops = append(p.ops, pOp{kind: 'g', memo: id})
		return true
	}
	return false
}

func (p *pickler) save(o any) {
	switch x := o.(type) {
	case pyNone:
		p.op("N")
	case pyBool:
		if x {
			p.op("I01\n")
		} else {
			p.op("I00\n")
		}
	case pyInt:
		if p.l.IntL == 1 || (p.l.IntL == 2 && p.r.Bool()) {
			p.op(fmt.Sprintf("I%d\n", int(x)))
		} else {
			p.op(fmt.Sprintf("L%dL\n", int(x)))
		}
	case pyFloat:
		s := strconv.FormatFloat(float64(x), 'g', -1, 64)
		if !strings.ContainsAny(s, ".en") {
			s += ".0"
		}
		p.op("F" + s + "\n")
	case *pyGlobal:
		if p.get(x) {
			return
		}
		p.op("c" + x.mod + "\n" + x.name + "\n")
		p.put(x)
	case *pyStr:
		if p.get(x) {
			return
		}
		p.op("V" + p.escape(x.b) + "\n")
		p.put(x)
	case *pyTuple:
		if len(x.items) == 0 {
			p.op("(")
			p.op("t")
			return
		}
		if p.get(x) {
			return
		}
		p.op("(")
		for _, i := range x.items {
			p.save(i)
		}
		p.op("t")
		p.put(x)
	case *pyList:
		p.op("(")
		p.op("l")
		p.put(x)
		for _, i := range x.items {
			p.save(i)
			p.op("a")
		}
	case *pyDict:
		ord := make([]int, len(x.keys))
		for i := range ord {
			ord[i] = i
		}
		if p.l.Order {
			ord = p.r.Perm(len(ord))
		}
		p.op("(")
		inline := p.l.Rewrite && p.r.Bool()
		if !inline {
			p.op("d")
			p.put(x)
		}
		for _, i := range ord {
			p.save(p.str(x.keys[i]))
			p.save(x.vals[i])
			if !inline {
				p.op("s")
			}
		}
		if inline {
			p.op("d")
			p.put(x)
		}
	case *pyReduce:
		if p.get(x) {
			return
		}
		p.save(x.f)
		p.save(x.args)
		p.op("R")
		p.put(x)
		if x.state != nil {
			p.save(x.state)
			p.op("b")
		}
	default:
		panic(fmt.Sprintf("pickle: %T", o))
	}
}

func (p *pickler) escape(b []byte) string {
	var s strings.Builder
	for _, c := range b {
		esc := c == '\\' || c == '\n'
		if p.l.Esc >= 1 {
			esc = esc || c == 0 || c == '\r' || c == 0x1a
		}
		if p.l.Esc >= 2 {
			esc = esc || p.r.Intn(4) == 0
		}
		switch {
		case !esc:
			s.WriteByte(c)
		case p.l.Esc >= 2 && p.r.Bool():
			fmt.Fprintf(&s, "\\u%04X", c)
		default:
			fmt.Fprintf(&s, "\\u%04x", c)
		}
	}
	return s.String()
}

func (p *pickler) bytes(o any) []byte {
	p.save(o)
	used := map[int]bool{}
	for _, o := range p.ops {
		if o.kind == 'g' {
			used[o.memo] = true
		}
	}
	name := func(i int) string { return strconv.Itoa(i) }
	if p.l.Renum {
		perm := p.r.Perm(p.next)
		mul := 1 + p.r.Intn(5)
		name = func(i int) string { return strconv.Itoa(perm[i]*mul + 3) }
	}
	var b bytes.Buffer
	for _, o := range p.ops {
		switch o.kind {
		case 'p':
			if p.l.DropPut && !used[o.memo] {
				continue
			}
			b.WriteString("p" + name(o.memo) + "\n")
		case 'g':
			b.WriteString("g" + name(o.memo) + "\n")
		default:
			b.WriteString(o.s)
		}
	}
	b.WriteByte('.')
	if p.l.Trail && !p.l.End {
		b.WriteString("\x00trailing (lp0\n.")
	}
	return b.Bytes()
}

// ---- the classifier ----

type skNode struct {
	l, r, f  int
	thr, val float64
}

// skNodes numbers the nodes: depth-first as sklearn does, or (Order) any
// numbering where children come after their parents, as best-first growth
// makes.
func skNodes(t *Tree, r *Rng, l *Layout) []skNode {
	if len(t.S) == 0 {
		return []skNode{{-1, -1, -2, -2, float64(t.V[0])}}
	}
	type item struct {
		src, parent int
		right       bool
	}
	var nodes []skNode
	front := []item{{0, -1, false}}
	for len(front) > 0 {
		i := len(front) - 1
		if l.Order {
			i = r.Intn(len(front))
		}
		it := front[i]
		front = append(front[:i], front[i+1:]...)
		id := len(nodes)
		if it.parent >= 0 {
			if it.right {
				nodes[it.parent].r = id
			} else {
				nodes[it.parent].l = id
			}
		}
		if it.src < 0 {
			nodes = append(nodes, skNode{-1, -1, -2, -2, float64(t.V[^it.src])})
			continue
		}
		s := &t.S[it.src]
		nodes = append(nodes, skNode{0, 0, s.F, float64(s.T), r.Float() * 1000})
		front = append(front, item{s.R, id, true}, item{s.L, id, false})
	}
	return nodes
}

func (m *Model) skPickle(l *Layout) []byte {
	r := newRng(l.Seed)
	p := newPickler(r, l)
	ens := "sklearn.ensemble.gradient_boosting"
	nClasses := m.K
	if m.K == 1 {
		nClasses = 2
	}
	d := &pyDict{}
	d.set("n_estimators", pyInt(l.ov("n_estimators", m.nEst())))
	if lr := float64(m.LR); l.IntL == 2 && lr == math.Trunc(lr) && r.Bool() {
		d.set("learning_rate", pyInt(int(lr)))
	} else {
		d.set("learning_rate", pyFloat(lr))
	}
	d.set("loss", p.str("deviance"))
	d.set("criterion", p.str("friedman_mse"))
	d.set("min_samples_split", pyInt(2))
	d.set("subsample", pyFloat(1))
	d.set("max_features", pyNone{})
	d.set("max_depth", pyInt(3))
	d.set("init", pyNone{})
	d.set("random_state", pyInt(0))
	d.set("warm_start", pyBool(false))
	d.set("n_features_", pyInt(m.NF))
	var cls []any
	for i := 0; i < l.ov("classes_", nClasses); i++ {
		cls = append(cls, i)
	}
	d.set("classes_", p.ndarray("i8", []int{l.ov("classes_", nClasses)}, p.bytesObj(le8(cls...))))
	d.set("n_classes_", pyInt(l.ov("n_classes_", nClasses)))
	lossName, kk := "MultinomialDeviance", nClasses
	if nClasses == 2 {
		lossName, kk = "BinomialDeviance", 1
	}
	ld := &pyDict{}
	ld.set("K", pyInt(kk))
	d.set("loss_", p.object(p.global(ens, lossName), ld))
	mf := m.NF
	if l.Stats {
		mf = 1 + r.Intn(m.NF)
	}
	d.set("max_features_", pyInt(mf))
	id := &pyDict{}
	if nClasses == 2 {
		id.set("prior", p.scalar(p.f8(le8(float64(m.Prior[0])))))
		d.set("init_", p.object(p.global(l.ovs("init.module", ens), l.ovs("init", "LogOddsEstimator")), id))
	} else {
		var pr []any
		for _, x := range resize(m.Prior, l.ov("priors", nClasses)) {
			pr = append(pr, float64(x))
		}
		id.set("priors", p.f8array([]int{len(pr)}, le8(pr...)))
		d.set("init_", p.object(p.global(l.ovs("init.module", ens), l.ovs("init", "PriorProbabilityEstimator")), id))
	}
	list := &pyList{}
	trees := resize(m.trees, l.ov("list", len(m.trees)))
	for i := range trees {
		list.items = append(list.items, p.skTree(m, &trees[i], r, l, mf, i == l.ov("at", -1)))
	}
	d.set("estimators_", p.ndarray("O8", []int{l.ov("shape0", m.nEst()), l.ov("shape1", m.K)}, list, l.ov("fortran", 0) == 1))
	if l.Extra {
		d.set("train_score_", p.f8array([]int{3}, le8(r.Float(), math.Inf(1), r.Float())))
		d.set("_rng", p.rng(r))
		d.set("extra_list", &pyList{[]any{pyInt(1), &pyList{}, &pyDict{}, pyBool(true), pyNone{}}})
		d.set("estimators_samples_", &pyDict{})
		d.set("n_estimators_", pyInt(l.ov("n_estimators", m.nEst())))
		d.set("n_features_in_", pyInt(m.NF))
		if r.Intn(8) == 0 {
			// attributes that a user gave to the model
			for i, n := 0, []int{5, 40, 300}[r.Intn(3)]; i < n; i++ {
				d.set(fmt.Sprintf("note_%d", i), []any{pyNone{}, pyInt(i), p.str("x"), pyFloat(0.5), pyInt(-100 * i), pyInt(1<<40 + i)}[r.Intn(6)])
			}
		}
		if r.Intn(8) == 0 {
			n := []int{3, 9, 40, 300}[r.Intn(4)]
			od := &pyDict{}
			od.set(strings.Repeat("attribute_", n), pyInt(n))
			od.set("text", p.str(strings.Repeat("0123456789 ", n*n)))
			d.set("note_", p.object(p.global("my"+strings.Repeat(".package", n)+".module", strings.Repeat("Nested.", n)+"Class"), od))
		}
	}
	d.set("_sklearn_version", p.str("0.20.3"))
	p.edit(d, l, "top.")
	p.edit(id, l, "init.")
	var root any = p.object(p.global(ens, "GradientBoostingClassifier"), d)
	if len(l.Py) > 0 {
		root = p.mutate(root, l.Py)
	}
	return p.bytes(root)
}

func (p *pickler) rng(r *Rng) *pyReduce {
	k := make([]byte, 4*16)
	for i := range k {
		k[i] = byte(r.U64())
	}
	return &pyReduce{p.global("numpy.random", "__RandomState_ctor"), tup(p.str("MT19937")),
		tup(p.str("MT19937"), p.ndarray("u4", []int{16}, p.bytesObj(k)), pyInt(624), pyInt(0), pyFloat(0))}
}

func (p *pickler) skTree(m *Model, t *Tree, r *Rng, l *Layout, mf int, edit bool) *pyReduce {
	nodes := skNodes(t, r, l)
	count, values := len(nodes), len(nodes)
	if edit {
		if i := l.ov("node", -1); i >= 0 {
			n := &nodes[i%len(nodes)]
			n.l, n.r, n.f = l.ov("left", n.l), l.ov("right", n.r), l.ov("feat", n.f)
		}
		count, values = l.ov("count", count), l.ov("values", values)
		nodes = resize(nodes, l.ov("nodes", len(nodes)))
	}
	var nb, vb bytes.Buffer
	depth := 3
	for _, n := range nodes {
		imp, cnt, w := 0.25, 10, 10.0
		if l.Stats {
			imp, cnt, w = r.Float(), r.Intn(1<<20), math.Float64frombits(r.U64())
		}
		nb.Write(le8(n.l, n.r, n.f, n.thr, imp, cnt, w))
		vb.Write(le8(n.val))
	}
	if v := vb.Bytes(); values*8 < len(v) {
		vb.Truncate(max(0, values*8))
	} else {
		for vb.Len() < values*8 {
			vb.Write(le8(1.5))
		}
	}
	ts := &pyDict{}
	ts.set("max_depth", pyInt(depth))
	ts.set("node_count", pyInt(count))
	ts.set("nodes", p.ndarray("V56", []int{len(nodes)}, p.bytesObj(nb.Bytes())))
	ts.set("values", p.f8array([]int{vb.Len() / 8, 1, 1}, vb.Bytes()))
	if edit {
		p.edit(ts, l, "ts.")
	}
	shared := l.Share && !edit
	key := nb.String() + vb.String()
	if o := p.trees[key]; o != nil && shared {
		return o
	}
	tree := &pyReduce{p.global("sklearn.tree._tree", "Tree"),
		tup(pyInt(m.NF), p.ndarray("i8", []int{1}, p.bytesObj(le8(1))), pyInt(1)), ts}
	d := &pyDict{}
	d.set("criterion", p.str("friedman_mse"))
	d.set("splitter", p.str("best"))
	d.set("max_depth", pyInt(3))
	d.set("class_weight", pyNone{})
	d.set("presort", pyBool(true))
	if l.Extra {
		d.set("random_state", p.rng(r))
		d.set("zz\\u_\nkey", p.str("v\\al"))
	}
	d.set("n_features_", pyInt(m.NF))
	d.set("n_outputs_", pyInt(1))
	d.set("n_classes_", p.scalar("i8", le8(1)))
	d.set("max_features_", pyInt(mf))
	d.set("tree_", tree)
	d.set("_sklearn_version", p.str("0.20.3"))
	if edit {
		p.edit(d, l, "tree.")
	}
	o := p.object(p.global("sklearn.tree.tree", "DecisionTreeRegressor"), d)
	if shared {
		p.trees[key] = o
	}
	return o
}

// PyMut is a change of the object tree that is pickled.
type PyMut struct {
	Op string `json:"op"`
	A  int    `json:"a"`
	B  int    `json:"b,omitempty"`
	N  int    `json:"n,omitempty"`
}

var pyMutOps = []string{"lit", "lit", "copy", "copy", "del", "dup", "len", "key"}

type pySlot struct {
	v   any
	set func(any)
	del func()
	dup func()
	key func(int)
}

// pySlots lists every place of the tree that holds an object.
func pySlots(o any, seen map[any]bool, out *[]pySlot) {
	add := func(v any, s pySlot) {
		s.v = v
		*out = append(*out, s)
		pySlots(v, seen, out)
	}
	list := func(items *[]any) {
		for i := range *items {
			i := i
			add((*items)[i], pySlot{
				set: func(v any) {
					if i < len(*items) {
						(*items)[i] = v
					}
				},
				del: func() {
					if i < len(*items) {
						*items = append((*items)[:i:i], (*items)[i+1:]...)
					}
				},
				dup: func() {
					if i < len(*items) {
						*items = append((*items)[:i+1:i+1], (*items)[i:]...)
					}
				}})
		}
	}
	switch x := o.(type) {
	case *pyTuple:
		if !seen[x] {
			seen[x] = true
			list(&x.items)
		}
	case *pyList:
		if !seen[x] {
			seen[x] = true
			list(&x.items)
		}
	case *pyDict:
		if !seen[x] {
			seen[x] = true
			for i := range x.keys {
				i := i
				add(x.vals[i], pySlot{
					set: func(v any) {
						if i < len(x.vals) {
							x.vals[i] = v
						}
					},
					del: func() {
						if i < len(x.vals) {
							x.keys = append(x.keys[:i:i], x.keys[i+1:]...)
							x.vals = append(x.vals[:i:i], x.vals[i+1:]...)
						}
					},
					key: func(n int) {
						if i < len(x.keys) {
							x.keys[i] = x.keys[n%len(x.keys)]
						}
					}})
			}
		}
	case *pyReduce:
		if !seen[x] {
			seen[x] = true
			add(x.f, pySlot{set: func(v any) { x.f = v }})
			add(x.args, pySlot{set: func(v any) { x.args = v }})
			if x.state != nil {
				add(x.state, pySlot{set: func(v any) { x.state = v }, del: func() { x.state = nil }})
			}
		}
	}
}

func (p *pickler) mutate(root any, ms []PyMut) any {
	for _, m := range ms {
		var s []pySlot
		pySlots(root, map[any]bool{}, &s)
		if len(s) == 0 {
			return root
		}
		t := s[m.A%len(s)]
		if m.A%3 == 0 { // near the root
			t = s[(m.A/3)%min(len(s), 40)]
		}
		switch m.Op {
		case "lit":
			lits := []any{pyNone{}, pyInt(0), pyInt(-1), pyInt(1), pyInt(3), pyFloat(0.5), pyBool(true), &pyStr{[]byte("x")}, &pyStr{[]byte{}}, tup(), tup(pyInt(1)), &pyList{}, &pyDict{}, p.global("numpy", "ndarray"),
				&pyReduce{p.global("copy_reg", "_reconstructor"), tup(), nil}, &pyReduce{p.global("numpy", "dtype"), tup(p.str("f8"), pyInt(0), pyInt(1)), &pyDict{}}, pyInt(math.MaxInt64), pyInt(1 << 31), &pyStr{[]byte("<i8")}, &pyStr{[]byte(">")}}
			t.set(lits[m.N%len(lits)])
		case "copy":
			o := s[m.B%len(s)].v
			switch o.(type) {
			case *pyTuple, *pyList, *pyDict, *pyReduce:
				if !pySlotInside(o, t) {
					t.set(o)
				}
			default:
				t.set(o)
			}
		case "del":
			if t.del != nil {
				t.del()
			}
		case "dup":
			if t.dup != nil {
				t.dup()
			}
		case "key":
			if t.key != nil {
				t.key(m.N)
			}
		case "len":
			for i := 0; i < len(s); i++ {
				if x, ok := s[(m.A+i)%len(s)].v.(*pyStr); ok {
					if n := []int{0, 1, 7, 8, 9, 16, 55, 56, 57, 112}[m.N%10]; n <= len(x.b) && m.B&1 == 0 {
						x.b = x.b[:n:n]
					} else {
						x.b = append(x.b[:len(x.b):len(x.b)], make([]byte, m.N%60)...)
					}
					break
				}
			}
		}
	}
	return root
}

// pySlotInside tells whether storing o in the slot would make a cycle, that is
// whether the slot belongs to an object below o.
func pySlotInside(o any, t pySlot) bool {
	mark := &pyStr{}
	old := t.v
	t.set(mark)
	in := pyHas(o, mark)
	t.set(old)
	return in
}

func pyHas(o, what any) bool {
	var slots []pySlot
	pySlots(o, map[any]bool{}, &slots)
	for _, s := range slots {
		if s.v == what {
			return true
		}
	}
	return false
}
