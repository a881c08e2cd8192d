package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"

	"pgregory.net/rapid"
)

// ---------- C36 ----------

// SeqItem is a model, or a matrix text read in parts.
type SeqItem struct {
	M     *Model   `json:"m,omitempty"`
	L     Layout   `json:"l"`
	X     Mat      `json:"x"`
	T     bool     `json:"t,omitempty"`
	Txt   *TxtCase `json:"txt,omitempty"`
	Parts []int    `json:"parts,omitempty"` // limits of the calls
	Blank bool     `json:"blank,omitempty"` // a blank line ends the text, the last call has no limit
}

// SeqCase is a stream of models and matrices.
type SeqCase struct {
	Items []SeqItem `json:"items"`
	Seed  uint64    `json:"seed"`
	Mode  int       `json:"mode"`
	Last  bool      `json:"last"`
	Buf   int       `json:"buf"`
	Tail  string    `json:"tail"`
}

func genSeq(t *rapid.T) *SeqCase {
	c := &SeqCase{Seed: rapid.Uint64().Draw(t, "seed"), Mode: uni(t, "mode", 6), Last: rapid.Bool().Draw(t, "last"), Buf: oneOf(t, "buf", bufSizes)}
	c.Tail = oneOf(t, "tail", []string{"", "x", "\n", "\n\n", ".", "1,2\n", "tail of the stream\n", "\x00\x00"})
	for i, n := 0, ir(t, "items", 1, 4); i < n; i++ {
		var s SeqItem
		if pct(t, "matrix", 35) {
			s.Txt = genTxt(t)
			s.Txt.NoEnd, s.Txt.Limit = false, 0
			if w := s.Txt.want(); w.err != nil {
				// refused by the dense reader
				s.Txt.Kind = "svm"
			}
			if s.Txt.Wide > 9000 {
				s.Txt.Wide = 9000
			}
			left := len(s.Txt.Rows) + s.Txt.More
			s.Blank = rapid.Bool().Draw(t, "blank")
			for left > 0 {
				p := oneOf(t, "part", []int{1, 1, 2, 3, left, left / 2, 100})
				p = max(1, min(p, left))
				if s.Blank && (p == left || len(s.Parts) == 8) {
					break
				}
				if len(s.Parts) == 8 {
					p = left
				}
				left -= p
				s.Parts = append(s.Parts, p)
			}
		} else {
			s.M = genModel(t, GenOpt{NoLay: true, Fams: []string{LGT, XGT, XGD, XGL, SKL}, BigPct: 5, Obj: pct(t, "trans", 60), MaxBig: 200})
			s.L = genLayout(t)
			s.L.End = true
			s.T = s.M.canTransform() && pct(t, "t", 50)
			s.X = Mat{Rows: genRows(t, s.M, 1, 2), More: 6, Seed: c.Seed}
		}
		c.Items = append(c.Items, s)
	}
	return c
}

// part is the text of some rows of c.
func (c *TxtCase) part(rows [][]Field, lab []string) *TxtCase {
	p := *c
	p.Rows, p.Label, p.More, p.Wide, p.Limit = rows, lab, 0, 0, 0
	return &p
}

func seqCheck(c *SeqCase, x *Ctx) error {
	x.label("mode=%d", c.Mode)
	x.label("buffer=%d", c.Buf)
	var stream bytes.Buffer
	calls := 0
	for i := range c.Items {
		s := &c.Items[i]
		if s.Txt == nil {
			s.M.prepare()
			stream.Write(s.M.bytesLay(&s.L))
			calls++
			continue
		}
		stream.Write(s.Txt.text())
		calls += len(s.Parts)
		if s.Blank {
			calls++
			if s.Txt.CRLF {
				stream.WriteByte('\r')
			}
			stream.WriteByte('\n')
		}
	}
	stream.WriteString(c.Tail)
	x.nontrivialIf(calls > 1)
	x.label("calls=%d", min(calls, 8))
	r := bufio.NewReaderSize(&chunks{stream.Bytes(), newRng(c.Seed), c.Mode, c.Last, io.EOF, nil}, c.Buf)
	for i := range c.Items {
		s := &c.Items[i]
		what := fmt.Sprintf("item %d of the stream", i)
		if s.Txt != nil {
			x.label("matrix %s", s.Txt.Kind)
			rows, lab := s.Txt.allRows()
			next := func(n, limit int) error {
				if n <= 0 || n > len(rows) {
					return nil
				}
				var l []string
				if s.Txt.Skip {
					l = lab[:n]
					lab = lab[n:]
				}
				want := s.Txt.part(rows[:n], l).want()
				if want.err != nil {
					return nil // not generated
				}
				rows = rows[n:]
				call := *s.Txt
				call.Limit = limit
				if err := want.differs(call.load(r, "")); err != nil {
					return verr("%s, %s text: reading the next %d rows (limit %d): %v", what, s.Txt.Kind, n, limit, err)
				}
				return nil
			}
			for _, p := range s.Parts {
				if err := next(p, p); err != nil {
					return err
				}
			}
			if s.Blank {
				if err := next(len(rows), 0); err != nil {
					return err
				}
			}
			continue
		}
		x.label("model %s", s.M.Fam)
		m := s.M
		rows := m.matrix(&s.X)
		alone, err := loadBytes(m.Fam, m.bytesLay(&s.L), s.T)
		if err != nil {
			return verr("%s, %s model: refused when it is alone: %v", what, m.Fam, err)
		}
		want, err := observe(alone, rows, m.Fam == XGL)
		if err != nil {
			return err
		}
		e, err := loadReader(m.Fam, r, s.T)
		if err != nil {
			return verr("%s, %s model: refused: %v", what, m.Fam, err)
		}
		got, err := observe(e, rows, m.Fam == XGL)
		if err != nil {
			return verr("%s, %s model: %v", what, m.Fam, err)
		}
		if err := want.differs(got, true); err != nil {
			return verr("%s, %s model, is not the one loaded alone: %v", what, m.Fam, err)
		}
	}
	rest, err := io.ReadAll(r)
	if err != nil {
		return verr("rest of the stream: %v", err)
	}
	if string(rest) != c.Tail {
		if len(rest) > 60 {
			rest = rest[:60]
		}
		return verr("after the last item the stream goes on with %q instead of %q", rest, c.Tail)
	}
	return nil
}

func init() {
	register(Prop{ID: "C36", Quick: 64000, Thorough: 500000, Rule: "rapid draws a stream of one to four items - models of every family but JSON in drawn layouts, and matrix texts - and a tail, the sizes of the pieces in which it arrives and the size of the caller's buffered reader; the items are read one after another from that reader, matrices in one to nine calls with row limits or up to a blank line; each model must be the one loaded alone (predictions of all views, metadata), each matrix have the next rows, and the reader be left with exactly the tail. Non-trivial: more than one call."},
		genSeq, seqCheck)
}
