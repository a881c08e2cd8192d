package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
)

// F is a float64 whose JSON form keeps NaN, infinities and negative zero.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	v := float64(f)
	switch {
	case math.IsNaN(v):
		return []byte(`"NaN"`), nil
	case math.IsInf(v, 1):
		return []byte(`"+Inf"`), nil
	case math.IsInf(v, -1):
		return []byte(`"-Inf"`), nil
	case v == 0 && math.Signbit(v):
		return []byte(`"-0"`), nil
	}
	return strconv.AppendFloat(nil, v, 'g', -1, 64), nil
}

func (f *F) UnmarshalJSON(b []byte) error {
	s := string(b)
	if len(s) > 0 && s[0] == '"' {
		if err := json.Unmarshal(b, &s); err != nil {
			return err
		}
	}
	v, err := strconv.ParseFloat(s, 64)
	*f = F(v)
	return err
}

func fs(v []F) []float64 {
	r := make([]float64, len(v))
	for i, x := range v {
		r[i] = float64(x)
	}
	return r
}

// Rng is a splitmix64 generator. It only expands seeds that were themselves
// drawn by rapid, so that big structures stay small in replay files.
type Rng struct{ s uint64 }

func newRng(seed uint64) *Rng { return &Rng{seed ^ 0x1234567890abcdef} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) Bool() bool     { return r.U64()&1 == 1 }
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// same tells whether two floats are the same number (all NaNs are the same,
// zeros of both signs too).
func same(a, b float64) bool {
	return a == b || (math.IsNaN(a) && math.IsNaN(b))
}

// bitSame also tells signed zeros apart.
func bitSame(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (math.IsNaN(a) && math.IsNaN(b))
}

func sameSlice(a, b []float64) int {
	if len(a) != len(b) {
		return 0
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return i
		}
	}
	return -1
}

// close compares a computed sum with the reference, `mag` is the sum of the
// magnitudes of the reference's terms.
func closeTo(got, want, mag float64) bool {
	if same(got, want) {
		return true
	}
	if math.IsNaN(mag) || math.IsInf(mag, 0) {
		// overflowing or undefined sums depend on the order of the terms
		return math.IsNaN(got) == math.IsNaN(want) && (math.IsNaN(got) || math.IsInf(got, 0) == math.IsInf(want, 0))
	}
	return math.Abs(got-want) <= 1e-11*mag+1e-300
}

func verr(format string, args ...any) error { return fmt.Errorf(format, args...) }

func f32(x float64) float64 { return float64(float32(x)) }

// to32 rounds to single precision and keeps the value finite when it was.
func to32(x float64) float64 {
	if x > math.MaxFloat32 && !math.IsInf(x, 1) {
		return math.MaxFloat32
	}
	if x < -math.MaxFloat32 && !math.IsInf(x, -1) {
		return -math.MaxFloat32
	}
	return f32(x)
}
func next32(x float64, up bool) float64 {
	d := float32(math.Inf(-1))
	if up {
		d = float32(math.Inf(1))
	}
	return float64(math.Nextafter32(float32(x), d))
}
