// Package vlib is the part of the conformance drivers that all of them share:
// trace recording, an independent computation of ciphertext phases, crafted
// ciphertexts, object fingerprints. It uses only exported names of the library
// and re-implements everything it judges with.
package vlib

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"unsafe"

	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trlwe"
)

// R is one trace record.
type R map[string]interface{}

// Tracer appends records to an ndjson file.
type Tracer struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	N  int
}

// NewTracer creates the trace file.
func NewTracer(path string) *Tracer {
	f, err := os.Create(path)
	Must(err)
	return &Tracer{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

// Emit appends one record; it is flushed at once so that a crash of the
// library leaves every earlier record behind.
func (t *Tracer) Emit(r R) {
	b, err := json.Marshal(r)
	Must(err)
	t.mu.Lock()
	defer t.mu.Unlock()
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.N++
	if t.N%256 == 0 {
		t.w.Flush()
	}
}

// Flush writes buffered records.
func (t *Tracer) Flush() { t.mu.Lock(); t.w.Flush(); t.mu.Unlock() }

// Close ends the trace.
func (t *Tracer) Close() { t.Flush(); t.f.Close() }

// Must stops the driver (exit 3: harness trouble, never a verdict).
func Must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
}

// Guard runs f; if the library panics, it records a "panic" event (which no
// specification action accepts) and reports false.
func (t *Tracer) Guard(what string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			t.Emit(R{"ev": "panic", "what": what, "msg": fmt.Sprint(p), "stack": stackOf()})
			ok = false
		}
	}()
	f()
	return true
}

func stackOf() string {
	s := string(debug.Stack())
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// Env returns an integer environment variable.
func Env(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Rng returns the driver's own generator, seeded from VERIF_SEED and salt.
func Rng(salt int64) *rand.Rand {
	return rand.New(rand.NewSource(int64(Env("VERIF_SEED", 1))*1000003 + salt))
}

// Lines reads a file of JSON values, one per line.
func Lines(path string, each func([]byte)) {
	f, err := os.Open(path)
	Must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		if len(strings.TrimSpace(sc.Text())) > 0 {
			each(append([]byte(nil), sc.Bytes()...))
		}
	}
	Must(sc.Err())
}

// ---------------------------------------------------------------- levels

// Levels by name.
var Levels = map[string]params.SecurityLevel{
	"80": params.Security80Bit, "110": params.Security110Bit, "128": params.Security128Bit,
	"U1": params.SecurityUint1, "U2": params.SecurityUint2, "U3": params.SecurityUint3, "U4": params.SecurityUint4,
	"U5": params.SecurityUint5, "U6": params.SecurityUint6, "U7": params.SecurityUint7, "U8": params.SecurityUint8,
}

// LevelNames in a fixed order.
var LevelNames = []string{"80", "110", "128", "U1", "U2", "U3", "U4", "U5", "U6", "U7", "U8"}

// SetLevel selects a level.
func SetLevel(name string) {
	l, ok := Levels[name]
	if !ok {
		Must(fmt.Errorf("unknown level %q", name))
	}
	params.CurrentSecurityLevel = l
}

// ---------------------------------------------------------------- phases

// Phase is b - <a, s> over explicit slices.
func Phase(p []params.Torus, key []params.Torus) params.Torus {
	n := len(key)
	r := p[n]
	for i := 0; i < n; i++ {
		r -= p[i] * key[i]
	}
	return r
}

// Phase0 is the phase of a level-0 ciphertext.
func Phase0(c *tlwe.TLWELv0, key []params.Torus) params.Torus { return Phase(c.P, key) }

// NegaMul multiplies two polynomials modulo X^n+1 and 2^32, exactly.
func NegaMul(a, b []params.Torus) []params.Torus {
	n := len(a)
	out := make([]params.Torus, n)
	for j, bj := range b {
		if bj == 0 {
			continue
		}
		for i, ai := range a {
			if i+j < n {
				out[i+j] += ai * bj
			} else {
				out[i+j-n] -= ai * bj
			}
		}
	}
	return out
}

// RPhase is the phase polynomial b - a*s of a ring ciphertext.
func RPhase(c *trlwe.TRLWELv1, key []params.Torus) []params.Torus {
	m := NegaMul(c.A, key)
	out := make([]params.Torus, len(m))
	for i := range m {
		out[i] = c.B[i] - m[i]
	}
	return out
}

// T16 rounds a torus element to 16 bits.
func T16(x params.Torus) int { return int(uint16((uint64(x) + 0x8000) >> 16)) }

// Limbs splits a torus element in two 16-bit limbs, high first.
func Limbs(x params.Torus) []int { return []int{int(x >> 16), int(x & 0xffff)} }

// E28 is the signed distance x-y in units of 2^-28.
func E28(x, y params.Torus) int { return int(int32(x-y) >> 4) }

// Abs32 is |x-y| on the torus.
func Abs32(x, y params.Torus) uint32 {
	d := int32(x - y)
	if d < 0 {
		return uint32(-int64(d))
	}
	return uint32(d)
}

// F is the torus element of a real number.
func F(x float64) params.Torus {
	x -= math.Floor(x)
	return params.Torus(uint64(math.Round(x * 4294967296)))
}

// ---------------------------------------------------------------- crafted ciphertexts

// Shapes of crafted encryptions; all are valid encryptions of the given phase.
const (
	ShapeFresh    = iota // the library's own encryption
	ShapeZeroMask        // trivial ciphertext: zero mask
	ShapeBody0           // body is 0
	ShapeBodyMax         // body is 2^32-1
	ShapeBodyHalf        // body is 2^31
	ShapeBodyEdge        // body just below a modulus-switch rounding boundary
	ShapeMaskGrid        // mask on the modulus-switch grid, including 0 and the last cell
	ShapeMaskEdge        // mask at rounding boundaries, both sides
	ShapeMaskTop         // many mask elements that round up to a full turn
	ShapeSparse          // few non-zero mask elements
	ShapeBodyHi          // body in the last modulus-switch cell, rounding up to a full turn
	NumShapes
	// 11 and 12 are left to the drivers (noise of either sign)
	ShapeCancel   = iota + 1 // two mask elements of one half, which cancel, all others zero
	ShapeZeroSum             // mask sums up to zero, first and last elements zero
	ShapeHeadZero            // first half of the mask zero
	ShapeTailZero            // second half of the mask zero
	ShapeEqual               // all mask elements equal
	ShapeOneHot              // one non-zero mask element
	ShapePairs               // neighbouring mask elements equal
	ShapeBodyMask            // a mask element equals the body
)

// Far draws a multiple of m, often one that no 32-bit integer holds.
func Far(rng *rand.Rand, m int) int {
	q := (1 << 60) / m
	switch rng.Intn(6) {
	case 0:
		q = 1 + rng.Intn(q)
	case 1:
		q = -1 - rng.Intn(q)
	case 2: // just beyond 32 bits
		q = (1<<32)/m + 1
	case 3:
		q = -(1<<31)/m - 1 - rng.Intn(3)
	default:
		q = 0
	}
	return q * m
}

// Renew hands out the new ciphertext, half of the time as new contents of the
// old object: nothing may remember an operand by its address.
func Renew(rng *rand.Rand, old, c *tlwe.TLWELv0) *tlwe.TLWELv0 {
	if old == nil || len(old.P) != len(c.P) || rng.Intn(2) == 0 {
		return c
	}
	copy(old.P, c.P)
	return old
}

// AnyShape draws one of all the shapes.
func AnyShape(rng *rand.Rand) int {
	if sh := rng.Intn(NumShapes + 8); sh < NumShapes {
		return sh
	} else {
		return sh + 2
	}
}

// pattern rewrites the mask for the shapes that relate mask elements to each other.
func pattern(rng *rand.Rand, shape int, p, key []params.Torus, step params.Torus) {
	n := len(key)
	zero := func(from, to int) {
		for i := from; i < to; i++ {
			p[i] = 0
		}
	}
	pick := func(bit params.Torus) int {
		for {
			if i := 1 + rng.Intn(n-2); key[i] == bit {
				return i
			}
		}
	}
	switch shape {
	case ShapeCancel:
		zero(0, n)
		p[pick(1)], p[pick(0)] = 1<<31, 1<<31
	case ShapeZeroSum:
		var sum params.Torus
		for i := 1; i < n-2; i++ {
			sum += p[i]
		}
		p[0], p[n-1], p[n-2] = 0, 0, -sum
	case ShapeHeadZero:
		zero(0, n/2)
	case ShapeTailZero:
		zero(n/2, n)
	case ShapeEqual:
		// on the grid: equal rounding errors would add up
		v := p[0] / step * step
		for i := range p {
			p[i] = v
		}
	case ShapeOneHot:
		v := p[0]
		zero(0, n)
		p[rng.Intn(n)] = v
	case ShapePairs:
		for i := 0; i < n; i++ {
			p[i] = p[i] / step * step
			if i%2 == 1 {
				p[i] = p[i-1]
			}
		}
	}
}

// Craft returns a level-0 style sample of the given phase, shape and dimension
// n = len(key), for blind rotation modulus 2N.
func Craft(rng *rand.Rand, shape int, phase params.Torus, key []params.Torus, N int) []params.Torus {
	n := len(key)
	p := make([]params.Torus, n+1)
	step := params.Torus(uint64(1<<32) / uint64(2*N))
	half := step / 2
	ones := 0
	for i := 0; i < n; i++ {
		switch shape {
		case ShapeZeroMask:
			p[i] = 0
		case ShapeMaskGrid:
			p[i] = params.Torus(rng.Intn(2*N)) * step
			if i%7 == 0 {
				p[i] = 0
			}
			if i%11 == 0 {
				p[i] = params.Torus(2*N-1) * step
			}
		case ShapeMaskEdge, ShapeMaskTop:
			k := params.Torus(rng.Intn(2 * N))
			if shape == ShapeMaskTop {
				k = params.Torus(2*N - 1)
			}
			lo := k*step + half - 1 // rounds down, error +half-1
			hi := k*step + half     // rounds up, error -half
			// at most eight boundary elements meet a one of the key: the
			// rounding errors of more of them could add up in a linear
			// combination, which random masks never do
			if key[i] == 0 || ones < 8 {
				p[i] = []params.Torus{lo, hi}[rng.Intn(2)]
				if key[i] != 0 {
					ones++
				}
			} else {
				p[i] = params.Torus(rng.Uint32())
			}
		case ShapeSparse:
			if rng.Intn(50) == 0 {
				p[i] = params.Torus(rng.Uint32())
			}
		default:
			p[i] = params.Torus(rng.Uint32())
		}
	}
	pattern(rng, shape, p, key, step)
	body := phase
	for i := 0; i < n; i++ {
		body += p[i] * key[i]
	}
	if shape == ShapeBodyMask {
		for tries := 0; tries < 4*n; tries++ {
			if i := rng.Intn(n); key[i] == 0 {
				p[i] = body
				break
			}
		}
	}
	var target params.Torus
	switch shape {
	case ShapeBody0:
		target = 0
	case ShapeBodyMax:
		target = ^params.Torus(0)
	case ShapeBodyHalf:
		target = 1 << 31
	case ShapeBodyEdge:
		target = params.Torus(rng.Intn(2*N))*step + half - 1
	case ShapeBodyHi:
		target = ^params.Torus(0) - params.Torus(rng.Intn(int(half)))
	default:
		p[n] = body
		return p
	}
	for i := 0; i < n; i++ {
		if key[i] == 1 {
			p[i] += target - body
			break
		}
	}
	p[n] = target
	return p
}

// ---------------------------------------------------------------- fingerprints

var hseed = maphash.MakeSeed()

// Hash32 fingerprints torus slices.
func Hash32(vs ...[]params.Torus) uint64 {
	var h maphash.Hash
	h.SetSeed(hseed)
	for _, v := range vs {
		if len(v) > 0 {
			h.Write(unsafe.Slice((*byte)(unsafe.Pointer(&v[0])), len(v)*4))
		}
		h.WriteByte(7)
	}
	return h.Sum64()
}

// HashF fingerprints float slices.
func HashF(vs ...[]float64) uint64 {
	var h maphash.Hash
	h.SetSeed(hseed)
	for _, v := range vs {
		if len(v) > 0 {
			h.Write(unsafe.Slice((*byte)(unsafe.Pointer(&v[0])), len(v)*8))
		}
		h.WriteByte(9)
	}
	return h.Sum64()
}

// Span is a memory range.
type Span struct{ Lo, Hi uintptr }

// SpanOf is the memory range of a torus slice.
func SpanOf(v []params.Torus) Span {
	if len(v) == 0 {
		return Span{}
	}
	lo := uintptr(unsafe.Pointer(&v[0]))
	return Span{lo, lo + uintptr(len(v))*4}
}

// SpanOfF is the memory range of a float slice.
func SpanOfF(v []float64) Span {
	if len(v) == 0 {
		return Span{}
	}
	lo := uintptr(unsafe.Pointer(&v[0]))
	return Span{lo, lo + uintptr(len(v))*8}
}

// Overlap says whether two ranges share memory.
func (s Span) Overlap(o Span) bool { return s.Lo < o.Hi && o.Lo < s.Hi }

// Intern maps 64-bit fingerprints to small integers, stable within a run.
type Intern struct{ m map[uint64]int }

// ID returns the small integer of a fingerprint.
func (i *Intern) ID(h uint64) int {
	if i.m == nil {
		i.m = map[uint64]int{}
	}
	v, ok := i.m[h]
	if !ok {
		v = len(i.m) + 1
		i.m[h] = v
	}
	return v
}
