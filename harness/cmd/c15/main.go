// c15 records ring ciphertext operations of both implementations, with the
// phases of operands and results under known keys.
// usage: c15 TRACE LEVEL noiseless|noisy EXT EP CMUX BR
package main

import (
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	. "verif.local/harness/vlib"
)

var (
	t            *Tracer
	rng          *rand.Rand
	n0, N, L, bb int
	s, s0        []params.Torus
	offset       params.Torus
	alpha        float64
	rel          int // where the levels start in the cycle of operand shapes
)

func ints(k []params.Torus) []int {
	r := make([]int, len(k))
	for i, v := range k {
		r[i] = int(v)
	}
	return r
}

func t16s(v []params.Torus) []int {
	r := make([]int, len(v))
	for i := range v {
		r[i] = T16(v[i])
	}
	return r
}

func flat(v []params.Torus) []int {
	out := make([]int, 0, 2*len(v))
	for _, x := range v {
		out = append(out, int(x>>16), int(x&0xffff))
	}
	return out
}

// boundary is a torus element at or next to a rounding boundary of the gadget.
func boundary() params.Torus {
	low := uint(32 - L*bb)
	v := params.Torus(rng.Uint32()) >> low << low
	switch rng.Intn(8) {
	case 0:
		return v
	case 1:
		return v - 1
	case 2:
		return v + 1<<low>>1
	case 3:
		return v + 1<<low>>1 - 1
	case 4:
		return ^params.Torus(0)
	case 5:
		return 0
	case 6:
		return 1 << 31
	}
	return params.Torus(rng.Intn(1<<uint(bb)))<<uint(32-bb) + 1<<uint(31-bb) - params.Torus(rng.Intn(2))
}

func ring(kind int) *trlwe.TRLWELv1 {
	c := trlwe.NewTRLWELv1()
	for i := 0; i < N; i++ {
		switch kind % 6 {
		case 0:
			c.A[i], c.B[i] = params.Torus(rng.Uint32()), params.Torus(rng.Uint32())
		case 1:
			c.A[i], c.B[i] = boundary(), boundary()
		case 2:
			c.A[i], c.B[i] = 0, params.Torus(rng.Uint32())
		case 3:
			c.A[i], c.B[i] = params.Torus(rng.Uint32()), 0
		case 4:
			if i%97 == 0 {
				c.A[i] = params.Torus(rng.Uint32())
			}
			c.B[i] = []params.Torus{1 << 29, 7 << 29}[(i/300)%2]
		}
	}
	return c
}

func ggsw(p params.Torus, e *poly.Evaluator) *trgsw.TRGSWLv1FFT {
	return trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(p, alpha, s, e), e)
}

func extraction(reps int) {
	for r := 0; r < reps; r++ {
		ct := ring(r)
		if r == 1 {
			for i := range ct.A {
				ct.A[i] = []params.Torus{0, 1, ^params.Torus(0), 1 << 31, 1<<31 - 1}[rng.Intn(5)]
			}
		}
		ph := RPhase(ct, s)
		f := Hash32(ct.A, ct.B)
		for _, v := range []string{"index", "assign", "index2"} {
			if v == "index2" && n0 != N {
				continue
			}
			out := make([]params.Torus, N)
			mk := []int{}
			reused := tlwe.NewTLWELv1()
			ok := t.Guard("extract", func() {
				for k := 0; k < N; k++ {
					var p []params.Torus
					switch v {
					case "index":
						p = trlwe.SampleExtractIndex(ct, k).P
					case "assign":
						trlwe.SampleExtractIndexAssign(ct, k, reused)
						p = reused.P
					case "index2":
						p = trlwe.SampleExtractIndex2(ct, k).P
					}
					out[k] = Phase(p, s)
					mk = append(mk, len(p))
				}
			})
			if !ok {
				return
			}
			lens := map[int]bool{}
			for _, x := range mk {
				lens[x] = true
			}
			t.Emit(R{"ev": "ext", "var": v, "ph": flat(ph), "out": flat(out), "lens": len(lens), "len": mk[0], "same": f == Hash32(ct.A, ct.B)})
		}
	}
}

func decomposition(reps int) {
	for r := 0; r < reps; r++ {
		in := make([]params.Torus, N)
		for i := range in {
			in[i] = boundary()
			if i%3 == 0 {
				in[i] = params.Torus(rng.Uint32())
			}
		}
		out := poly.NewDecomposer(N, L).GetPolyDecomposedBuffer(L)
		if !t.Guard("decompose", func() { poly.DecomposePolyAssign(in, bb, L, offset, out) }) {
			return
		}
		ds := [][]int{}
		for i := range out {
			d := make([]int, N)
			for j, x := range out[i].Coeffs {
				d[j] = int(int32(x))
			}
			ds = append(ds, d)
		}
		t.Emit(R{"ev": "dec", "x": flat(in), "d": ds})
	}
}

func transforms() {
	e := poly.NewEvaluator(N)
	ct := ring(0)
	t.Guard("fft", func() {
		f := trlwe.NewTRLWELv1FFT(ct, e)
		a := e.ToPoly(poly.FourierPoly{Coeffs: f.A})
		b := e.ToPoly(poly.FourierPoly{Coeffs: f.B})
		t.Emit(R{"ev": "fft", "x": flat(append(append([]params.Torus{}, ct.A[:64]...), ct.B[N-64:]...)), "y": flat(append(append([]params.Torus{}, a.Coeffs[:64]...), b.Coeffs[N-64:]...))})
	})
	t.Guard("rbool", func() {
		bits := make([]bool, N)
		bi := make([]int, N)
		for i := range bits {
			if rng.Intn(2) == 1 {
				bits[i], bi[i] = true, 1
			}
		}
		c := trlwe.NewTRLWELv1().EncryptBool(bits, alpha, s, e)
		d := c.DecryptBool(s, e)
		di := make([]int, len(d))
		for i := range d {
			if d[i] {
				di[i] = 1
			}
		}
		t.Emit(R{"ev": "rbool", "bits": bi, "dec": di, "out": t16s(RPhase(c, s))})
	})
}

func external(reps int) {
	ev := evaluator.NewEvaluator(N)
	pe := poly.NewEvaluator(N)
	out := trlwe.NewTRLWELv1()
	for r := 0; r < reps; r++ {
		p := []int{1, 0, -1, 2}[r%4]
		var g *trgsw.TRGSWLv1FFT
		if !t.Guard("ggsw", func() { g = ggsw(params.Torus(int32(p)), pe) }) {
			return
		}
		in := ring(r/2 + rel)
		ph := t16s(RPhase(in, s))
		f := Hash32(in.A, in.B)
		t.Guard("external", func() {
			ev.ExternalProductAssign(g, in, offset, out)
			t.Emit(R{"ev": "ep", "impl": "ev", "p": p, "ph": ph, "out": t16s(RPhase(out, s)), "same": f == Hash32(in.A, in.B)})
		})
		t.Guard("external", func() {
			o := trgsw.ExternalProductWithFFT(g, in, offset, pe)
			t.Emit(R{"ev": "ep", "impl": "trgsw", "p": p, "ph": ph, "out": t16s(RPhase(o, s)), "same": f == Hash32(in.A, in.B)})
		})
	}
}

func selection(reps int) {
	ev := evaluator.NewEvaluator(N)
	pe := poly.NewEvaluator(N)
	for r := 0; r < reps; r++ {
		c := r % 2
		g := ggsw(params.Torus(c), pe)
		x, y := ring(r/2+rel), ring(r/3+1)
		// operands that coincide in part, or vanish
		switch (r/2 + rel) % 6 {
		case 1:
			copy(y.A, x.A)
		case 2:
			copy(y.B, x.B)
		case 3:
			copy(y.A, x.A)
			copy(y.B, x.B)
		case 4:
			x = trlwe.NewTRLWELv1()
		case 5:
			y = trlwe.NewTRLWELv1()
		}
		if r%7 == 6 {
			y = x
		}
		px, py := t16s(RPhase(x, s)), t16s(RPhase(y, s))
		t.Guard("cmux", func() {
			o := trgsw.CMUX(x, y, g, offset, pe)
			t.Emit(R{"ev": "cmux", "impl": "trgsw", "c": c, "x": px, "y": py, "out": t16s(RPhase(o, s))})
		})
		t.Guard("cmux", func() {
			o := trlwe.NewTRLWELv1()
			ev.CMuxAssign(g, x, y, offset, o)
			t.Emit(R{"ev": "cmux", "impl": "ev", "c": c, "x": px, "y": py, "out": t16s(RPhase(o, s))})
		})
		if x != y {
			t.Guard("cmux", func() { // the accumulator of the blind rotation: output is the first operand
				ev.CMuxAssign(g, x, y, offset, x)
				t.Emit(R{"ev": "cmux", "impl": "evip", "c": c, "x": px, "y": py, "out": t16s(RPhase(x, s))})
			})
		}
	}
}

func rotation(reps int) {
	bsk := make([]*trgsw.TRGSWLv1FFT, n0)
	var wg sync.WaitGroup
	w := runtime.NumCPU() / 2
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			e := poly.NewEvaluator(N)
			for i := k; i < n0; i += w {
				bsk[i] = ggsw(s0[i], e)
			}
		}(k)
	}
	wg.Wait()
	ev := evaluator.NewEvaluator(N)
	pe := poly.NewEvaluator(N)
	emit := func(impl string, c *tlwe.TLWELv0, tv, out *trlwe.TRLWELv1) {
		t.Emit(R{"ev": "br", "impl": impl, "a": flat(c.P[:n0]), "b": Limbs(c.P[n0]), "tv": t16s(RPhase(tv, s)), "out": t16s(RPhase(out, s))})
	}
	var group []*tlwe.TLWELv0
	var last *trlwe.TRLWELv1
	for r := 0; r < reps; r++ {
		c := tlwe.NewTLWELv0()
		// every other phase sits at a rounding boundary of the modulus switching
		ph := params.Torus(rng.Uint32())
		if r%2 == 0 {
			step := params.Torus((1 << 31) / N)
			ph = params.Torus(rng.Intn(2*N))*step + step/2 - params.Torus(rng.Intn(2))
		}
		copy(c.P, Craft(rng, []int{ShapeZeroMask, ShapeMaskTop, ShapeBodyHi, ShapeMaskGrid, ShapeBody0, ShapeMaskEdge, ShapeBodyMax, ShapeBodyHalf, ShapeSparse, ShapeBodyEdge, 0,
			ShapeCancel, ShapeZeroSum, ShapeHeadZero, ShapeTailZero, ShapeEqual, ShapeOneHot, ShapePairs, ShapeBodyMask}[r%19], ph, s0, N))
		tv := ring([]int{0, 2, 4, 1}[r%4])
		out := trlwe.NewTRLWELv1()
		t.Guard("rotate", func() { ev.BlindRotateAssign(c, tv, bsk, offset, out); emit("ev", c, tv, out) })
		t.Guard("rotate", func() { emit("trgsw", c, tv, trgsw.BlindRotate(c, tv, bsk, offset, pe)) })
		group, last = append(group, c), tv
	}
	if len(group) > 3 {
		group = group[:3]
	}
	t.Guard("rotate", func() {
		for i, o := range trgsw.BatchBlindRotate(group, last, bsk, offset) {
			emit("batch", group[i], last, o)
		}
	})
}

func main() {
	t = NewTracer(os.Args[1])
	defer t.Close()
	level := os.Args[2]
	num := func(i int) int { v, err := strconv.Atoi(os.Args[i]); Must(err); return v }
	SetLevel(level)
	rng = Rng(int64(len(level))*31 + int64(params.CurrentSecurityLevel))
	rel = 2 * int(params.CurrentSecurityLevel)
	if os.Args[3] == "noisy" {
		rel++
	}
	g := params.GetTRGSWLv1()
	n0, N, L, bb = params.GetTLWELv0().N, g.N, g.L, int(g.BGBIT)
	if os.Args[3] == "noisy" {
		alpha = params.BSKAlpha()
	}
	s, s0 = make([]params.Torus, N), make([]params.Torus, n0)
	for i := range s {
		s[i] = params.Torus(rng.Intn(2))
	}
	for i := range s0 {
		s0[i] = params.Torus(rng.Intn(2))
	}
	// the gadget offset: of the library where a key can be made cheaply
	from := "library"
	switch level {
	case "U5", "U6", "U7", "U8":
		from = "definition"
		for i := 1; i <= L; i++ {
			offset += params.Torus(1) << uint(bb-1) << uint(32-i*bb)
		}
		offset += 1 << uint(31-L*bb)
	default:
		offset = cloudkey.NewCloudKeyNoKSK().DecompositionOffset
	}
	t.Emit(R{"ev": "reset", "level": level, "noisy": alpha > 0, "n": n0, "N": N, "L": L, "bgbit": bb, "nbit": g.NBIT, "offset": Limbs(offset), "from": from, "s0": ints(s0)})
	extraction(num(4))
	decomposition(1)
	transforms()
	external(num(5))
	selection(num(6))
	rotation(num(7))
}
