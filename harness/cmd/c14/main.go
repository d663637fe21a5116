// c14 replays programs over polynomials and transforms.
// usage: c14 TRACE PROGRAMS
package main

import (
	"encoding/json"
	"math/rand"
	"os"

	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"

	. "verif.local/harness/vlib"
)

type op struct {
	Op            string `json:"op"`
	D, A, B, X, Y int
	I, J, K, KK   int
	Kind, Via, Nm string
}
type prog struct {
	N   int  `json:"n"`
	Ops []op `json:"ops"`
}

var factors = []float64{-3, -1, 0, 1, 2, 5, 0.5}

func fill(rng *rand.Rand, kind string, out []params.Torus) {
	n := len(out)
	small := func(bits int) params.Torus { return params.Torus(rng.Intn(1<<bits) - 1<<(bits-1)) }
	c := params.Torus(rng.Uint32())
	for i := range out {
		switch kind {
		case "full":
			out[i] = params.Torus(rng.Uint32())
		case "edge":
			out[i] = []params.Torus{1 << 31, 1<<31 - 1, 0, ^params.Torus(0), 1<<31 + 1, 1, 0xffff0000}[rng.Intn(7)]
		case "bin":
			out[i] = params.Torus(rng.Intn(2))
		case "digit":
			out[i] = small(6)
		case "mid":
			out[i] = small(14)
		case "even":
			out[i] = params.Torus(rng.Uint32()) &^ 1
		case "const":
			out[i] = c
		default:
			out[i] = 0
		}
	}
	switch kind {
	case "mono":
		out[[]int{0, n - 1, n / 2, rng.Intn(n)}[rng.Intn(4)]] = []params.Torus{1, ^params.Torus(0)}[rng.Intn(2)]
	case "s31", "s6":
		for j := 0; j < 5; j++ {
			v := small(6)
			if kind == "s31" {
				v = params.Torus(rng.Uint32())
			}
			out[rng.Intn(n)] = v
		}
		out[n-1] = 1
	}
}

func flat(c []params.Torus) []int {
	out := make([]int, 0, 2*len(c))
	for _, x := range c {
		out = append(out, int(x>>16), int(x&0xffff))
	}
	return out
}

func nnz(c []params.Torus) int {
	k := 0
	for _, x := range c {
		if x != 0 {
			k++
		}
	}
	return k
}

func rotation(rng *rand.Rand, code, n int) int {
	switch code {
	case 0, 1:
		return code
	case 2:
		return n / 2
	case 3:
		return n - 1
	case 4:
		return n
	case 5:
		return n + 1
	case 6:
		return 2*n - 1
	case 7:
		return 2 * n
	case 8:
		return -1
	case 9:
		return -n
	case 10:
		return -(n + 3)
	}
	return rng.Intn(20*n) - 10*n
}

func main() {
	t := NewTracer(os.Args[1])
	defer t.Close()
	rng := Rng(1401)
	Lines(os.Args[2], func(line []byte) {
		var p prog
		Must(json.Unmarshal(line, &p))
		n := p.N
		var in Intern
		var P [5]poly.Poly
		var F [4]poly.FourierPoly
		var evs [4]*poly.Evaluator
		obs := poly.NewEvaluator(n)
		rotation := func(rng *rand.Rand, o op, n int) int {
			if o.K == 99 {
				return o.KK
			}
			return rotation(rng, o.K, n)
		}
		evs[1] = poly.NewEvaluator(n)
		evs[2] = evs[1].ShallowCopy()
		evs[3] = poly.NewEvaluator(n)
		P[1], P[2], P[3], P[4] = poly.NewPoly(n), poly.NewPolyAligned(n), evs[2].NewPoly(), poly.NewPolyAligned(n)
		F[1], F[2], F[3] = poly.NewFourierPoly(n), poly.NewFourierPolyAligned(n), evs[2].NewFourierPoly()
		lens, nz := []int{}, 0
		for r := 1; r <= 4; r++ {
			lens = append(lens, len(P[r].Coeffs), P[r].Degree())
			nz += nnz(P[r].Coeffs)
		}
		for r := 1; r <= 3; r++ {
			lens = append(lens, len(F[r].Coeffs), F[r].Degree(), evs[r].Degree())
			for _, x := range F[r].Coeffs {
				if x != 0 {
					nz++
				}
			}
		}
		t.Emit(R{"ev": "reset", "n": n, "lens": lens, "nz": nz})
		e := evs[1]
		ghost := func(r int) []params.Torus { return obs.ToPoly(F[r].Copy()).Coeffs }
		for _, o := range p.Ops {
			if o.Op == "switch" {
				e = evs[o.K]
				continue
			}
			rec := R{"ev": "op", "op": o.Op, "n": n, "d": o.D, "a": o.A, "b": o.B, "k": o.K}
			pos := []int{}
			sampled := func(x, y []params.Torus) {
				if n > 32 && nnz(x) > 8 && nnz(y) > 8 && len(pos) == 0 {
					pos = append(pos, 0, n-1, n/2, n/2-1)
					for j := 0; j < 4; j++ {
						pos = append(pos, rng.Intn(n))
					}
				}
			}
			isF := false
			var extra []R
			ok := t.Guard(o.Op, func() {
				switch o.Op {
				case "load":
					fill(rng, o.Kind, P[o.D].Coeffs)
				case "mul":
					sampled(P[o.A].Coeffs, P[o.B].Coeffs)
					P[o.D] = e.MulPoly(P[o.A], P[o.B])
				case "mulassign":
					sampled(P[o.A].Coeffs, P[o.B].Coeffs)
					e.MulPolyAssign(P[o.A], P[o.B], P[o.D])
				case "muladd":
					sampled(P[o.A].Coeffs, P[o.B].Coeffs)
					e.MulAddPolyAssign(P[o.A], P[o.B], P[o.D])
				case "mulsub":
					sampled(P[o.A].Coeffs, P[o.B].Coeffs)
					e.MulSubPolyAssign(P[o.A], P[o.B], P[o.D])
				case "copy":
					P[o.D] = P[o.A].Copy()
				case "clear":
					P[o.D].Clear()
				case "rot":
					k := rotation(rng, o, n)
					rec["k"] = k
					if rng.Intn(2) == 0 {
						e.ResetRotationPool()
					}
					rs := [][]params.Torus{e.PolyMulWithXK(P[o.A].Coeffs, k+Far(rng, 2*n))}
					ks := []int{k}
					for j := 0; j < rng.Intn(4); j++ {
						kk := rotation(rng, op{K: rng.Intn(12)}, n)
						ks = append(ks, kk)
						rs = append(rs, e.PolyMulWithXK(P[o.A].Coeffs, kk+Far(rng, 2*n)))
					}
					for j := 1; j < len(rs); j++ {
						extra = append(extra, R{"ev": "rotx", "n": n, "a": o.A, "k": ks[j], "v": flat(rs[j])})
					}
					P[o.D] = poly.Poly{Coeffs: append([]params.Torus(nil), rs[0]...)}
				case "rotip":
					rec["k"] = rotation(rng, o, n)
					poly.PolyMulWithXKInPlace(P[o.A].Coeffs, rec["k"].(int)+Far(rng, 2*n), P[o.D].Coeffs)
				case "rotdirect":
					rec["k"] = rotation(rng, o, n)
					e.PolyMulWithXKDirect(P[o.A].Coeffs, rec["k"].(int)+Far(rng, 2*n), P[o.D].Coeffs)
				case "back":
					P[o.D] = e.ToPoly(F[o.A])
				case "backassign":
					e.ToPolyAssign(F[o.A], P[o.D])
				case "backunsafe":
					e.ToPolyAssignUnsafe(F[o.A], P[o.D])
				case "backadd":
					e.ToPolyAddAssignUnsafe(F[o.A], P[o.D])
				case "backsub":
					e.ToPolySubAssignUnsafe(F[o.A], P[o.D])
				case "bufprod":
					rec["x"], rec["y"] = o.X, o.Y
					sampled(P[o.A].Coeffs, ghost(o.X))
					sampled(P[o.B].Coeffs, ghost(o.Y))
					j := o.J
					if j == o.I {
						j = (j + 1) % 8
					}
					e.ClearBuffer(o.Nm)
					for s, src := range []int{o.A, o.B} {
						idx := []int{o.I, j}[s]
						if o.Via == "infft" {
							e.ToFourierPolyInBuffer(P[src], idx)
						} else {
							e.CopyToDecompBuffer(P[src].Coeffs, idx)
						}
					}
					for s, f := range []int{o.X, o.Y} {
						idx := []int{o.I, j}[s]
						if o.Via == "copy" {
							e.ToFourierPolyAssign(*e.GetDecompBuffer(idx), *e.GetDecompFFTBuffer(idx))
						}
						e.MulAddFourierPolyAssignBuffered(idx, F[f], o.Nm)
					}
					e.BufferToPolyAssign(o.Nm, P[o.D].Coeffs)
				default:
					isF = true
				}
				if !isF {
					return
				}
				switch o.Op {
				case "fwd":
					F[o.D] = e.ToFourierPoly(P[o.A])
				case "fwdassign":
					e.ToFourierPolyAssign(P[o.A], F[o.D])
				case "fadd":
					F[o.D] = e.AddFourierPoly(F[o.A], F[o.B])
				case "faddassign":
					e.AddFourierPolyAssign(F[o.A], F[o.B], F[o.D])
				case "fsub":
					F[o.D] = e.SubFourierPoly(F[o.A], F[o.B])
				case "fsubassign":
					e.SubFourierPolyAssign(F[o.A], F[o.B], F[o.D])
				case "fmul":
					sampled(ghost(o.A), ghost(o.B))
					F[o.D] = e.MulFourierPoly(F[o.A], F[o.B])
				case "fmulassign":
					sampled(ghost(o.A), ghost(o.B))
					e.MulFourierPolyAssign(F[o.A], F[o.B], F[o.D])
				case "fmuladd":
					sampled(ghost(o.A), ghost(o.B))
					e.MulAddFourierPolyAssign(F[o.A], F[o.B], F[o.D])
				case "fmulsub":
					sampled(ghost(o.A), ghost(o.B))
					e.MulSubFourierPolyAssign(F[o.A], F[o.B], F[o.D])
				case "ffloat":
					e.FloatMulFourierPolyAssign(F[o.A], factors[o.K], F[o.D])
				case "ffloatadd":
					e.FloatMulAddFourierPolyAssign(F[o.A], factors[o.K], F[o.D])
				case "fcopy":
					F[o.D] = F[o.A].Copy()
				case "fcopyfrom":
					F[o.D].CopyFrom(F[o.A])
				case "fclear":
					F[o.D].Clear()
				default:
					panic("unknown op " + o.Op)
				}
			})
			if !ok {
				return
			}
			for _, x := range extra {
				t.Emit(x)
			}
			if isF {
				rec["v"] = flat(ghost(o.D))
			} else {
				rec["v"] = flat(P[o.D].Coeffs)
			}
			rec["pos"] = pos
			pf, ff := []int{}, []int{}
			for r := 1; r <= 4; r++ {
				pf = append(pf, in.ID(Hash32(P[r].Coeffs)))
			}
			for r := 1; r <= 3; r++ {
				ff = append(ff, in.ID(HashF(F[r].Coeffs)))
			}
			rec["pf"], rec["ff"] = pf, ff
			t.Emit(rec)
		}
	})
}
