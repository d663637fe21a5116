// c06 replays table generation histories.
// usage: c06 TRACE PROGRAMS
package main

import (
	"encoding/json"
	"os"

	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"

	. "verif.local/harness/vlib"
)

type op struct {
	Op, F      string
	D, A, M, K int
}
type prog struct {
	Level string `json:"level"`
	Ops   []op   `json:"ops"`
}

func runs(v []params.Torus) [][]int {
	out := [][]int{}
	for i := 0; i < len(v); {
		j := i
		for j < len(v) && v[j] == v[i] {
			j++
		}
		out = append(out, []int{i, j - i, int(v[i] >> 16), int(v[i] & 0xffff)})
		i = j
	}
	return out
}

func main() {
	t := NewTracer(os.Args[1])
	defer t.Close()
	rng := Rng(601)
	var in Intern
	Lines(os.Args[2], func(line []byte) {
		var p prog
		Must(json.Unmarshal(line, &p))
		SetLevel(p.Level)
		N, nbit := params.GetTRGSWLv1().N, params.GetTRGSWLv1().NBIT
		tabs := make([]*lut.LookUpTable, 4)
		var g *lut.Generator
		gm := 0
		t.Emit(R{"ev": "reset", "level": p.Level})
		emit := func(rec R, table bool) {
			if table {
				T := tabs[rec["d"].(int)]
				nz := 0
				for _, a := range T.Poly.A {
					if a != 0 {
						nz++
					}
				}
				rec["runs"], rec["anz"] = runs(T.Poly.B), nz
			}
			fps := make([]int, 3)
			for i := 1; i <= 3; i++ {
				if tabs[i] != nil {
					fps[i-1] = in.ID(Hash32(tabs[i].Poly.A, tabs[i].Poly.B))
				}
			}
			rec["fps"] = fps
			if g != nil {
				rec["gm"], rec["gs"] = g.Encoder.MessageModulus, Limbs(F(g.Encoder.Scale))
			}
			t.Emit(rec)
		}
		t.Guard(string(line), func() {
			for _, o := range p.Ops {
				rec := R{"ev": o.Op, "op": o.Op, "d": o.D, "a": o.A, "m": o.M, "k": o.K, "N": N, "nbit": nbit}
				mm := gm
				if o.M > 0 && o.Op != "new" {
					mm = o.M
				}
				ys := make([]int, mm)
				for x := range ys {
					switch o.F {
					case "id":
						ys[x] = x
					case "const":
						ys[x] = mm - 1
					case "rev":
						ys[x] = mm - 1 - x
					case "neg":
						ys[x] = -1 - rng.Intn(3*mm+5)
					case "big":
						ys[x] = mm + rng.Intn(1000000)
					default:
						ys[x] = rng.Intn(mm)
					}
				}
				raws := make([]params.Torus, mm)
				rl := make([]int, 0, 2*mm)
				for x := range raws {
					raws[x] = params.Torus(rng.Uint32())
					if o.F == "const" {
						raws[x] = 1 << 29
					}
					if o.F == "neg" && x%2 == 0 {
						raws[x] = ^params.Torus(0)
					}
					rl = append(rl, int(raws[x]>>16), int(raws[x]&0xffff))
				}
				far := 0
				if mm > 0 {
					far = Far(rng, mm)
				}
				// outputs count modulo mm, whatever their size
				f := func(x int) int { return ys[x] + far }
				fr := func(x int) params.Torus { return raws[x] }
				table := false
				switch o.Op {
				case "new":
					gm = o.M
					if o.K == 2 {
						g = lut.NewGenerator(o.M)
					} else {
						g = lut.NewGeneratorWithScale(o.M, 1/float64(o.M*o.K))
					}
				case "gen", "genassign", "full", "fullassign":
					rec["ev"], table = "gen", true
					rec["raw"], rec["ys"] = false, ys
					switch o.Op {
					case "gen":
						tabs[o.D] = g.GenLookUpTable(f)
					case "genassign":
						if rng.Intn(2) == 0 {
							for i := range tabs[o.D].Poly.A {
								tabs[o.D].Poly.A[i], tabs[o.D].Poly.B[i] = params.Torus(rng.Uint32()), params.Torus(rng.Uint32())
							}
						}
						g.GenLookUpTableAssign(f, tabs[o.D])
					case "full":
						rec["raw"], rec["ys"] = true, rl
						tabs[o.D] = g.GenLookUpTableFull(fr)
					case "fullassign":
						rec["raw"], rec["ys"] = true, rl
						if rng.Intn(2) == 0 {
							for i := range tabs[o.D].Poly.A {
								tabs[o.D].Poly.A[i], tabs[o.D].Poly.B[i] = params.Torus(rng.Uint32()), params.Torus(rng.Uint32())
							}
						}
						g.GenLookUpTableFullAssign(fr, tabs[o.D])
					}
				case "custom":
					table = true
					rec["raw"], rec["ys"] = false, ys
					tabs[o.D] = g.GenLookUpTableCustom(f, o.M, 1/float64(o.M*o.K))
				case "panic":
					// the function gives up half way; the caller recovers
					func() {
						defer func() { recover() }()
						g.GenLookUpTableCustom(func(x int) int {
							if x >= mm/2 {
								panic("no such message")
							}
							return ys[x]
						}, o.M, 1/float64(o.M*o.K))
					}()
				case "nested":
					// the function looks its values up in a table of the generator
					iy := make([]int, gm)
					for x := range iy {
						iy[x] = rng.Intn(2 * gm)
					}
					var inner *lut.LookUpTable
					outer := g.GenLookUpTableCustom(func(x int) int {
						if x == mm-1 {
							inner = g.GenLookUpTable(func(x int) int { return iy[x] })
						}
						return ys[x]
					}, o.M, 1/float64(o.M*o.K))
					tabs[o.A] = inner
					emit(R{"ev": "gen", "op": "inner", "d": o.A, "a": 0, "m": gm, "k": o.K, "N": N, "nbit": nbit, "raw": false, "ys": iy}, true)
					table = true
					rec["ev"], rec["raw"], rec["ys"] = "custom", false, ys
					tabs[o.D] = outer
				case "copy":
					tabs[o.D] = tabs[o.A].Copy()
				case "copyfrom":
					rec["ev"] = "copy"
					tabs[o.D].CopyFrom(tabs[o.A])
				case "clear":
					table = true
					if rng.Intn(2) == 0 {
						tabs[o.D].Poly.A[rng.Intn(N)] = 77
						tabs[o.D].Poly.A[N-1] = 78
						tabs[o.D].Poly.B[N-1] = 79
					}
					tabs[o.D].Clear()
				case "mods":
					xs, rs := []int{}, []int{}
					step := params.Torus(1) << uint(32-nbit)
					add := func(x params.Torus) {
						xs = append(xs, int(x>>16), int(x&0xffff))
						rs = append(rs, g.ModSwitch(x))
					}
					for _, i := range []int{0, 1, 2, N/2 - 1, N / 2, N - 2, N - 1, rng.Intn(N), rng.Intn(N)} {
						b := params.Torus(i) * step
						for _, d := range []params.Torus{0, 1, step/2 - 1, step / 2, step/2 + 1, step - 1} {
							add(b + d)
						}
					}
					for i := 0; i < 20; i++ {
						add(params.Torus(rng.Uint32()))
					}
					rec["xs"], rec["rs"] = xs, rs
				}
				emit(rec, table)
			}
		})
	})
}
