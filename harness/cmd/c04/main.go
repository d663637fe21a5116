// c04 replays evaluator ring and scratch pool histories.
// usage: c04 TRACE PROGRAMS
package main

import (
	"encoding/json"
	"math/rand"
	"os"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	. "verif.local/harness/vlib"
)

type op struct {
	Op, F, P             string
	D, S, E, X, Sh, K, I int
	O                    int
}
type prog struct {
	Level string `json:"level"`
	M     int    `json:"m"`
	Pool  bool   `json:"pool"`
	Ops   []op   `json:"ops"`
}

const nreg = 4

var (
	sks = map[string]*key.SecretKey{}
	cks = map[string]*cloudkey.CloudKey{}
	rng *rand.Rand
	t   *Tracer
)

func ring(p prog, line []byte) {
	sk, ck := sks[p.Level], cks[p.Level]
	bsk, ksk, off := ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset
	N := params.GetTRGSWLv1().N
	t.Emit(R{"ev": "reset", "level": p.Level, "m": p.M})
	e1 := evaluator.NewEvaluator(N)
	evs := []*evaluator.Evaluator{nil, e1, evaluator.NewEvaluator(N), e1.ShallowCopy()}
	reg := make([]*tlwe.TLWELv0, nreg+1)
	var hs []*tlwe.TLWELv0
	var in Intern
	obj := func(r int) *tlwe.TLWELv0 {
		if r > 10 {
			return hs[r-11]
		}
		return reg[r]
	}
	t.Guard(string(line), func() {
		for _, o := range p.Ops {
			rec := R{"d": o.D, "s": o.S, "e": o.E, "op": o.Op, "ys": []int{}}
			ys := make([]int, p.M)
			for x := range ys {
				switch o.F {
				case "id":
					ys[x] = x
				case "inc":
					ys[x] = x + 1
				case "rev":
					ys[x] = p.M - 1 - x
				case "neg":
					ys[x] = -x
				default:
					ys[x] = rng.Intn(p.M)
				}
			}
			f := func(x int) int { return ys[x] }
			var c *tlwe.TLWELv0
			var tab *lut.LookUpTable
			if o.S > 0 {
				rec["ys"] = ys
				tab = lut.NewGenerator(p.M).GenLookUpTable(f)
			}
			switch o.Op {
			case "enc":
				c = tlwe.NewTLWELv0()
				if o.Sh == ShapeFresh {
					c.EncryptLWEMessage(o.X, p.M, params.GetTLWELv0().ALPHA, sk.KeyLv0)
				} else {
					copy(c.P, Craft(rng, o.Sh, F(float64(o.X)/float64(2*p.M)), sk.KeyLv0, N))
				}
				c = Renew(rng, reg[o.D], c)
				reg[o.D] = c
				rec["ev"], rec["x"] = "enc", o.X
			case "junk":
				c = tlwe.NewTLWELv0()
				for i := range c.P {
					c.P[i] = params.Torus(rng.Uint32())
					if rng.Intn(4) == 0 {
						c.P[i] = ^params.Torus(0)
					}
				}
				reg[o.D] = c
				rec["ev"] = "junk"
			case "boot":
				c = evs[o.E].Bootstrap(obj(o.S), tab.Poly, bsk, ksk, off)
				hs = append(hs, c)
				rec["ev"] = "ring"
			case "luttemp":
				c = evs[o.E].BootstrapLUTTemp(obj(o.S), tab, bsk, ksk, off)
				hs = append(hs, c)
				rec["ev"] = "ring"
			case "lut":
				c = evs[o.E].BootstrapLUT(obj(o.S), tab, bsk, ksk, off)
				reg[o.D] = c
				rec["ev"] = "copy"
			case "func":
				c = evs[o.E].BootstrapFunc(obj(o.S), f, p.M, bsk, ksk, off)
				reg[o.D] = c
				rec["ev"] = "copy"
			case "bootassign", "lutassign", "funcassign":
				if o.D <= 10 && reg[o.D] == nil {
					reg[o.D] = tlwe.NewTLWELv0()
				}
				c = obj(o.D)
				switch o.Op {
				case "bootassign":
					evs[o.E].BootstrapAssign(obj(o.S), tab.Poly, bsk, ksk, off, c)
				case "lutassign":
					evs[o.E].BootstrapLUTAssign(obj(o.S), tab, bsk, ksk, off, c)
				default:
					evs[o.E].BootstrapFuncAssign(obj(o.S), f, p.M, bsk, ksk, off, c)
				}
				rec["ev"] = "assign"
			case "resetbuf":
				evs[o.E].ResetBuffers()
				rec["ev"] = "resetbuf"
			}
			if c != nil {
				rec["ph"], rec["dec"] = T16(Phase0(c, sk.KeyLv0)), c.DecryptLWEMessage(p.M, sk.KeyLv0)
			}
			rf, hf := make([]int, nreg), make([]int, len(hs))
			for r := 1; r <= nreg; r++ {
				if reg[r] != nil {
					rf[r-1] = in.ID(Hash32(reg[r].P))
				}
			}
			for i, h := range hs {
				hf[i] = in.ID(Hash32(h.P))
			}
			rec["rf"], rec["hf"] = rf, hf
			t.Emit(rec)
		}
	})
}

func pools(p prog, line []byte) {
	sk, ck := sks[p.Level], cks[p.Level]
	N := params.GetTRGSWLv1().N
	t.Emit(R{"ev": "reset", "level": p.Level})
	p1 := poly.NewEvaluator(N)
	pes := []*poly.Evaluator{nil, p1, p1.ShallowCopy()}
	bms := []*poly.BufferManager{nil, poly.NewBufferManager(N), evaluator.NewEvaluator(N).Buffers.PolyBuffers}
	var hs [][][]params.Torus
	var in Intern
	fill := func(vs ...[]params.Torus) {
		for _, v := range vs {
			for i := range v {
				v[i] = params.Torus(rng.Uint32())
			}
		}
	}
	ct := func() *trlwe.TRLWELv1 {
		c := trlwe.NewTRLWELv1()
		fill(c.A, c.B)
		return c
	}
	t.Guard(string(line), func() {
		for _, o := range p.Ops {
			rec := R{"ev": o.Op, "p": o.P, "o": o.O, "i": o.I, "n": N, "len": N}
			switch o.Op {
			case "get":
				var h [][]params.Torus
				switch o.P {
				case "rot":
					h = [][]params.Torus{pes[o.O].GetRotationBuffer()}
				case "trl":
					a, b := pes[o.O].GetTRLWEBuffer()
					h = [][]params.Torus{a, b}
				case "brot":
					h = [][]params.Torus{bms[o.O].GetRotationBuffer().Coeffs}
				case "btrl":
					a, b := bms[o.O].GetTRLWEBuffer()
					h = [][]params.Torus{a, b}
				}
				for _, v := range h {
					if len(v) != N {
						rec["len"] = len(v)
					}
				}
				fill(h...)
				hs = append(hs, h)
			case "rotk":
				src := make([]params.Torus, N)
				fill(src)
				if o.I > 0 {
					src = hs[o.I-1][0]
				}
				cp := append([]params.Torus(nil), src...)
				out := pes[o.O].PolyMulWithXK(src, o.K)
				rec["len"] = len(out)
				worst := uint32(0)
				k := ((o.K % (2 * N)) + 2*N) % (2 * N)
				for i, v := range cp {
					j := (i + k) % (2 * N)
					if j >= N {
						j, v = j-N, -v
					}
					if d := Abs32(out[j], v); d > worst {
						worst = d
					}
				}
				if worst > 1000 {
					worst = 1000
				}
				rec["worst"] = int(worst)
				hs = append(hs, [][]params.Torus{out})
			case "clear":
				h := hs[o.I-1]
				pes[1].ClearTRLWEBuffer(h[0], h[1])
				zero := true
				for _, v := range h {
					for _, x := range v {
						zero = zero && x == 0
					}
				}
				rec["zero"] = zero
			case "extprod":
				r := trgsw.ExternalProductWithFFT(ck.BootstrappingKey[0], ct(), ck.DecompositionOffset, pes[o.O])
				hs = append(hs, [][]params.Torus{r.A, r.B})
			case "cmux":
				r := trgsw.CMUX(ct(), ct(), ck.BootstrappingKey[1], ck.DecompositionOffset, pes[o.O])
				hs = append(hs, [][]params.Torus{r.A, r.B})
			case "blindrot":
				c := tlwe.NewTLWELv0().EncryptBool(true, params.GetTLWELv0().ALPHA, sk.KeyLv0)
				r := trgsw.BlindRotate(c, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, pes[o.O])
				hs = append(hs, [][]params.Torus{r.A, r.B})
			case "rst":
				switch o.P {
				case "rot":
					pes[o.O].ResetRotationPool()
				case "trl":
					pes[o.O].ResetTRLWEPool()
				default:
					bms[o.O].Reset()
				}
			}
			fp := make([]int, len(hs))
			for i, h := range hs {
				fp[i] = in.ID(Hash32(h...))
			}
			rec["fp"] = fp
			t.Emit(rec)
		}
	})
}

func main() {
	t = NewTracer(os.Args[1])
	defer t.Close()
	rng = Rng(401)
	Lines(os.Args[2], func(line []byte) {
		var p prog
		Must(json.Unmarshal(line, &p))
		SetLevel(p.Level)
		if sks[p.Level] == nil {
			sks[p.Level] = key.NewSecretKey()
			cks[p.Level] = cloudkey.NewCloudKey(sks[p.Level])
		}
		if p.Pool {
			pools(p, line)
		} else {
			ring(p, line)
		}
	})
}
