// c05 replays histories of programmable bootstraps.
// usage: c05 TRACE PROGRAMS
package main

import (
	"encoding/json"
	"math/rand"
	"os"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	. "verif.local/harness/vlib"
)

type op struct {
	Op, F         string
	D, S, T, M, X int
	Sh            int
	Ys            []int
}
type prog struct {
	Level string `json:"level"`
	Ops   []op   `json:"ops"`
}

const nreg = 3

func outputs(rng *rand.Rand, f string, m, mo int) []int {
	ys := make([]int, m)
	for x := range ys {
		switch f {
		case "id":
			ys[x] = x
		case "const":
			ys[x] = mo - 1
		case "rev":
			ys[x] = mo - 1 - x
		case "inc":
			ys[x] = x + 1
		case "step":
			if x >= m/2 {
				ys[x] = mo / 2
			}
		case "neg":
			ys[x] = -1 - rng.Intn(3*mo+5)
		case "big":
			ys[x] = mo + rng.Intn(1000000)
		default:
			ys[x] = rng.Intn(mo)
		}
	}
	return ys
}

func main() {
	t := NewTracer(os.Args[1])
	defer t.Close()
	rng := Rng(501)
	sks := map[string]*key.SecretKey{}
	cks := map[string]*cloudkey.CloudKey{}
	evs := map[string]*evaluator.Evaluator{}
	Lines(os.Args[2], func(line []byte) {
		var p prog
		Must(json.Unmarshal(line, &p))
		SetLevel(p.Level)
		if sks[p.Level] == nil {
			sks[p.Level] = key.NewSecretKey()
			cks[p.Level] = cloudkey.NewCloudKey(sks[p.Level])
			evs[p.Level] = evaluator.NewEvaluator(params.GetTRGSWLv1().N)
		}
		sk, ck, ev := sks[p.Level], cks[p.Level], evs[p.Level]
		bsk, ksk, off := ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset
		t.Emit(R{"ev": "reset", "level": p.Level})
		reg := make([]*tlwe.TLWELv0, nreg+1)
		md := make([]int, nreg+1)
		tab := make([]*lut.LookUpTable, 3)
		// one function value whose contents change
		var fn []int
		far := 0
		f := func(x int) int { return fn[x] + far }
		tm := make([]int, 3)
		t.Guard(string(line), func() {
			for _, o := range p.Ops {
				rec := R{"d": o.D, "s": o.S, "t": o.T, "op": o.Op}
				var c *tlwe.TLWELv0
				m := 0
				if o.S > 0 {
					m = md[o.S]
				}
				switch o.Op {
				case "enc":
					m = o.M
					if o.Sh == ShapeFresh {
						c = tlwe.NewTLWELv0().EncryptLWEMessage(o.X, o.M, params.GetTLWELv0().ALPHA, sk.KeyLv0)
					} else {
						ph := F(float64(o.X) / float64(2*o.M))
						sh := o.Sh
						// noisy but valid inputs: an eighth of the message distance
						if sh == 11 {
							ph, sh = ph+F(1/float64(16*o.M)), ShapeFresh
						} else if sh == 12 {
							ph, sh = ph-F(1/float64(16*o.M)), ShapeFresh
						}
						c = tlwe.NewTLWELv0()
						copy(c.P, Craft(rng, sh, ph, sk.KeyLv0, params.GetTRGSWLv1().N))
					}
					c = Renew(rng, reg[o.D], c)
					rec["ev"], rec["m"], rec["x"] = "enc", o.M, o.X
				case "mk", "mkys":
					ys := o.Ys
					if o.Op == "mk" {
						ys = outputs(rng, o.F, o.M, o.M)
					}
					far := Far(rng, o.M)
					if g := lut.NewGenerator(o.M); tab[o.T] != nil && rng.Intn(2) == 0 {
						g.GenLookUpTableAssign(func(x int) int { return ys[x] + far }, tab[o.T])
					} else {
						tab[o.T] = g.GenLookUpTable(func(x int) int { return ys[x] + far })
					}
					tm[o.T] = o.M
					t.Emit(R{"ev": "mk", "t": o.T, "m": o.M, "ys": ys})
					continue
				case "func", "funcassign", "full":
					mo := m
					if o.Op == "full" {
						mo = o.M
					}
					ys := outputs(rng, o.F, m, mo)
					if o.F == "near" {
						// the function before, but for one message
						copy(ys, fn)
						ys[rng.Intn(m)] += 1 + rng.Intn(mo)
					}
					fn, far = ys, Far(rng, mo)
					rec["ev"], rec["ys"] = "func", ys
					switch o.Op {
					case "func":
						c = ev.BootstrapFunc(reg[o.S], f, m, bsk, ksk, off)
					case "funcassign":
						c = reg[o.D]
						if c == nil {
							c = tlwe.NewTLWELv0()
						}
						ev.BootstrapFuncAssign(reg[o.S], f, m, bsk, ksk, off, c)
					default:
						rec["ev"], rec["m"] = "full", mo
						enc := lut.NewEncoder(mo)
						c = ev.BootstrapLUT(reg[o.S], lut.NewGenerator(m).GenLookUpTableFull(func(x int) params.Torus { return enc.Encode(ys[x] + far) }), bsk, ksk, off)
						m = mo
					}
				case "lut":
					rec["ev"] = "lut"
					c = ev.BootstrapLUT(reg[o.S], tab[o.T], bsk, ksk, off)
				case "luttemp":
					rec["ev"] = "lut"
					tmp := ev.BootstrapLUTTemp(reg[o.S], tab[o.T], bsk, ksk, off)
					c = tlwe.NewTLWELv0()
					copy(c.P, tmp.P)
				case "lutassign":
					rec["ev"] = "lut"
					c = reg[o.D]
					if c == nil {
						c = tlwe.NewTLWELv0()
					}
					ev.BootstrapLUTAssign(reg[o.S], tab[o.T], bsk, ksk, off, c)
				}
				reg[o.D], md[o.D] = c, m
				phs := make([]int, nreg)
				for r := 1; r <= nreg; r++ {
					if reg[r] != nil {
						phs[r-1] = T16(Phase0(reg[r], sk.KeyLv0))
					}
				}
				rec["phs"], rec["dec"] = phs, c.DecryptLWEMessage(m, sk.KeyLv0)
				t.Emit(rec)
			}
		})
	})
}
