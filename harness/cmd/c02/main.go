// c02 replays batch histories. usage: c02 TRACE PROGRAMS
package main

import (
	"encoding/json"
	"os"
	"runtime"
	"sync"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	. "verif.local/harness/vlib"
)

type batch struct {
	G  string   `json:"g"`
	Ps [][2]int `json:"ps"`
}
type op struct {
	Op      string
	D, H, J int
	B       bool
	Sh      int
	Bs      []batch
}
type prog struct {
	Level string `json:"level"`
	Ops   []op   `json:"ops"`
}

const nreg = 4

var batched = map[string]func([][2]*gates.Ciphertext, *cloudkey.CloudKey) []*gates.Ciphertext{
	"AND": gates.BatchAND, "OR": gates.BatchOR, "NAND": gates.BatchNAND, "NOR": gates.BatchNOR, "XOR": gates.BatchXOR, "XNOR": gates.BatchXNOR,
}

// linear part of a gate, computed here
func lin(g string, a, b *gates.Ciphertext) *gates.Ciphertext {
	x, y, c := params.Torus(1), params.Torus(1), F(0.125)
	switch g {
	case "AND":
		c = -c
	case "NAND":
		x, y = ^params.Torus(0), ^params.Torus(0)
	case "NOR":
		x, y, c = ^params.Torus(0), ^params.Torus(0), -c
	case "XOR":
		y, c = 2, F(0.25)
	case "XNOR":
		y, c = ^params.Torus(1), F(0.25)
	}
	r := tlwe.NewTLWELv0()
	for i := range r.P {
		r.P[i] = a.P[i]*x + b.P[i]*y
	}
	r.P[len(r.P)-1] += c
	return r
}

func main() {
	t := NewTracer(os.Args[1])
	defer t.Close()
	rng := Rng(201)
	sks := map[string]*key.SecretKey{}
	cks := map[string]*cloudkey.CloudKey{}
	Lines(os.Args[2], func(line []byte) {
		var p prog
		Must(json.Unmarshal(line, &p))
		SetLevel(p.Level)
		if sks[p.Level] == nil {
			sks[p.Level] = key.NewSecretKey()
			cks[p.Level] = cloudkey.NewCloudKey(sks[p.Level])
		}
		sk, ck := sks[p.Level], cks[p.Level]
		t.Emit(R{"ev": "reset", "level": p.Level})
		reg := make([]*gates.Ciphertext, nreg+1)
		own := make([]bool, nreg+1) // not a result somebody holds
		var held [][]*gates.Ciphertext
		var rots [][]*trlwe.TRLWELv1
		var in Intern
		t.Guard(string(line), func() {
			for oi, o := range p.Ops {
				rec := R{"ev": o.Op, "d": o.D}
				switch o.Op {
				case "enc":
					mu := F(0.125)
					if !o.B {
						mu = -mu
					}
					c := tlwe.NewTLWELv0()
					switch {
					case o.Sh == ShapeFresh:
						c.EncryptBool(o.B, params.GetTLWELv0().ALPHA, sk.KeyLv0)
					case o.Sh == 11 || o.Sh == 12:
						s := params.Torus(o.Sh*2 - 23) // -1, +1
						copy(c.P, Craft(rng, ShapeFresh, mu+s*F(1.0/64), sk.KeyLv0, params.GetTRGSWLv1().N))
					default:
						copy(c.P, Craft(rng, o.Sh, mu, sk.KeyLv0, params.GetTRGSWLv1().N))
					}
					if own[o.D] {
						c = Renew(rng, reg[o.D], c)
					}
					reg[o.D], own[o.D] = c, true
					rec["b"], rec["dec"] = o.B, c.DecryptBool(sk.KeyLv0)
				case "use":
					reg[o.D], own[o.D] = held[o.H-1][o.J-1], false
					rec["h"], rec["j"], rec["dec"] = o.H, o.J, reg[o.D].DecryptBool(sk.KeyLv0)
				case "batch":
					out := make([][]*gates.Ciphertext, len(o.Bs))
					ins := make([][][2]*gates.Ciphertext, len(o.Bs))
					for i, b := range o.Bs {
						ins[i] = make([][2]*gates.Ciphertext, len(b.Ps))
						for j, pr := range b.Ps {
							ins[i][j] = [2]*gates.Ciphertext{reg[pr[0]], reg[pr[1]]}
						}
					}
					if len(o.Bs) == 1 {
						out[0] = batched[o.Bs[0].G](ins[0], ck)
					} else {
						var wg sync.WaitGroup
						start := make(chan struct{})
						for i := range o.Bs {
							wg.Add(1)
							go func(i int) {
								defer wg.Done()
								<-start
								t.Guard(string(line), func() { out[i] = batched[o.Bs[i].G](ins[i], ck) })
							}(i)
						}
						close(start)
						wg.Wait()
					}
					recs := []R{}
					for i, b := range o.Bs {
						phs, decs := []int{}, []bool{}
						for _, c := range out[i] {
							phs, decs = append(phs, T16(Phase0(c, sk.KeyLv0))), append(decs, c.DecryptBool(sk.KeyLv0))
						}
						if b.Ps == nil {
							b.Ps = [][2]int{}
						}
						recs = append(recs, R{"g": b.G, "ps": b.Ps, "phs": phs, "decs": decs})
						held = append(held, out[i])
					}
					rec["bs"] = recs
				case "rot":
					b := o.Bs[0]
					srcs := make([]*tlwe.TLWELv0, len(b.Ps))
					for j, pr := range b.Ps {
						srcs[j] = lin(b.G, reg[pr[0]], reg[pr[1]])
					}
					out := trgsw.BatchBlindRotate(srcs, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset)
					phs, decs := []int{}, []bool{}
					for _, c := range out {
						ph := RPhase(c, sk.KeyLv1)[0]
						phs, decs = append(phs, T16(ph)), append(decs, int32(ph) >= 0)
					}
					if b.Ps == nil {
						b.Ps = [][2]int{}
					}
					rec["bs"] = []R{{"g": b.G, "ps": b.Ps, "phs": phs, "decs": decs}}
					rots = append(rots, out)
				}
				hf, rf, wf := []int{}, []int{}, make([]int, nreg)
				for _, h := range held {
					vs := [][]params.Torus{}
					for _, c := range h {
						vs = append(vs, c.P)
					}
					hf = append(hf, in.ID(Hash32(vs...)))
				}
				for _, h := range rots {
					vs := [][]params.Torus{}
					for _, c := range h {
						vs = append(vs, c.A, c.B)
					}
					rf = append(rf, in.ID(Hash32(vs...)))
				}
				for r := 1; r <= nreg; r++ {
					if reg[r] != nil {
						wf[r-1] = in.ID(Hash32(reg[r].P))
					}
				}
				rec["hf"], rec["rf"], rec["wf"] = hf, rf, wf
				t.Emit(rec)
				if oi%5 == 4 {
					runtime.GC()
				}
			}
		})
	})
}
