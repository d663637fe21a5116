// c08 replays programs of linear ciphertext operations.
// usage: c08 TRACE PROGRAMS
package main

import (
	"encoding/json"
	"math/rand"
	"os"

	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	. "verif.local/harness/vlib"
)

type op struct {
	Op      string `json:"op"`
	D, A, B int
	Kind, M int
}
type prog struct {
	Level string `json:"level"`
	Ops   []op   `json:"ops"`
}

const nreg = 3

func load(rng *rand.Rand, kind int) *tlwe.TLWELv0 {
	c := tlwe.NewTLWELv0()
	for i := range c.P {
		switch kind {
		case 0:
			c.P[i] = params.Torus(rng.Uint32())
		case 1:
			c.P[i] = 0
		case 2:
			c.P[i] = ^params.Torus(0)
		case 3:
			c.P[i] = 1 << uint(i%32)
		case 4:
			c.P[i] = []params.Torus{1 << 31, 1<<31 - 1, 0xffff, 0x10000, 0xffff0000, 1, 0x7fff8000}[i%7]
		default:
			c.P[i] = params.Torus(rng.Intn(3))
		}
	}
	return c
}

func mult(rng *rand.Rand, m int) params.Torus {
	switch m {
	case 0, 1, 2, 3:
		return params.Torus(m)
	case 4:
		return 1 << 31
	case 5:
		return ^params.Torus(0)
	case 6:
		return 0x10000
	case 7:
		return 0xffff
	}
	return params.Torus(rng.Uint32())
}

func flat(c *tlwe.TLWELv0) []int {
	out := make([]int, 0, 2*len(c.P))
	for _, x := range c.P {
		out = append(out, int(x>>16), int(x&0xffff))
	}
	return out
}

func main() {
	t := NewTracer(os.Args[1])
	defer t.Close()
	rng := Rng(801)
	var in Intern
	Lines(os.Args[2], func(line []byte) {
		var p prog
		Must(json.Unmarshal(line, &p))
		SetLevel(p.Level)
		n := params.GetTLWELv0().N
		key := make([]params.Torus, n)
		for i := range key {
			key[i] = params.Torus(rng.Intn(2))
		}
		ev := evaluator.NewEvaluator(params.GetTRGSWLv1().N)
		reg := make([]*tlwe.TLWELv0, nreg+1)
		t.Emit(R{"ev": "reset", "level": p.Level})
		t.Guard(string(line), func() {
			for _, o := range p.Ops {
				rec := R{"ev": "op", "op": o.Op, "d": o.D, "a": o.A, "b": o.B, "n": n}
				if o.Op == "neg" {
					rec["b"] = o.A
				}
				a, b := reg[o.A], reg[o.B]
				var c *tlwe.TLWELv0
				switch o.Op {
				case "load":
					c = load(rng, o.Kind)
				case "add":
					c = a.Add(b)
				case "addassign":
					c = reg[o.D]
					a.AddAssign(b, c)
				case "sub":
					c = a.Sub(b)
				case "mul":
					c = a.Mul(b)
				case "neg":
					c = a.Neg()
				case "addmul", "submul":
					k := mult(rng, o.M)
					rec["k"] = Limbs(k)
					if o.Op == "addmul" {
						c = a.AddMul(b, k)
					} else {
						c = a.SubMul(b, k)
					}
				case "pnand":
					c = ev.PrepareNAND(a, b)
				case "pand":
					c = ev.PrepareAND(a, b)
				case "por":
					c = ev.PrepareOR(a, b)
				case "pxor":
					c = ev.PrepareXOR(a, b)
				}
				reg[o.D] = c
				fps := make([]int, nreg)
				for r := 1; r <= nreg; r++ {
					if reg[r] != nil {
						fps[r-1] = in.ID(Hash32(reg[r].P))
					}
				}
				rec["v"], rec["fps"] = flat(c), fps
				rec["ph"] = []int{0, 0}
				if len(c.P) == n+1 {
					rec["ph"] = Limbs(Phase0(c, key))
				}
				t.Emit(rec)
			}
		})
	})
}
