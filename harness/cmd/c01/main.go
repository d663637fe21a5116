// c01 replays circuits generated by the specification through the gate API.
// usage: c01 TRACE PROGRAMS
package main

import (
	"encoding/json"
	"math/rand"
	"os"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	. "verif.local/harness/vlib"
)

type op struct {
	Op string `json:"op"`
	D  int    `json:"d"`
	B  bool   `json:"b"`
	Sh int    `json:"sh"`
	S  []int  `json:"s"`
}
type prog struct {
	Level string `json:"level"`
	// run every operation under a second pair of keys as well, right after
	Twin bool `json:"twin"`
	// put another pair's evaluation key into the same cloud key object
	Swap bool `json:"swap"`
	Ops  []op `json:"ops"`
}

const nreg = 5

var gate2 = map[string]func(a, b *gates.Ciphertext, ck *cloudkey.CloudKey) *gates.Ciphertext{
	"AND": gates.AND, "OR": gates.OR, "NAND": gates.NAND, "NOR": gates.NOR, "XOR": gates.XOR, "XNOR": gates.XNOR,
	"ANDNY": gates.ANDNY, "ANDYN": gates.ANDYN, "ORNY": gates.ORNY, "ORYN": gates.ORYN,
}

func encrypt(rng *rand.Rand, sk *key.SecretKey, b bool, sh int) *gates.Ciphertext {
	if sh == ShapeFresh {
		return tlwe.NewTLWELv0().EncryptBool(b, params.GetTLWELv0().ALPHA, sk.KeyLv0)
	}
	mu := F(0.125)
	if !b {
		mu = -mu
	}
	noise := params.Torus(int32(rng.NormFloat64() * params.GetTLWELv0().ALPHA * 4294967296))
	shape := sh
	if sh == 11 {
		noise, shape = F(1.0/64), ShapeFresh
	}
	if sh == 12 {
		noise, shape = -F(1.0/64), ShapeFresh
	}
	c := tlwe.NewTLWELv0()
	copy(c.P, Craft(rng, shape, mu+noise, sk.KeyLv0, params.GetTRGSWLv1().N))
	return c
}

func trivial(c *gates.Ciphertext) bool {
	for _, v := range c.P[:params.GetTLWELv0().N] {
		if v != 0 {
			return false
		}
	}
	return true
}

func main() {
	t := NewTracer(os.Args[1])
	defer t.Close()
	rng := Rng(101)
	sks := map[string]*key.SecretKey{}
	cks := map[string]*cloudkey.CloudKey{}
	Lines(os.Args[2], func(line []byte) {
		var p prog
		Must(json.Unmarshal(line, &p))
		SetLevel(p.Level)
		if sks[p.Level] == nil {
			sks[p.Level] = key.NewSecretKey()
			cks[p.Level] = cloudkey.NewCloudKey(sks[p.Level])
		}
		sk, ck := sks[p.Level], cks[p.Level]
		if p.Swap {
			other := p.Level + "''"
			if sks[other] == nil {
				sks[other] = key.NewSecretKey()
				cks[other] = cloudkey.NewCloudKey(sks[other])
			}
			*ck, *cks[other] = *cks[other], *ck
			*sk, *sks[other] = *sks[other], *sk
		}
		var sk2 *key.SecretKey
		var ck2 *cloudkey.CloudKey
		if p.Twin {
			other := p.Level + "'"
			if sks[other] == nil {
				sks[other] = key.NewSecretKey()
				cks[other] = cloudkey.NewCloudKey(sks[other])
			}
			sk2, ck2 = sks[other], cks[other]
		}
		reg2 := make([]*gates.Ciphertext, nreg+1)
		t.Emit(R{"ev": "reset", "level": p.Level})
		reg := make([]*gates.Ciphertext, nreg+1)
		check := func() {
			phs, decs := make([]int, nreg), make([]bool, nreg)
			for r := 1; r <= nreg; r++ {
				if reg[r] != nil {
					phs[r-1], decs[r-1] = T16(Phase0(reg[r], sk.KeyLv0)), reg[r].DecryptBool(sk.KeyLv0)
				}
			}
			rec := R{"ev": "check", "phs": phs, "decs": decs}
			if p.Twin {
				decs2 := make([]bool, nreg)
				for r := 1; r <= nreg; r++ {
					if reg2[r] != nil {
						decs2[r-1] = reg2[r].DecryptBool(sk2.KeyLv0)
					}
				}
				rec["decs2"] = decs2
			}
			t.Emit(rec)
		}
		ok := t.Guard(string(line), func() {
			for i, o := range p.Ops {
				var c, c2 *gates.Ciphertext
				if o.S == nil {
					o.S = []int{}
				}
				rec := R{"d": o.D, "s": o.S, "op": o.Op}
				switch o.Op {
				case "enc":
					c = Renew(rng, reg[o.D], encrypt(rng, sk, o.B, o.Sh))
					rec["ev"], rec["b"], rec["sh"] = "enc", o.B, o.Sh
					if p.Twin {
						c2 = encrypt(rng, sk2, o.B, o.Sh)
						if trivial(c) { // valid under every key
							copy(c2.P, c.P)
						}
					}
				case "const":
					c = gates.Constant(o.B)
					rec["ev"], rec["b"] = "const", o.B
					if p.Twin {
						c2 = gates.Constant(o.B)
					}
				case "not":
					c = gates.NOT(reg[o.S[0]])
					rec["ev"] = "not"
					if p.Twin {
						c2 = gates.NOT(reg2[o.S[0]])
					}
				case "copy":
					c = gates.Copy(reg[o.S[0]])
					rec["ev"] = "copy"
					if p.Twin {
						c2 = gates.Copy(reg2[o.S[0]])
					}
				case "MUX":
					c = gates.MUX(reg[o.S[0]], reg[o.S[1]], reg[o.S[2]], ck)
					rec["ev"] = "mux"
					if p.Twin {
						c2 = gates.MUX(reg2[o.S[0]], reg2[o.S[1]], reg2[o.S[2]], ck2)
					}
				default:
					c = gate2[o.Op](reg[o.S[0]], reg[o.S[1]], ck)
					rec["ev"] = "gate"
					if p.Twin {
						c2 = gate2[o.Op](reg2[o.S[0]], reg2[o.S[1]], ck2)
					}
				}
				if p.Twin {
					rec["dec2"], rec["ph2"] = c2.DecryptBool(sk2.KeyLv0), T16(Phase0(c2, sk2.KeyLv0))
					reg2[o.D] = c2
				}
				rec["dec"], rec["ph"] = c.DecryptBool(sk.KeyLv0), T16(Phase0(c, sk.KeyLv0))
				reg[o.D] = c
				t.Emit(rec)
				if i%4 == 3 {
					check()
				}
			}
			check()
		})
		_ = ok
	})
}
