// c07 runs message encryption and decryption cases of the specification, and
// boolean, real-valued and ring encryptions, at every parameter level.
// usage: c07 TRACE CASES LEVELS...
package main

import (
	"encoding/json"
	"math"
	"os"

	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trlwe"
	"github.com/thedonutfactory/go-tfhe/utils"

	. "verif.local/harness/vlib"
)

type kase struct {
	T                string `json:"t"`
	M, X, Y, E, A, K int
	Op               string
}

func emod(x, m int) int { return ((x % m) + m) % m }

func s8(alpha float64) int { return int(math.Ceil(8.5 * alpha * 4294967296)) }

func flat(v []params.Torus) []int {
	out := make([]int, 0, 2*len(v))
	for _, x := range v {
		out = append(out, int(x>>16), int(x&0xffff))
	}
	return out
}

func main() {
	t := NewTracer(os.Args[1])
	defer t.Close()
	rng := Rng(701)
	levels := os.Args[3:]
	sks := map[string]*key.SecretKey{}
	for _, lv := range levels {
		SetLevel(lv)
		sks[lv] = key.NewSecretKey()
	}
	dirty0 := func() *tlwe.TLWELv0 {
		c := tlwe.NewTLWELv0()
		for i := range c.P {
			c.P[i] = params.Torus(rng.Uint32())
		}
		return c
	}
	i := 0
	var reuse = map[string]*tlwe.TLWELv0{}
	Lines(os.Args[2], func(line []byte) {
		var c kase
		Must(json.Unmarshal(line, &c))
		lv := levels[i%len(levels)]
		i++
		SetLevel(lv)
		sk := sks[lv]
		enc := params.Torus((uint64(emod(c.X, c.M)) << 31) / uint64(c.M))
		t.Guard(string(line), func() {
			switch c.T {
			case "dec":
				ct := tlwe.NewTLWELv0()
				ph := enc + params.Torus(int32(c.E))
				copy(ct.P, Craft(rng, AnyShape(rng), ph, sk.KeyLv0, params.GetTRGSWLv1().N))
				d := ct.DecryptLWEMessage(c.M, sk.KeyLv0)
				t.Emit(R{"ev": "dec", "m": c.M, "x": c.X, "e": c.E, "ph": Limbs(Phase0(ct, sk.KeyLv0)), "dec": d, "lv": lv})
			case "enc":
				alpha := 0.0
				if c.A == 1 {
					alpha = params.GetTLWELv0().ALPHA
				}
				ct := dirty0()
				if i%3 == 0 && reuse[lv] != nil {
					ct = reuse[lv]
				}
				r := ct.EncryptLWEMessage(c.X+Far(rng, c.M), c.M, alpha, sk.KeyLv0)
				reuse[lv] = ct
				d := r.DecryptLWEMessage(c.M, sk.KeyLv0)
				t.Emit(R{"ev": "enc", "m": c.M, "x": c.X, "s8": s8(alpha), "ph": Limbs(Phase0(r, sk.KeyLv0)), "dec": d, "lv": lv})
			case "code":
				scale := 1 / float64(c.K*c.M)
				e := lut.NewEncoderWithScale(c.M, scale)
				if c.K == 2 {
					e = lut.NewEncoder(c.M)
				}
				v := e.Encode(c.X + Far(rng, c.M))
				v2 := lut.NewEncoder(c.M).EncodeWithCustomScale(c.X+Far(rng, c.M), scale)
				w := params.Torus((uint64(emod(c.X, c.M))<<32)/uint64(c.K*c.M)) + params.Torus(int32(c.E))
				t.Emit(R{"ev": "code", "m": c.M, "k": c.K, "x": c.X, "e": c.E, "v": Limbs(v), "v2": Limbs(v2), "w": Limbs(w), "dec": e.Decode(w), "b": e.DecodeBool(w)})
			case "sum":
				alpha := params.GetTLWELv0().ALPHA
				if i%2 == 0 {
					alpha = 0
				}
				a := tlwe.NewTLWELv0().EncryptLWEMessage(c.X+Far(rng, c.M), c.M, alpha, sk.KeyLv0)
				b := tlwe.NewTLWELv0().EncryptLWEMessage(c.Y+Far(rng, c.M), c.M, alpha, sk.KeyLv0)
				var r *tlwe.TLWELv0
				switch c.Op {
				case "add":
					if i%4 < 2 {
						r = a.Add(b)
					} else {
						a.AddAssign(b, b)
						r = b
					}
				case "sub":
					r = a.Sub(b)
				case "neg":
					r = a.Neg()
				}
				t.Emit(R{"ev": "sum", "op": c.Op, "m": c.M, "x": c.X, "y": c.Y, "s8": 2 * s8(alpha), "dec": r.DecryptLWEMessage(c.M, sk.KeyLv0), "lv": lv})
			}
		})
	})
	for _, lv := range levels {
		SetLevel(lv)
		t.Guard("level "+lv, func() { level(t, lv, sks[lv]) })
	}
}

// reals that are multiples of 2^-32, so that their encoding is exact
func reals(rng interface{ Uint32() uint32 }, n int) ([]float64, []params.Torus) {
	ps, ws := make([]float64, n), make([]params.Torus, n)
	for i := range ps {
		fr := params.Torus(rng.Uint32())
		switch i % 11 {
		case 0:
			fr = 0
		case 1:
			fr = 1 << 31
		case 2:
			fr = ^params.Torus(0)
		case 3:
			fr = 1 << 29
		}
		whole := float64(int(rng.Uint32()%7) - 3)
		if i%13 == 0 {
			whole = float64(int(rng.Uint32()%2000000) - 1000000)
		}
		if i%3 == 0 {
			whole = 0
		}
		if i%17 == 16 { // so large that only the upper bits of the fraction fit
			whole, fr = float64(uint64(1)<<(33+rng.Uint32()%8)), fr>>20<<20
		}
		ps[i], ws[i] = whole+float64(fr)/4294967296, fr
		if i%5 == 4 { // negative representative
			ps[i] = -ps[i]
			ws[i] = -fr
		}
	}
	return ps, ws
}

func level(t *Tracer, lv string, sk *key.SecretKey) {
	rng := Rng(int64(702 + len(lv)*100 + int(lv[len(lv)-1])))
	N := params.GetTRLWELv1().N
	pe := poly.NewEvaluator(N)
	// the conversions between reals and the torus, also as noiseless samples
	{
		ps, ws := reals(rng, 220)
		var one, gt, gf, ts, ys, rt []params.Torus
		whole := true
		for i, p := range ps {
			one = append(one, utils.F64ToTorus(p))
			gt = append(gt, utils.GaussianTorus(ws[i], 0, rng))
			gf = append(gf, utils.GaussianF64(p, 0, rng))
			t := ws[i]
			if i%4 == 3 {
				t = params.Torus(rng.Uint32())
			}
			y := utils.TorusToF64(t)
			whole = whole && y >= 0 && y < 1 && y*4294967296 == math.Floor(y*4294967296)
			ts, ys, rt = append(ts, t), append(ys, params.Torus(uint64(y*4294967296))), append(rt, utils.F64ToTorus(y))
		}
		t.Emit(R{"ev": "conv", "lv": lv, "n": len(ps), "want": flat(ws), "one": flat(one), "vec": flat(utils.F64ToTorusVec(ps)),
			"gt": flat(gt), "gf": flat(gf), "gv": flat(utils.GaussianF64Vec(ps, 0, rng)), "ts": flat(ts), "ys": flat(ys), "rt": flat(rt), "whole": whole})
	}
	// booleans and reals, level 0 and level 1
	for _, kind := range []string{"lv0", "lv1"} {
		k := sk.KeyLv0
		alphas := []float64{0, params.GetTLWELv0().ALPHA}
		if kind == "lv1" {
			k = sk.KeyLv1
			alphas = []float64{0, params.GetTLWELv1().ALPHA, 1e-4}
		}
		c0, c1 := tlwe.NewTLWELv0(), tlwe.NewTLWELv1()
		for _, alpha := range alphas {
			bs, decs, phs := []bool{}, []bool{}, []params.Torus{}
			for j := 0; j < 12; j++ {
				b := rng.Intn(2) == 1
				bs = append(bs, b)
				if kind == "lv0" {
					r := c0.EncryptBool(b, alpha, k) // reused receiver
					decs, phs = append(decs, r.DecryptBool(k)), append(phs, Phase(c0.P, k))
				} else {
					r := c1.EncryptBool(b, alpha, k)
					decs, phs = append(decs, r.DecryptBool(k)), append(phs, Phase(c1.P, k))
				}
			}
			t.Emit(R{"ev": "bool", "lv": lv, "kind": kind, "n": len(bs), "s8": s8(alpha), "bs": bs, "decs": decs, "phs": flat(phs)})
			ps, ws := reals(rng, 45)
			phs = phs[:0]
			for j, p := range ps {
				if kind == "lv0" {
					if j%2 == 0 {
						c0 = tlwe.NewTLWELv0()
					}
					phs = append(phs, Phase(c0.EncryptF64(p, alpha, k).P, k))
				} else {
					phs = append(phs, Phase(c1.EncryptF64(p, alpha, k).P, k))
				}
			}
			t.Emit(R{"ev": "real", "lv": lv, "kind": kind, "n": len(ps), "s8": s8(alpha), "want": flat(ws), "phs": flat(phs)})
		}
		// sign decryption at crafted phases
		edge := []params.Torus{1, 2, 3, 1<<31 - 1, 1<<31 - 2, 1<<31 + 1, 1<<31 + 2, ^params.Torus(0), ^params.Torus(0) - 1, 1 << 29, 7 << 29, 1 << 30, 3 << 30, 0x7fff0000, 0x80010000}
		for j := 0; j < 12; j++ {
			edge = append(edge, params.Torus(rng.Uint32()))
		}
		decs, phs := []bool{}, []params.Torus{}
		for _, ph := range edge {
			p := Craft(rng, AnyShape(rng), ph, k, N)
			phs = append(phs, Phase(p, k))
			if kind == "lv0" {
				decs = append(decs, (&tlwe.TLWELv0{P: p}).DecryptBool(k))
			} else {
				decs = append(decs, (&tlwe.TLWELv1{P: p}).DecryptBool(k))
			}
		}
		t.Emit(R{"ev": "sign", "lv": lv, "kind": kind, "n": len(edge), "decs": decs, "phs": flat(phs)})
	}
	// ring ciphertexts
	rc := trlwe.NewTRLWELv1()
	for _, alpha := range []float64{0, params.GetTRLWELv1().ALPHA, 1e-5} {
		bs := make([]bool, N)
		for j := range bs {
			bs[j] = rng.Intn(2) == 1
		}
		r := rc.EncryptBool(bs, alpha, sk.KeyLv1, pe)
		t.Emit(R{"ev": "bool", "lv": lv, "kind": "ring", "n": N, "s8": s8(alpha) + 1, "bs": bs, "decs": r.DecryptBool(sk.KeyLv1, pe), "phs": flat(RPhase(r, sk.KeyLv1))})
		ps, ws := reals(rng, N)
		r = rc.EncryptF64(ps, alpha, sk.KeyLv1, pe)
		t.Emit(R{"ev": "real", "lv": lv, "kind": "ring", "n": N, "s8": s8(alpha) + 1, "want": flat(ws), "phs": flat(RPhase(r, sk.KeyLv1))})
	}
	phs := make([]params.Torus, N)
	a := make([]params.Torus, N)
	for j := range phs {
		a[j] = params.Torus(rng.Uint32())
		phs[j] = params.Torus(rng.Uint32())
		switch j % 9 {
		case 0:
			phs[j] = 16
		case 1:
			phs[j] = ^params.Torus(15)
		case 2:
			phs[j] = 1<<31 - 16
		case 3:
			phs[j] = 1<<31 + 16
		}
	}
	prod := NegaMul(a, sk.KeyLv1)
	c := &trlwe.TRLWELv1{A: a, B: make([]params.Torus, N)}
	for j := range phs {
		c.B[j] = prod[j] + phs[j]
	}
	t.Emit(R{"ev": "sign", "lv": lv, "kind": "ring", "n": N, "decs": c.DecryptBool(sk.KeyLv1, pe), "phs": flat(phs)})
}
