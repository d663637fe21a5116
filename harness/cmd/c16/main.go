// c16 converts, encrypts and computes with bit lists.
// usage: c16 TRACE cases CASES [FULL] | c16 TRACE words LEVEL PROGRAMS
package main

import (
	"encoding/json"
	"math"
	"math/rand"
	"os"
	"reflect"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	. "verif.local/harness/vlib"
)

type kase struct {
	Op   string
	W, N int
	Pat  string
}

func limbs4(v uint64) []int {
	return []int{int(v & 0xffff), int(v >> 16 & 0xffff), int(v >> 32 & 0xffff), int(v >> 48)}
}
func ints(bs []bool) []int {
	r := make([]int, len(bs))
	for i, b := range bs {
		if b {
			r[i] = 1
		}
	}
	return r
}

// bits of a pattern
func pattern(rng *rand.Rand, pat string, n int) []bool {
	r := make([]bool, n)
	for i := range r {
		switch pat {
		case "ones":
			r[i] = true
		case "alt":
			r[i] = i%2 == 0
		case "alt2":
			r[i] = i%2 == 1
		case "first":
			r[i] = i == 0
		case "last":
			r[i] = i == n-1
		case "word":
			r[i] = i%8 == 7 || i%16 == 0
		case "zeros":
		default:
			r[i] = rng.Intn(2) == 1
		}
	}
	return r
}
func val(bs []bool) uint64 {
	var v uint64
	for i, b := range bs {
		if b && i < 64 {
			v |= 1 << uint(i)
		}
	}
	return v
}
func conv(w int, bs []bool) uint64 {
	switch w {
	case 8:
		return uint64(bitutils.ConvertU8(bs))
	case 16:
		return uint64(bitutils.ConvertU16(bs))
	case 32:
		return uint64(bitutils.ConvertU32(bs))
	}
	return bitutils.ConvertU64(bs)
}
func fixed(w int, v uint64) []bool {
	switch w {
	case 8:
		return bitutils.U8ToBits(uint8(v))
	case 16:
		return bitutils.U16ToBits(uint16(v))
	case 32:
		return bitutils.U32ToBits(uint32(v))
	}
	return bitutils.U64ToBits(v)
}

func cases(t *Tracer, file string, step16 int) {
	rng := Rng(1601)
	SetLevel("128")
	sk := key.NewSecretKey()
	k := sk.KeyLv0
	Lines(file, func(line []byte) {
		var c kase
		Must(json.Unmarshal(line, &c))
		t.Guard(string(line), func() {
			switch c.Op {
			case "conv":
				bs := pattern(rng, c.Pat, c.N)
				before := ints(bs)
				v := conv(c.W, bs)
				t.Emit(R{"ev": "conv", "w": c.W, "n": c.N, "bits": before, "after": ints(bs), "v": limbs4(v)})
			case "tobits":
				v := val(pattern(rng, c.Pat, 64))
				t.Emit(R{"ev": "tobits", "n": c.N, "bits": ints(bitutils.ToBits(v, c.N)), "v": limbs4(v)})
			case "fixed":
				v := val(pattern(rng, c.Pat, c.W))
				bs := fixed(c.W, v)
				t.Emit(R{"ev": "fixed", "w": c.W, "n": c.N, "bits": ints(bs), "v": limbs4(v), "back": limbs4(conv(c.W, bs))})
			case "enc":
				alpha := []float64{0, params.GetTLWELv0().ALPHA, 10 * params.GetTLWELv0().ALPHA}[c.W]
				bs := pattern(rng, c.Pat, c.N)
				before := ints(bs)
				cs := bitutils.EncryptBits(bs, alpha, k)
				ids, phs, one, in := []int{}, []int{}, []int{}, Intern{}
				for _, x := range cs {
					ids = append(ids, in.ID(uint64(reflect.ValueOf(x).Pointer())))
					phs = append(phs, Limbs(Phase0(x, k))...)
					b := 0
					if x.DecryptBool(k) {
						b = 1
					}
					one = append(one, b)
				}
				back := ints(bitutils.DecryptBits(cs, k))
				t.Emit(R{"ev": "enc", "n": c.N, "bits": before, "after": ints(bs), "phs": phs, "back": back, "ids": ids, "decins": one,
					"s8": int(math.Ceil(8.5 * alpha * (1 << 32)))})
			case "dec":
				bs := pattern(rng, c.Pat, c.N)
				cs := make([]*tlwe.TLWELv0, c.N)
				var old, now [][]params.Torus
				for i, b := range bs {
					ph := F(float64(1+rng.Intn(999)) / 2000)
					if !b {
						ph = -ph
					}
					cs[i] = tlwe.NewTLWELv0()
					copy(cs[i].P, Craft(rng, c.W, ph, k, 1024))
					if c.W == ShapeFresh {
						cs[i].EncryptBool(b, params.GetTLWELv0().ALPHA, k)
					}
					old = append(old, append([]params.Torus(nil), cs[i].P...))
				}
				back := ints(bitutils.DecryptBits(cs, k))
				for _, x := range cs {
					now = append(now, x.P)
				}
				t.Emit(R{"ev": "dec", "n": c.N, "bits": ints(bs), "back": back, "same": reflect.DeepEqual(old, now)})
			}
		})
	})
	run := func(w, from, step, n int) {
		t.Guard("run", func() {
			var bits [][]int
			var back []int
			for i := 0; i < n; i++ {
				bs := fixed(w, uint64(from+i*step))
				bits = append(bits, ints(bs))
				back = append(back, int(conv(w, bs)))
			}
			t.Emit(R{"ev": "run", "w": w, "from": from, "step": step, "bits": bits, "back": back})
		})
	}
	run(8, 0, 1, 256)
	for at := rng.Intn(step16); at < 65536; {
		n := (65536 - at + step16 - 1) / step16
		if n > 1024 {
			n = 1024
		}
		run(16, at, step16, n)
		at += n * step16
	}
}

type wop struct {
	Op, F      string
	D, A, B, S int
}
type prog struct {
	W   int
	Ops []wop
}
type word []*gates.Ciphertext
type ct = gates.Ciphertext

type alu struct {
	ck *cloudkey.CloudKey
	sk *key.SecretKey
	f  string
}

// full adder, in the chosen construction
func (u *alu) fa(a, b, c *ct) (s, co *ct) {
	ck := u.ck
	switch u.f {
	case "mux":
		x := gates.XOR(a, b, ck)
		return gates.XOR(x, c, ck), gates.MUX(x, c, a, ck)
	case "alt":
		x := gates.XNOR(a, b, ck)
		return gates.XNOR(x, c, ck), gates.MUX(x, a, c, ck)
	case "nand":
		n1 := gates.NAND(a, b, ck)
		x := gates.NAND(gates.NAND(a, n1, ck), gates.NAND(b, n1, ck), ck)
		n4 := gates.NAND(x, c, ck)
		return gates.NAND(gates.NAND(x, n4, ck), gates.NAND(c, n4, ck), ck), gates.NAND(n1, n4, ck)
	}
	x := gates.XOR(a, b, ck)
	return gates.XOR(x, c, ck), gates.OR(gates.AND(a, b, ck), gates.AND(x, c, ck), ck)
}
func (u *alu) ripple(a, b word, c *ct) (word, *ct) {
	out := word{}
	if u.f == "batch" {
		in := make([][2]*ct, len(a))
		for i := range a {
			in[i] = [2]*ct{a[i], b[i]}
		}
		p, g := gates.BatchXOR(in, u.ck), gates.BatchAND(in, u.ck)
		cs := []*ct{c}
		for i := range a {
			cs = append(cs, gates.OR(g[i], gates.AND(p[i], cs[i], u.ck), u.ck))
		}
		for i := range a {
			in[i] = [2]*ct{p[i], cs[i]}
		}
		return gates.BatchXOR(in, u.ck), cs[len(a)]
	}
	for i := range a {
		var s *ct
		s, c = u.fa(a[i], b[i], c)
		out = append(out, s)
	}
	return out, c
}
func (u *alu) not(a word) word {
	r := word{}
	for _, x := range a {
		r = append(r, gates.NOT(x))
	}
	return r
}
func (u *alu) zip(o string, a, b word) word {
	single := map[string]func(x, y *ct, ck *cloudkey.CloudKey) *ct{"and": gates.AND, "or": gates.OR, "xor": gates.XOR, "nand": gates.NAND, "nor": gates.NOR, "xnor": gates.XNOR}[o]
	batch := map[string]func(in [][2]*ct, ck *cloudkey.CloudKey) []*ct{"and": gates.BatchAND, "or": gates.BatchOR, "xor": gates.BatchXOR, "nand": gates.BatchNAND, "nor": gates.BatchNOR, "xnor": gates.BatchXNOR}[o]
	if u.f == "batch" {
		in := make([][2]*ct, len(a))
		for i := range a {
			in[i] = [2]*ct{a[i], b[i]}
		}
		return batch(in, u.ck)
	}
	r := word{}
	for i := range a {
		r = append(r, single(a[i], b[i], u.ck))
	}
	return r
}

func words(t *Tracer, level, file string) {
	rng := Rng(1602)
	SetLevel(level)
	sk := key.NewSecretKey()
	ck := cloudkey.NewCloudKey(sk)
	Lines(file, func(line []byte) {
		var p prog
		Must(json.Unmarshal(line, &p))
		t.Emit(R{"ev": "start", "w": p.W})
		reg := make([]word, 4)
		t.Guard(level+" "+string(line), func() {
			for _, o := range p.Ops {
				u := &alu{ck, sk, o.F}
				rec := R{"ev": "word", "op": o.Op, "d": o.D, "a": o.A, "b": o.B, "s": o.S, "f": o.F}
				var out word
				a, b := reg[o.A], reg[o.B]
				switch o.Op {
				case "load":
					bs := pattern(rng, o.F, p.W)
					rec["ev"], rec["bits"] = "load", ints(bs)
					out = bitutils.EncryptBits(bs, params.GetTLWELv0().ALPHA, sk.KeyLv0)
					if o.A == 1 {
						for i, x := range bs {
							out[i] = gates.Constant(x)
						}
					}
				case "add":
					out, _ = u.ripple(a, b, gates.Constant(false))
				case "sub":
					out, _ = u.ripple(a, u.not(b), gates.Constant(true))
				case "cmp":
					_, c := u.ripple(a, u.not(b), gates.Constant(true))
					for i := 0; i < p.W; i++ {
						if i == 0 {
							out = append(out, gates.NOT(c))
						} else {
							out = append(out, gates.Copy(c))
						}
					}
				case "mul":
					for i := 0; i < p.W; i++ {
						out = append(out, gates.Constant(false))
					}
					for i := 0; i < p.W; i++ {
						row := word{}
						for j := 0; j < p.W; j++ {
							if j < i {
								row = append(row, gates.Constant(false))
							} else {
								row = append(row, gates.AND(a[j-i], b[i], ck))
							}
						}
						out, _ = u.ripple(out, row, gates.Constant(false))
					}
				case "sel":
					for i := range a {
						out = append(out, gates.MUX(reg[o.S][0], a[i], b[i], ck))
					}
				case "not":
					out = u.not(a)
				case "copy":
					for _, x := range a {
						out = append(out, gates.Copy(x))
					}
				default:
					out = u.zip(o.Op, a, b)
				}
				reg[o.D] = out
				rec["out"] = ints(bitutils.DecryptBits(out, sk.KeyLv0))
				rec["val"] = int(bitutils.ConvertU16(bitutils.DecryptBits(out, sk.KeyLv0)))
				regs := [][]int{}
				for r := 1; r <= 3; r++ {
					regs = append(regs, ints(bitutils.DecryptBits(reg[r], sk.KeyLv0)))
				}
				rec["regs"] = regs
				t.Emit(rec)
			}
		})
	})
}

func main() {
	t := NewTracer(os.Args[1])
	defer t.Close()
	if os.Args[2] == "cases" {
		cases(t, os.Args[3], Env("STEP16", 29))
	} else {
		words(t, os.Args[3], os.Args[4])
	}
}
