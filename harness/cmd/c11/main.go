// c11 replays proxy re-encryption histories.
// usage: c11 TRACE PROGRAMS | c11 TRACE asym LEVEL COUNT
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	. "verif.local/harness/vlib"
)

type op struct {
	Op, M, Z, G          string
	D, P, B, Sh, X, F, T int
	K, S, A              int
}
type prog struct {
	Level string `json:"level"`
	Ops   []op   `json:"ops"`
}
type gate2 = func(a, b *gates.Ciphertext, ck *cloudkey.CloudKey) *gates.Ciphertext

var plain = map[string]gate2{"AND": gates.AND, "NAND": gates.NAND, "NOR": gates.NOR, "ORYN": gates.ORYN}

// custom decompositions (basebit, t); kind 1 is the default
var kinds = [][2]int{{}, {}, {1, 12}, {4, 4}, {3, 10}, {1, 31}, {6, 2}, {2, 15}, {3, 0}, {1, 0}, {8, 1}, {9, 1}, {10, 1}, {8, 2}}

func ints(k []params.Torus) []int {
	r := make([]int, len(k))
	for i, v := range k {
		r[i] = int(v)
	}
	return r
}

func hashRK(k *proxyreenc.ProxyReencryptionKey) uint64 {
	var vs [][]params.Torus
	for _, c := range k.KeyEncryptions {
		vs = append(vs, c.P)
	}
	return Hash32(vs...)
}

func b01(b bool) int {
	if b {
		return 1
	}
	return 0
}

func histories(t *Tracer) {
	rng := Rng(1101)
	var sks [4]*key.SecretKey
	var cks [4]*cloudkey.CloudKey
	var pks [4]map[string]*proxyreenc.PublicKeyLv0
	last := ""
	Lines(os.Args[2], func(line []byte) {
		var p prog
		Must(json.Unmarshal(line, &p))
		SetLevel(p.Level)
		a0 := params.GetTLWELv0().ALPHA
		n := params.GetTLWELv0().N
		if p.Level != last {
			for i := 1; i <= 3; i++ {
				sks[i] = key.NewSecretKey()
				cks[i] = nil
				pks[i] = map[string]*proxyreenc.PublicKeyLv0{}
			}
			last = p.Level
		}
		t.Emit(R{"ev": "reset", "level": p.Level})
		for i := 1; i <= 3; i++ {
			t.Emit(R{"ev": "party", "p": i, "s": ints(sks[i].KeyLv0)})
		}
		alpha := func(z string) float64 {
			if z == "zero" {
				return 0
			}
			return a0
		}
		pkOf := func(i int, z string) *proxyreenc.PublicKeyLv0 {
			if pks[i][z] == nil {
				if z == "def" && rng.Intn(2) == 0 {
					pks[i][z] = proxyreenc.NewPublicKeyLv0(sks[i].KeyLv0)
				} else {
					pks[i][z] = proxyreenc.NewPublicKeyLv0WithParams(sks[i].KeyLv0, 300+rng.Intn(60), alpha(z))
				}
			}
			return pks[i][z]
		}
		// a small public key for generating re-encryption keys
		small := func(i int, z string) *proxyreenc.PublicKeyLv0 {
			if pks[i]["small"+z] == nil {
				pks[i]["small"+z] = proxyreenc.NewPublicKeyLv0WithParams(sks[i].KeyLv0, 30, alpha(z))
			}
			return pks[i]["small"+z]
		}
		reg := make([]*tlwe.TLWELv0, 5)
		rks := make([]*proxyreenc.ProxyReencryptionKey, 4)
		var rkd [4]op
		var rkh [4]uint64
		triv := make([]int, 5)
		own := make([]int, 5)
		t.Guard(string(line), func() {
			for _, o := range p.Ops {
				rec := R{"ev": o.Op, "d": o.D}
				switch o.Op {
				case "enc":
					c := tlwe.NewTLWELv0()
					mu := F(0.125)
					if o.B == 0 {
						mu = -mu
					}
					if o.Sh == 0 {
						c.EncryptBool(o.B == 1, a0, sks[o.P].KeyLv0)
					} else {
						body := mu
						for i := 0; i < n; i++ {
							v := params.Torus(rng.Uint32())
							switch o.Sh {
							case 1:
								v = 0
							case 2:
								v = ^params.Torus(0)
							case 3: // halves of some decomposition's last unit
								v = v>>20<<20 + 1<<19
							case 4:
								if rng.Intn(40) > 0 {
									v = 0
								}
							case 5:
								v = v>>20<<20 + 1<<19 - 1
							}
							c.P[i] = v
							body += v * sks[o.P].KeyLv0[i]
						}
						c.P[n] = body
					}
					triv[o.D] = b01(o.Sh != 0)
					own[o.D] = o.P
					reg[o.D] = c
					rec["p"], rec["b"], rec["ph"], rec["dec"], rec["len"] = o.P, o.B, Limbs(Phase0(c, sks[o.P].KeyLv0)), b01(c.DecryptBool(sks[o.P].KeyLv0)), len(c.P)
				case "pkenc":
					pk := pkOf(o.P, o.Z)
					c := pk.EncryptBool(o.B == 1, alpha(o.Z))
					reg[o.D], triv[o.D], own[o.D] = c, 0, o.P
					own[o.D] = o.P
					rec["p"], rec["b"], rec["ph"], rec["dec"], rec["len"] = o.P, o.B, Limbs(Phase0(c, sks[o.P].KeyLv0)), b01(c.DecryptBool(sks[o.P].KeyLv0)), len(c.P)
					rec["z"], rec["size"], rec["pw"] = o.Z, len(pk.Encryptions), Limbs(Phase0(c, sks[1+o.P%3].KeyLv0))
				case "rkey":
					g := params.GetTRGSWLv1()
					bb, tt := kinds[o.K][0], kinds[o.K][1]
					def := 0
					if o.K == 1 {
						bb, tt = g.BASEBIT, g.IKS_T
					} else if tt == 0 { // as many digits as the default, of another base
						tt = g.IKS_T
						if bb == g.BASEBIT {
							bb++
						}
						for bb*tt > 31 {
							tt--
						}
					}
					var k *proxyreenc.ProxyReencryptionKey
					size := 0
					if o.M == "sym" {
						if o.K == 1 && o.Z == "def" {
							def = 1
							k = proxyreenc.NewProxyReencryptionKeySymmetric(sks[o.F].KeyLv0, sks[o.T].KeyLv0)
						} else {
							k = proxyreenc.NewProxyReencryptionKeySymmetricWithParams(sks[o.F].KeyLv0, sks[o.T].KeyLv0, alpha(o.Z), bb, tt)
						}
					} else {
						pk := small(o.T, o.Z)
						size = len(pk.Encryptions)
						if o.K == 1 && o.Z == "def" {
							def = 1
							k = proxyreenc.NewProxyReencryptionKeyAsymmetric(sks[o.F].KeyLv0, pk)
						} else {
							k = proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(sks[o.F].KeyLv0, pk, alpha(o.Z), bb, tt)
						}
					}
					base := 1 << uint(bb)
					ent := [][]int{}
					for x := 0; x < 60; x++ {
						i, j, d := rng.Intn(n), rng.Intn(tt), 1+rng.Intn(base-1)
						if x == 0 {
							i, j, d = 0, 0, 1
						} else if x == 1 {
							i, j, d = n-1, tt-1, base-1
						}
						ph := Phase0(k.KeyEncryptions[base*tt*i+base*j+d], sks[o.T].KeyLv0)
						ent = append(ent, append([]int{i, j, d}, Limbs(ph)...))
					}
					rks[o.X], rkd[o.X], rkh[o.X] = k, o, hashRK(k)
					rec = R{"ev": "rkey", "x": o.X, "f": o.F, "t": o.T, "m": o.M, "z": o.Z, "bb": bb, "tt": tt, "size": size, "def": def,
						"base": k.Base, "levels": k.T, "count": len(k.KeyEncryptions), "ent": ent}
				case "re":
					d := rkd[o.X]
					src := reg[o.S]
					h := Hash32(src.P)
					c := proxyreenc.ReencryptTLWELv0(src, rks[o.X])
					al := make([][]int, n)
					for i := range al {
						al[i] = Limbs(src.P[i])
					}
					rec["s"], rec["x"], rec["a"] = o.S, o.X, al
					rec["pi"], rec["po"], rec["pw"] = Limbs(Phase0(src, sks[d.F].KeyLv0)), Limbs(Phase0(c, sks[d.T].KeyLv0)), Limbs(Phase0(c, sks[d.F].KeyLv0))
					rec["dec"], rec["len"] = b01(c.DecryptBool(sks[d.T].KeyLv0)), len(c.P)
					rec["srcsame"], rec["keysame"] = b01(Hash32(src.P) == h), b01(hashRK(rks[o.X]) == rkh[o.X])
					rec["triv"] = triv[o.S]
					// a re-encrypted ciphertext has a fresh mask unless its
					// source had hardly any
					triv[o.D] = triv[o.S]
					reg[o.D] = c
					own[o.D] = d.T
				case "flip":
					// the same object, the same body, the other bit
					c, s := reg[o.D], sks[own[o.D]].KeyLv0
					d := F(0.25)
					if c.DecryptBool(s) {
						d = -d
					}
					for {
						if i := rng.Intn(n); s[i] == 1 {
							c.P[i] -= d
							break
						}
					}
					rec["ph"], rec["dec"], rec["len"] = Limbs(Phase0(c, s)), b01(c.DecryptBool(s)), len(c.P)
				case "gate":
					if cks[o.P] == nil {
						cks[o.P] = cloudkey.NewCloudKey(sks[o.P])
					}
					c := plain[o.G](reg[o.A], reg[o.S], cks[o.P])
					reg[o.D], triv[o.D], own[o.D] = c, 0, o.P
					rec["g"], rec["p"], rec["a"], rec["s"], rec["ph"] = o.G, o.P, o.A, o.S, Limbs(Phase0(c, sks[o.P].KeyLv0))
					rec["dec"], rec["len"] = b01(c.DecryptBool(sks[o.P].KeyLv0)), len(c.P)
				}
				t.Emit(rec)
			}
		})
	})
	// what a key that is not meant to work makes of a ciphertext
	t.Guard("wrong keys", func() {
		for i := 0; i < 80; i++ {
			c := tlwe.NewTLWELv0().EncryptBool(i%2 == 0, params.GetTLWELv0().ALPHA, sks[1].KeyLv0)
			t.Emit(R{"ev": "wrong", "b": b01(i%2 == 0), "ph": Limbs(Phase0(c, sks[1].KeyLv0)), "pw": Limbs(Phase0(c, sks[2+i%2].KeyLv0))})
		}
	})
	t.Emit(R{"ev": "end"})
}

// asym measures delegation with all default parameters and a default public key.
func asym(t *Tracer) {
	level := os.Args[3]
	count, err := strconv.Atoi(os.Args[4])
	Must(err)
	SetLevel(level)
	t.Emit(R{"ev": "reset", "level": level})
	t.Guard("asym "+level, func() {
		a, b := key.NewSecretKey(), key.NewSecretKey()
		rk := proxyreenc.NewProxyReencryptionKeyAsymmetric(a.KeyLv0, proxyreenc.NewPublicKeyLv0(b.KeyLv0))
		fails := 0
		for i := 0; i < count; i++ {
			c := tlwe.NewTLWELv0().EncryptBool(i%2 == 0, params.GetTLWELv0().ALPHA, a.KeyLv0)
			o := proxyreenc.ReencryptTLWELv0(c, rk)
			if o.DecryptBool(b.KeyLv0) != (i%2 == 0) {
				fails++
			}
			e := int(math.Round(float64(int32(Phase0(o, b.KeyLv0)-Phase0(c, a.KeyLv0))) / (1 << 20)))
			t.Emit(R{"ev": "ae", "e": e})
		}
		t.Emit(R{"ev": "aeend"})
		fmt.Printf("NOTE asym %s: %d of %d bits wrong\n", level, fails, count)
	})
}

func main() {
	t := NewTracer(os.Args[1])
	defer t.Close()
	if os.Args[2] == "asym" {
		asym(t)
	} else {
		histories(t)
	}
}
