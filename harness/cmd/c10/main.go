// c10 replays histories over several security levels in one process.
// usage: c10 TRACE PROGRAMS
package main

import (
	"encoding/json"
	"os"
	"sort"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	. "verif.local/harness/vlib"
)

type op struct {
	Op, G, F string
	D, X     int
	XV       int
	S        []int
	Ps       [][2]int
	B        bool
	Sh       int
}
type prog struct {
	Levels []string `json:"levels"`
	Ops    []op     `json:"ops"`
}

// everything that belongs to one level
type world struct {
	sk *key.SecretKey
	ck *cloudkey.CloudKey
	ev *evaluator.Evaluator
	g  *lut.Generator
}

var modulus = map[string]int{"80": 2, "110": 2, "128": 2, "U1": 2, "U2": 4, "U3": 8, "U4": 16, "U5": 32}

type gate2 = func(a, b *gates.Ciphertext, ck *cloudkey.CloudKey) *gates.Ciphertext

var plain = map[string]gate2{"AND": gates.AND, "OR": gates.OR, "NAND": gates.NAND, "NOR": gates.NOR, "XOR": gates.XOR, "XNOR": gates.XNOR,
	"ANDNY": gates.ANDNY, "ANDYN": gates.ANDYN, "ORNY": gates.ORNY, "ORYN": gates.ORYN}
var batched = map[string]func([][2]*gates.Ciphertext, *cloudkey.CloudKey) []*gates.Ciphertext{
	"AND": gates.BatchAND, "OR": gates.BatchOR, "NAND": gates.BatchNAND, "NOR": gates.BatchNOR, "XOR": gates.BatchXOR, "XNOR": gates.BatchXNOR,
}

func b01(b bool) int {
	if b {
		return 1
	}
	return 0
}

func main() {
	t := NewTracer(os.Args[1])
	defer t.Close()
	rng := Rng(1001)
	worlds := map[string]*world{}
	Lines(os.Args[2], func(line []byte) {
		var p prog
		Must(json.Unmarshal(line, &p))
		cur := 0
		var w *world
		name := ""
		enter := func(i int) {
			cur = i
			name = p.Levels[i]
			SetLevel(name)
			if worlds[name] == nil {
				sk := key.NewSecretKey()
				worlds[name] = &world{sk, cloudkey.NewCloudKey(sk), evaluator.NewEvaluator(params.GetTRGSWLv1().N), lut.NewGenerator(modulus[name])}
			}
			w = worlds[name]
		}
		reg := map[int]*tlwe.TLWELv0{}
		tabs := map[int]*lut.LookUpTable{}
		t.Emit(R{"ev": "reset", "names": p.Levels})
		t.Guard(string(line), func() {
			enter(0)
			for _, o := range p.Ops {
				rec := R{"ev": o.Op, "d": o.D}
				if o.Op == "switch" {
					enter(o.X - 1)
				}
				m := modulus[name]
				fn := make([]int, m)
				for x := range fn {
					switch o.F {
					case "id":
						fn[x] = x
					case "inc":
						fn[x] = x + 1
					case "rev":
						fn[x] = m - 1 - x
					case "neg":
						fn[x] = 3 * x
					default:
						fn[x] = rng.Intn(m)
					}
				}
				f := func(x int) int { return fn[x] }
				sk, ck := w.sk, w.ck
				bsk, ksk, off := ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset
				N, a0 := params.GetTRGSWLv1().N, params.GetTLWELv0().ALPHA
				var c *tlwe.TLWELv0
				msg := false
				if o.S != nil {
					rec["s"] = o.S
				}
				src := func(i int) *tlwe.TLWELv0 { return reg[o.S[i]] }
				switch o.Op {
				case "switch":
					rec["x"], rec["d"] = o.X, 0
				case "rekey":
					sk = key.NewSecretKey()
					w.sk, w.ck = sk, cloudkey.NewCloudKey(sk)
					for r := range reg {
						if r/10-1 == cur {
							delete(reg, r)
						}
					}
					rec["d"] = 0
				case "enc":
					mu := F(0.125)
					if !o.B {
						mu = -mu
					}
					c = tlwe.NewTLWELv0()
					if o.Sh == ShapeFresh {
						c.EncryptBool(o.B, a0, sk.KeyLv0)
					} else {
						copy(c.P, Craft(rng, o.Sh, mu, sk.KeyLv0, N))
					}
					rec["b"] = b01(o.B)
				case "const":
					c = gates.Constant(o.B)
					rec["b"] = b01(o.B)
				case "not":
					c = gates.NOT(src(0))
				case "copy":
					c = gates.Copy(src(0))
				case "gate":
					c = plain[o.G](src(0), src(1), ck)
					rec["g"] = o.G
				case "mux":
					c = gates.MUX(src(0), src(1), src(2), ck)
				case "batch":
					var ins [][2]*gates.Ciphertext
					for _, pr := range o.Ps {
						ins = append(ins, [2]*gates.Ciphertext{reg[pr[0]], reg[pr[1]]})
					}
					bph := []int{}
					for i, r := range batched[o.G](ins, ck) {
						if i == 0 {
							c = r
						}
						bph = append(bph, T16(Phase0(r, sk.KeyLv0)))
					}
					rec["g"], rec["ps"], rec["bph"] = o.G, o.Ps, bph
				case "menc":
					c = tlwe.NewTLWELv0()
					c.EncryptLWEMessage(o.XV%m, m, a0, sk.KeyLv0)
					rec["xv"] = o.XV
					msg = true
				case "func":
					c = w.ev.BootstrapFunc(src(0), f, m, bsk, ksk, off)
					rec["ev"], rec["ys"], msg = "pbs", fn, true
				case "funcassign":
					c = tlwe.NewTLWELv0()
					w.ev.BootstrapFuncAssign(src(0), f, m, bsk, ksk, off, c)
					rec["ev"], rec["ys"], msg = "pbs", fn, true
				case "mk":
					tabs[o.D] = w.g.GenLookUpTable(f)
					rec["ys"] = fn
				case "lut", "lutassign", "luttemp":
					rec["ev"], msg = "lut", true
					tab := tabs[o.S[1]]
					switch o.Op {
					case "lut":
						c = w.ev.BootstrapLUT(src(0), tab, bsk, ksk, off)
					case "lutassign":
						c = tlwe.NewTLWELv0()
						w.ev.BootstrapLUTAssign(src(0), tab, bsk, ksk, off, c)
					default:
						c = gates.Copy(w.ev.BootstrapLUTTemp(src(0), tab, bsk, ksk, off))
					}
				}
				if c != nil {
					reg[o.D] = c
					rec["len"] = len(c.P)
					if msg {
						rec["dec"] = c.DecryptLWEMessage(m, sk.KeyLv0)
					} else {
						rec["dec"] = b01(c.DecryptBool(sk.KeyLv0))
					}
				}
				ids, phs := []int{}, []int{}
				for r := range reg {
					ids = append(ids, r)
				}
				sort.Ints(ids)
				for _, r := range ids {
					phs = append(phs, T16(Phase0(reg[r], worlds[p.Levels[r/10-1]].sk.KeyLv0)))
				}
				rec["ids"], rec["phs"] = ids, phs
				t.Emit(rec)
			}
		})
	})
}
