// c18 runs circuits and records the phases of every bootstrapped ciphertext.
// usage: c18 TRACE LEVEL KEYS PROGRAMS
package main

import (
	"encoding/json"
	"os"
	"strconv"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/tlwe"

	. "verif.local/harness/vlib"
)

type ct = tlwe.TLWELv0
type op struct {
	Op, G, Via           string
	D, A, B, C, S, X, Sh int
	As, Bs, Ys           []int
}
type prog struct {
	M   int
	Ops []op
}

var gate2 = map[string]func(a, b *ct, ck *cloudkey.CloudKey) *ct{"AND": gates.AND, "OR": gates.OR, "NAND": gates.NAND, "NOR": gates.NOR, "XOR": gates.XOR,
	"XNOR": gates.XNOR, "ANDNY": gates.ANDNY, "ANDYN": gates.ANDYN, "ORNY": gates.ORNY, "ORYN": gates.ORYN}
var batch = map[string]func(in [][2]*ct, ck *cloudkey.CloudKey) []*ct{"AND": gates.BatchAND, "OR": gates.BatchOR, "XOR": gates.BatchXOR, "NAND": gates.BatchNAND,
	"NOR": gates.BatchNOR, "XNOR": gates.BatchXNOR}

func main() {
	t := NewTracer(os.Args[1])
	defer t.Close()
	level := os.Args[2]
	keys, err := strconv.Atoi(os.Args[3])
	Must(err)
	rng := Rng(1801)
	SetLevel(level)
	var progs []prog
	Lines(os.Args[4], func(line []byte) {
		var p prog
		Must(json.Unmarshal(line, &p))
		progs = append(progs, p)
	})
	for k := 0; k < keys; k++ {
		if !t.Guard("keys at level "+level, func() {
			sk := key.NewSecretKey()
			ck := cloudkey.NewCloudKey(sk)
			ev := evaluator.NewEvaluator(params.GetTRGSWLv1().N)
			for i := k; i < len(progs); i += keys {
				run(t, rng.Int63(), level, progs[i], sk, ck, ev)
			}
		}) {
			break
		}
		t.Emit(R{"ev": "endkey"})
	}
	t.Emit(R{"ev": "end"})
}

func run(t *Tracer, seed int64, level string, p prog, sk *key.SecretKey, ck *cloudkey.CloudKey, ev *evaluator.Evaluator) {
	rng := Rng(seed)
	t.Emit(R{"ev": "start", "level": level, "m": p.M})
	s := sk.KeyLv0
	bsk, ksk, off := ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset
	reg := make([]*ct, 5)
	for _, o := range p.Ops {
		switch o.Op {
		case "load":
			var ph params.Torus
			if p.M == 0 {
				ph = F(float64(2*o.X-1) / 8)
			} else {
				ph = F(float64(o.X) / float64(2*p.M))
			}
			sh, e := o.Sh, 0.03
			if p.M > 0 {
				e = 1 / float64(16*p.M)
			}
			switch sh {
			case 11:
				sh, ph = ShapeFresh, ph+F(e)
			case 12:
				sh, ph = ShapeFresh, ph-F(e)
			case 13:
				sh, ph = ShapeMaskGrid, ph+F(e)
			case 14:
				sh, ph = ShapeBodyEdge, ph-F(e)
			}
			reg[o.D] = tlwe.NewTLWELv0()
			copy(reg[o.D].P, Craft(rng, sh, ph, s, params.GetTRGSWLv1().N))
			t.Emit(R{"ev": "load", "d": o.D, "x": o.X, "sh": o.Sh})
			continue
		case "gate":
			reg[o.D] = gate2[o.G](reg[o.A], reg[o.B], ck)
		case "mux":
			reg[o.D] = gates.MUX(reg[o.A], reg[o.B], reg[o.C], ck)
		case "eval":
			var q *ct
			switch o.G {
			case "AND":
				q = ev.PrepareAND(reg[o.A], reg[o.B])
			case "OR":
				q = ev.PrepareOR(reg[o.A], reg[o.B])
			case "NAND":
				q = ev.PrepareNAND(reg[o.A], reg[o.B])
			default:
				q = ev.PrepareXOR(reg[o.A], reg[o.B])
			}
			c := tlwe.NewTLWELv0()
			if o.Via == "ret" {
				copy(c.P, ev.Bootstrap(q, ck.BlindRotateTestvec, bsk, ksk, off).P)
			} else {
				ev.BootstrapAssign(q, ck.BlindRotateTestvec, bsk, ksk, off, c)
			}
			reg[o.D] = c
		case "batch":
			in := make([][2]*ct, len(o.As))
			for i := range in {
				in[i] = [2]*ct{reg[o.As[i]], reg[o.Bs[i]]}
			}
			phs := []int{}
			for i, c := range batch[o.G](in, ck) {
				reg[i+1] = c
				phs = append(phs, Limbs(Phase0(c, s))...)
			}
			t.Emit(R{"ev": "op", "op": o.Op, "g": o.G, "as": o.As, "bs": o.Bs, "ph": phs})
			continue
		case "boot":
			f := func(x int) int { return o.Ys[x] }
			gen := lut.NewGenerator(p.M)
			c := tlwe.NewTLWELv0()
			switch o.Via {
			case "func":
				c = ev.BootstrapFunc(reg[o.S], f, p.M, bsk, ksk, off)
			case "funcassign":
				ev.BootstrapFuncAssign(reg[o.S], f, p.M, bsk, ksk, off, c)
			case "lut":
				c = ev.BootstrapLUT(reg[o.S], gen.GenLookUpTable(f), bsk, ksk, off)
			case "luttemp":
				copy(c.P, ev.BootstrapLUTTemp(reg[o.S], gen.GenLookUpTable(f), bsk, ksk, off).P)
			case "lutassign":
				ev.BootstrapLUTAssign(reg[o.S], gen.GenLookUpTable(f), bsk, ksk, off, c)
			case "full":
				enc := lut.NewEncoder(p.M)
				c = ev.BootstrapLUT(reg[o.S], gen.GenLookUpTableFull(func(x int) params.Torus { return enc.Encode(f(x)) }), bsk, ksk, off)
			}
			reg[o.D] = c
		}
		r := R{"ev": "op", "op": o.Op, "d": o.D, "ph": Limbs(Phase0(reg[o.D], s))}
		switch o.Op {
		case "boot":
			r["s"], r["ys"], r["via"] = o.S, o.Ys, o.Via
		default:
			r["g"], r["a"], r["b"], r["c"], r["via"] = o.G, o.A, o.B, o.C, o.Via
		}
		t.Emit(r)
	}
}
