// c12 runs rounds of goroutines with private evaluators and records what
// each operation gave, next to what it gives running alone.
// usage: c12 TRACE PROGRAMS
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	. "verif.local/harness/vlib"
)

type op struct {
	O, G, F string
	A, B, X int
}
type thread struct {
	E, From int
	Ops     []op
}
type prog struct {
	Level string     `json:"level"`
	M     int        `json:"m"`
	Plan  [][]thread `json:"plan"`
}

func (o op) key() string { return fmt.Sprintf("%s/%s/%s/%d/%d/%d", o.O, o.G, o.F, o.A, o.B, o.X) }

// world holds the shared, read-only objects.
type world struct {
	m        int
	sk, sk2  *key.SecretKey
	ck       *cloudkey.CloudKey
	rk       *proxyreenc.ProxyReencryptionKey
	pk       *proxyreenc.PublicKeyLv0
	in       []*tlwe.TLWELv0 // 1-4 bits, 5-8 messages
	ring     []*trlwe.TRLWELv1
	one      []*tlwe.TLWELv1
	tab      map[string]*lut.LookUpTable
	gen      *lut.Generator
	bits, xs []int
	n        int
	polys    []poly.Poly
}

type res struct {
	h    uint64
	dec  int
	more R // fields of drawn objects
}

func b01(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (w *world) fun(f string) func(int) int {
	m := w.m
	switch f {
	case "id":
		return func(x int) int { return x }
	case "inc":
		return func(x int) int { return x + 1 }
	case "rev":
		return func(x int) int { return m - 1 - x }
	}
	return func(x int) int { return -x }
}

func ents(k []*tlwe.TLWELv0, base, tt, n int, from, to []params.Torus) [][]int {
	r := [][]int{}
	for x := 0; x < 40; x++ {
		i, j, d := (x*977+13)%n, x%tt, 1+(x*7)%(base-1)
		r = append(r, append([]int{int(from[i]), j, d}, Limbs(Phase0(k[base*tt*i+base*j+d], to))...))
	}
	return r
}

// do runs one operation with the evaluator e and returns its results.
func (w *world) do(e *evaluator.Evaluator, o op) []res {
	bsk, ksk, off := w.ck.BootstrappingKey, w.ck.KeySwitchingKey, w.ck.DecompositionOffset
	s0, s1 := w.sk.KeyLv0, w.sk.KeyLv1
	msg := func(c *tlwe.TLWELv0) []res {
		return []res{{h: Hash32(c.P), dec: c.DecryptLWEMessage(w.m, s0)}}
	}
	bit := func(c *tlwe.TLWELv0) []res { return []res{{h: Hash32(c.P), dec: b01(c.DecryptBool(s0))}} }
	raw := func(vs ...[]params.Torus) []res { return []res{{h: Hash32(vs...), dec: -1}} }
	a0, a1 := params.GetTLWELv0().ALPHA, params.GetTLWELv1().ALPHA
	switch o.O {
	case "boot":
		return bit(e.Bootstrap(w.in[o.A], w.ck.BlindRotateTestvec, bsk, ksk, off))
	case "bootassign":
		c := tlwe.NewTLWELv0()
		e.BootstrapAssign(w.in[o.A], w.ck.BlindRotateTestvec, bsk, ksk, off, c)
		return bit(c)
	case "trot":
		r := trgsw.BlindRotate(w.in[o.A], w.ck.BlindRotateTestvec, bsk, off, e.PolyEvaluator)
		return raw(r.A, r.B)
	case "prep":
		var p *tlwe.TLWELv0
		switch o.G {
		case "AND":
			p = e.PrepareAND(w.in[o.A], w.in[o.B])
		case "OR":
			p = e.PrepareOR(w.in[o.A], w.in[o.B])
		default:
			p = e.PrepareNAND(w.in[o.A], w.in[o.B])
		}
		c := tlwe.NewTLWELv0()
		e.BootstrapAssign(p, w.ck.BlindRotateTestvec, bsk, ksk, off, c)
		return bit(c)
	case "batch":
		ps := [][2]*tlwe.TLWELv0{{w.in[o.B], w.in[o.A]}, {w.in[o.A], w.in[o.B]}}
		var cs []*tlwe.TLWELv0
		switch o.G {
		case "AND":
			cs = gates.BatchAND(ps, w.ck)
		case "OR":
			cs = gates.BatchOR(ps, w.ck)
		default:
			cs = gates.BatchNAND(ps, w.ck)
		}
		return bit(cs[1])
	case "func":
		return msg(e.BootstrapFunc(w.in[o.A], w.fun(o.F), w.m, bsk, ksk, off))
	case "funcassign":
		c := tlwe.NewTLWELv0()
		e.BootstrapFuncAssign(w.in[o.A], w.fun(o.F), w.m, bsk, ksk, off, c)
		return msg(c)
	case "lut":
		return msg(e.BootstrapLUT(w.in[o.A], w.tab[o.F], bsk, ksk, off))
	case "lutassign":
		c := tlwe.NewTLWELv0()
		e.BootstrapLUTAssign(w.in[o.A], w.tab[o.F], bsk, ksk, off, c)
		return msg(c)
	case "luttemp":
		return msg(e.BootstrapLUTTemp(w.in[o.A], w.tab[o.F], bsk, ksk, off))
	case "rot":
		r := trlwe.NewTRLWELv1()
		e.BlindRotateAssign(w.in[o.A], w.tab[o.F].Poly, bsk, off, r)
		return raw(r.A, r.B)
	case "nest":
		// the function is called inside the bootstrap: there, another
		// evaluator derived from the busy one does a complete bootstrap
		f := w.fun(o.F)
		var inner []res
		r := msg(e.BootstrapFunc(w.in[o.A], func(x int) int {
			if x == 1 && inner == nil {
				inner = w.do(e.ShallowCopy(), op{O: "boot", A: o.B})
			}
			return f(x)
		}, w.m, bsk, ksk, off))
		return append(r, inner...)
	case "cmux":
		r := trlwe.NewTRLWELv1()
		e.CMuxAssign(bsk[o.X], w.ring[o.A], w.ring[o.B], off, r)
		return raw(r.A, r.B)
	case "ext":
		r := trlwe.NewTRLWELv1()
		e.ExternalProductAssign(bsk[o.X], w.ring[o.A], off, r)
		return raw(r.A, r.B)
	case "text":
		r := trgsw.ExternalProductWithFFT(bsk[o.X], w.ring[o.A], off, e.PolyEvaluator)
		return raw(r.A, r.B)
	case "tcmux":
		r := trgsw.CMUX(w.ring[o.A], w.ring[o.B], bsk[o.X], off, e.PolyEvaluator)
		return raw(r.A, r.B)
	case "mul":
		r := e.PolyEvaluator.MulPoly(w.polys[o.A], w.polys[0])
		return raw(r.Coeffs)
	case "four":
		fp := e.PolyEvaluator.ToFourierPoly(w.polys[o.A])
		r := e.PolyEvaluator.ToPoly(fp)
		return []res{{h: HashF(fp.Coeffs) ^ Hash32(r.Coeffs), dec: -1}}
	case "ses":
		a := trlwe.SampleExtractIndex(w.ring[o.A], 5)
		b := tlwe.NewTLWELv1()
		trlwe.SampleExtractIndexAssign(w.ring[o.A], 7, b)
		return raw(a.P, b.P)
	case "ks":
		return raw(trgsw.IdentityKeySwitching(w.one[o.A], ksk).P)
	case "ksassign":
		c := tlwe.NewTLWELv0()
		trgsw.IdentityKeySwitchingAssign(w.one[o.A], ksk, c)
		return raw(c.P)
	case "re":
		return raw(proxyreenc.ReencryptTLWELv0(w.in[o.A], w.rk).P)
	case "dec":
		return []res{{h: 1, dec: b01(w.in[o.A].DecryptBool(s0))}}
	case "decr":
		h := uint64(1469598103934665603)
		for _, b := range w.ring[o.A].DecryptBool(s1, e.PolyEvaluator) {
			h = h*31 + uint64(b01(b))
		}
		return []res{{h: h, dec: -1}}
	case "lutgen":
		return raw(tabOf(lut.NewGenerator(w.m).GenLookUpTable(w.fun(o.F)))...)
	case "lutshare":
		return raw(tabOf(w.gen.GenLookUpTable(w.fun(o.F)))...)
	case "lutassigngen":
		t := lut.NewLookUpTable()
		w.gen.GenLookUpTableAssign(w.fun(o.F), t)
		return raw(tabOf(t)...)
	case "lutcustom":
		// the shared generator, with another modulus and scale
		return raw(tabOf(w.gen.GenLookUpTableCustom(w.fun(o.F), w.m+1, 1/float64(4*w.m)))...)
	case "lutfull":
		en := w.gen.Encoder
		f := w.fun(o.F)
		return raw(tabOf(w.gen.GenLookUpTableFull(func(x int) params.Torus { return en.Encode(f(x)) }))...)
	// randomised operations
	case "enc":
		c := tlwe.NewTLWELv0().EncryptBool(o.X%2 == 1, a0, s0)
		return []res{{h: Hash32(c.P[:len(s0)]), more: R{"ph": Limbs(Phase0(c, s0))}}}
	case "encm":
		c := tlwe.NewTLWELv0().EncryptLWEMessage(o.X, w.m, a0, s0)
		return []res{{h: Hash32(c.P[:len(s0)]), more: R{"ph": Limbs(Phase0(c, s0))}}}
	case "enc1":
		c := tlwe.NewTLWELv1().EncryptBool(o.X%2 == 1, a1, s1)
		return []res{{h: Hash32(c.P[:len(s1)]), more: R{"ph": Limbs(Phase(c.P, s1))}}}
	case "encpk":
		c := w.pk.EncryptBool(o.X%2 == 1, a0)
		return []res{{h: Hash32(c.P[:len(s0)]), more: R{"ph": Limbs(Phase0(c, s0))}}}
	case "encr":
		bs := make([]bool, w.n)
		for i := range bs {
			bs[i] = (o.X+1+i)%2 == 1
		}
		c := trlwe.NewTRLWELv1().EncryptBool(bs, a1, s1, e.PolyEvaluator)
		ph := RPhase(c, s1)
		ls := make([][]int, 20)
		for i := range ls {
			ls[i] = Limbs(ph[i])
		}
		return []res{{h: Hash32(c.A), more: R{"phs": ls}}}
	case "keygen":
		k := key.NewSecretKey()
		c, bin := [2]int{}, 1
		for i, v := range [][]params.Torus{k.KeyLv0, k.KeyLv1} {
			for _, x := range v {
				c[i] += int(x)
				if x > 1 {
					bin = 0
				}
			}
		}
		return []res{{h: Hash32(k.KeyLv0, k.KeyLv1), more: R{"n0": len(k.KeyLv0), "n1": len(k.KeyLv1), "c0": c[0], "c1": c[1], "binary": bin}}}
	case "ckgen":
		k := cloudkey.NewCloudKey(w.sk)
		g := params.GetTRGSWLv1()
		ok := 1
		for a := 1; a <= 4; a++ {
			if e.Bootstrap(w.in[a], k.BlindRotateTestvec, k.BootstrappingKey, k.KeySwitchingKey, k.DecompositionOffset).DecryptBool(s0) != (w.bits[a-1] == 1) {
				ok = 0
			}
		}
		return []res{{h: Hash32(k.KeySwitchingKey[1].P, k.KeySwitchingKey[len(k.KeySwitchingKey)-1].P), dec: ok, more: R{"ent": ents(k.KeySwitchingKey, 1<<g.BASEBIT, g.IKS_T, w.n, s1, s0)}}}
	case "pkgen":
		k := proxyreenc.NewPublicKeyLv0WithParams(s0, 20, a0)
		ls := [][]int{}
		vs := [][]params.Torus{}
		for _, c := range k.Encryptions {
			ls = append(ls, Limbs(Phase0(c, s0)))
			vs = append(vs, c.P)
		}
		return []res{{h: Hash32(vs...), more: R{"phs": ls}}}
	case "rkgen":
		k := proxyreenc.NewProxyReencryptionKeySymmetric(s0, w.sk2.KeyLv0)
		g := params.GetTRGSWLv1()
		return []res{{h: Hash32(k.KeyEncryptions[1].P, k.KeyEncryptions[len(k.KeyEncryptions)-1].P), more: R{"ent": ents(k.KeyEncryptions, 1<<g.BASEBIT, g.IKS_T, len(s0), s0, w.sk2.KeyLv0)}}}
	}
	panic("unknown operation " + o.O)
}

func tabOf(t *lut.LookUpTable) [][]params.Torus { return [][]params.Torus{t.Poly.A, t.Poly.B} }

var drawn = map[string]bool{"enc": true, "encm": true, "enc1": true, "encpk": true, "encr": true, "keygen": true, "ckgen": true, "pkgen": true, "rkgen": true}

func (w *world) shared() uint64 {
	var vs [][]params.Torus
	for _, c := range w.in[1:] {
		vs = append(vs, c.P)
	}
	for _, c := range w.ring {
		vs = append(vs, c.A, c.B)
	}
	for _, c := range w.one {
		vs = append(vs, c.P)
	}
	for _, p := range w.polys {
		vs = append(vs, p.Coeffs)
	}
	for _, f := range []string{"id", "inc", "rev", "neg"} {
		vs = append(vs, tabOf(w.tab[f])...)
	}
	vs = append(vs, w.sk.KeyLv0, w.sk.KeyLv1, w.ck.BlindRotateTestvec.A, w.ck.BlindRotateTestvec.B)
	for _, c := range w.ck.KeySwitchingKey {
		vs = append(vs, c.P)
	}
	for _, c := range w.rk.KeyEncryptions {
		vs = append(vs, c.P)
	}
	var fs [][]float64
	for _, b := range w.ck.BootstrappingKey {
		for _, c := range b.TRLWEFFT {
			fs = append(fs, c.A.Coeffs, c.B.Coeffs)
		}
	}
	return Hash32(vs...) ^ HashF(fs...)
}

type keys struct {
	sk, sk2 *key.SecretKey
	ck      *cloudkey.CloudKey
	rk      *proxyreenc.ProxyReencryptionKey
	pk      *proxyreenc.PublicKeyLv0
}

var made = map[string]*keys{}

func main() {
	t := NewTracer(os.Args[1])
	defer t.Close()
	rng := Rng(1201)
	Lines(os.Args[2], func(line []byte) {
		var p prog
		Must(json.Unmarshal(line, &p))
		SetLevel(p.Level)
		k := made[p.Level]
		if k == nil {
			k = &keys{sk: key.NewSecretKey(), sk2: key.NewSecretKey()}
			k.ck = cloudkey.NewCloudKey(k.sk)
			k.rk = proxyreenc.NewProxyReencryptionKeySymmetric(k.sk.KeyLv0, k.sk2.KeyLv0)
			k.pk = proxyreenc.NewPublicKeyLv0(k.sk.KeyLv0)
			made[p.Level] = k
		}
		w := &world{m: p.M, sk: k.sk, sk2: k.sk2, ck: k.ck, rk: k.rk, pk: k.pk, n: params.GetTRGSWLv1().N,
			in: make([]*tlwe.TLWELv0, 9), tab: map[string]*lut.LookUpTable{}, gen: lut.NewGenerator(p.M)}
		t.Guard("setting up", func() {
			a0, a1 := params.GetTLWELv0().ALPHA, params.GetTLWELv1().ALPHA
			for i := 1; i <= 4; i++ {
				b := rng.Intn(2)
				w.bits = append(w.bits, b)
				w.in[i] = tlwe.NewTLWELv0().EncryptBool(b == 1, a0, w.sk.KeyLv0)
			}
			for i := 5; i <= 8; i++ {
				x := rng.Intn(p.M)
				w.xs = append(w.xs, x)
				w.in[i] = tlwe.NewTLWELv0().EncryptLWEMessage(x, p.M, a0, w.sk.KeyLv0)
			}
			pe := poly.NewEvaluator(w.n)
			for i := 0; i < 4; i++ {
				bs := make([]bool, w.n)
				q := poly.NewPoly(w.n)
				for j := range bs {
					bs[j] = rng.Intn(2) == 1
					q.Coeffs[j] = params.Torus(rng.Uint32())
					if i == 0 {
						q.Coeffs[j] = params.Torus(rng.Intn(64) - 32)
					}
				}
				w.polys = append(w.polys, q)
				w.ring = append(w.ring, trlwe.NewTRLWELv1().EncryptBool(bs, a1, w.sk.KeyLv1, pe))
				w.one = append(w.one, tlwe.NewTLWELv1().EncryptBool(i%2 == 0, a1, w.sk.KeyLv1))
			}
			for _, f := range []string{"id", "inc", "rev", "neg"} {
				w.tab[f] = w.gen.GenLookUpTable(w.fun(f))
			}
		})
		before := w.shared()
		t.Emit(R{"ev": "reset", "level": p.Level, "m": p.M, "bits": w.bits, "msgs": w.xs})
		var in Intern
		emit := func(ev string, o op, r res) {
			rec := R{"ev": ev, "o": o.O, "g": o.G, "f": o.F, "a": o.A, "b": o.B, "x": o.X, "k": o.key(), "h": 1 + in.ID(r.h), "dec": r.dec}
			for f, v := range r.more {
				rec[f] = v
			}
			t.Emit(rec)
		}
		emitAll := func(ev string, done map[string]bool, o op, rs []res) {
			for i, r := range rs {
				q := o
				if i == 1 {
					q = op{O: "boot", A: o.B}
				}
				if done != nil {
					if done[q.key()] {
						continue
					}
					done[q.key()] = true
				}
				emit(ev, q, r)
			}
		}
		// every deterministic operation of the plan, alone with a new evaluator
		ref := map[string]bool{}
		ok := t.Guard("sequential runs", func() {
			for _, round := range p.Plan {
				for _, th := range round {
					for _, o := range th.Ops {
						q := o
						if drawn[o.O] || ref[o.key()] {
							continue
						}
						emitAll("seq", ref, q, w.do(evaluator.NewEvaluator(w.n), q))
					}
				}
			}
		})
		if !ok {
			return
		}
		evs := map[int]*evaluator.Evaluator{1: evaluator.NewEvaluator(w.n)}
		for _, round := range p.Plan {
			es := []int{}
			out := make([][][]res, len(round))
			got := make([]*evaluator.Evaluator, len(round))
			bad := make([]bool, len(round))
			start := make(chan bool)
			var wg sync.WaitGroup
			for i, th := range round {
				es = append(es, th.E)
				var e *evaluator.Evaluator
				if th.From == 0 {
					e = evs[th.E]
				} else if th.From > 0 {
					e = evs[th.From]
				}
				wg.Add(1)
				go func(i int, th thread, e *evaluator.Evaluator) {
					defer wg.Done()
					<-start
					bad[i] = !t.Guard(fmt.Sprintf("round of %s, thread %+v", p.Level, th), func() {
						switch {
						case th.From < 0:
							e = evaluator.NewEvaluator(w.n)
						case th.From > 0:
							e = e.ShallowCopy()
						}
						got[i] = e
						for _, o := range th.Ops {
							out[i] = append(out[i], w.do(e, o))
						}
					})
				}(i, th, e)
			}
			close(start)
			wg.Wait()
			t.Emit(R{"ev": "round", "es": es})
			for i, th := range round {
				if bad[i] {
					return
				}
				evs[th.E] = got[i]
				for j, o := range th.Ops {
					emitAll("ret", nil, o, out[i][j])
				}
			}
		}
		t.Emit(R{"ev": "end", "shared": b01(w.shared() == before)})
	})
}
