// c03 replays call sequences over all kinds of objects and records, after
// every call, a fingerprint of everything alive and whether new objects share
// memory with others.
// usage: c03 TRACE PROGRAMS
package main

import (
	"encoding/json"
	"math"
	"math/rand"
	"os"
	"sort"

	"github.com/thedonutfactory/go-tfhe/bitutils"
	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/gates"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	. "verif.local/harness/vlib"
)

type op struct {
	C   string   `json:"c"`
	In  []int    `json:"in"`
	Kin []string `json:"kin"`
	Out string   `json:"out"`
	Eff string   `json:"eff"`
	O   int      `json:"o"`
	Rep int      `json:"rep"` // times the call is made, with the same operands and parameters
}
type prog struct {
	Level string `json:"level"`
	Ops   []op   `json:"ops"`
}

// parts lists the storage of an object.
type parts struct {
	t [][]params.Torus
	f [][]float64
	x []uint64
}

func bools(b []bool) []uint64 {
	r := make([]uint64, len(b))
	for i, v := range b {
		if v {
			r[i] = 1
		}
	}
	return r
}

func partsOf(o interface{}) (p parts) {
	switch v := o.(type) {
	case *tlwe.TLWELv0:
		p.t = [][]params.Torus{v.P}
	case *tlwe.TLWELv1:
		p.t = [][]params.Torus{v.P}
	case *trlwe.TRLWELv1:
		p.t = [][]params.Torus{v.A, v.B}
	case *trlwe.TRLWELv1FFT:
		p.f = [][]float64{v.A, v.B}
	case *trgsw.TRGSWLv1:
		for _, c := range v.TRLWE {
			p.t = append(p.t, c.A, c.B)
		}
	case *trgsw.TRGSWLv1FFT:
		for _, c := range v.TRLWEFFT {
			p.f = append(p.f, c.A.Coeffs, c.B.Coeffs)
		}
	case *lut.LookUpTable:
		p.t = [][]params.Torus{v.Poly.A, v.Poly.B}
	case poly.Poly:
		p.t = [][]params.Torus{v.Coeffs}
	case poly.FourierPoly:
		p.f = [][]float64{v.Coeffs}
	case *key.SecretKey:
		p.t = [][]params.Torus{v.KeyLv0, v.KeyLv1}
	case *cloudkey.CloudKey:
		p.t = append(p.t, v.BlindRotateTestvec.A, v.BlindRotateTestvec.B)
		for _, c := range v.KeySwitchingKey {
			p.t = append(p.t, c.P)
		}
		for _, g := range v.BootstrappingKey {
			for _, c := range g.TRLWEFFT {
				p.f = append(p.f, c.A.Coeffs, c.B.Coeffs)
			}
		}
		p.x = []uint64{uint64(v.DecompositionOffset)}
	case *proxyreenc.PublicKeyLv0:
		for _, c := range v.Encryptions {
			p.t = append(p.t, c.P)
		}
	case *proxyreenc.ProxyReencryptionKey:
		for _, c := range v.KeyEncryptions {
			p.t = append(p.t, c.P)
		}
		p.x = []uint64{uint64(v.Base), uint64(v.T)}
	case *lut.Generator:
		p.x = []uint64{uint64(v.PolyDegree), uint64(v.LookUpTableSize), uint64(v.Encoder.MessageModulus), math.Float64bits(v.Encoder.Scale)}
	case []bool:
		p.x = bools(v)
	default:
		panic("harness: unknown kind")
	}
	return
}

func (p parts) hash() uint64 {
	h := Hash32(p.t...)*31 + HashF(p.f...)
	for _, v := range p.x {
		h = h*1099511628211 + v
	}
	return h
}

func (p parts) spans() (s []Span) {
	for _, v := range p.t {
		s = append(s, SpanOf(v))
	}
	for _, v := range p.f {
		s = append(s, SpanOfF(v))
	}
	return
}

type store struct {
	objs []interface{}
	slot map[string][]int // kind -> slot -> object index (1-based)
}

// add appends an object and counts its memory overlaps with the others (and
// of its own parts with each other). Objects may have replaced their slices
// since they were added, so the ranges are collected anew.
func (s *store) add(o interface{}) (idx, ov int) {
	type tagged struct {
		Span
		own bool
	}
	var all []tagged
	for _, x := range partsOf(o).spans() {
		all = append(all, tagged{x, true})
	}
	for _, other := range s.objs {
		for _, x := range partsOf(other).spans() {
			all = append(all, tagged{x, false})
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Lo < all[j].Lo })
	var hiAny, hiOwn uintptr
	for _, x := range all {
		if x.Lo == x.Hi {
			continue
		}
		if (x.own && x.Lo < hiAny) || x.Lo < hiOwn {
			ov++
		}
		if x.Hi > hiAny {
			hiAny = x.Hi
		}
		if x.own && x.Hi > hiOwn {
			hiOwn = x.Hi
		}
	}
	s.objs = append(s.objs, o)
	return len(s.objs), ov
}

var (
	t   *Tracer
	rng *rand.Rand
	cks = map[string]*cloudkey.CloudKey{}
	// how often each call was made
	calls = map[string]int{}
	sks   = map[string]*key.SecretKey{}
)

func rndPoly(N int) poly.Poly {
	p := poly.NewPoly(N)
	for i := range p.Coeffs {
		p.Coeffs[i] = params.Torus(rng.Uint32())
	}
	return p
}

func fill(v []params.Torus) {
	for i := range v {
		v[i] = params.Torus(rng.Uint32())
	}
}

func run(p prog, line []byte) {
	SetLevel(p.Level)
	if sks[p.Level] == nil {
		sks[p.Level] = key.NewSecretKey()
		cks[p.Level] = cloudkey.NewCloudKey(sks[p.Level])
	}
	N := params.GetTRGSWLv1().N
	a0, a1 := params.GetTLWELv0().ALPHA, params.GetTLWELv1().ALPHA
	ev := evaluator.NewEvaluator(N)
	pe := poly.NewEvaluator(N)
	s := &store{slot: map[string][]int{}}
	put := func(k string, o interface{}) {
		s.objs = append(s.objs, o)
		i := len(s.objs)
		s.slot[k] = append(s.slot[k], i)
	}
	bitN := func() []bool {
		b := make([]bool, N)
		for i := range b {
			b[i] = rng.Intn(2) == 1
		}
		return b
	}
	put("ck", cks[p.Level])
	put("sk", sks[p.Level])
	put("sk", key.NewSecretKey())
	sk := sks[p.Level]
	for i := 0; i < 4; i++ {
		put("c0", tlwe.NewTLWELv0().EncryptBool(i&1 == 1, a0, sk.KeyLv0))
	}
	for i := 0; i < 2; i++ {
		put("c1", tlwe.NewTLWELv1().EncryptBool(i&1 == 1, a1, sk.KeyLv1))
		put("r1", trlwe.NewTRLWELv1().EncryptBool(bitN(), a1, sk.KeyLv1, pe))
		g := trgsw.NewTRGSWLv1().EncryptTorus(params.Torus(i), a1, sk.KeyLv1, pe)
		put("g", g)
		put("gf", trgsw.NewTRGSWLv1FFT(g, pe))
		put("rf", trlwe.NewTRLWELv1FFT(s.objs[s.slot["r1"][i]-1].(*trlwe.TRLWELv1), pe))
		put("t", lut.NewGenerator(2).GenLookUpTable(func(x int) int { return x ^ i }))
		put("p", rndPoly(N))
		put("f", pe.ToFourierPoly(rndPoly(N)))
		pk := proxyreenc.NewPublicKeyLv0WithParams(s.objs[s.slot["sk"][i]-1].(*key.SecretKey).KeyLv0, 12, a0)
		put("pk", pk)
		put("rk", proxyreenc.NewProxyReencryptionKeySymmetricWithParams(sk.KeyLv0, s.objs[s.slot["sk"][1-i]-1].(*key.SecretKey).KeyLv0, a0, 1, 3))
	}
	// some operands are blank, trivial or copies of one another
	for _, k := range []string{"c0", "c1", "r1", "p"} {
		var first [][]params.Torus
		for x, i := range s.slot[k] {
			p := partsOf(s.objs[i-1]).t
			if x == 0 {
				first = p
			}
			kind := rng.Intn(8)
			for j, v := range p {
				for y := range v {
					switch {
					case kind == 0:
						v[y] = 0
					case kind == 1 && x > 0:
						v[y] = first[j][y]
					case kind == 2 && (len(p) == 2 && j == 0 || len(p) == 1 && y < len(v)-1):
						v[y] = 0
					}
				}
			}
		}
	}
	put("ge", lut.NewGenerator(3))
	put("bl", []bool{true, false, true})

	var in Intern
	fps := func() []int {
		r := make([]int, len(s.objs))
		for i, o := range s.objs {
			r[i] = in.ID(partsOf(o).hash())
		}
		return r
	}
	t.Emit(R{"ev": "reset", "fp": fps(), "lvl": int(params.CurrentSecurityLevel)})
	for _, o := range p.Ops {
		ok := t.Guard(o.C, func() {
			ii := make([]int, len(o.In))
			obj := make([]interface{}, len(o.In))
			for i, sl := range o.In {
				ii[i] = s.slot[o.Kin[i]][sl-1]
				obj[i] = s.objs[ii[i]-1]
			}
			oi := 0
			var out interface{}
			if o.Out != "" && o.Eff != "new" {
				oi = s.slot[o.Out][o.O-1]
				out = s.objs[oi-1]
			}
			pr := draw(o.C, N)
			for rep := 0; rep < o.Rep; rep++ {
				res := call(o.C, pr, obj, out, ev, pe, N, a0, a1)
				ov := 0
				for i, r := range res {
					x, n := s.add(r)
					ov += n
					if i == 0 {
						oi = x
						s.slot[o.Out][o.O-1] = x
					}
				}
				t.Emit(R{"ev": "call", "c": o.C, "ii": ii, "oi": oi, "fp": fps(), "ov": ov, "lvl": int(params.CurrentSecurityLevel)})
			}
		})
		if !ok {
			return
		}
	}
}

// param holds the parameters of a call that are not objects.
type param struct {
	k, m int
	w    params.Torus
	fl   float64
}

func draw(c string, N int) param {
	k := rng.Intn(N)
	m := rng.Intn(4)
	w := params.Torus(rng.Uint32())
	fl := rng.Float64()*4 - 2
	// the first calls of every kind use the neutral and extreme parameters
	calls[c]++
	switch calls[c] % 6 {
	case 1:
		k, m, w, fl = 0, 0, 0, 0
	case 2:
		k, m, w, fl = 1, 1, 1, 1
	case 3:
		k, m, w, fl = N-1, 3, ^params.Torus(0), -1
	}
	return param{k, m, w, fl}
}

func call(c string, pr param, in []interface{}, out interface{}, ev *evaluator.Evaluator, pe *poly.Evaluator, N int, a0, a1 float64) (res []interface{}) {
	c0 := func(i int) *tlwe.TLWELv0 { return in[i].(*tlwe.TLWELv0) }
	c1 := func(i int) *tlwe.TLWELv1 { return in[i].(*tlwe.TLWELv1) }
	r1 := func(i int) *trlwe.TRLWELv1 { return in[i].(*trlwe.TRLWELv1) }
	tab := func(i int) *lut.LookUpTable { return in[i].(*lut.LookUpTable) }
	pp := func(i int) poly.Poly { return in[i].(poly.Poly) }
	ff := func(i int) poly.FourierPoly { return in[i].(poly.FourierPoly) }
	sk := func(i int) *key.SecretKey { return in[i].(*key.SecretKey) }
	gf := func(i int) *trgsw.TRGSWLv1FFT { return in[i].(*trgsw.TRGSWLv1FFT) }
	pk := func(i int) *proxyreenc.PublicKeyLv0 { return in[i].(*proxyreenc.PublicKeyLv0) }
	ge := func(i int) *lut.Generator { return in[i].(*lut.Generator) }
	var ck *cloudkey.CloudKey
	var off params.Torus
	var bsk []*trgsw.TRGSWLv1FFT
	var ksk []*tlwe.TLWELv0
	for _, x := range in {
		if k, ok := x.(*cloudkey.CloudKey); ok {
			ck, off, bsk, ksk = k, k.DecompositionOffset, k.BootstrappingKey, k.KeySwitchingKey
		}
	}
	if ck == nil { // gadget calls name no cloud key; any offset does
		for _, k := range cks {
			off = k.DecompositionOffset
		}
	}
	oc0 := func() *tlwe.TLWELv0 { return out.(*tlwe.TLWELv0) }
	oc1 := func() *tlwe.TLWELv1 { return out.(*tlwe.TLWELv1) }
	or1 := func() *trlwe.TRLWELv1 { return out.(*trlwe.TRLWELv1) }
	ot := func() *lut.LookUpTable { return out.(*lut.LookUpTable) }
	op := func() poly.Poly { return out.(poly.Poly) }
	of := func() poly.FourierPoly { return out.(poly.FourierPoly) }
	add := func(o interface{}) { res = append(res, o) }
	gate2 := map[string]func(a, b *gates.Ciphertext, ck *cloudkey.CloudKey) *gates.Ciphertext{
		"AND": gates.AND, "OR": gates.OR, "NAND": gates.NAND, "NOR": gates.NOR, "XOR": gates.XOR, "XNOR": gates.XNOR,
		"ANDNY": gates.ANDNY, "ANDYN": gates.ANDYN, "ORNY": gates.ORNY, "ORYN": gates.ORYN}
	batch := map[string]func(in [][2]*gates.Ciphertext, ck *cloudkey.CloudKey) []*gates.Ciphertext{
		"bAND": gates.BatchAND, "bOR": gates.BatchOR, "bNAND": gates.BatchNAND, "bNOR": gates.BatchNOR, "bXOR": gates.BatchXOR, "bXNOR": gates.BatchXNOR}
	if g, ok := gate2[c]; ok {
		add(g(c0(0), c0(1), ck))
		return
	}
	if g, ok := batch[c]; ok {
		ins := [][2]*gates.Ciphertext{{c0(0), c0(1)}, {c0(1), c0(2)}, {c0(2), c0(2)}}
		keep := append([][2]*gates.Ciphertext(nil), ins...)
		for _, r := range g(ins, ck) {
			add(r)
		}
		for i := range ins {
			if ins[i] != keep[i] {
				panic("/repo/: batch input list rewritten")
			}
		}
		return
	}
	k, m, w, fl := pr.k, pr.m, pr.w, pr.fl
	fs := func(n int) []float64 {
		r := make([]float64, n)
		for i := range r {
			r[i] = rng.Float64()
		}
		return r
	}
	fun := func(x int) int { return x*k + m }
	full := func(x int) params.Torus { return params.Torus(x+1) * w }
	switch c {
	case "add":
		add(c0(0).Add(c0(1)))
	case "sub":
		add(c0(0).Sub(c0(1)))
	case "mul":
		add(c0(0).Mul(c0(1)))
	case "addmul":
		add(c0(0).AddMul(c0(1), w))
	case "submul":
		add(c0(0).SubMul(c0(1), w))
	case "pnand":
		add(ev.PrepareNAND(c0(0), c0(1)))
	case "pand":
		add(ev.PrepareAND(c0(0), c0(1)))
	case "por":
		add(ev.PrepareOR(c0(0), c0(1)))
	case "pxor":
		add(ev.PrepareXOR(c0(0), c0(1)))
	case "neg":
		add(c0(0).Neg())
	case "not":
		add(gates.NOT(c0(0)))
	case "copy":
		add(gates.Copy(c0(0)))
	case "const":
		add(gates.Constant(m&1 == 1))
	case "addassign":
		c0(0).AddAssign(c0(1), oc0())
	case "mux":
		add(gates.MUX(c0(0), c0(1), c0(2), ck))
	case "enc0":
		oc0().EncryptF64(fl, a0, sk(0).KeyLv0)
	case "encb0":
		oc0().EncryptBool(m&1 == 1, a0, sk(0).KeyLv0)
	case "encm0":
		oc0().EncryptLWEMessage(m, 4, a0, sk(0).KeyLv0)
	case "dec0":
		c0(0).DecryptBool(sk(1).KeyLv0)
	case "decm0":
		c0(0).DecryptLWEMessage(4, sk(1).KeyLv0)
	case "setb0":
		oc0().SetB(w)
	case "enc1":
		oc1().EncryptF64(fl, a1, sk(0).KeyLv1)
	case "encb1":
		oc1().EncryptBool(m&1 == 1, a1, sk(0).KeyLv1)
	case "dec1":
		c1(0).DecryptBool(sk(1).KeyLv1)
	case "encr":
		or1().EncryptF64(fs(N), a1, sk(0).KeyLv1, pe)
	case "encbr":
		or1().EncryptBool(make([]bool, N), a1, sk(0).KeyLv1, pe)
	case "decr":
		r1(0).DecryptBool(sk(1).KeyLv1, pe)
	case "ext":
		add(trlwe.SampleExtractIndex(r1(0), k))
	case "extassign":
		trlwe.SampleExtractIndexAssign(r1(0), k, oc1())
	case "ks":
		add(trgsw.IdentityKeySwitching(c1(0), ksk))
	case "ksassign":
		trgsw.IdentityKeySwitchingAssign(c1(0), ksk, oc0())
	case "boot":
		ev.Bootstrap(c0(0), ck.BlindRotateTestvec, bsk, ksk, off)
	case "bootassign":
		ev.BootstrapAssign(c0(0), ck.BlindRotateTestvec, bsk, ksk, off, oc0())
	case "bootlut":
		add(ev.BootstrapLUT(c0(0), tab(1), bsk, ksk, off))
	case "bootlutassign":
		ev.BootstrapLUTAssign(c0(0), tab(1), bsk, ksk, off, oc0())
	case "bootluttemp":
		ev.BootstrapLUTTemp(c0(0), tab(1), bsk, ksk, off)
	case "bootfunc":
		add(ev.BootstrapFunc(c0(0), fun, 2, bsk, ksk, off))
	case "bootfuncassign":
		ev.BootstrapFuncAssign(c0(0), fun, 2, bsk, ksk, off, oc0())
	case "brassign":
		ev.BlindRotateAssign(c0(0), r1(1), bsk, off, or1())
	case "br":
		trgsw.BlindRotate(c0(0), r1(1), bsk, off, pe)
	case "bbr":
		srcs := []*tlwe.TLWELv0{c0(0), c0(1), c0(0)}
		for _, r := range trgsw.BatchBlindRotate(srcs, r1(2), bsk, off) {
			add(r)
		}
	case "xpassign":
		ev.ExternalProductAssign(gf(1), r1(0), off, or1())
	case "xp":
		trgsw.ExternalProductWithFFT(gf(1), r1(0), off, pe)
	case "cmuxassign":
		ev.CMuxAssign(gf(2), r1(0), r1(1), off, or1())
	case "cmux":
		trgsw.CMUX(r1(0), r1(1), gf(2), off, pe)
	case "encg":
		out.(*trgsw.TRGSWLv1).EncryptTorus(params.Torus(m), a1, sk(0).KeyLv1, pe)
	case "tofft":
		add(trgsw.NewTRGSWLv1FFT(in[0].(*trgsw.TRGSWLv1), pe))
	case "rfft":
		add(trlwe.NewTRLWELv1FFT(r1(0), pe))
	case "gen":
		add(ge(0).GenLookUpTable(fun))
	case "genassign":
		ge(0).GenLookUpTableAssign(fun, ot())
	case "full":
		add(ge(0).GenLookUpTableFull(full))
	case "fullassign":
		ge(0).GenLookUpTableFullAssign(full, ot())
	case "custom":
		add(ge(0).GenLookUpTableCustom(fun, 2+m, 0.25))
	case "tcopy":
		add(tab(0).Copy())
	case "tcopyfrom":
		ot().CopyFrom(tab(0))
	case "tclear":
		ot().Clear()
	case "mulp":
		add(pe.MulPoly(pp(0), pp(1)))
	case "mulpassign":
		pe.MulPolyAssign(pp(0), pp(1), op())
	case "muladdp":
		pe.MulAddPolyAssign(pp(0), pp(1), op())
	case "mulsubp":
		pe.MulSubPolyAssign(pp(0), pp(1), op())
	case "rotp":
		poly.PolyMulWithXKInPlace(pp(0).Coeffs, k, op().Coeffs)
	case "rotdirect":
		pe.PolyMulWithXKDirect(pp(0).Coeffs, k+m*N, op().Coeffs)
	case "rotpool":
		pe.PolyMulWithXK(pp(0).Coeffs, k+m*N)
	case "pcopy":
		add(pp(0).Copy())
	case "pclear":
		op().Clear()
	case "tof":
		add(pe.ToFourierPoly(pp(0)))
	case "tofassign":
		pe.ToFourierPolyAssign(pp(0), of())
	case "top":
		add(pe.ToPoly(ff(0)))
	case "topassign":
		pe.ToPolyAssign(ff(0), op())
	case "topunsafe":
		pe.ToPolyAssignUnsafe(ff(0), op())
	case "topaddunsafe":
		pe.ToPolyAddAssignUnsafe(ff(0), op())
	case "topsubunsafe":
		pe.ToPolySubAssignUnsafe(ff(0), op())
	case "fadd":
		add(pe.AddFourierPoly(ff(0), ff(1)))
	case "fsub":
		add(pe.SubFourierPoly(ff(0), ff(1)))
	case "fmul":
		add(pe.MulFourierPoly(ff(0), ff(1)))
	case "fcopy":
		add(ff(0).Copy())
	case "faddassign":
		pe.AddFourierPolyAssign(ff(0), ff(1), of())
	case "fsubassign":
		pe.SubFourierPolyAssign(ff(0), ff(1), of())
	case "fmulassign":
		pe.MulFourierPolyAssign(ff(0), ff(1), of())
	case "fmuladd":
		pe.MulAddFourierPolyAssign(ff(0), ff(1), of())
	case "fmulsub":
		pe.MulSubFourierPolyAssign(ff(0), ff(1), of())
	case "fscale":
		pe.FloatMulFourierPolyAssign(ff(0), fl, of())
	case "fscaleadd":
		pe.FloatMulAddFourierPolyAssign(ff(0), fl, of())
	case "fcopyfrom":
		o := of()
		o.CopyFrom(ff(0))
	case "fclear":
		of().Clear()
	case "decomp":
		g := params.GetTRGSWLv1()
		buf := make([]poly.Poly, g.L)
		for i := range buf {
			buf[i] = poly.NewPoly(N)
		}
		poly.DecomposePolyAssign(pp(0).Coeffs, int(g.BGBIT), g.L, off, buf)
	case "newsk":
		add(key.NewSecretKey())
	case "newpk":
		add(proxyreenc.NewPublicKeyLv0WithParams(sk(0).KeyLv0, 12, a0))
	case "symrk":
		add(proxyreenc.NewProxyReencryptionKeySymmetricWithParams(sk(0).KeyLv0, sk(1).KeyLv0, a0, 1, 3))
	case "asymrk":
		add(proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(sk(0).KeyLv0, pk(1), a0, 1, 3))
	case "reenc":
		add(proxyreenc.ReencryptTLWELv0(c0(0), in[1].(*proxyreenc.ProxyReencryptionKey)))
	case "pkenc":
		add(pk(0).EncryptF64(fl, a0))
	case "pkencb":
		add(pk(0).EncryptBool(m&1 == 1, a0))
	case "encbits":
		for _, r := range bitutils.EncryptBits(in[0].([]bool), a0, sk(1).KeyLv0) {
			add(r)
		}
	case "decbits":
		bitutils.DecryptBits([]*tlwe.TLWELv0{c0(0), c0(1)}, sk(2).KeyLv0)
	case "newck":
		add(cloudkey.NewCloudKey(sk(0)))
	default:
		panic("harness: unknown call " + c)
	}
	return
}

func main() {
	t = NewTracer(os.Args[1])
	defer t.Close()
	rng = Rng(int64(len(os.Args[2])))
	Lines(os.Args[2], func(b []byte) {
		var p prog
		Must(json.Unmarshal(b, &p))
		run(p, b)
	})
}
