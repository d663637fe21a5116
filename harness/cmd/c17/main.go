// c17 reads parameters and creates objects along histories of level changes.
// usage: c17 TRACE hist PROGRAMS | c17 TRACE pairs PAIRS | c17 TRACE cloud LEVELS...
package main

import (
	"encoding/json"
	"os"
	"regexp"
	"strconv"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/evaluator"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/lut"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	. "verif.local/harness/vlib"
)

var t *Tracer

func fl(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }

func num(re, s string) int {
	m := regexp.MustCompile(re).FindStringSubmatch(s)
	if m == nil {
		return -1
	}
	v, _ := strconv.Atoi(m[1])
	return v
}

func set(x string, id int) {
	if x == "?" {
		params.CurrentSecurityLevel = params.SecurityLevel(id)
	} else {
		SetLevel(x)
	}
	t.Emit(R{"ev": "set", "x": x, "id": id})
}

var accessors = []string{"lwe0", "lwe1", "rlwe", "rgsw", "ksk", "bsk", "info", "blocks", "useblk"}

func get(x string) {
	var r R
	switch x {
	case "lwe0":
		p := params.GetTLWELv0()
		r = R{"n": p.N, "a": fl(p.ALPHA)}
		p.N, p.ALPHA = 1, 1 // the caller's copy only
	case "lwe1":
		p := params.GetTLWELv1()
		r = R{"n": p.N, "a": fl(p.ALPHA)}
		p.N, p.ALPHA = 1, 1
	case "rlwe":
		p := params.GetTRLWELv1()
		r = R{"n": p.N, "a": fl(p.ALPHA)}
		p.N, p.ALPHA = 1, 1
	case "rgsw":
		p := params.GetTRGSWLv1()
		r = R{"n": p.N, "nbit": p.NBIT, "bgbit": int(p.BGBIT), "bg": int(p.BG), "l": p.L, "basebit": p.BASEBIT, "t": p.IKS_T, "a": fl(p.ALPHA), "blk": p.BlockSize}
		p.N, p.L, p.BGBIT = 1, 1, 1
	case "ksk":
		r = R{"a": fl(params.KSKAlpha())}
	case "bsk":
		r = R{"a": fl(params.BSKAlpha())}
	case "info":
		s := params.SecurityInfo()
		bits := num(`^(\d+)-bit`, s)
		if bits < 0 {
			bits = num(`\((\d+)-bit`, s)
		}
		r = R{"text": s, "bits": bits, "mm": num(`messageModulus=(\d+)`, s), "nn": num(`N=(\d+)`, s)}
	case "blocks":
		r = R{"v": params.GetBlockCount()}
	case "useblk":
		r = R{"v": params.UseBlockBlindRotation()}
	}
	t.Emit(R{"ev": "get", "x": x, "r": r})
}

func rows(g *trgsw.TRGSWLv1FFT) []int {
	r := []int{}
	for _, x := range g.TRLWEFFT {
		r = append(r, len(x.A.Coeffs), len(x.B.Coeffs))
	}
	return r
}

var evs = map[int]*poly.Evaluator{}

func pe() *poly.Evaluator {
	n := params.GetTRGSWLv1().N
	if evs[n] == nil {
		evs[n] = poly.NewEvaluator(n)
	}
	return evs[n]
}

func mk(x string) {
	rec := R{"ev": "make", "x": x}
	switch x {
	case "tlwe0":
		rec["r"] = []int{len(tlwe.NewTLWELv0().P)}
	case "tlwe1":
		rec["r"] = []int{len(tlwe.NewTLWELv1().P)}
	case "enc0":
		k := key.NewSecretKey()
		rec["r"] = []int{len(tlwe.NewTLWELv0().EncryptBool(true, params.GetTLWELv0().ALPHA, k.KeyLv0).P)}
	case "enc1":
		k := key.NewSecretKey()
		rec["r"] = []int{len(tlwe.NewTLWELv1().EncryptBool(true, params.GetTLWELv1().ALPHA, k.KeyLv1).P)}
	case "trlwe":
		c := trlwe.NewTRLWELv1()
		rec["r"] = []int{len(c.A), len(c.B)}
	case "trlwefft":
		c := trlwe.NewTRLWELv1FFTDummy()
		rec["r"] = []int{len(c.A), len(c.B)}
	case "encr":
		k := key.NewSecretKey()
		c := trlwe.NewTRLWELv1().EncryptBool(make([]bool, params.GetTRLWELv1().N), params.GetTRLWELv1().ALPHA, k.KeyLv1, pe())
		rec["r"] = []int{len(c.A), len(c.B)}
	case "trgsw":
		r := []int{}
		for _, c := range trgsw.NewTRGSWLv1().TRLWE {
			r = append(r, len(c.A), len(c.B))
		}
		rec["r"] = r
	case "trgswfft":
		k := key.NewSecretKey()
		rec["r"] = rows(trgsw.NewTRGSWLv1FFT(trgsw.NewTRGSWLv1().EncryptTorus(1, params.GetTRGSWLv1().ALPHA, k.KeyLv1, pe()), pe()))
	case "dummy":
		rec["r"] = rows(trgsw.NewTRGSWLv1FFTDummy(pe()))
	case "key":
		k := key.NewSecretKey()
		rec["r"] = []int{len(k.KeyLv0), len(k.KeyLv1)}
	case "lut":
		l := lut.NewLookUpTable()
		rec["r"] = []int{len(l.Poly.A), len(l.Poly.B)}
	case "eval", "copy":
		e := evaluator.NewEvaluator(params.GetTRGSWLv1().N)
		if x == "copy" {
			e = e.ShallowCopy()
		}
		k := 2 * params.GetTRGSWLv1().L
		ring, lv0 := []int{}, []int{}
		for i := 0; i < k; i++ {
			ring = append(ring, len(e.Decomposer.GetPolyDecomposedBuffer(k)[i].Coeffs), len(e.Decomposer.GetPolyFourierDecomposedBuffer(k)[i].Coeffs))
		}
		for i := 0; i < 5; i++ {
			lv0 = append(lv0, len(e.Buffers.GetNextResult().P))
		}
		rec["deg"], rec["dec"], rec["ring"], rec["lv0"] = e.PolyEvaluator.Degree(), len(ring)/2, ring, lv0
	}
	t.Emit(rec)
}

func cloud(ck *cloudkey.CloudKey) {
	// every entry of either key has one size
	row := rows(ck.BootstrappingKey[0])
	for _, b := range ck.BootstrappingKey {
		r := rows(b)
		if len(r) != len(row) {
			row = append(row, -1)
		}
		for i := range r {
			if i >= len(row) || r[i] != row[i] {
				row = append(r, -1)
			}
		}
	}
	kr := len(ck.KeySwitchingKey[0].P)
	for _, c := range ck.KeySwitchingKey {
		if len(c.P) != kr {
			kr = -1
		}
	}
	t.Emit(R{"ev": "make", "x": "cloud", "bsk": len(ck.BootstrappingKey), "ksk": len(ck.KeySwitchingKey), "row": row, "kskrow": []int{kr},
		"test": []int{len(ck.BlindRotateTestvec.A), len(ck.BlindRotateTestvec.B)}})
}

type step struct {
	Op, X string
	ID    int
}

func main() {
	t = NewTracer(os.Args[1])
	defer t.Close()
	switch os.Args[2] {
	case "hist":
		Lines(os.Args[3], func(line []byte) {
			var ops []step
			Must(json.Unmarshal(line, &ops))
			t.Guard(string(line), func() {
				for _, o := range ops {
					switch o.Op {
					case "set":
						set(o.X, o.ID)
					case "get":
						get(o.X)
					case "make":
						mk(o.X)
					}
				}
			})
		})
	case "pairs":
		all := func(q []interface{}) {
			set(q[0].(string), int(q[1].(float64)))
			for _, a := range accessors {
				get(a)
			}
			for _, o := range []string{"tlwe0", "tlwe1", "trlwe", "trgsw", "dummy", "key", "lut"} {
				mk(o)
			}
		}
		Lines(os.Args[3], func(line []byte) {
			var p struct{ Fr, To []interface{} }
			Must(json.Unmarshal(line, &p))
			t.Guard(string(line), func() { all(p.Fr); all(p.To) })
		})
	default:
		for _, lv := range os.Args[3:] {
			t.Guard("cloud key at "+lv, func() {
				set(lv, 0)
				cloud(cloudkey.NewCloudKey(key.NewSecretKey()))
				cloud(cloudkey.NewCloudKeyNoKSK())
			})
		}
	}
}
