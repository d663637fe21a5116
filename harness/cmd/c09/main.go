// c09 records every part of generated cloud keys, decrypted with the secret
// key, and key switchings over crafted masks.
// usage: c09 TRACE LEVEL ROWS FULL SINGLES CASES
package main

import (
	"encoding/json"
	"math"
	"math/rand"
	"os"
	"strconv"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"

	. "verif.local/harness/vlib"
)

type cse struct{ E, K, O, Sh, B string }

var (
	t   *Tracer
	rng *rand.Rand
)

func isqrt(n int) int { return int(math.Sqrt(float64(n))) }

func distinct(vs ...int) []int {
	seen := map[int]bool{}
	r := []int{}
	for _, v := range vs {
		if !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	return r
}

func distinctT(vs []params.Torus) [][]int {
	seen := map[params.Torus]bool{}
	r := [][]int{}
	for _, v := range vs {
		if !seen[v] {
			seen[v] = true
			r = append(r, Limbs(v))
		}
	}
	return r
}

func bits(k []params.Torus) []int {
	r := make([]int, len(k))
	for i, v := range k {
		r[i] = int(v)
	}
	return r
}

// coef is coefficient k of b - a*s in the negacyclic ring.
func coef(a, b, s []params.Torus, k int) params.Torus {
	n := len(a)
	r := b[k]
	for j := 0; j < n; j++ {
		if s[j] == 0 {
			continue
		}
		if j <= k {
			r -= a[k-j] * s[j]
		} else {
			r += a[n+k-j] * s[j]
		}
	}
	return r
}

func main() {
	t = NewTracer(os.Args[1])
	defer t.Close()
	level := os.Args[2]
	num := func(i int) int { v, err := strconv.Atoi(os.Args[i]); Must(err); return v }
	rows, full, singles := num(3), num(4), num(5)
	rng = Rng(int64(params.CurrentSecurityLevel) + int64(len(level)))
	SetLevel(level)
	t.Emit(R{"ev": "reset", "level": level})
	g := params.GetTRGSWLv1()
	n0, N, bb, kt, L := params.GetTLWELv0().N, g.N, g.BASEBIT, g.IKS_T, g.L
	base := 1 << uint(bb)
	var sk *key.SecretKey
	var ck *cloudkey.CloudKey
	if !t.Guard("keygen", func() { sk = key.NewSecretKey(); ck = cloudkey.NewCloudKey(sk) }) {
		return
	}
	t.Emit(R{"ev": "sk1", "s": bits(sk.KeyLv1)})
	t.Guard("const", func() {
		var kl, bl, bd []int
		for i, c := range ck.KeySwitchingKey {
			if i%base != 0 {
				kl = append(kl, len(c.P))
			}
		}
		for _, c := range ck.BootstrappingKey {
			bl = append(bl, len(c.TRLWEFFT))
			for _, r := range c.TRLWEFFT {
				bd = append(bd, r.A.Degree(), r.B.Degree())
			}
		}
		tv := ck.BlindRotateTestvec
		t.Emit(R{"ev": "const", "off": Limbs(ck.DecompositionOffset), "tva": distinctT(tv.A), "tvb": distinctT(tv.B), "tvn": []int{len(tv.A), len(tv.B)},
			"nksk": len(ck.KeySwitchingKey), "nbsk": len(ck.BootstrappingKey), "kl": distinct(kl...), "bl": distinct(bl...), "bd": distinct(bd...)})
	})
	// key switching key
	if rows > N {
		rows = N
	}
	t.Guard("ksk", func() {
		idx := rng.Perm(N)[:rows]
		idx[0] = 0
		idx[rows-1] = N - 1
		for _, i := range idx {
			ph := [][]int{}
			for j := 0; j < kt; j++ {
				for k := 1; k < base; k++ {
					ph = append(ph, Limbs(Phase(ck.KeySwitchingKey[base*kt*i+base*j+k].P, sk.KeyLv0)))
				}
			}
			t.Emit(R{"ev": "row", "i": i, "s": int(sk.KeyLv1[i]), "ph": ph})
		}
		t.Emit(R{"ev": "rowend", "root": isqrt(rows * kt * (base - 1))})
	})
	// bootstrapping key
	t.Guard("bsk", func() {
		pe := poly.NewEvaluator(N)
		cnt := 0
		fullIdx := map[int]bool{}
		for len(fullIdx) < full {
			fullIdx[rng.Intn(n0)] = true
		}
		for i := 0; i < n0; i++ {
			for r := 0; r < 2*L; r++ {
				row := ck.BootstrappingKey[i].TRLWEFFT[r]
				a, b := pe.ToPoly(row.A.Copy()).Coeffs, pe.ToPoly(row.B.Copy()).Coeffs
				ph := [][]int{}
				m := 4
				if fullIdx[i] {
					m = N
				}
				for k := 0; k < m; k++ {
					ph = append(ph, Limbs(coef(a, b, sk.KeyLv1, k)))
				}
				cnt += m
				t.Emit(R{"ev": "bsk", "i": i, "mu": int(sk.KeyLv0[i]), "r": r, "ph": ph})
			}
		}
		t.Emit(R{"ev": "bskend", "root": isqrt(cnt)})
	})
	// a noiseless key with random masks, made entry by entry where needed
	exact := make([]*tlwe.TLWELv0, base*kt*N)
	need := func(i int) {
		for j := 0; j < kt; j++ {
			for k := 0; k < base; k++ {
				x := base*kt*i + base*j + k
				if exact[x] == nil {
					c := tlwe.NewTLWELv0()
					copy(c.P, Craft(rng, ShapeFresh, params.Torus(k)*sk.KeyLv1[i]*(params.Torus(1)<<uint(32-bb*(j+1))), sk.KeyLv0, N))
					exact[x] = c
				}
			}
		}
	}
	dense := base*kt*N*(n0+1) < 100000000
	prev := tlwe.NewTLWELv0()
	do := func(c cse, at []int, a []params.Torus, body params.Torus) {
		src := tlwe.NewTLWELv1()
		for x, i := range at {
			src.P[i-1] = a[x]
		}
		src.P[N] = body
		ksk := ck.KeySwitchingKey
		if c.K == "exact" {
			ksk = exact
			for _, i := range at {
				need(i - 1)
			}
		}
		out := tlwe.NewTLWELv0()
		if c.O == "junk" {
			for i := range out.P {
				out.P[i] = params.Torus(rng.Uint32())
			}
		} else if c.O == "prev" {
			out = prev
		}
		pin := Phase(src.P, sk.KeyLv1)
		b, _ := json.Marshal(c)
		t.Guard(string(b), func() {
			if c.E == "assign" {
				trgsw.IdentityKeySwitchingAssign(src, ksk, out)
			} else {
				out = trgsw.IdentityKeySwitching(src, ksk)
			}
			prev = out
			al := make([][]int, len(a))
			for i := range a {
				al[i] = Limbs(a[i])
			}
			t.Emit(R{"ev": "ks", "e": c.E, "k": c.K, "at": at, "a": al, "pi": Limbs(pin), "po": Limbs(Phase(out.P, sk.KeyLv0)), "len": len(out.P)})
		})
	}
	u := uint(32 - bb*kt)
	half := params.Torus(1) << (u - 1)
	grid := func() params.Torus { return params.Torus(rng.Uint32()) >> u << u }
	Lines(os.Args[6], func(line []byte) {
		var c cse
		Must(json.Unmarshal(line, &c))
		at, a := []int{}, []params.Torus{}
		for i := 1; i <= N; i++ {
			if !dense && c.K == "exact" && rng.Intn(N) >= 20 {
				continue
			}
			var v params.Torus
			switch c.Sh {
			case "rand":
				v = params.Torus(rng.Uint32())
			case "max":
				v = ^params.Torus(0)
			case "half":
				v = grid() + half
			case "below":
				v = grid() + half - 1
			case "grid":
				v = grid()
			case "mix":
				v = grid() + half - params.Torus(rng.Intn(2))
			case "carry": // rounds up through all digits
				v = ^params.Torus(0) - params.Torus(rng.Intn(int(half)))
			case "sparse":
				if rng.Intn(N) >= 12 {
					continue
				}
				v = params.Torus(rng.Uint32())
			case "one": // one digit at a time
				v = (1 + params.Torus(rng.Intn(base-1))) << uint(32-bb*(1+rng.Intn(kt)))
			case "zero":
				continue
			}
			at, a = append(at, i), append(a, v)
		}
		var body params.Torus
		switch c.B {
		case "rand":
			body = params.Torus(rng.Uint32())
		case "max":
			body = ^params.Torus(0)
		case "half":
			body = 1 << 31
		}
		do(c, at, a, body)
	})
	// every position on its own
	for i := 0; i < singles; i++ {
		p := 1 + i%N
		c := cse{E: []string{"assign", "new"}[rng.Intn(2)], K: []string{"exact", "real"}[rng.Intn(2)], O: "junk"}
		if rng.Intn(3) > 0 {
			do(c, []int{p}, []params.Torus{(1 + params.Torus(rng.Intn(base-1))) << uint(32-bb*(1+rng.Intn(kt)))}, 0)
		} else {
			do(c, []int{p}, []params.Torus{params.Torus(rng.Uint32())}, params.Torus(rng.Uint32()))
		}
	}
}
