// c13 gathers statistics of the randomness in ciphertexts and keys.
// usage: c13 TRACE LEVEL SCALE MANY
package main

import (
	"fmt"
	"math"
	"math/bits"
	"os"
	"sort"
	"strconv"
	"sync"

	"github.com/thedonutfactory/go-tfhe/cloudkey"
	"github.com/thedonutfactory/go-tfhe/key"
	"github.com/thedonutfactory/go-tfhe/params"
	"github.com/thedonutfactory/go-tfhe/poly"
	"github.com/thedonutfactory/go-tfhe/proxyreenc"
	"github.com/thedonutfactory/go-tfhe/tlwe"
	"github.com/thedonutfactory/go-tfhe/trgsw"
	"github.com/thedonutfactory/go-tfhe/trlwe"

	. "verif.local/harness/vlib"
)

type T = params.Torus

var t *Tracer

// mstat collects what is known about the masks of one kind.
type mstat struct {
	kind       string
	fps        []uint64
	n, elems   int
	bits       [32]int
	hi, lo     [256]int
	ser, cross int // top bits equal to the neighbour's / to the same place before
	serN, crN  int
	eq         int
	pos0, pos1 []int
	last       []T
}

func masks(kind string, dim int) *mstat {
	return &mstat{kind: kind, pos0: make([]int, dim), pos1: make([]int, dim)}
}

func (m *mstat) add(a []T) {
	m.fps = append(m.fps, Hash32(a))
	m.n++
	if m.elems > 4000000 {
		return
	}
	m.elems += len(a)
	for i, v := range a {
		for b := 0; b < 32; b++ {
			m.bits[b] += int(v>>b) & 1
		}
		m.hi[v>>24]++
		m.lo[v&255]++
		m.pos0[i] += int(v & 1)
		m.pos1[i] += int(v >> 31)
		if i > 0 {
			m.serN++
			if (v^a[i-1])>>31 == 0 {
				m.ser++
			}
			if v == a[i-1] {
				m.eq++
			}
		}
		if m.last != nil {
			m.crN++
			if (v^m.last[i])>>31 == 0 {
				m.cross++
			}
		}
	}
	m.last = append([]T(nil), a...)
}

func distinct(h []uint64) int {
	h = append([]uint64(nil), h...)
	sort.Slice(h, func(i, j int) bool { return h[i] < h[j] })
	d := 0
	for i := range h {
		if i == 0 || h[i] != h[i-1] {
			d++
		}
	}
	return d
}

var all []uint64

func (m *mstat) emit() {
	all = append(all, m.fps...)
	reps := 0
	if len(m.pos0) > 0 {
		reps = m.elems / len(m.pos0)
	}
	t.Emit(R{"ev": "masks", "kind": m.kind, "n": m.n, "distinct": distinct(m.fps), "elems": m.elems, "bits": m.bits, "hi": m.hi, "lo": m.lo,
		"ser": m.ser, "sern": m.serN, "cross": m.cross, "crn": m.crN, "eq": m.eq, "reps": reps, "pos0": m.pos0, "pos1": m.pos1})
	fp := []string{}
	for i := 0; i < len(m.fps) && i < 60; i++ {
		fp = append(fp, fmt.Sprintf("%016x", m.fps[i]))
	}
	t.Emit(R{"ev": "fp", "kind": m.kind, "fp": fp})
}

// nstat collects noise, in 64ths of the requested deviation.
type nstat struct {
	kind             string
	sd               float64 // in units of 2^-32
	n                int
	s, q, c          float64
	c1, c2, c4       int
	last             float64
	comp             []float64
	max              int
	extraNum, extraD int // variance factor for public-key encryptions
	size             int
}

func noise(kind string, alpha float64) *nstat { return &nstat{kind: kind, sd: alpha * (1 << 32)} }

func (z *nstat) add(e T) {
	x := float64(int32(e))
	if a := int(math.Abs(x)); a > z.max {
		z.max = a
	}
	v := math.Max(-640, math.Min(640, x*64/z.sd))
	z.n++
	z.s += v
	z.q += v * v
	z.c += v * z.last
	z.last = v
	a := math.Abs(v)
	if a > 64 {
		z.c1++
	}
	if a > 128 {
		z.c2++
	}
	if a > 256 {
		z.c4++
	}
}

func (z *nstat) vec(e []T, reps int) {
	if z.comp == nil {
		z.comp = make([]float64, len(e))
	}
	for i, x := range e {
		z.add(x)
		v := math.Max(-640, math.Min(640, float64(int32(x))*64/z.sd))
		z.comp[i] += v * v
	}
}

func (z *nstat) emit(reps int) {
	f := float64(z.n)
	comp := make([]int, len(z.comp))
	for i, q := range z.comp {
		comp[i] = int(math.Round(q / float64(reps)))
	}
	mx := z.max
	if mx > 1<<30 {
		mx = 1 << 30
	}
	r := R{"ev": "noise", "kind": z.kind, "n": z.n, "rt": int(math.Sqrt(f)), "sd": int(math.Round(z.sd)), "max": mx,
		"mean": int(math.Round(z.s * 256 / f)), "msq": int(math.Round(z.q * 256 / f)), "corr": int(math.Round(z.c * 256 / f)),
		"t1": int(math.Round(1e6 * float64(z.c1) / f)), "t2": int(math.Round(1e6 * float64(z.c2) / f)), "c4": z.c4,
		"comp": comp, "reps": reps, "rr": int(math.Sqrt(float64(reps))), "size": z.size}
	t.Emit(r)
}

func sub(a []T, b T) []T {
	r := make([]T, len(a))
	for i := range a {
		r[i] = a[i] - b
	}
	return r
}

func main() {
	t = NewTracer(os.Args[1])
	defer t.Close()
	level := os.Args[2]
	scale, err := strconv.Atoi(os.Args[3])
	Must(err)
	many, err := strconv.Atoi(os.Args[4])
	Must(err)
	SetLevel(level)
	rng := Rng(1301)
	n, N := params.GetTLWELv0().N, params.GetTLWELv1().N
	a0, a1 := params.GetTLWELv0().ALPHA, params.GetTLWELv1().ALPHA
	g := params.GetTRGSWLv1()
	t.Emit(R{"ev": "reset", "level": level})
	t.Guard("keys", func() {
		// secret keys
		K := 200 * scale
		p0, p1 := make([]int, n), make([]int, N)
		var ones0, ones1, ser0, ser1, cross0, cross1, agree int
		var fps []uint64
		bin := 1
		var last *key.SecretKey
		// the values that each position of the pair of keys took, as bit sets
		const kinWords = 3
		col := make([][kinWords + 1]uint64, n+N)
		kinM := 64 * kinWords
		if kinM > K {
			kinM = K
		}
		for k := 0; k < K; k++ {
			s := key.NewSecretKey()
			if k <= kinM && k < 64*(kinWords+1) {
				for i, x := range s.KeyLv0 {
					col[i][k/64] |= uint64(x) << (k % 64)
				}
				for i, x := range s.KeyLv1 {
					col[n+i][k/64] |= uint64(x) << (k % 64)
				}
			}
			fps = append(fps, Hash32(s.KeyLv0), Hash32(s.KeyLv1))
			count := func(v, w []T, p []int, ones, ser, cross *int) {
				for i, x := range v {
					if x > 1 {
						bin = 0
					}
					p[i] += int(x)
					*ones += int(x)
					if i > 0 && x == v[i-1] {
						*ser++
					}
					if w != nil && x == w[i] {
						*cross++
					}
				}
			}
			if last == nil {
				count(s.KeyLv0, nil, p0, &ones0, &ser0, &cross0)
				count(s.KeyLv1, nil, p1, &ones1, &ser1, &cross1)
			} else {
				count(s.KeyLv0, last.KeyLv0, p0, &ones0, &ser0, &cross0)
				count(s.KeyLv1, last.KeyLv1, p1, &ones1, &ser1, &cross1)
			}
			last = s
			for i := 0; i < n && i < N; i++ {
				if s.KeyLv0[i] == s.KeyLv1[i] {
					agree++
				}
			}
		}
		m := n
		if N < n {
			m = N
		}
		// no two positions of a key go together, nor a position with one of the
		// key made next
		kin := func(shift uint) (hi, lo int) {
			lo = kinM
			m := kinM - int(shift)
			for i := range col {
				for j := range col {
					if shift == 0 && j <= i {
						continue
					}
					c := 0
					for w := 0; w < kinWords; w++ {
						v := col[j][w]
						if shift == 1 {
							v = v>>1 | col[j][w+1]<<63
						}
						x := ^(col[i][w] ^ v)
						if left := m - 64*w; left < 64 {
							if left <= 0 {
								break
							}
							x &= 1<<uint(left) - 1
						}
						c += bits.OnesCount64(x)
					}
					if c > hi {
						hi = c
					}
					if c < lo {
						lo = c
					}
				}
			}
			return hi, lo
		}
		hi0, lo0 := kin(0)
		hi1, lo1 := kin(1)
		t.Emit(R{"ev": "kin", "m0": kinM, "m1": kinM - 1, "r": []int{hi0, lo0, hi1, lo1}})
		t.Emit(R{"ev": "keys", "k": K, "n0": n, "n1": N, "distinct": distinct(fps), "binary": bin, "p0": p0, "p1": p1,
			"ones0": ones0, "ones1": ones1, "ser0": ser0, "ser1": ser1, "cross0": cross0, "cross1": cross1, "agree": agree, "m": m})
		fp := []string{}
		for _, h := range fps[:20] {
			fp = append(fp, fmt.Sprintf("%016x", h))
		}
		t.Emit(R{"ev": "fp", "kind": "secret keys", "fp": fp})
	})
	var sk, sk2 *key.SecretKey
	t.Guard("secret keys", func() { sk, sk2 = key.NewSecretKey(), key.NewSecretKey() })
	pe := poly.NewEvaluator(N)
	// level-0 and level-1 encryptions through every entry point
	alphas := []float64{a0, a0, a0, 1e-3, 1e-6}
	t.Guard("LWE encryptions", func() {
		ms := masks("lwe0", n)
		for q, al := range alphas {
			z := noise("lwe0 "+[]string{"bool", "message", "real", "1e-3", "1e-6"}[q], al)
			for i := 0; i < 500*scale; i++ {
				c := tlwe.NewTLWELv0()
				var mu T
				switch q {
				case 0:
					c.EncryptBool(i%2 == 0, al, sk.KeyLv0)
					mu = F(0.125)
					if i%2 == 1 {
						mu = -mu
					}
				case 1:
					c.EncryptLWEMessage(i%4, 4, al, sk.KeyLv0)
					mu = T(i%4) << 29
				default:
					x := float64(i%16) / 16
					c.EncryptF64(x, al, sk.KeyLv0)
					mu = T(i%16) << 28
				}
				ms.add(c.P[:n])
				z.add(Phase0(c, sk.KeyLv0) - mu)
			}
			z.emit(0)
		}
		// a reused object must get fresh randomness each time
		c := tlwe.NewTLWELv0()
		for i := 0; i < 100; i++ {
			c.EncryptBool(true, a0, sk.KeyLv0)
			ms.add(c.P[:n])
		}
		ms.emit()
		ms = masks("lwe1", N)
		for q, al := range []float64{a1, a1, 1e-4} {
			z := noise("lwe1 "+[]string{"bool", "real", "1e-4"}[q], al)
			for i := 0; i < 300*scale; i++ {
				c := tlwe.NewTLWELv1()
				var mu T
				if q == 0 {
					c.EncryptBool(i%2 == 0, al, sk.KeyLv1)
					mu = F(0.125)
					if i%2 == 1 {
						mu = -mu
					}
				} else {
					c.EncryptF64(float64(i%8)/8, al, sk.KeyLv1)
					mu = T(i%8) << 29
				}
				ms.add(c.P[:N])
				z.add(Phase(c.P, sk.KeyLv1) - mu)
			}
			z.emit(0)
		}
		ms.emit()
	})
	t.Guard("ring encryptions", func() {
		ms := masks("ring", N)
		for q, al := range []float64{a1, 1e-4, 1e-4} {
			reps := 120 * scale
			z := noise("ring "+[]string{"level", "1e-4", "bool"}[q], al)
			for i := 0; i < reps; i++ {
				c := trlwe.NewTRLWELv1()
				mu := make([]T, N)
				if q == 2 {
					bs := make([]bool, N)
					for j := range bs {
						bs[j] = rng.Intn(2) == 0
						mu[j] = -F(0.125)
						if bs[j] {
							mu[j] = F(0.125)
						}
					}
					c.EncryptBool(bs, al, sk.KeyLv1, pe)
				} else {
					xs := make([]float64, N)
					for j := range xs {
						k := rng.Intn(64)
						xs[j], mu[j] = float64(k)/64, T(k)<<26
					}
					c.EncryptF64(xs, al, sk.KeyLv1, pe)
				}
				ms.add(c.A)
				ph := RPhase(c, sk.KeyLv1)
				for j := range ph {
					ph[j] -= mu[j]
				}
				z.vec(ph, reps)
			}
			z.emit(reps)
		}
		ms.emit()
		ms = masks("gadget", N)
		z := noise("gadget 1e-4", 1e-4)
		for i := 0; i < 20*scale; i++ {
			c := trgsw.NewTRGSWLv1().EncryptTorus(0, 1e-4, sk.KeyLv1, pe)
			for _, r := range c.TRLWE {
				ms.add(r.A)
				z.vec(RPhase(r, sk.KeyLv1), 0)
			}
		}
		z.emit(20 * scale * 2 * g.L)
		ms.emit()
	})
	t.Guard("cloud key", func() {
		ck := cloudkey.NewCloudKey(sk)
		ms := masks("key switching key", n)
		z := noise("key switching key", params.KSKAlpha())
		base := 1 << g.BASEBIT
		step := 1
		if base*g.IKS_T*N > 60000*scale {
			step = base * g.IKS_T * N / (60000 * scale)
		}
		for i := 0; i < N; i++ {
			for j := 0; j < g.IKS_T; j++ {
				for k := 1; k < base; k++ {
					c := ck.KeySwitchingKey[base*g.IKS_T*i+base*j+k]
					ms.add(c.P[:n])
					if (i+j+k)%step == 0 {
						mu := T(k) * sk.KeyLv1[i] << uint(32-(j+1)*g.BASEBIT)
						z.add(Phase0(c, sk.KeyLv0) - mu)
					}
				}
			}
		}
		z.emit(0)
		ms.emit()
		ms = masks("bootstrapping key", N)
		z = noise("bootstrapping key", params.BSKAlpha())
		for i, b := range ck.BootstrappingKey {
			for r, c := range b.TRLWEFFT {
				// the transform of the mask is recorded as it is
				ms.fps = append(ms.fps, HashF(c.A.Coeffs))
				ms.n++
				if (i+r)%((n*2*g.L)/(60*scale)+1) == 0 {
					a, bb := pe.ToPoly(c.A), pe.ToPoly(c.B)
					gad := T(1) << (32 - uint((r%g.L+1))*uint(g.BGBIT)) * sk.KeyLv0[i]
					if r < g.L {
						a.Coeffs[0] -= gad
					} else {
						bb.Coeffs[0] -= gad
					}
					ms.fps = ms.fps[:len(ms.fps)-1]
					ms.n--
					ms.add(a.Coeffs)
					z.vec(RPhase(&trlwe.TRLWELv1{A: a.Coeffs, B: bb.Coeffs}, sk.KeyLv1), 0)
				}
			}
		}
		z.comp = nil
		z.emit(0)
		ms.emit()
	})
	t.Guard("public and re-encryption keys", func() {
		ms := masks("public key", n)
		z := noise("public key", a0)
		pk := proxyreenc.NewPublicKeyLv0(sk.KeyLv0)
		pk2 := proxyreenc.NewPublicKeyLv0WithParams(sk.KeyLv0, 400, a0)
		for _, k := range []*proxyreenc.PublicKeyLv0{pk, pk2} {
			for _, c := range k.Encryptions {
				ms.add(c.P[:n])
				z.add(Phase0(c, sk.KeyLv0))
			}
		}
		z.emit(0)
		ms.emit()
		ms = masks("public-key encryption", n)
		for q, k := range []*proxyreenc.PublicKeyLv0{pk, pk2} {
			// the variance of an encryption: its own noise plus half of the key's
			s2 := a0 * a0
			for _, c := range k.Encryptions {
				e := float64(int32(Phase0(c, sk.KeyLv0))) / (1 << 32)
				s2 += e * e / 2
			}
			z := noise(fmt.Sprintf("public-key encryption %d", q), math.Sqrt(s2))
			z.size = len(k.Encryptions)
			for i := 0; i < 250*scale; i++ {
				c := k.EncryptBool(i%2 == 0, a0)
				mu := F(0.125)
				if i%2 == 1 {
					mu = -mu
				}
				ms.add(c.P[:n])
				z.add(Phase0(c, sk.KeyLv0) - mu)
			}
			z.emit(0)
		}
		ms.emit()
		ms = masks("re-encryption key", n)
		z = noise("re-encryption key", params.KSKAlpha())
		rk := proxyreenc.NewProxyReencryptionKeySymmetricWithParams(sk.KeyLv0, sk2.KeyLv0, params.KSKAlpha(), 2, 6)
		for i := 0; i < n; i++ {
			for j := 0; j < 6; j++ {
				for k := 1; k < 4; k++ {
					c := rk.KeyEncryptions[24*i+4*j+k]
					ms.add(c.P[:n])
					z.add(Phase0(c, sk2.KeyLv0) - T(k)*sk.KeyLv0[i]<<uint(32-2*(j+1)))
				}
			}
		}
		z.emit(0)
		ms.emit()
		ms = masks("asymmetric re-encryption key", n)
		ark := proxyreenc.NewProxyReencryptionKeyAsymmetricWithParams(sk2.KeyLv0, pk2, a0, 2, 2)
		for i := range ark.KeyEncryptions {
			if i%4 != 0 {
				ms.add(ark.KeyEncryptions[i].P[:n])
			}
		}
		ms.emit()
	})
	// very many encryptions from concurrent goroutines; the level is only
	// read, the mask is all that is looked at
	t.Guard("many encryptions", func() {
		var wg sync.WaitGroup
		parts := make([][]uint64, 8)
		for w := range parts {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				c := tlwe.NewTLWELv0()
				for i := 0; i < many/8; i++ {
					c.EncryptBool(true, a0, sk.KeyLv0)
					h := uint64(1469598103934665603)
					for _, v := range c.P[:24] {
						h = (h ^ uint64(v)) * 1099511628211
					}
					parts[w] = append(parts[w], h)
				}
			}(w)
		}
		wg.Wait()
		var fps []uint64
		for _, p := range parts {
			fps = append(fps, p...)
		}
		t.Emit(R{"ev": "many", "kind": "concurrent", "n": len(fps), "distinct": distinct(fps)})
		t.Emit(R{"ev": "many", "kind": "all kinds", "n": len(all), "distinct": distinct(all)})
	})
	t.Emit(R{"ev": "end"})
}
