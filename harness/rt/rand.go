// Package rt is the run-time of the checks: deterministic random choices, the
// supervised worker that runs cases, and the report of what was observed.
package rt

import "math"

// Rand is a splitmix64 generator: every choice of a case is determined by the
// seed, the property and the case number.
type Rand struct{ s uint64 }

func Mix(a, b uint64) uint64 {
	z := a + 0x9e3779b97f4a7c15*(b+1)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return Mix(r.s, 0)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range is uniform in lo..hi, both included.
func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }
func (r *Rand) Bool() bool           { return r.U64()&1 == 1 }

// P is true in n of d cases.
func (r *Rand) P(n, d int) bool { return r.Intn(d) < n }
func (r *Rand) Fork() *Rand     { return &Rand{r.U64()} }
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

func Pick[T any](r *Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// Int64 favours the edges of every width.
func (r *Rand) Int64() int64 {
	switch r.Intn(6) {
	case 0:
		return int64(r.Intn(256)) - 128
	case 1:
		return int64(r.U64())
	case 2, 3:
		k := uint(r.Range(0, 63))
		v := int64(uint64(1) << k)
		return Pick(r, v, -v, v-1, -v-1, v+1, -v+1)
	case 4:
		k := uint(r.Range(0, 63))
		return int64(r.U64()) >> k
	}
	return Pick[int64](r, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 0, -1, 1, 127, 128, -128, -129, 255, 256)
}

func (r *Rand) Int32() int32 {
	for {
		v := r.Int64()
		if v >= math.MinInt32 && v <= math.MaxInt32 {
			return int32(v)
		}
		if r.Bool() {
			return int32(v >> 32)
		}
	}
}

// Nat is a non-negative 31-bit number, small in half of the cases.
func (r *Rand) Nat() int32 {
	if r.Bool() {
		return int32(r.Intn(8))
	}
	return int32(uint32(r.Int32()) & 0x7fffffff)
}

func (r *Rand) Float() float64 {
	switch r.Intn(8) {
	case 0:
		return float64(r.Int64())
	case 1:
		return Pick(r, 0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), 1, -1, 0.5,
			math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64,
			math.Float64frombits(0x0010000000000000), math.Float64frombits(0x000fffffffffffff), 123.456, math.Pi)
	case 2: // subnormal
		return math.Float64frombits(r.U64()&0x800fffffffffffff>>uint(0)&^(uint64(r.Intn(2))<<63) | 1<<uint(r.Intn(52)))
	case 3: // few mantissa bits
		return math.Float64frombits(r.U64() & (0xfff<<52 | uint64(1)<<uint(r.Intn(52)) | uint64(1)<<uint(r.Intn(52))))
	case 4: // exponents around the edges of a byte
		e := uint64(Pick(r, 1, 2, 1023-129, 1023-128, 1023-127, 1022, 1023, 1024, 1023+127, 1023+128, 1023+255, 1023+256, 2045, 2046, 1023+52, 1023+53, 1023+63, 1023+64))
		return math.Float64frombits(r.U64()&0x800fffffffffffff | e<<52)
	}
	return math.Float64frombits(r.U64())
}

var strs = []string{"", "a", "gdnet", "identifier", "é", "\x00", "日本語", "with space", "a.b/c", "\xff\xfe\xfd", "00\x00\x00", "%s%d%n"}

// Text is a string of up to max octets, of any content.
func (r *Rand) Text(max int) string {
	switch r.Intn(4) {
	case 0, 1:
		s := strs[r.Intn(len(strs))]
		if len(s) <= max {
			return s
		}
		return ""
	case 2:
		b := make([]byte, r.Intn(min(max, 12)+1))
		for i := range b {
			b[i] = byte('a' + r.Intn(26))
		}
		return string(b)
	}
	return string(r.Bytes(r.Intn(max + 1)))
}
