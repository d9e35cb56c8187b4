package main

import "math/big"

// Byte strings are exchanged with TLC as tokens: b is one byte, n*256+b (n>=8)
// is a maximal run of n bytes b. See Wire.tla.
const minRun = 8

func tokens(p []byte) []int {
	out := make([]int, 0, len(p))
	for i := 0; i < len(p); {
		j := i + 1
		for j < len(p) && p[j] == p[i] && j-i < 1<<22 {
			j++
		}
		if n := j - i; n >= minRun {
			out = append(out, n*256+int(p[i]))
		} else {
			for ; i < j; i++ {
				out = append(out, int(p[i]))
			}
		}
		i = j
	}
	return out
}

func untokens(v any) []byte {
	out := []byte{}
	for _, x := range v.([]any) {
		t := int(x.(float64))
		if t < 256 {
			out = append(out, byte(t))
			continue
		}
		for n := t / 256; n > 0; n-- {
			out = append(out, byte(t%256))
		}
	}
	return out
}

// limbs: base 128, least significant first.
func limbsToBig(v any) *big.Int {
	z := new(big.Int)
	l := v.([]any)
	for i := len(l) - 1; i >= 0; i-- {
		z.Lsh(z, 7)
		z.Or(z, big.NewInt(int64(l[i].(float64))))
	}
	return z
}

func bigToLimbs(z *big.Int) []int {
	out := []int{}
	z = new(big.Int).Abs(z)
	m := big.NewInt(128)
	for z.Sign() != 0 {
		q, r := new(big.Int).DivMod(z, m, new(big.Int))
		out = append(out, int(r.Int64()))
		z = q
	}
	return out
}
