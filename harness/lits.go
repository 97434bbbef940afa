package main

import (
	"math"
	"math/big"
	"strings"
)

// numValue computes the value of a numeric literal from the specification: the
// mathematical value as an exact rational, rounded to the nearest double.
func numValue(raw string) float64 {
	s := strings.ReplaceAll(raw, "_", "")
	if len(s) > 1 && s[0] == '0' {
		base := 0
		switch s[1] {
		case 'x', 'X':
			base = 16
		case 'o', 'O':
			base = 8
		case 'b', 'B':
			base = 2
		}
		if base != 0 {
			return intValue(s[2:], base)
		}
		if strings.Trim(s, "01234567") == "" {
			return intValue(s[1:], 8)
		}
	}
	mant, exp := s, ""
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		mant, exp = s[:i], s[i+1:]
	}
	digits, scale := "", 0
	if i := strings.IndexByte(mant, '.'); i >= 0 {
		digits, scale = mant[:i]+mant[i+1:], len(mant)-i-1
	} else {
		digits = mant
	}
	n := new(big.Int)
	for _, d := range digits {
		n.Mul(n, big.NewInt(10)).Add(n, big.NewInt(int64(d-'0')))
	}
	e := 0
	neg := false
	for i, d := range exp {
		if i == 0 && (d == '+' || d == '-') {
			neg = d == '-'
			continue
		}
		e = e*10 + int(d-'0')
		if e > 100000 {
			e = 100000
		}
	}
	if neg {
		e = -e
	}
	e -= scale
	if n.Sign() == 0 {
		return 0
	}
	// Out of range by any measure: avoid huge powers.
	if e > 400+0 && e+len(digits) > 400 && strings.Trim(digits, "0") != "" && e > 400 {
		return math.Inf(1)
	}
	if e+len(digits) < -400 {
		return 0
	}
	r := new(big.Rat)
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(e))), nil)
	if e >= 0 {
		r.SetInt(new(big.Int).Mul(n, p))
	} else {
		r.SetFrac(n, p)
	}
	return ratToDouble(r)
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func intValue(digits string, base int) float64 {
	n := new(big.Int)
	for _, d := range digits {
		v := 0
		switch {
		case d >= '0' && d <= '9':
			v = int(d - '0')
		case d >= 'a' && d <= 'f':
			v = int(d-'a') + 10
		case d >= 'A' && d <= 'F':
			v = int(d-'A') + 10
		}
		n.Mul(n, big.NewInt(int64(base))).Add(n, big.NewInt(int64(v)))
	}
	return ratToDouble(new(big.Rat).SetInt(n))
}

// ratToDouble rounds a non-negative rational to the nearest double, ties to
// even, from first principles.
func ratToDouble(r *big.Rat) float64 {
	if r.Sign() == 0 {
		return 0
	}
	// Find e such that 2^52 <= r/2^e < 2^53, but not below the subnormal range.
	num, den := r.Num(), r.Denom()
	e := num.BitLen() - den.BitLen() - 53
	for {
		if e < -1074 {
			e = -1074
		}
		n, d := new(big.Int).Set(num), new(big.Int).Set(den)
		if e >= 0 {
			d.Lsh(d, uint(e))
		} else {
			n.Lsh(n, uint(-e))
		}
		q, rem := new(big.Int).QuoRem(n, d, new(big.Int))
		if q.BitLen() > 53 {
			e++
			continue
		}
		if q.BitLen() < 53 && e > -1074 {
			e--
			continue
		}
		c := new(big.Int).Lsh(rem, 1).Cmp(d)
		if c > 0 || c == 0 && q.Bit(0) == 1 {
			q.Add(q, big.NewInt(1))
		}
		if q.BitLen()+e > 1024 {
			return math.Inf(1)
		}
		return math.Ldexp(float64(q.Int64()), e)
	}
}

func digits(r *Rng, set string, min, max int, sep bool) string {
	b := &strings.Builder{}
	n := min + r.Intn(max-min+1)
	for i := 0; i < n; i++ {
		if i > 0 && sep && r.Chance(0.25) {
			b.WriteByte('_')
		}
		b.WriteByte(set[r.Intn(len(set))])
	}
	return b.String()
}

// genNumber returns a valid numeric literal.
func genNumber(r *Rng, legacy bool) string {
	const dec = "0123456789"
	sep := r.Chance(0.2)
	intPart := func() string {
		if r.Chance(0.25) {
			return "0"
		}
		s := digits(r, "123456789", 1, 1, false)
		if n := r.Intn(5); n > 0 {
			t := digits(r, dec, n, n+r.Intn(3), sep)
			if sep && r.Chance(0.3) {
				t = "_" + t
			}
			s += t
		}
		return s
	}
	exp := func() string {
		if r.Chance(0.6) {
			return ""
		}
		return pick(r, []string{"e", "E"}) + pick(r, []string{"", "+", "-"}) + digits(r, dec, 1, 2, sep)
	}
	switch r.Intn(10) {
	case 0:
		return pick(r, []string{"0x", "0X"}) + digits(r, "0123456789abcdefABCDEF", 1, 10, sep)
	case 1:
		return pick(r, []string{"0o", "0O"}) + digits(r, "01234567", 1, 10, sep)
	case 2:
		return pick(r, []string{"0b", "0B"}) + digits(r, "01", 1, 20, sep)
	case 3:
		return "." + digits(r, dec, 1, 6, sep) + exp()
	case 4:
		return intPart() + "." + exp()
	case 5, 6:
		return intPart() + "." + digits(r, dec, 1, 6, sep) + exp()
	case 7:
		if legacy {
			if r.Chance(0.5) {
				return "0" + digits(r, "01234567", 1, 6, false)
			}
			s := "0" + digits(r, dec, 0, 4, false) + pick(r, []string{"8", "9"}) + digits(r, dec, 0, 2, false)
			if r.Chance(0.4) {
				s += "." + digits(r, dec, 0, 3, false) + exp()
			}
			return s
		}
	case 8:
		return intPart() + exp()
	}
	return intPart()
}

var strBits = []string{"a", "b", "0", "use", " ", "é", "𝒳", "\u2028", "\u2029", "/", "//", "/*", "*/", "`", "${", "}", "{", "(", ";", "\t", "\u0000", "\ufeff", "<", "&", ">", "\u007f", "=>", "[", "#"}
var strEscapes = []string{"\\n", "\\\\", "\\'", "\\\"", "\\x41", "\\u0041", "\\u{1F600}", "\\0", "\\\n", "\\\r\n", "\\\r", "\\\u2028", "\\q", "\\b", "\\v", "\\/", "\\ud83d\\ude00"}

// genString returns a valid string literal.
func genString(r *Rng, escapes bool) string {
	q := pick(r, []string{"'", "\""})
	b := &strings.Builder{}
	b.WriteString(q)
	n := r.Intn(6)
	for i := 0; i < n; i++ {
		switch {
		case escapes && r.Chance(0.25):
			b.WriteString(pick(r, strEscapes))
		case r.Chance(0.1):
			if q == "'" {
				b.WriteString("\"")
			} else {
				b.WriteString("'")
			}
		default:
			s := pick(r, strBits)
			// A digit must not turn \0 into an octal escape.
			if s == "0" && strings.HasSuffix(b.String(), "\\0") {
				s = "a"
			}
			b.WriteString(s)
		}
	}
	b.WriteString(q)
	return b.String()
}

var reAtoms = []string{"a", "b", "0", ".", "\\d", "\\/", "\\\\", "\\[", "\\(", "[/]", "[a-z/]", "[^/\\]]", "[\\]]", "[[]", "[\\\\]", "é", "𝒳", "\"", "'", "`", "=", "(?:a)", "(b)", "\\n", "\\x41", "\\u0041", "^", "$", "a|b", "[*]", "[(]", "a*", "a+?", "a{1,2}", "//"[:0] + "\\b", "<", "}", ",", ";", " ", "\\*", "[]", "[^]"}
var reAtomsU = []string{"a", "b", "0", ".", "\\d", "\\/", "\\\\", "\\[", "[/]", "[a-z/]", "[^/\\]]", "é", "𝒳", "\"", "(?:a)", "(b)", "\\u{1F600}", "a*", "a+?", "\\b"}

// genRegex returns the body and flags of a valid regular expression literal.
func genRegex(r *Rng) (string, string) {
	fl := ""
	for _, f := range "dgimsuy" {
		if r.Chance(0.15) {
			fl += string(f)
		}
	}
	if r.Chance(0.2) {
		// Any order.
		rs := []rune(fl)
		for i := range rs {
			j := r.Intn(i + 1)
			rs[i], rs[j] = rs[j], rs[i]
		}
		fl = string(rs)
	}
	atoms := reAtoms
	if strings.Contains(fl, "u") {
		atoms = reAtomsU
	}
	b := &strings.Builder{}
	for n := 1 + r.Intn(5); n > 0; n-- {
		b.WriteString(pick(r, atoms))
	}
	return b.String(), fl
}

var nan = math.NaN()
