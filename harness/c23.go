package main

import (
	"fmt"
	"math/big"
	"math/rand/v2"
	"strings"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C23: version comparison agrees with rpm.

// rpmvercmp is a transcription of rpm's rpmio/rpmvercmp.c. at returns 0 at the
// end of the string like C does.
func rpmvercmp(a, b string) int {
	if a == b {
		return 0
	}
	at := func(s string, i int) byte {
		if i < len(s) {
			return s[i]
		}
		return 0
	}
	isdigit := func(c byte) bool { return c >= '0' && c <= '9' }
	isalpha := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	skip := func(c byte) bool { return c != 0 && !isdigit(c) && !isalpha(c) && c != '~' && c != '^' }
	one, two := 0, 0
	for at(a, one) != 0 || at(b, two) != 0 {
		for skip(at(a, one)) {
			one++
		}
		for skip(at(b, two)) {
			two++
		}
		c1, c2 := at(a, one), at(b, two)
		if c1 == '~' || c2 == '~' {
			if c1 != '~' {
				return 1
			}
			if c2 != '~' {
				return -1
			}
			one++
			two++
			continue
		}
		if c1 == '^' || c2 == '^' {
			if c1 == 0 {
				return -1
			}
			if c2 == 0 {
				return 1
			}
			if c1 != '^' {
				return 1
			}
			if c2 != '^' {
				return -1
			}
			one++
			two++
			continue
		}
		if c1 == 0 || c2 == 0 {
			break
		}
		e1, e2 := one, two
		isnum := isdigit(c1)
		if isnum {
			for isdigit(at(a, e1)) {
				e1++
			}
			for isdigit(at(b, e2)) {
				e2++
			}
		} else {
			for isalpha(at(a, e1)) {
				e1++
			}
			for isalpha(at(b, e2)) {
				e2++
			}
		}
		if two == e2 {
			if isnum {
				return 1
			}
			return -1
		}
		s1, s2 := a[one:e1], b[two:e2]
		if isnum {
			for s1 != "" && s1[0] == '0' {
				s1 = s1[1:]
			}
			for s2 != "" && s2[0] == '0' {
				s2 = s2[1:]
			}
			if len(s1) > len(s2) {
				return 1
			}
			if len(s2) > len(s1) {
				return -1
			}
		}
		for i := 0; i < len(s1) || i < len(s2); i++ {
			x, y := at(s1, i), at(s2, i)
			if x < y {
				return -1
			} else if x > y {
				return 1
			}
		}
		one, two = e1, e2
	}
	if at(a, one) == 0 && at(b, two) == 0 {
		return 0
	}
	if at(a, one) == 0 {
		return -1
	}
	return 1
}

// modelEVR orders packages like rpm: epochs are numbers.
func modelEVR(a, b rpmutils.NEVRA) int {
	x, ok1 := new(big.Int).SetString(a.Epoch, 10)
	y, ok2 := new(big.Int).SetString(b.Epoch, 10)
	if !ok1 || !ok2 {
		panic("epoch")
	}
	if c := x.Cmp(y); c != 0 {
		return c
	}
	if c := rpmvercmp(a.Version, b.Version); c != 0 {
		return c
	}
	return rpmvercmp(a.Release, b.Release)
}

var versionTokens = []string{"0", "1", "2", "9", "10", "00", "01", "001", "010", "100", "20240101", "a", "b", "A", "Z", "z", "rc", "rc1", "alpha", "beta", "git", "p", "el9", "fc40",
	".", "..", "-", "_", "+", ":", " ", "\n", "\t", ",", "/", "é", "\xff", "\x80", "٣", "Ａ", "１", "\u2028", "\ufffd", "ſ", "\u212a", "²", "Ⅷ", "ª", "\u0600", "½", "~", "^", "~~", "^^", "~^", "^~", "@", "[", "`", "{", "/", ":", "4294967296", "18446744073709551616", "99999999999999999999"}

// randVersion makes a version; with nul, NUL may occur.
func randVersion(r *rand.Rand, nul bool) string {
	var b strings.Builder
	switch r.IntN(12) {
	case 0: // arbitrary bytes
		for k := r.IntN(8); k > 0; k-- {
			b.WriteByte(byte(r.IntN(256)))
		}
	case 1: // long digit runs
		if r.IntN(2) == 0 {
			b.WriteString(strings.Repeat("0", r.IntN(40)))
		}
		for k := r.IntN(60); k > 0; k-- {
			b.WriteByte('0' + byte(r.IntN(10)))
		}
		b.WriteString(versionTokens[r.IntN(len(versionTokens))])
	case 2: // ordinary
		for k := 1 + r.IntN(4); k > 0; k-- {
			fmt.Fprintf(&b, "%d", r.IntN(30))
			if k > 1 {
				b.WriteString([]string{".", ".", "_", "rc", "~rc", "^git"}[r.IntN(6)])
			}
		}
	case 3:
		const few = "012ab.~^"
		for k := r.IntN(10); k > 0; k-- {
			b.WriteByte(few[r.IntN(len(few))])
		}
	default:
		for k := r.IntN(8); k > 0; k-- {
			b.WriteString(versionTokens[r.IntN(len(versionTokens))])
		}
	}
	if nul {
		return b.String()
	}
	return strings.ReplaceAll(b.String(), "\x00", "!")
}

// nearVersion makes a version close to s.
func nearVersion(r *rand.Rand, s string, nul bool) string {
	for k := 1 + r.IntN(2); k > 0; k-- {
		i := r.IntN(len(s) + 1)
		tok := versionTokens[r.IntN(len(versionTokens))]
		switch r.IntN(6) {
		case 0:
			s = s[:i] + tok + s[i:]
		case 1:
			s += tok
		case 2:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 3:
			if i < len(s) {
				c := s[i] ^ 1<<r.IntN(8)
				if c == 0 && !nul {
					c = '.'
				}
				s = s[:i] + string([]byte{c}) + s[i+1:]
			}
		case 4: // leading zeros
			for ; i < len(s); i++ {
				if s[i] >= '0' && s[i] <= '9' {
					s = s[:i] + strings.Repeat("0", 1+r.IntN(3)) + s[i:]
					break
				}
			}
		case 5: // another separator
			for ; i < len(s); i++ {
				if s[i] == '.' || s[i] == '-' || s[i] == '_' {
					s = s[:i] + []string{"_", "..", "+.", " "}[r.IntN(4)] + s[i+1:]
					break
				}
			}
		}
	}
	return s
}

func checkVercmp(t *T, a, b string) int {
	want := rpmvercmp(a, b)
	if got := rpmutils.Vercmp(a, b); got != want {
		t.Errorf("Vercmp(%q, %q) is %d, rpm says %d", clip(a, 300), clip(b, 300), got, want)
	}
	return want
}

func init() {
	register(&Check{
		ID:          "C23",
		Rule:        "each case compares many pairs of version strings (exhaustively over short strings of a small alphabet and over all single bytes in several contexts; at random with near misses, long digit runs, non-ASCII and invalid UTF-8) or packages and judges each result by a transcription of rpm's rpmvercmp; distinct by pair (for the exhaustive groups by row)",
		Require:     map[string]int64{"pairs compared": 500000, "pairs that are equal but not identical": 5000, "pairs with ~ or ^": 50000, "packages compared": 20000},
		Assumptions: []string{"the transcription of rpmvercmp (rpm 4.15 and later) is faithful; strings hold no NUL, which rpm cannot represent", "epochs of packages are decimal numbers"},
		Groups: []Group{
			{Name: "short strings", N: n(64, 64), Run: func(t *T, i int) {
				alphabet, length := []string{"0", "1", "a", "B", ".", "~", "^", "\xe9"}, 3
				if t.Tier == "thorough" {
					length = 4
				}
				var all []string
				all = append(all, "")
				for lo, k := 0, 0; k < length; k++ {
					hi := len(all)
					for _, s := range all[lo:hi] {
						for _, c := range alphabet {
							all = append(all, s+c)
						}
					}
					lo = hi
				}
				for k := i; k < len(all); k += 64 {
					for _, b := range all {
						countPair(t, all[k], b, checkVercmp(t, all[k], b))
					}
					t.SubSig(all[k])
				}
				t.Sig(i)
				t.Sample(map[string]any{"strings": len(all), "length": length})
			}},
			{Name: "all bytes", N: n(32, 32), Run: func(t *T, i int) {
				for x := 1 + i*8; x < min(256, 9+i*8); x++ {
					for y := 1; y < 256; y++ {
						for _, c := range [][2]string{{"", ""}, {"1", "1"}, {"a", "2"}, {"", "a"}} {
							a, b := c[0]+string([]byte{byte(x)})+c[1], c[0]+string([]byte{byte(y)})+c[1]
							countPair(t, a, b, checkVercmp(t, a, b))
						}
					}
					t.SubSig(x)
				}
				t.Sig(i)
			}},
			{Name: "random pairs", N: n(300, 8000), Run: func(t *T, i int) {
				r := t.R
				for k := 0; k < 300; k++ {
					a := randVersion(r, false)
					b := randVersion(r, false)
					if r.IntN(3) > 0 {
						b = nearVersion(r, a, false)
					}
					t.SubSig(a, b)
					countPair(t, a, b, checkVercmp(t, a, b))
					countPair(t, b, a, checkVercmp(t, b, a))
				}
			}},
			{Name: "long", N: n(24, 800), Run: func(t *T, i int) {
				r := t.R
				var a string
				switch i % 4 {
				case 0:
					a = strings.Repeat("9", 1+r.IntN(200000))
				case 1:
					a = strings.Repeat(versionTokens[r.IntN(len(versionTokens))], 1+r.IntN(300))
				case 2:
					a = strings.Repeat("0", 1+r.IntN(100000)) + "1"
				case 3:
					a = strings.Repeat(".", r.IntN(50000)) + "7" + strings.Repeat("a", r.IntN(50000))
				}
				pairs := 10
				if i%8 == 1 { // many segments
					a, pairs = "", 2
					for k := 1000 + r.IntN(600); k > 0; k-- {
						a += []string{"1.", "a.", "0a", "7~", "2^"}[i/8%5]
					}
				}
				for k := 0; k < pairs; k++ {
					b := nearVersion(r, a, false)
					if pairs == 2 { // only the end differs
						b = a + versionTokens[r.IntN(len(versionTokens))]
					}
					t.SubSig(a, b)
					countPair(t, a, b, checkVercmp(t, a, b))
					countPair(t, b, a, checkVercmp(t, b, a))
				}
			}},
			{Name: "packages", N: n(200, 6000), Run: func(t *T, i int) {
				r := t.R
				for k := 0; k < 200; k++ {
					a := randNEVRA(r)
					b := nearNEVRA(r, a)
					want := modelEVR(a, b)
					if got := rpmutils.NEVRAcmp(a, b); got != want {
						t.Errorf("NEVRAcmp(%q, %q) is %d, rpm says %d", a, b, got, want)
					}
					t.SubSig(a, b)
					t.Event("packages compared")
					t.Event(fmt.Sprintf("packages compared with result %d", want))
				}
			}},
		},
	})
}

func countPair(t *T, a, b string, want int) {
	t.Event("pairs compared")
	if want == 0 && a != b {
		t.Event("pairs that are equal but not identical")
	}
	if strings.ContainsAny(a+b, "~^") {
		t.Event("pairs with ~ or ^")
	}
}

// randNEVRA makes a package with a decimal epoch.
func randNEVRA(r *rand.Rand) rpmutils.NEVRA {
	return rpmutils.NEVRA{
		Name:    []string{"a", "b", "kernel", "kernel-core", ""}[r.IntN(5)],
		Epoch:   []string{"0", "0", "1", "2", "9", "10", "11", "100", "4294967295", "2147483648", "99", fmt.Sprint(r.Uint32())}[r.IntN(12)],
		Version: randVersion(r, false),
		Release: randVersion(r, false),
		Arch:    []string{"noarch", "x86_64", "src", "i686", ""}[r.IntN(5)],
	}
}

// nearNEVRA makes one that often has fields equal to a's.
func nearNEVRA(r *rand.Rand, a rpmutils.NEVRA) rpmutils.NEVRA {
	b := randNEVRA(r)
	if r.IntN(4) > 0 {
		b.Epoch = a.Epoch
	}
	switch r.IntN(4) {
	case 0, 1:
		b.Version = a.Version
	case 2:
		b.Version = nearVersion(r, a.Version, false)
	}
	switch r.IntN(4) {
	case 0:
		b.Release = a.Release
	case 1, 2:
		b.Release = nearVersion(r, a.Release, false)
	}
	if r.IntN(2) == 0 {
		b.Name = a.Name
	}
	if r.IntN(2) == 0 {
		b.Arch = a.Arch
	}
	return b
}
