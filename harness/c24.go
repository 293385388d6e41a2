package main

import (
	"fmt"
	"math/rand/v2"
	"sort"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

// C24: version ordering is a consistent total order and sorting obeys it.

// relatedVersions makes a set of similar versions, so that laws have
// interesting instances.
func relatedVersions(r *rand.Rand, k int, nul bool) []string {
	out := []string{randVersion(r, nul)}
	for len(out) < k {
		switch r.IntN(5) {
		case 0:
			out = append(out, randVersion(r, nul))
		default:
			out = append(out, nearVersion(r, out[r.IntN(len(out))], nul))
		}
	}
	return out
}

// laws checks the order laws over all triples of k things.
func laws(t *T, k int, cmp func(i, j int) int, show func(i int) string) {
	m := make([][]int, k)
	for i := range m {
		m[i] = make([]int, k)
		for j := range m[i] {
			c := cmp(i, j)
			m[i][j] = c
			if c < -1 || c > 1 {
				t.Errorf("comparing %s and %s gives %d", show(i), show(j), c)
			}
			if c2 := cmp(i, j); c2 != c {
				t.Errorf("comparing %s and %s gives %d, then %d", show(i), show(j), c, c2)
			}
		}
	}
	equal := 0
	for i := range m {
		if m[i][i] != 0 {
			t.Errorf("%s compared with itself gives %d", show(i), m[i][i])
		}
		for j := range m {
			if m[i][j] != -m[j][i] {
				t.Errorf("comparing %s and %s gives %d, and %d the other way round", show(i), show(j), m[i][j], m[j][i])
			}
			for l := range m {
				if m[i][j] <= 0 && m[j][l] <= 0 && (m[i][l] > 0 || m[i][l] == 0 && (m[i][j] < 0 || m[j][l] < 0)) {
					t.Errorf("%s, %s and %s: %d, %d, but %d", show(i), show(j), show(l), m[i][j], m[j][l], m[i][l])
				}
				if m[i][j] == 0 && m[i][l] != m[j][l] {
					t.Errorf("%s and %s are equal but compare to %s as %d and %d", show(i), show(j), show(l), m[i][l], m[j][l])
				}
			}
			if i != j && m[i][j] == 0 && show(i) != show(j) {
				equal++
			}
		}
		if len(t.failed) > 0 {
			return
		}
	}
	t.Event("triples judged", k*k*k)
	t.Event("equal pairs that are not identical", equal/2)
}

// arrange puts a list into an order that sorting algorithms treat specially.
func arrange[S any](r *rand.Rand, l []S, less func(a, b S) bool) string {
	switch r.IntN(6) {
	case 0:
		sort.SliceStable(l, func(i, j int) bool { return less(l[i], l[j]) })
		return "sorted"
	case 1:
		sort.SliceStable(l, func(i, j int) bool { return less(l[j], l[i]) })
		return "reversed"
	case 2:
		sort.SliceStable(l, func(i, j int) bool { return less(l[i], l[j]) })
		for k := 0; k < 3 && len(l) > 1; k++ {
			i, j := r.IntN(len(l)), r.IntN(len(l))
			l[i], l[j] = l[j], l[i]
		}
		return "nearly sorted"
	case 3:
		sort.SliceStable(l, func(i, j int) bool { return less(l[i], l[j]) })
		c := append([]S(nil), l...)
		for i := range l {
			if i%2 == 0 {
				l[i/2] = c[i]
			} else {
				l[len(l)-1-i/2] = c[i]
			}
		}
		return "organ pipe"
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return "shuffled"
}

func counts[S comparable](l []S) map[S]int {
	m := map[S]int{}
	for _, s := range l {
		m[s]++
	}
	return m
}

func sameCounts[S comparable](t *T, what string, a, b []S) {
	x, y := counts(a), counts(b)
	if len(a) != len(b) {
		t.Errorf("%s: %d elements became %d", what, len(a), len(b))
	}
	for k, n := range x {
		if y[k] != n {
			t.Errorf("%s: %q occurs %d times, before %d times", what, fmt.Sprint(k), y[k], n)
			return
		}
	}
}

func listSize(r *rand.Rand) int {
	switch r.IntN(4) {
	case 0:
		return r.IntN(5)
	case 1:
		return r.IntN(14) // insertion sort
	case 2:
		return r.IntN(80)
	}
	return r.IntN(600)
}

func init() {
	register(&Check{
		ID:          "C24",
		Rule:        "each case is a set of related version strings or packages over which the order laws are checked on all triples, or a list that is sorted (with sort.Sort, sort.Stable and the package's own method) and checked to be a permutation in nondecreasing order; distinct by set or list",
		Require:     map[string]int64{"triples judged": 1000000, "equal pairs that are not identical": 2000, "lists sorted": 500, "long lists sorted": 20, "elements sorted": 30000},
		Assumptions: []string{"epochs in lists are decimal numbers, as header queries give them; in the laws they are any strings"},
		Groups: []Group{
			{Name: "versions", N: n(1500, 12000), Run: func(t *T, i int) {
				l := relatedVersions(t.R, 22, true)
				t.Sig(fmt.Sprintf("%q", l))
				laws(t, len(l), func(i, j int) int { return rpmutils.Vercmp(l[i], l[j]) }, func(i int) string { return fmt.Sprintf("%q", l[i]) })
				t.Sample(map[string]any{"versions": fmt.Sprintf("%q", l[:6])})
			}},
			{Name: "packages", N: n(1200, 10000), Run: func(t *T, i int) {
				r := t.R
				l := []rpmutils.NEVRA{randNEVRA(r)}
				for len(l) < 16 {
					b := nearNEVRA(r, l[r.IntN(len(l))])
					if i%2 == 0 && r.IntN(3) == 0 {
						b.Epoch = randVersion(r, true)
					}
					l = append(l, b)
				}
				t.Sig(fmt.Sprintf("%q", l))
				laws(t, len(l), func(i, j int) int { return rpmutils.NEVRAcmp(l[i], l[j]) }, func(i int) string { return fmt.Sprintf("%q", l[i]) })
				// equal fields make equal packages, whatever name and architecture
				for k := range l {
					c := l[k]
					c.Name, c.Arch = c.Name+"x", "other"
					if got := rpmutils.NEVRAcmp(l[k], c); got != 0 {
						t.Errorf("%q and %q compare as %d", l[k], c, got)
					}
				}
			}},
			{Name: "sorting versions", N: n(1000, 12000), Run: func(t *T, i int) { sortVersions(t, i, listSize) }},
			{Name: "sorting packages", N: n(1000, 12000), Run: func(t *T, i int) { sortPackages(t, i, listSize) }},
			{Name: "sorting long lists", N: n(24, 240), Run: func(t *T, i int) {
				long := func(r *rand.Rand) int { return []int{4095, 4096, 5000, 10000, 17000}[r.IntN(5)] + r.IntN(3) }
				if i%2 == 0 {
					sortVersions(t, i/2, long)
				} else {
					sortPackages(t, i/2, long)
				}
				t.Event("long lists sorted")
			}},
		},
	})
}

// stableOrder checks that equal elements keep their order: Less must not hold
// between them.
func stableOrder[S comparable](t *T, what string, orig, sorted []S, cmp func(a, b S) int) {
	for k := 1; k < len(sorted); k++ {
		if cmp(sorted[k-1], sorted[k]) != 0 || sorted[k-1] == sorted[k] {
			continue
		}
		first := func(s S) int {
			for i, o := range orig {
				if o == s {
					return i
				}
			}
			return -1
		}
		last := func(s S) int {
			for i := len(orig) - 1; i >= 0; i-- {
				if orig[i] == s {
					return i
				}
			}
			return -1
		}
		if first(sorted[k-1]) > last(sorted[k]) {
			t.Errorf("%s: equal elements %q and %q changed places in a stable sort", what, fmt.Sprint(sorted[k-1]), fmt.Sprint(sorted[k]))
			return
		}
	}
}

func sortVersions(t *T, i int, size func(*rand.Rand) int) {
	r := t.R
	pool := relatedVersions(r, 1+min(size(r), 3000), true)
	l := make([]string, size(r))
	for k := range l {
		l[k] = pool[r.IntN(len(pool))]
	}
	how := arrange(r, l, func(a, b string) bool { return rpmvercmp(a, b) < 0 })
	orig := append([]string(nil), l...)
	t.Sig(fmt.Sprintf("%q", l))
	vs := rpmutils.VersionSlice(l)
	if i%3 == 0 {
		sort.Stable(vs)
	} else {
		sort.Sort(vs)
	}
	what := fmt.Sprintf("%d versions (%s)", len(l), how)
	sameCounts(t, what, orig, l)
	for k := 1; k < len(l); k++ {
		if rpmutils.Vercmp(l[k-1], l[k]) > 0 {
			t.Errorf("%s: %q sorted before %q", what, l[k-1], l[k])
			break
		}
	}
	if i%3 == 0 {
		stableOrder(t, what, orig, l, rpmutils.Vercmp)
	}
	t.Event("lists sorted")
	t.Event("elements sorted", len(l))
	t.Seen("arrangement", how)
}

func sortPackages(t *T, i int, size func(*rand.Rand) int) {
	r := t.R
	pool := []rpmutils.NEVRA{randNEVRA(r)}
	for k := min(size(r), 3000); k > 0; k-- {
		pool = append(pool, nearNEVRA(r, pool[r.IntN(len(pool))]))
	}
	l := make([]rpmutils.NEVRA, size(r))
	for k := range l {
		l[k] = pool[r.IntN(len(pool))]
	}
	how := arrange(r, l, func(a, b rpmutils.NEVRA) bool { return modelEVR(a, b) < 0 })
	orig := append([]rpmutils.NEVRA(nil), l...)
	t.Sig(fmt.Sprintf("%q", l))
	ns := rpmutils.NEVRASlice(l)
	switch i % 3 {
	case 0:
		sort.Stable(ns)
	case 1:
		sort.Sort(ns)
	case 2:
		ns.Sort()
	}
	what := fmt.Sprintf("%d packages (%s)", len(l), how)
	sameCounts(t, what, orig, l)
	for k := 1; k < len(l); k++ {
		if rpmutils.NEVRAcmp(l[k-1], l[k]) > 0 || modelEVR(l[k-1], l[k]) > 0 {
			t.Errorf("%s: %q sorted before %q", what, l[k-1], l[k])
			break
		}
	}
	if i%3 == 0 {
		stableOrder(t, what, orig, l, rpmutils.NEVRAcmp)
	}
	t.Event("lists sorted")
	t.Event("elements sorted", len(l))
	t.Seen("arrangement", how)
}
