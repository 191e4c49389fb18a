package h_core

import (
	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/zzverif/vsym"
)

var sorts = []struct {
	name string
	sort func([]uint64)
	is   func([]uint64) bool
	desc bool
}{
	{"Asc", core.Asc, core.IsSortedAsc, false},
	{"StableAsc", core.StableAsc, core.IsSortedAsc, false},
	{"Desc", core.Desc, core.IsSortedDesc, true},
	{"StableDesc", core.StableDesc, core.IsSortedDesc, true},
}

// sorted asserts that out is in, in order.
func sorted(name string, in, out []uint64, desc bool) {
	vsym.Assert(len(in) == len(out), name+" changes the length")
	ok := true
	for i := 1; i < len(out); i++ {
		if desc {
			ok = vsym.And(ok, out[i-1] >= out[i])
		} else {
			ok = vsym.And(ok, out[i-1] <= out[i])
		}
	}
	vsym.Assert(ok, name+" leaves the slice out of order")
	vsym.Assert(vsym.SamePerm(in, out), name+" loses, adds or changes a value")
}

//vsym:harness prop=C14 tier=quick,thorough time=90 ttime=600
//vsym:bounds slices of 0..7 (thorough 0..8) arbitrary 64-bit values, all four sorts, duplicates included
//vsym:reach end
func SortSmall() {
	s := sorts[vsym.Choice("sort", len(sorts))]
	n := vsym.Choice("n", 8+vsym.Tier())
	var in []uint64
	for i := 0; i < n; i++ {
		in = append(in, vsym.Uint64("v"))
	}
	out := append([]uint64{}, in...)
	s.sort(out)
	sorted(s.name, in, out, s.desc)
	vsym.Assert(s.is(out), "a sorted slice is reported as unsorted")
	vsym.Reach("end")
}

// patterns of concrete values around the symbolic ones; the last one makes
// median-of-three quicksort degenerate, so that its depth limit is reached.
func pattern(p, n int) []uint64 {
	a := make([]uint64, n)
	for i := range a {
		switch p {
		case 0:
			a[i] = uint64(i * 2)
		case 1:
			a[i] = uint64((n - i) * 2)
		case 2:
			a[i] = uint64((i*7)%n) * 2
		case 3:
			a[i] = uint64(i%3) * 10
		case 4:
			if i < n/2 {
				a[i] = uint64(i * 2)
			} else {
				a[i] = uint64((n - i) * 2)
			}
		case 5:
			a[i] = ^uint64(0) - uint64((i*5)%n)
		}
	}
	return a
}

//vsym:harness prop=C14 tier=quick,thorough time=90 ttime=600
//vsym:bounds slices of 8, 21 and 45 (thorough also 12, 40 and 63) values in six shapes (rising, falling, shuffled, few distinct values, organ pipe, near the 64-bit maximum), two (thorough three) of them arbitrary 64-bit values at the ends (thorough: or in the middle and at a quarter); all four sorts
//vsym:reach end
func SortLong() {
	s := sorts[vsym.Choice("sort", len(sorts))]
	sizes := []int{8, 21, 45, 12, 40, 63}
	n := sizes[vsym.Choice("n", 3+3*vsym.Tier())]
	p := vsym.Choice("shape", 6)
	in := pattern(p, n)
	at := [][]int{{0, n - 1, n / 2}, {n / 2, n/4 + 1, 0}}[vsym.Choice("at", 1+vsym.Tier())]
	for _, i := range at[:2+vsym.Tier()] {
		in[i] = vsym.Uint64("v")
	}
	out := append([]uint64{}, in...)
	s.sort(out)
	sorted(s.name, in, out, s.desc)
	vsym.Reach("end")
}

// killer is a McIlroy adversarial input for core's median-of-three quicksort:
// it reaches the depth limit and so the heap sort.
var killer = []uint64{0, 86, 88, 54, 12, 90, 92, 94, 2, 40, 22, 14, 46, 62, 96, 32, 24, 78, 66, 98, 42, 34, 100, 74, 4, 44, 102, 16, 104, 58, 106, 26, 6, 36, 18, 70, 108, 28, 110, 38, 112, 82, 48, 114, 52, 56, 60, 64, 68, 72, 76, 80, 84, 116, 118, 8, 20, 30, 50, 120, 122, 124, 126, 10}

//vsym:harness prop=C14 tier=quick,thorough time=90 ttime=600
//vsym:bounds a 64-value adversarial input on which quicksort reaches its depth limit, one (thorough two) of the values arbitrary; both unstable sorts
//vsym:reach end
func SortDegenerate() {
	s := sorts[vsym.Choice("sort", 2)*2]
	in := append([]uint64{}, killer...)
	if s.desc {
		for i := range in {
			in[i] = 200 - in[i]
		}
	}
	at := []int{vsym.Choice("at", 8) * 8, 37}
	for _, i := range at[:1+vsym.Tier()] {
		in[i] = vsym.Uint64("v")
	}
	out := append([]uint64{}, in...)
	s.sort(out)
	sorted(s.name, in, out, s.desc)
	vsym.Reach("end")
}

//vsym:harness prop=C14 tier=quick,thorough time=60
//vsym:bounds every slice of 0..5 arbitrary 64-bit values
//vsym:reach end
func SortedChecks() {
	n := vsym.Choice("n", 6)
	var a []uint64
	for i := 0; i < n; i++ {
		a = append(a, vsym.Uint64("v"))
	}
	up, down := true, true
	for i := 1; i < n; i++ {
		up = vsym.And(up, a[i-1] <= a[i])
		down = vsym.And(down, a[i-1] >= a[i])
	}
	vsym.Assert(core.IsSortedAsc(a) == up, "IsSortedAsc disagrees with the order of the slice")
	vsym.Assert(core.IsSortedDesc(a) == down, "IsSortedDesc disagrees with the order of the slice")
	vsym.Reach("end")
}
