package h

import (
	math "github.com/IBM/mathlib"

	"pol/common"
	"pol/zzverif/nd"
)

func digest(d []byte) string { return string(d) }

// challenges lists the digests that run turns into scalars.
func challenges(run func()) []string {
	var out []string
	for _, d := range nd.Challenges(run) {
		out = append(out, digest(d))
	}
	return out
}

// firstChanged is the first challenge of a that differs in b, len(a) if there is none; the challenges after it that
// are derived in b must differ, too.
func firstChanged(a, b []string, what string) int {
	f := len(a)
	for i := range a {
		if i >= len(b) {
			break
		}
		if a[i] != b[i] {
			if f == len(a) {
				f = i
			}
		} else {
			nd.Assert(f == len(a), "a challenge does not depend on "+what+", but an earlier one does")
		}
	}
	return f
}

// fresh lists the positions at which a challenge appears for the first time.
func fresh(c []string) []int {
	var out []int
	for i := range c {
		seen := false
		for j := 0; j < i; j++ {
			seen = seen || c[i] == c[j]
		}
		if !seen {
			out = append(out, i)
		}
	}
	return out
}

func pick(c []string, at []int) []string {
	var out []string
	for _, i := range at {
		if i < len(c) {
			out = append(out, c[i])
		}
	}
	return out
}

func allChanged(a, b []string) bool {
	for i := range a {
		if i < len(b) && a[i] == b[i] {
			return false
		}
	}
	return len(a) > 0
}

// binding checks a proof made non-interactive. The messages are the leaves of root, in groups by the first challenge
// they influence; there must be groups[0] messages before the first challenge, groups[1] more before the next one,
// with at least own[s] different challenges after a group and before the next. Every challenge depends on all messages before it,
// however several of them are altered at once. Messages of later groups are sent later, or are answers.
func binding(root interface{}, trace func() []string, groups, own []int, skip ...string) {
	l := nd.Leaves(root, skip...)
	zero := common.IntToZr(0)
	for i := 0; i < l; i++ {
		nd.Shift(root, i, zero, skip...) // canonical
	}
	run := trace
	base := run()
	fresh := fresh(base)
	trace = func() []string { return pick(run(), fresh) }
	base = pick(base, fresh)
	first := make([]int, l)
	for i := range first {
		nd.Shift(root, i, common.IntToZr(1), skip...)
		first[i] = firstChanged(base, trace(), nd.LeafPath(root, i, skip...))
		nd.Shift(root, i, common.NegZr(common.IntToZr(1)), skip...)
	}
	at := -1 // where the current group begins
	begin := make([]int, len(groups)+1)
	for s := 0; s <= len(groups); s++ {
		next, n, who := len(base), 0, ""
		for i := range first {
			if first[i] > at && first[i] < next {
				next = first[i]
			}
		}
		for i := range first {
			if first[i] == next {
				n++
				who += " " + nd.LeafPath(root, i, skip...)
			}
		}
		begin[s], at = next, next
		if s < len(groups) {
			nd.Assert(next < len(base) && n == groups[s], num("%d messages instead of %d enter challenge %d first:%s", n, groups[s], s, who))
		}
		if s > 0 {
			nd.Assert(next-begin[s-1] >= own[s-1], "too few challenges follow a message")
		}
	}
	// several at once
	s := nd.Choice("stage", len(groups))
	some := false
	for i := range first {
		if first[i] <= begin[s] {
			t := nd.Zr(num("t%d", i))
			some = some || !t.Equals(zero)
			nd.Shift(root, i, t, skip...)
		}
	}
	if !some {
		return
	}
	c := trace()
	for k := begin[s]; k < begin[s+1] && k < len(c); k++ {
		nd.Assert(base[k] != c[k], "altered messages lead to the same challenge")
	}
}

func invert(x *math.Zr) *math.Zr {
	y := x.Copy()
	y.InvModP(curve.GroupOrder)
	return y
}
