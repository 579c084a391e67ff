package h_hum

import (
	"time"

	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

var unitNames = []string{"year", "month", "week", "day", "hour", "minute"}
var unitSecs = []int{365 * 86400, 30 * 86400, 7 * 86400, 86400, 3600, 60}

// monthOf is a month out of the set m: 0 all, 1 those around leap days and the end of the year.
func monthOf(name string, set int) int {
	if set == 0 {
		return nd.Choice(name, 12) + 1
	}
	return []int{1, 2, 3, 12}[nd.Choice(name, 4)]
}

// instant is a time on the calendar.
type instant struct {
	y, m int // the year of the 400 year cycle
	sec  int // whole seconds since the start of the calendar
	t    time.Time
}

// moment is any nanosecond of the days of a month.
func moment(c, k, m int, name string, loc *time.Location) instant {
	d := nd.Range(name+"d", 1, dim(c, m))
	h, min, s := nd.Range(name+"h", 0, 23), nd.Range(name+"min", 0, 59), nd.Range(name+"s", 0, 59)
	yday := cum[m-1] + d - 1
	if m > 2 && dim(c, 2) == 29 {
		yday++
	}
	sec := (days0(c)+146097*k+yday)*86400 + h*3600 + min*60 + s
	return instant{c, m, sec, time.Date(c+400*k, time.Month(m), d, h, min, s, nd.Range(name+"ns", 0, 999999999), loc)}
}

// amounts reads what was printed: the units and their numbers.
func amounts(got string) (units, counts []int) {
	if got == "" {
		nd.Assert(false, "nothing shown")
	}
	want := ""
	for i, c := range calls {
		if i > 0 {
			want += ", "
		}
		want += mark(i)
		nd.Assert(len(c.vars) == 1, "one number")
		n := count(c.vars[0])
		unit := -1
		for j, name := range unitNames {
			if c.format == "%[1]v "+name {
				nd.Assert(n == 1, "singular")
				unit = j
			} else if c.format == "%[1]v "+name+"s" {
				nd.Assert(n != 1, "plural")
				unit = j
			}
		}
		nd.Assert(unit >= 0, "unit")
		units, counts = append(units, unit), append(counts, n)
	}
	nd.Assert(got == want, "amounts joined")
	return units, counts
}

func count(v any) int {
	switch v := v.(type) {
	case int:
		return v
	case int64:
		return int(v)
	}
	nd.Assert(false, "kind of number")
	return 0
}

// shows tells whether the amounts are those of D seconds.
func shows(D int, units, counts []int, depth int, adjacent bool) bool {
	if len(units) == 1 && units[0] == 5 && counts[0] == 0 {
		return D < 60
	}
	ok := true
	r, n := D, 0
	for u, secs := range unitSecs {
		if n == len(units) && (n == depth || adjacent) {
			// no more
			if n < depth {
				ok = nd.And(ok, r < secs)
			}
			break
		}
		if n < len(units) && units[n] == u {
			ok = nd.And(ok, counts[n] >= 1)
			r -= counts[n] * secs
			n++
			ok = nd.And(ok, nd.And(r >= 0, r < secs))
			continue
		}
		if adjacent && n > 0 {
			return false
		}
		ok = nd.And(ok, r < secs)
	}
	if n < len(units) {
		return false
	}
	return ok
}

// spans are the seconds from a to b that may be shown: leap days in between are left out, except that a leap day of
// the last year may count if the years before are no leap years.
func spans(a, b instant) []int {
	D, leaps, before := b.sec-a.sec, 0, 0
	for y := a.y; y <= b.y; y++ {
		if dim(y, 2) != 29 {
			continue
		}
		if y < b.y {
			before++
		}
		if y == a.y && a.m > 2 || y == b.y && b.m <= 2 {
			continue
		}
		leaps++
	}
	if before == 0 && leaps > 0 {
		return []int{D - 86400*leaps, D}
	}
	return []int{D - 86400*leaps}
}

func options() (opts []humanize.TimeOption, depth int, adjacent bool) {
	if depth = nd.Param("depth"); depth > 0 {
		opts = append(opts, humanize.WithDepth(depth))
	} else {
		depth = 2
	}
	if adjacent = nd.Param("adj") == 1; !adjacent {
		opts = append(opts, humanize.WithoutAdjacentCheck())
	}
	return opts, depth, adjacent
}

// Since: the time between two moments.
func Since() {
	h := human()
	c, dy, set := nd.Param("year"), nd.Param("dy"), nd.Param("months")
	k := nd.Range("k", 0, 24)
	la, lb := time.UTC, time.UTC
	switch nd.Param("zone") {
	case 1:
		la, lb = time.FixedZone("XYZ", -12600), time.FixedZone("XYZ", -12600)
	case 2:
		lb = time.FixedZone("XYZ", 43200)
	}
	a := moment(c, k, monthOf("ma", set), "a", la)
	b := moment(c+dy, k, monthOf("mb", set), "b", lb)
	if lb != la && nd.Param("zone") == 2 {
		b.sec -= 43200
	}
	opts, depth, adjacent := options()
	// the zero time as the point of comparison means that none is given
	nd.Assume(!a.t.IsZero() && !b.t.IsZero())
	got := ""
	switch nd.Param("fn") {
	case 0:
		got = h.TimeSinceFrom(a.t, b.t, opts...)
	case 1:
		got = h.TimeUntilFrom(b.t, a.t, opts...)
	case 2:
		nd.SetNow(b.t)
		got = h.TimeSince(a.t, opts...)
	case 3:
		nd.SetNow(a.t)
		got = h.TimeUntil(b.t, opts...)
	}
	nd.ObserveStr(got)
	units, counts := amounts(got)
	for i := range counts {
		nd.ObserveInt(int64(counts[i]))
	}
	ok := false
	for _, D := range spans(a, b) {
		ok = nd.Or(ok, shows(D, units, counts, depth, adjacent))
	}
	nd.Assert(ok, "time in between")
	nd.Reach("since")
}
