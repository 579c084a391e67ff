package h_hum

import (
	"time"

	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// base is a time of the day in the middle of a month.
func base(name string) (int, time.Time) {
	c := nd.Param("year")
	x := moment(c, nd.Range(name+"k", 0, 24), 6, name, time.UTC)
	return x.sec, x.t
}

// span is any duration of whole seconds within the size: 0 to 59 seconds, minutes, hours, days, weeks, months or years.
func span(size int) int {
	s, m, h := nd.Range("s", 0, 59), 0, 0
	if size >= 1 {
		m = nd.Range("m", 0, 59)
	}
	if size >= 2 {
		h = nd.Range("h", 0, 23)
	}
	d := 0
	switch size {
	case 3:
		d = nd.Range("d", 1, 29)
	case 4:
		d = nd.Range("d", 30, 59)
	}
	return d*86400 + h*3600 + m*60 + s
}

// Length: durations and seconds since 1970 as input.
func Length() {
	h := human()
	time.Local = time.UTC
	D := span(nd.Param("size"))
	ns := nd.Range("frac", 0, 999999999)
	dur := time.Duration(D)*time.Second + time.Duration(ns)
	_, now := base("now")
	got := ""
	whole := []int{D}
	if nd.Param("fn") < 2 {
		nd.SetNow(now)
		nd.Tick(time.Duration(nd.Range("tick", 0, 400000000)))
		whole = []int{D, D + 1, D + 2} // up to a second more, and both ends cut to seconds
	}
	switch nd.Param("fn") {
	case 0:
		got = h.TimeSince(-dur)
	case 1:
		got = h.TimeUntil(dur)
	case 2:
		got = h.TimeSinceFrom(D, time.Unix(int64(2*D), 0))
	case 3:
		got = h.TimeUntilFrom(float64(3*D), time.Unix(int64(2*D), 0))
	}
	nd.ObserveStr(got)
	units, counts := amounts(got)
	ok := false
	for _, D := range whole {
		ok = nd.Or(ok, shows(D, units, counts, 2, true))
	}
	nd.Assert(ok, "time in between")
	nd.Reach("length")
}

var small = []string{"second", "minute", "hour"}

// worded reads what NaturalTime printed. side is -1 for past, 1 for the future.
func worded(got string) (side, unit, n int) {
	if got == "now" {
		return 0, -1, 0
	}
	if len(calls) == 0 {
		for i, w := range small {
			art := "a "
			if i == 2 {
				art = "an "
			}
			if got == art+w+" ago" {
				return -1, i, 1
			}
			if got == art+w+" from now" {
				return 1, i, 1
			}
		}
		nd.Assert(false, "words: "+got)
	}
	nd.Assert(got == mark(len(calls)-1), "one text")
	c := calls[len(calls)-1]
	nd.Assert(len(c.vars) == 1, "one value")
	for i, w := range small {
		art := "a "
		if i == 2 {
			art = "an "
		}
		switch c.format {
		case art + w + " ago":
			nd.Assert(len(calls) == 1 && count(c.vars[0]) == 1, "singular")
			return -1, i, 1
		case art + w + " from now":
			nd.Assert(len(calls) == 1 && count(c.vars[0]) == 1, "singular")
			return 1, i, 1
		case "%[1]v " + w + "s ago":
			nd.Assert(len(calls) == 1 && count(c.vars[0]) != 1, "plural")
			return -1, i, count(c.vars[0])
		case "%[1]v " + w + "s from now":
			nd.Assert(len(calls) == 1 && count(c.vars[0]) != 1, "plural")
			return 1, i, count(c.vars[0])
		}
	}
	side = -1
	if c.format == "%[1]v from now" {
		side = 1
	} else {
		nd.Assert(c.format == "%[1]v ago", "format")
	}
	return side, 3, 0
}

// fits tells whether the words are those of N seconds.
func fits(N, unit, n int) bool {
	switch unit {
	case -1:
		return N == 0
	case 0:
		return nd.And(nd.And(n >= 1, n < 60), n == N)
	case 1:
		return nd.And(nd.And(n >= 1, n < 60), nd.And(n*60 <= N, N < n*60+60))
	}
	return nd.And(nd.And(n >= 1, n < 24), nd.And(n*3600 <= N, N < n*3600+3600))
}

// Time: natural time of an instant, or of a duration with a clock that advances.
func Time() {
	h := human()
	time.Local = time.UTC
	D := span(nd.Param("size"))
	sec, now := base("now")
	sign := 1
	past := nd.Choice("past", 2) == 1
	if past {
		sign = -1
	}
	nd.SetNow(now)
	// the distance is D seconds and some nanoseconds
	frac := 0
	got := ""
	if nd.Param("fn") < 3 {
		sec = sec - days0(1970)*86400 + sign*D
		ns := nd.Range("ns", 0, 999999999)
		frac = sign * (ns - now.Nanosecond())
		t := time.Unix(int64(sec), int64(ns))
		switch nd.Param("fn") {
		case 0:
			got = h.NaturalTime(t.UTC())
		case 1:
			got = h.NaturalTime(t.In(time.FixedZone("XYZ", -41400)))
		case 2:
			got = h.NaturalTime(&t)
		}
	} else {
		// whole seconds stay what they are, while the clock advances a bit
		nd.Tick(time.Duration(nd.Range("tick", 0, 100000000)))
		got = h.NaturalTime(time.Duration(sign * D * 1000000000))
	}
	nd.ObserveStr(got)
	side, unit, n := worded(got)
	var units, counts []int
	if unit == 3 {
		calls = calls[:len(calls)-1]
		inner := ""
		for i := range calls {
			if i > 0 {
				inner += ", "
			}
			inner += mark(i)
		}
		units, counts = amounts(inner)
	}
	match := func(N int) bool {
		if unit < 3 {
			return fits(N, unit, n)
		}
		// a second less may count as a day already
		return nd.And(N >= 86399, shows(N, units, counts, 2, true))
	}
	less := D - 1
	if D == 0 {
		less = 1 // in the other direction
	}
	ok := nd.Or(match(D), nd.Or(nd.And(frac > 0, match(D+1)), nd.And(frac < 0, match(less))))
	nd.Assert(ok, "distance")
	if side == 0 {
		nd.Reach("now")
		return
	}
	nd.Assert(nd.Or(past == (side < 0), nd.And(D == 0, frac < 0)), "past or future")
	if D == 0 && frac < 0 {
		nd.Assert(past == (side > 0), "past or future")
	}
	nd.Reach("words")
}

// Day: natural day by the calendar of the zone of the value.
func Day() {
	h := human()
	c, dy, set := nd.Param("year"), nd.Param("dy"), nd.Param("months")
	k := nd.Range("k", 0, 24)
	off := []int{0, 50400, -43200, 20700}[nd.Choice("off", 4)]
	loc := time.FixedZone("XYZ", off)
	a := moment(c, k, monthOf("ma", set), "a", loc)
	b := moment(c+dy, k, monthOf("mb", set), "b", loc)
	now := b.t
	if nd.Choice("utc", 2) == 1 {
		now = now.UTC()
	}
	nd.SetNow(now)
	got := h.NaturalDay(a.t)
	nd.ObserveStr(got)
	da, db := a.sec/86400, b.sec/86400
	switch got {
	case "today":
		nd.Assert(da == db, "today")
		nd.Reach("today")
	case "tomorrow":
		nd.Assert(da == db+1, "tomorrow")
		nd.Reach("tomorrow")
	case "yesterday":
		nd.Assert(da == db-1, "yesterday")
		nd.Reach("yesterday")
	default:
		nd.Assert(nd.And(da != db, nd.And(da != db+1, da != db-1)), "date")
		nd.Assert(got == h.FormatTime(a.t, humanize.DateFormat), "date format")
		nd.Reach("date")
	}
}

// Later: the day that a duration leads to, while the clock advances.
func Later() {
	h := human()
	c := nd.Param("year")
	loc := time.UTC
	k := nd.Param("k")
	x := moment(c, k, nd.Param("month"), "now", loc)
	nd.SetNow(x.t)
	nd.Tick(time.Duration(nd.Range("tick", 0, 100000000)))
	far := nd.Param("far") // days
	d := nd.Range("d", 0, far) - far/2
	s := nd.Range("s", 0, 86399)
	got := h.NaturalDay(time.Duration(d*86400+s) * time.Second)
	nd.ObserveStr(got)
	rest := x.sec % 86400
	day := d
	if rest+s >= 86400 {
		day++
	}
	switch got {
	case "today":
		nd.Assert(day == 0, "today")
		nd.Reach("today")
	case "tomorrow":
		nd.Assert(day == 1, "tomorrow")
		nd.Reach("tomorrow")
	case "yesterday":
		nd.Assert(day == -1, "yesterday")
		nd.Reach("yesterday")
	default:
		nd.Assert(nd.Or(day < -1, day > 1), "date")
		nd.Reach("date")
	}
}
