package h_hum

import (
	"strings"
	"time"

	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// day is a calendar date with everything that follows from it, by the rules of the Gregorian calendar.
type day struct {
	y, m, d    int
	leap       bool
	yday       int // 1 to 366
	abs        int // days since 0000-03-01 or so
	wday       int // 0 is Sunday
	isoY, isoW int
}

var cum = []int{0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}

// days0 is the number of days from 0000-01-01 to the first of January of y, y >= 0.
func days0(y int) int {
	if y == 0 {
		return 0
	}
	p := y - 1
	return 365*y + p/4 - p/100 + p/400 + 1
}

// anyDay is any date of the years with c = y mod 400.
func anyDay(c, m, maxK int) day {
	k := nd.Range("k", 0, maxK)
	d := nd.Range("d", 1, dim(c, m))
	return mkDay(c, k, m, d)
}

// anyWeekday is anyDay with a path for each day of the week.
func anyWeekday(c, m, maxK int) day {
	k := nd.Range("k", 0, maxK)
	first := nd.Choice("first", 7) + 1
	d := first + 7*nd.Range("week", 0, (dim(c, m)-first)/7)
	return mkDay(c, k, m, d)
}

func mkDay(c, k, m, d int) day {
	r := day{y: c + 400*k, m: m, d: d}
	r.leap = c%4 == 0 && (c%100 != 0 || c%400 == 0)
	r.yday = cum[m-1] + d
	if r.leap && m > 2 {
		r.yday++
	}
	r.abs = days0(c) + 146097*k + r.yday - 1
	r.wday = (days0(c) + r.yday - 1 + 6) % 7 // 0000-01-01 is a Saturday; 146097 is a multiple of 7
	// the week belongs to the year of its Thursday
	mon := (r.wday + 6) % 7 // 0 is Monday
	thu := r.yday - mon + 3
	dy := 365
	if r.leap {
		dy = 366
	}
	prev := 365
	if p := c + 399; p%4 == 0 && (p%100 != 0 || p%400 == 0) {
		prev = 366
	}
	if thu < 1 {
		r.isoY, r.isoW = r.y-1, (thu+prev-1)/7+1
	} else if thu > dy {
		r.isoY, r.isoW = r.y+1, (thu-dy-1)/7+1
	} else {
		r.isoY, r.isoW = r.y, (thu-1)/7+1
	}
	return r
}

// Fields: the date fields.
func Fields() {
	h := human()
	chars := "dDEFjlLmMnNoStwWyYzb"
	ch := chars[nd.Param("ch")]
	c := nd.Param("year") + nd.Choice("c", nd.Param("years"))
	m := nd.Choice("m", 12) + 1
	x := day{}
	if strings.IndexByte("DlwWo", ch) >= 0 {
		x = anyWeekday(c, m, 24)
	} else {
		x = anyDay(c, m, 24)
	}
	t := time.Date(x.y, time.Month(x.m), x.d, nd.Range("h", 0, 23), nd.Range("min", 0, 59), nd.Range("s", 0, 59), 0, time.UTC)
	got := h.FormatTime(t, string(rune(ch)))
	nd.ObserveStr(got)
	nd.Assert(got == x.field(ch), "field "+string(rune(ch)))
	nd.Reach("field")
}

var monthNames = []string{"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}
var apNames = []string{"Jan.", "Feb.", "March", "April", "May", "June", "July", "Aug.", "Sept.", "Oct.", "Nov.", "Dec."}
var dayNames = []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}

func (x day) field(ch byte) string {
	switch ch {
	case 'd':
		return num(x.d, 2)
	case 'D':
		return dayNames[x.wday][:3]
	case 'E', 'F':
		return monthNames[x.m-1]
	case 'j':
		return num(x.d, 1)
	case 'l':
		return dayNames[x.wday]
	case 'L':
		if x.leap {
			return "true"
		}
		return "false"
	case 'm':
		return num(x.m, 2)
	case 'M':
		return monthNames[x.m-1][:3]
	case 'n':
		return num(x.m, 1)
	case 'N':
		return apNames[x.m-1]
	case 'o':
		return num(x.isoY, 1)
	case 'S':
		if x.d/10 != 1 {
			switch x.d % 10 {
			case 1:
				return "st"
			case 2:
				return "nd"
			case 3:
				return "rd"
			}
		}
		return "th"
	case 't':
		return num(dim(x.y%400, x.m), 1)
	case 'w':
		return num(x.wday, 1)
	case 'W':
		return num(x.isoW, 1)
	case 'y':
		return num(x.y%100, 2)
	case 'Y':
		return num(x.y, 4)
	case 'z':
		return num(x.yday, 1)
	case 'b':
		s := monthNames[x.m-1][:3]
		return string(s[0]+32) + s[1:]
	}
	return ""
}

// Clock: the fields of the time of day and of the zone.
func Clock() {
	h := human()
	chars := "aAfgGhHiPsueOZrc"
	ch := chars[nd.Param("ch")]
	c := nd.Param("year") + 100*nd.Choice("c", 4)
	m := []int{1, 2, 3, 12}[nd.Choice("m", 4)]
	x := anyDay(c, m, 24)
	if ch == 'r' {
		// the day of the week is written
		x = anyWeekday(c, m, 24)
	}
	hour, min, sec := nd.Range("h", 0, 23), nd.Range("min", 0, 59), nd.Range("s", 0, 59)
	us := nd.Range("us", 0, 999999)
	off := 0
	if ch == 'O' || ch == 'Z' {
		off = 60 * nd.Range("off", -14*60, 14*60)
	} else {
		off = []int{0, 19800, -12600, 45900, -36000}[nd.Choice("zone", 5)]
	}
	t := time.Date(x.y, time.Month(x.m), x.d, hour, min, sec, 1000*us+nd.Range("ns", 0, 999), time.FixedZone("XYZ", off))
	got := h.FormatTime(t, string(rune(ch)))
	nd.ObserveStr(got)

	want := ""
	switch ch {
	case 'a':
		want = ampm(hour)
	case 'A':
		want = "AM"
		if hour >= 12 {
			want = "PM"
		}
	case 'f':
		want = hm(hour, min)
	case 'g':
		want = num(h12(hour), 1)
	case 'G':
		want = num(hour, 1)
	case 'h':
		want = num(h12(hour), 2)
	case 'H':
		want = num(hour, 2)
	case 'i':
		want = num(min, 2)
	case 'P':
		want = hm(hour, min) + " " + ampm(hour)
		if min == 0 && hour == 0 {
			want = "midnight"
		} else if min == 0 && hour == 12 {
			want = "noon"
		}
	case 's':
		want = num(sec, 2)
	case 'u':
		want = digits(us, 6)
	case 'e':
		want = "XYZ"
	case 'O':
		want = zone(off)
	case 'Z':
		want = num(off, 1)
	case 'r':
		want = dayNames[x.wday][:3] + ", " + num(x.d, 2) + " " + monthNames[x.m-1][:3] + " " + num(x.y, 4) + " " + num(hour, 2) + ":" + num(min, 2) + ":" + num(sec, 2) + " " + zone(off)
	case 'c':
		want = num(x.y, 4) + "-" + num(x.m, 2) + "-" + num(x.d, 2) + "T" + num(hour, 2) + ":" + num(min, 2) + ":" + num(sec, 2)
		nd.Assert(len(got) > len(want) && got[:len(want)] == want && got[len(want)] == '.', "field c")
		nd.Reach("clock")
		return
	}
	nd.Assert(got == want, "field "+string(rune(ch)))
	nd.Reach("clock")
}

func h12(hour int) int {
	if hour >= 12 {
		hour -= 12
	}
	if hour == 0 {
		return 12
	}
	return hour
}

func ampm(hour int) string {
	if hour >= 12 {
		return "p.m."
	}
	return "a.m."
}

func hm(hour, min int) string {
	if min != 0 {
		return num(h12(hour), 1) + ":" + num(min, 2)
	}
	return num(h12(hour), 1)
}

func zone(off int) string {
	if off < 0 {
		return "-" + num(-off/3600, 2) + num(-off/60%60, 2)
	}
	return "+" + num(off/3600, 2) + num(off/60%60, 2)
}

// Unix: the seconds since the epoch.
func Unix() {
	h := human()
	n := nd.Int("n")
	lim := 1 << nd.Param("bits")
	nd.Assume(nd.And(n > -lim, n < lim))
	t := time.Unix(int64(n), int64(nd.Range("ns", 0, 999999999)))
	if nd.Choice("zone", 2) == 1 {
		t = t.In(time.FixedZone("XYZ", 19800))
	} else {
		t = t.In(time.UTC)
	}
	got := h.FormatTime(t, "U")
	nd.ObserveStr(got)
	nd.Assert(got == num(n, 1), "field U")
	nd.Reach("unix")
}

// Iso: the fraction of the second in ISO 8601 format.
func Iso() {
	h := human()
	n, s := decimal(nd.Choice("digits", 9) + 1)
	t := time.Date(2008, 1, 2, 10, 30, nd.Range("s", 10, 59), n, time.UTC)
	got := h.FormatTime(t, "c")
	nd.ObserveStr(got)
	pre := "2008-01-02T10:30:" + num(t.Second(), 2) + "."
	nd.Assert(len(got) > len(pre) && got[:len(pre)] == pre, "seconds")
	got = got[len(pre):]
	long := "000000000"[len(s):] + s
	if got == long || got == long[:6] || got == "0" && n == 0 {
		nd.Reach("fraction")
		return
	}
	nd.Assert(got == s, "fraction of the second")
	nd.Assert(false, "fraction of the second without leading zeros")
}
