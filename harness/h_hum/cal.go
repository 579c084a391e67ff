// Package h_hum checks the humanize package and the calendar functions it uses.
package h_hum

import (
	"time"

	"github.com/vorlif/spreak/internal/calendar"
	"github.com/vorlif/spreak/internal/zzverif/nd"
)

// year is any year c mod 400.
func year(name string, c int) int {
	return 400*nd.Range(name, nd.Param("lo"), nd.Param("hi")) + c
}

var rests = []int{0, 1, 3, 4, 5, 99, 100, 101, 199, 200, 300, 301, 396, 397, 399}

// Leap: leap years, and how many there are in between.
func Leap() {
	ca, cb := 0, rests[nd.Param("rb")]
	if nd.Param("all") == 1 {
		ca = nd.Choice("ra", 400)
	} else {
		ca = rests[nd.Choice("ra", len(rests))]
	}
	if nd.Param("swap") == 1 {
		ca, cb = cb, ca
	}
	a, b := year("a", ca), year("b", cb)
	isLeap := func(c int) bool { return c%4 == 0 && (c%100 != 0 || c == 0) }
	nd.Assert(calendar.IsLeap(a) == isLeap(ca), "leap year")
	nd.Assert(calendar.LeapDays(a, a) == 0, "leap days of no year")
	n := 0
	if isLeap(ca) {
		n = 1
	}
	nd.Assert(calendar.LeapDays(a, a+1) == n, "leap days of one year")
	// from a to b: 97 in 400 years, and those of the rest
	n = 0
	for y := ca; y < cb; y++ {
		if isLeap(y) {
			n++
		}
	}
	for y := cb; y < ca; y++ {
		if isLeap(y) {
			n--
		}
	}
	nd.Assert(calendar.LeapDays(a, b) == (b-cb-a+ca)/400*97+n, "leap days of several years")
	nd.Reach("leap")
}

// Month: days in a month.
func Month() {
	c, m := nd.Choice("c", 400), nd.Choice("m", 12)+1
	y := year("y", c)
	want := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
	if m == 2 && dim(c, m) == 29 {
		want++
	}
	nd.Assert(calendar.DaysInMonth(y, time.Month(m)) == want, "days in a month")
	nd.Reach("month")
}

// dim is the number of days of a month.
func dim(y, m int) int {
	switch {
	case m == 2 && y%4 == 0 && (y%100 != 0 || y%400 == 0):
		return 29
	case m == 2:
		return 28
	case m == 4 || m == 6 || m == 9 || m == 11:
		return 30
	}
	return 31
}
