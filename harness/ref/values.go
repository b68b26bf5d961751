package ref

import (
	"fmt"
	"strconv"
	"strings"
)

// Instant is a point in time: days since 1970-01-01 UTC and nanoseconds of that
// day.
type Instant struct{ Day, Nano int64 }

const dayNanos = 86400 * 1e9

// Cmp orders instants.
func (a Instant) Cmp(b Instant) int {
	switch {
	case a.Day != b.Day:
		if a.Day < b.Day {
			return -1
		}
		return 1
	case a.Nano < b.Nano:
		return -1
	case a.Nano > b.Nano:
		return 1
	}
	return 0
}

// Add moves an instant by nanoseconds (less than some years).
func (a Instant) Add(ns int64) Instant {
	d, n := ns/dayNanos, ns%dayNanos
	a.Day += d
	a.Nano += n
	if a.Nano < 0 {
		a.Nano += dayNanos
		a.Day--
	}
	if a.Nano >= dayNanos {
		a.Nano -= dayNanos
		a.Day++
	}
	return a
}

func leap(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func monthLen(y, m int64) int64 {
	switch m {
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// DayOf counts the days from 1970-01-01 to a date, year by year.
func DayOf(y, m, d int64) int64 {
	n := int64(0)
	for k := int64(1970); k < y; k++ {
		n += 365
		if leap(k) {
			n++
		}
	}
	for k := y; k < 1970; k++ {
		n -= 365
		if leap(k) {
			n--
		}
	}
	for k := int64(1); k < m; k++ {
		n += monthLen(y, k)
	}
	return n + d - 1
}

// Civil returns the date of a day.
func Civil(day int64) (y, m, d int64) {
	y = 1970
	for day < 0 {
		y--
		day += 365
		if leap(y) {
			day++
		}
	}
	for {
		l := int64(365)
		if leap(y) {
			l++
		}
		if day < l {
			break
		}
		day -= l
		y++
	}
	m = 1
	for day >= monthLen(y, m) {
		day -= monthLen(y, m)
		m++
	}
	return y, m, day + 1
}

func atoi(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

// ParseStamp reads a timestamp literal, already known to have its shape.
func ParseStamp(s string) (at Instant, day bool, ok bool) {
	y, m, d := atoi(s[0:4]), atoi(s[5:7]), atoi(s[8:10])
	if m < 1 || m > 12 || d < 1 || d > monthLen(y, m) {
		return at, false, false
	}
	at.Day = DayOf(y, m, d)
	if len(s) == 10 {
		return at, true, true
	}
	hh, mm, ss := atoi(s[11:13]), atoi(s[14:16]), atoi(s[17:19])
	if s[10] != 'T' || hh > 23 || mm > 59 || ss > 59 {
		return at, false, false
	}
	at.Nano = ((hh*60+mm)*60 + ss) * 1e9
	s = s[19:]
	if s[0] == '.' {
		n := 1
		for s[n] >= '0' && s[n] <= '9' {
			n++
		}
		at.Nano += atoi((s[1:n] + "000000000")[:9])
		s = s[n:]
	}
	if s == "Z" {
		return at, false, true
	}
	if len(s) != 6 {
		return at, false, false
	}
	oh, om := atoi(s[1:3]), atoi(s[4:6])
	if oh > 23 || om > 59 {
		return at, false, false
	}
	off := (oh*60 + om) * 60 * 1e9
	if s[0] == '-' {
		off = -off
	}
	return at.Add(-off), false, true
}

// Stamp writes an instant as RFC 3339 with the given number of fractional digits
// and offset in minutes; zone "Z" is used when utc is set.
func (a Instant) Stamp(sep string, frac int, offMin int64, z string) string {
	b := a.Add(offMin * 60 * 1e9)
	y, m, d := Civil(b.Day)
	sec := b.Nano / 1e9
	s := fmt.Sprintf("%04d-%02d-%02d%s%02d:%02d:%02d", y, m, d, sep, sec/3600, sec/60%60, sec%60)
	if frac > 0 {
		s += "." + fmt.Sprintf("%09d", b.Nano%1e9)[:frac]
	}
	if z != "" {
		return s + strings.TrimPrefix(z, "none")
	}
	sign := '+'
	if offMin < 0 {
		sign = '-'
		offMin = -offMin
	}
	return s + fmt.Sprintf("%c%02d:%02d", sign, offMin/60, offMin%60)
}

// Date writes the UTC date of an instant.
func (a Instant) Date() string {
	y, m, d := Civil(a.Day)
	return fmt.Sprintf("%04d-%02d-%02d", y, m, d)
}

// Prefix is an IPv4 block.
type Prefix struct {
	Addr uint32
	Bits int
}

func (p Prefix) String() string { return fmt.Sprintf("%s/%d", IP(p.Addr), p.Bits) }

// IP writes an address.
func IP(a uint32) string {
	return fmt.Sprintf("%d.%d.%d.%d", a>>24, a>>16&255, a>>8&255, a&255)
}

// ParseNet reads an address or a block.
func ParseNet(s string) (Prefix, bool) {
	bits := 32
	if i := strings.IndexByte(s, '/'); i >= 0 {
		b := s[i+1:]
		if b == "" || len(b) > 1 && b[0] == '0' || atoi(b) > 32 {
			return Prefix{}, false
		}
		bits = int(atoi(b))
		s = s[:i]
	}
	var addr uint32
	parts := strings.Split(s, ".")
	if len(parts) != 4 {
		return Prefix{}, false
	}
	for _, o := range parts {
		if o == "" || len(o) > 3 || len(o) > 1 && o[0] == '0' || atoi(o) > 255 {
			return Prefix{}, false
		}
		addr = addr<<8 | uint32(atoi(o))
	}
	return Prefix{addr, bits}, true
}

// Overlap reports whether two blocks have an address in common.
func Overlap(a, b Prefix) bool {
	n := min(a.Bits, b.Bits)
	for i := 0; i < n; i++ {
		if a.Addr>>(31-i)&1 != b.Addr>>(31-i)&1 {
			return false
		}
	}
	return true
}
