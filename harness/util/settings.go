package util

import (
	"math"
	"time"

	zvx "github.com/netsec-ethz/fpki/pkg/zvx"
)

//vx:stub time.Now => vxNow

var vxUnits = []string{"y", "w", "d", "h", "m", "s", "ms", "us", "µs", "ns"}

func vxUnit(i int) int64 {
	return []int64{365 * 24 * 3600e9, 7 * 24 * 3600e9, 24 * 3600e9, 3600e9, 60e9, 1e9, 1e6, 1e3, 1e3, 1}[i]
}

// VxDuration: a text is a duration if and only if it is an optional minus, digits, and one unit, and fits.
func VxDuration() {
	sign := []string{"", "-", "--"}[zvx.Choose("sign", 3)]
	var digits []byte
	valid := sign != "--"
	switch kind := zvx.Choose("digits", 4); kind {
	case 0: // arbitrary bytes
		for i, n := 0, zvx.Choose("length", zvx.Param("length", 2)+1); i < n; i++ {
			c := zvx.U8("digit")
			zvx.Assume(c < 0x80)
			digits = append(digits, c)
		}
	case 1: // around the largest durations of each unit
		digits = []byte([]string{"292", "293", "15250", "15251", "106751", "106752", "2562047", "2562048", "153722867", "153722868",
			"9223372036", "9223372037", "9223372036854", "9223372036855", "9223372036854775", "9223372036854776",
			"9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999"}[zvx.Choose("number", 20)])
	case 2:
		digits = []byte("1-1")
	case 3:
		digits = []byte("007")
	}
	u := zvx.Choose("unit", len(vxUnits)+2)
	unit := ""
	switch {
	case u < len(vxUnits):
		unit = vxUnits[u]
	case u > len(vxUnits):
		unit = "s1m"
	}
	valid = valid && len(digits) > 0 && u < len(vxUnits)
	minus := sign == "-"
	for i := range digits {
		if i == 0 && sign == "" && digits[i] == '-' {
			minus = true
			valid = valid && len(digits) > 1
			continue
		}
		valid = valid && digits[i] >= '0' && digits[i] <= '9'
	}
	if n := len(digits); n > 0 && !valid0(digits[n-1]) { // the last byte does not belong to the unit
		zvx.Assume(digits[n-1] < 'a' || digits[n-1] > 'z')
	}
	text := sign + string(digits) + unit
	got, err := ParseDuration(text)
	if !valid {
		zvx.Assert(err != nil, "a malformed duration is accepted")
		return
	}
	var n int64
	fits := true
	for _, c := range digits {
		if c == '-' {
			continue
		}
		d := int64(c - '0')
		if n > (math.MaxInt64-d)/10 {
			fits = false
			break
		}
		n = n*10 + d
	}
	fits = fits && n <= math.MaxInt64/vxUnit(u)
	if !fits {
		if !(minus && u == 9 && string(digits) == "9223372036854775808") {
			zvx.Assert(err != nil, "a duration that is too long is accepted")
		}
		return
	}
	want := n * vxUnit(u)
	if minus {
		want = -want
	}
	zvx.Assert(err == nil, "a well-formed duration is rejected")
	zvx.Assert(int64(got) == want, "a duration has another value than its text says")
	zvx.Reach("parsed")
}

func valid0(c byte) bool { return c >= '0' && c <= '9' }

// VxDurationText: each duration is read back from its text.
func VxDurationText() {
	k := []int64{0, 1, 7, 24, 59, 60, 364, 365, 999, 1000, 1001, 3600}[zvx.Choose("count", 12)]
	if zvx.Choose("minus", 2) == 1 {
		k = -k
	}
	d := time.Duration(k * vxUnit(zvx.Choose("unit", len(vxUnits))))
	if zvx.Choose("largest", 2) == 1 {
		zvx.Assume(k == 1)
		d = math.MaxInt64 - d
	}
	w := DurationWrap{Duration: d}
	text, err := w.MarshalText()
	zvx.Assert(err == nil, "a duration has no text")
	zvx.Assert(w.String() == string(text), "the texts of a duration differ")
	var r DurationWrap
	err = r.UnmarshalText(text)
	zvx.Assert(err == nil && r.Duration == d, "a duration changes when it is written and read")
	zvx.Reach("read back")
}

// VxTimeOfDay: times of the day keep their value in texts and JSON, and out of range values are clipped.
func VxTimeOfDay() {
	h := uint(vxPick("hour", 0, 25))
	m, s := uint(7), uint(59)
	if zvx.Choose("which", 2) == 1 {
		m, s, h = uint(vxPick("minute", 57, 61)), h+36, 7
	}
	ns := []uint{0, 1, 123000, 5000000, 1000000000, 100000000}[zvx.Choose("nanosecond", 6)]
	w := NewTimeOfDay(h, m, s, ns)
	zvx.Assert(w.Hour() == int(min(h, 23)) && w.Minute() == int(min(m, 59)) && w.Second() == int(min(s, 59)) && w.Nanosecond() == int(min(ns, 999999999)),
		"a time of the day has other fields")
	text, err := w.MarshalText()
	zvx.Assert(err == nil && string(text) == w.String(), "a time of the day has no text")
	var r TimeOfDayWrap
	zvx.Assert(r.UnmarshalText(text) == nil && r.Equal(w.Time), "a time of the day changes when it is written and read")
	js, err := w.MarshalJSON()
	zvx.Assert(err == nil, "a time of the day has no JSON")
	var q TimeOfDayWrap
	zvx.Assert(q.UnmarshalJSON(js) == nil && q.Equal(w.Time), "a time of the day changes in JSON")
	zvx.Reach("read back")
}

var vxClock time.Time

func vxNow() time.Time { return vxClock }

// VxNext: the next time at some time of the day is at that time, not in the past, and within a day.
func VxNext() {
	const day = 24 * 3600
	now := []int64{0, 1, 3600, day/2 - 1, day / 2, day - 3600, day - 1}[zvx.Choose("now", 7)]
	hour, rest := int64(vxPick("hour", 0, 23)), []int64{0, 1, 1800, 3599}[zvx.Choose("rest", 4)]
	t := hour*3600 + rest
	ahead := zvx.Choose("date", 3) - 1 // the local date is before, the same, or after the date in UTC
	date := []int64{1700000000 / day, 951782400 / day, 1704067200/day - 1}[zvx.Choose("day", 3)] * day
	offset := ahead * (day - 1)
	switch ahead {
	case -1:
		zvx.Assume(now < day-1)
	case 1:
		zvx.Assume(now > 0)
	}
	if zvx.Symbolic() {
		vxClock = time.Unix(date+now, 0).In(time.FixedZone("local", offset))
	} else {
		// The clock is the real one: use a time that is on the same side of it, in a zone with the same date.
		local := time.Local
		defer func() { time.Local = local }()
		time.Local = time.FixedZone("local", offset)
		vxClock = time.Now()
		real := vxClock.Unix() % day
		switch {
		case t > now:
			t = (real + day) / 2
		case t < now:
			t = real / 2
		default:
			t = real
		}
		hour, rest = t/3600, t%3600
	}
	w := NewTimeOfDay(uint(hour), uint(rest/60), uint(rest%60), 0)
	next := w.NextTimeOfDay()
	zvx.Assert(!next.Before(vxClock), "the next time is in the past")
	zvx.Assert(next.Sub(vxClock) <= day*time.Second+time.Second, "the next time is more than a day ahead")
	zvx.Assert((next.Unix()-t)%day == 0, "the next time is at another time of the day")
	zvx.Reach("next")
}

// vxPick is a value of the range: symbolic in the thorough tier.
func vxPick(name string, lo, hi int) int {
	if zvx.Param("symbolic", 0) == 1 {
		return zvx.IntRange(name, lo, hi)
	}
	return lo + zvx.Choose(name, hi-lo+1)
}
