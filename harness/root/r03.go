package rdns

import (
	"github.com/folbricht/routedns/zzvf"
	"github.com/miekg/dns"
)

// vfDayClock sets the clock to an arbitrary second of a given day and returns
// the minute of the day.
func vfDayClock(day int) int {
	h, m, s := zzvf.Int("hour", 0, 23), zzvf.Int("minute", 0, 59), zzvf.Int("second", 0, 59)
	// 1699833600 is a Monday, midnight UTC
	zzvf.SetClock(int64(1699833600+day*86400+h*3600+m*60+s), int64(zzvf.Int("nano", 0, 999999999)))
	return h*60 + m
}

func vfClock2(label string) (string, int) {
	h, m := zzvf.Int(label+".h", 0, 23), zzvf.Int(label+".m", 0, 59)
	s := string([]byte{byte('0' + h/10), byte('0' + h%10), ':', byte('0' + m/10), byte('0' + m%10)})
	return s, h*60 + m
}

// Every window with an optional start and end ("HH:MM"), every second of a day
// (Monday).
func VF_R03_window() {
	var before, after string
	b, a := 24*60, 0
	if zzvf.Choose("before", 2) == 1 {
		before, b = vfClock2("before")
	}
	if zzvf.Choose("after", 2) == 1 {
		after, a = vfClock2("after")
	}
	now := vfDayClock(0)
	r, err := NewRoute("", "", nil, nil, before, after, "", "", "", "", "", vfFixed("u", nil, nil))
	zzvf.Assert(err == nil, "a valid clock time is accepted")
	got := vfRouted(r, vfQueryOf("a.test.", dns.TypeA), ClientInfo{})
	zzvf.Assert(got == (now >= a && now < b), "the route is active exactly inside its window")
	zzvf.Cover("window")
}

// Time strings of 1 to 5 characters out of digits, colon, dot, blank and letter,
// as start or end of the window, any minute of a day.
func VF_R03_parse() {
	n := 1 + zzvf.Choose("len", 5)
	s := zzvf.StrOf("time", n, "0123456789:. a")
	// number of digits of the hour; -1 while there is no colon
	colon := n
	for i := n - 1; i >= 0; i-- {
		if zzvf.Fork(s[i] == ':') {
			colon = i
		}
	}
	num := func(t string) (int, bool) {
		v, ok := 0, t != ""
		for i := 0; i < len(t); i++ {
			ok = ok && t[i] >= '0' && t[i] <= '9'
			v = v*10 + int(t[i]-'0')
		}
		return v, ok
	}
	h, valid := num(s[:colon])
	valid = valid && h <= 23
	m := 0
	if colon < n {
		var ok bool
		m, ok = num(s[colon+1:])
		valid = valid && ok && m <= 59
	}
	var before, after string
	end := zzvf.Choose("end", 2) == 1
	if end {
		before = s
	} else {
		after = s
	}
	r, err := NewRoute("", "", nil, nil, before, after, "", "", "", "", "", vfFixed("u", nil, nil))
	zzvf.Assert((err == nil) == valid, "exactly valid clock times are accepted")
	if err != nil {
		return
	}
	now := zzvf.Int("hour", 0, 23)*60 + zzvf.Int("minute", 0, 59)
	zzvf.SetClock(int64(1699833600+now*60), 0)
	got := vfRouted(r, vfQueryOf("a.test.", dns.TypeA), ClientInfo{})
	zzvf.Assert(got == (end == (now < h*60+m)), "the bound is the configured time")
	zzvf.Cover("parsed")
}

// One or two weekdays, any second of every day of a week (UTC).
func VF_R03_weekday() {
	names := []string{"mon", "tue", "wed", "thu", "fri", "sat", "sun"}
	var days []string
	day := zzvf.Choose("day", 7)
	match := false
	n := 1 + zzvf.Choose("n", 2)
	for i := 0; i < n; i++ {
		d := zzvf.Choose("weekday", 7)
		days = append(days, names[d])
		match = match || d == day
	}
	vfDayClock(day)
	r, err := NewRoute("", "", nil, days, "", "", "", "", "", "", "", vfFixed("u", nil, nil))
	zzvf.Assert(err == nil, "weekday names are accepted")
	zzvf.Assert(vfRouted(r, vfQueryOf("a.test.", dns.TypeA), ClientInfo{}) == match, "the route is active exactly on its days")
}

// Any weekday name of 2 to 4 letters out of those that occur in weekday names,
// alone or after a valid one.
func VF_R03_dayname() {
	s := zzvf.StrOf("name", 2+zzvf.Choose("len", 3), "monMtuewdhfriRsa")
	valid := false
	for _, d := range []string{"mon", "tue", "wed", "thu", "fri", "sat", "sun"} {
		valid = valid || s == d
	}
	days := []string{s}
	if zzvf.Choose("second", 2) == 1 {
		days = []string{"mon", s}
	}
	_, err := NewRoute("", "", nil, days, "", "", "", "", "", "", "", vfFixed("u", nil, nil))
	zzvf.Assert((err == nil) == valid, "exactly weekday names are accepted")
	if valid {
		zzvf.Cover("valid")
	}
}
