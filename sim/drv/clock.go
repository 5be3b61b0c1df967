package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"
	_ "time/tzdata"

	"github.com/cloudprivacylabs/lpg/v2"
	cy "github.com/cloudprivacylabs/opencypher"
	"verif.sim/rt"
)

// Clock cases: statements with date and clock functions are evaluated
// while the simulated clock advances, jumps, crosses midnight, year ends
// and daylight saving changes, the local zone changes, and zone lookups
// fail.

// ClockCase is a history of clock steps and evaluations
type ClockCase struct {
	Rows  int         `json:"rows"` // nodes in the graph
	Stmts []ClockStmt `json:"stmts"`
	Steps []ClockStep `json:"steps"`
}

// ClockStmt returns the given expressions for every node
type ClockStmt struct {
	Items []ClockItem `json:"items"`
	Match bool        `json:"match,omitempty"`
}

// ClockItem is an expression
type ClockItem struct {
	Kind string `json:"kind"` // date ts zone ymd iso parse cmp same today
	Zone string `json:"zone,omitempty"`
	Y    int    `json:"y,omitempty"`
	M    int    `json:"m,omitempty"`
	D    int    `json:"d,omitempty"`
	Form int    `json:"form,omitempty"`
	Op   string `json:"op,omitempty"`
	Y2   int    `json:"y2,omitempty"`
	M2   int    `json:"m2,omitempty"`
	D2   int    `json:"d2,omitempty"`
	// how the dates of a comparison are given: ymd, iso, parse
	Src  int `json:"src,omitempty"`
	Src2 int `json:"src2,omitempty"`
}

// ClockStep sets the clock and evaluates a statement
type ClockStep struct {
	Set   bool   `json:"set,omitempty"` // jump to At instead of adding it
	At    int64  `json:"at"`            // seconds
	Drift int64  `json:"drift,omitempty"`
	Local string `json:"local,omitempty"`
	Fail  string `json:"fail,omitempty"` // lookups of this zone fail
	FailN int    `json:"failN,omitempty"`
	S     int    `json:"s"`
}

// civil computes the calendar date of a day number
func civil(z int64) (y int64, m, d int) {
	z += 719468
	era := z
	if era < 0 {
		era -= 146096
	}
	era /= 146097
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = int(doy - (153*mp+2)/5 + 1)
	if mp < 10 {
		m = int(mp + 3)
	} else {
		m = int(mp - 9)
	}
	if m <= 2 {
		y++
	}
	return
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func dateText(y int64, m, d int) string { return fmt.Sprintf("%04d-%02d-%02d", y, m, d) }

// dateAt is the date at an instant in a zone
func dateAt(unix int64, loc *time.Location) string {
	_, off := time.Unix(unix, 0).In(loc).Zone()
	return dateText(civil(floorDiv(unix+int64(off), 86400)))
}

var zoneCache = map[string]*time.Location{}

func zone(n string) (*time.Location, error) {
	if l, ok := zoneCache[n]; ok {
		return l, nil
	}
	l, err := time.LoadLocation(n)
	if err == nil {
		zoneCache[n] = l
	}
	return l, err
}

var zoneNames = []string{"UTC", "America/New_York", "America/Sao_Paulo", "Europe/London", "Europe/Istanbul", "Asia/Kolkata", "Asia/Kathmandu", "Pacific/Kiritimati", "Pacific/Apia", "Pacific/Pago_Pago", "Australia/Lord_Howe", "Africa/Cairo", "Asia/Tokyo", "America/St_Johns"}

const badZone = "No/Such_Zone"

var months = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}

// parse forms: text and format
func parseForm(form, y, m, d int) (string, string) {
	switch form {
	case 0:
		return fmt.Sprintf("%04d-%02d-%02d", y, m, d), "YYYY-MM-DD"
	case 1:
		return fmt.Sprintf("%d/%d/%04d", d, m, y), "D/M/YYYY"
	case 2:
		return fmt.Sprintf("%s %d %04d", months[m-1], d, y), "MMM D YYYY"
	case 3:
		return fmt.Sprintf("%02d.%02d.%04d 13:45", d, m, y), "DD.MM.YYYY HH:mm"
	case 4:
		return fmt.Sprintf("%04d%02d%02d", y, m, d), "YYYYMMDD"
	}
	return fmt.Sprintf("%02d/%02d/%04d 23:59:59", m, d, y), "MM/DD/YYYY HH:mm:ss"
}

func (i *ClockItem) text() string {
	ymd := func(y, m, d int) string { return fmt.Sprintf("date({year: %d, month: %d, day: %d})", y, m, d) }
	switch i.Kind {
	case "date":
		return "date()"
	case "ts":
		return "timestamp()"
	case "zone":
		return fmt.Sprintf("date({timezone: %q})", i.Zone)
	case "ymd":
		switch i.Form {
		case 1:
			return fmt.Sprintf("date({year: %d, month: %d})", i.Y, i.M)
		case 2:
			return fmt.Sprintf("date({year: %d})", i.Y)
		}
		return ymd(i.Y, i.M, i.D)
	case "iso":
		return fmt.Sprintf("date(%q)", i.iso())
	case "parse":
		a, b := parseForm(i.Form, i.Y, i.M, i.D)
		return fmt.Sprintf("parseDate(%q, %q)", a, b)
	case "cmp":
		return "(" + given(i.Src, i.Y, i.M, i.D) + " " + i.Op + " " + given(i.Src2, i.Y2, i.M2, i.D2) + ")"
	case "same":
		return fmt.Sprintf("(date() %s date({timezone: %q}))", i.Op, i.Zone)
	case "today":
		return "(date() " + i.Op + " " + given(i.Src, i.Y, i.M, i.D) + ")"
	}
	panic("clock item " + i.Kind)
}

// given is an expression for the date
func given(src, y, m, d int) string {
	i := ClockItem{Kind: []string{"ymd", "iso", "parse"}[src], Y: y, M: m, D: d}
	return i.text()
}

// parsed returns true if the expression parses a date that has a gap at
// midnight
func (i *ClockItem) parsedGap(loc *time.Location) bool {
	switch i.Kind {
	case "parse":
		return gap(i.Y, i.M, i.D, loc)
	case "cmp":
		return i.Src == 2 && gap(i.Y, i.M, i.D, loc) || i.Src2 == 2 && gap(i.Y2, i.M2, i.D2, loc)
	case "today":
		return i.Src == 2 && gap(i.Y, i.M, i.D, loc)
	}
	return false
}

// compareDates compares dates as text
func compareDates(a, op, b string) bool {
	for len(a) < len(b) {
		a = "0" + a
	}
	for len(b) < len(a) {
		b = "0" + b
	}
	switch op {
	case "<":
		return a < b
	case "<=":
		return a <= b
	case ">":
		return a > b
	case ">=":
		return a >= b
	case "=":
		return a == b
	}
	return a != b
}

func (i *ClockItem) iso() string {
	switch i.Form {
	case 1:
		return fmt.Sprintf("%04d-%02d", i.Y, i.M)
	case 2:
		return fmt.Sprintf("%04d", i.Y)
	case 3:
		return fmt.Sprintf("%04d-%d-%d", i.Y, i.M, i.D)
	}
	return fmt.Sprintf("%04d-%02d-%02d", i.Y, i.M, i.D)
}

// explicit returns the value of an expression that does not depend on the
// clock
func (i *ClockItem) explicit() (string, bool) {
	switch i.Kind {
	case "ymd", "iso":
		m, d := i.M, i.D
		if i.Form == 1 {
			d = 1
		}
		if i.Form == 2 {
			m, d = 1, 1
		}
		return dateText(int64(i.Y), m, d), true
	case "parse":
		return dateText(int64(i.Y), i.M, i.D), true
	case "cmp":
		r := compareDates(dateText(int64(i.Y), i.M, i.D), i.Op, dateText(int64(i.Y2), i.M2, i.D2))
		return fmt.Sprint(r), true
	}
	return "", false
}

// gap: midnight of the date does not exist in the zone. goment returns
// the day before then (known finding KF9).
func gap(y, m, d int, loc *time.Location) bool {
	t := time.Date(y, time.Month(m), d, 0, 0, 0, 0, loc)
	return t.Day() != d || t.Hour() != 0
}

func (s *ClockStmt) text() string {
	var l []string
	for k := range s.Items {
		l = append(l, s.Items[k].text()+fmt.Sprintf(" AS x%d", k))
	}
	t := "RETURN " + strings.Join(l, ", ")
	if s.Match {
		t = "MATCH (n) " + t
	}
	return t
}

type zoneFault struct{ name string }

func (z *zoneFault) Error() string { return "zone data of " + z.name + " cannot be read" }

func runClock(c *Case, st *Stats) *Violation {
	setupRun(c)
	g := lpg.NewGraph()
	for i := 0; i < c.Clock.Rows; i++ {
		g.NewNode([]string{"A"}, nil)
	}
	root := cy.NewEvalContext(g)
	time.Local = time.UTC
	var now int64 // nanoseconds
	loc := time.UTC
	var seen []int64
	var drift int64
	rt.SetClock(func() time.Time {
		t := now
		seen = append(seen, t)
		now += drift
		st.inc("clock reads", 1)
		return time.Unix(floorDiv(t, 1e9), t-floorDiv(t, 1e9)*1e9).In(loc)
	})
	defer rt.SetClock(nil)
	defer rt.SetZones(nil)
	parsed := map[int]parsedStmt{}
	for k := range c.Clock.Steps {
		step := &c.Clock.Steps[k]
		if step.S >= len(c.Clock.Stmts) {
			continue
		}
		before := now
		if step.Set {
			now = step.At * 1e9
		} else {
			now += step.At * 1e9
		}
		if now < before {
			st.inc("fault clock jump back", 1)
			st.inc("simulated seconds", int((before-now)/1e9))
		} else {
			if now-before > 3600*1e9 {
				st.inc("fault clock jump forward", 1)
			}
			st.inc("simulated seconds", int((now-before)/1e9))
		}
		drift = step.Drift * 1e9
		if step.Local != "" {
			l, err := zone(step.Local)
			if err != nil {
				panic(err)
			}
			if l != loc {
				st.inc("fault local zone change", 1)
			}
			loc = l
		}
		time.Local = loc
		var injected *zoneFault
		lookups := 0
		rt.SetZones(func(n string) (*time.Location, error) {
			st.inc("zone lookups", 1)
			if n == step.Fail {
				lookups++
				if lookups > step.FailN {
					injected = &zoneFault{n}
					st.inc("fault zone lookup fails", 1)
					return nil, injected
				}
			}
			return time.LoadLocation(n)
		})
		s := &c.Clock.Stmts[step.S]
		skip := false
		for j := range s.Items {
			it := &s.Items[j]
			if it.parsedGap(loc) {
				skip = true
			}
		}
		if skip {
			st.inc("dropped: KF9", 1)
			continue
		}
		p, ok := parsed[step.S]
		if !ok {
			e, err := cy.Parse(s.text())
			p = parsedStmt{e, err}
			parsed[step.S] = p
		}
		fail := func(what, f string, a ...interface{}) *Violation {
			return &Violation{Op: k, What: what, Detail: fmt.Sprintf("%s\n  statement: %s\n  clock: %d.%09d s, local zone %v", fmt.Sprintf(f, a...), s.text(), floorDiv(now, 1e9), now-floorDiv(now, 1e9)*1e9, loc)}
		}
		if p.err != nil {
			return fail("parse", "%v", p.err)
		}
		seen = nil
		w := &RWorld{}
		worlds[0] = w
		rt.StartCount(5000000)
		res := w.exec(func(r *Result) {
			v, err := p.e.Evaluate(root.SubContext())
			if err != nil {
				r.Err = err
				return
			}
			r.rs, ok = v.Get().(cy.ResultSet)
			r.NoSet = !ok
		})
		st.inc("steps", int(rt.Stop()))
		st.inc("statements", 1)
		wantErr := false
		for j := range s.Items {
			wantErr = wantErr || s.Items[j].Zone == badZone
		}
		if s.Match && c.Clock.Rows == 0 {
			wantErr = false
		}
		desc := fmt.Sprint(now, loc, drift, res.Err, res.Panic)
		switch {
		case res.Panic != nil:
			return fail("panic", "panic: %v %s", res.Panic, res.Stack)
		case injected != nil:
			if res.Err == nil {
				return fail("zone", "the lookup of zone %s failed, but there is no error", injected.name)
			}
			if !errors.Is(res.Err, injected) && !wantErr {
				return fail("zone", "the lookup of zone %s failed, but the error is %v", injected.name, res.Err)
			}
		case wantErr:
			if res.Err == nil {
				return fail("zone", "no error for an unknown zone")
			}
		case res.Err != nil:
			return fail("error", "unexpected error: %v", res.Err)
		case res.NoSet:
			return fail("error", "no result set")
		default:
			rows := 1
			if s.Match {
				rows = c.Clock.Rows
			}
			if len(res.rs.Rows) != rows {
				return fail("rows", "%d rows instead of %d", len(res.rs.Rows), rows)
			}
			if v := clockValues(s, res.rs, seen, loc, fail); v != nil {
				return v
			}
			for _, r := range res.rs.Rows {
				for j := range s.Items {
					desc += fmt.Sprint(" ", r[fmt.Sprintf("x%d", j)].Get())
				}
			}
		}
		st.trace(hashStr(desc))
		st.S.add(hashStr(desc))
		st.evaluation(hashStr(s.text()+desc), len(seen) > 0 || injected != nil || wantErr || loc != time.UTC)
	}
	return nil
}

// clockValues checks the values of a result. Values that depend on the
// clock are those of an instant read during the evaluation, and later
// values are not of earlier instants.
func clockValues(s *ClockStmt, rs cy.ResultSet, seen []int64, loc *time.Location, fail func(string, string, ...interface{}) *Violation) *Violation {
	for ri, r := range rs.Rows {
		pos := 0
		for j := range s.Items {
			it := &s.Items[j]
			v, ok := r[fmt.Sprintf("x%d", j)]
			if !ok {
				return fail("value", "row %d has no column x%d", ri, j)
			}
			got := fmt.Sprint(v.Get())
			if want, ok := it.explicit(); ok {
				if got != want {
					return fail("value", "%s is %s instead of %s", it.text(), got, want)
				}
				if it.Kind != "cmp" {
					d, ok := v.Get().(cy.Date)
					if !ok {
						return fail("value", "%s is a %T", it.text(), v.Get())
					}
					if t := d.Time(); t.Hour() != 0 || t.Minute() != 0 || t.Second() != 0 || t.Nanosecond() != 0 {
						return fail("value", "%s has a time of day: %v", it.text(), t)
					}
				}
				continue
			}
			if it.Kind == "same" || it.Kind == "today" {
				other := loc
				if it.Kind == "same" {
					l, err := zone(it.Zone)
					if err != nil {
						return fail("value", "%s is %s instead of an error", it.text(), got)
					}
					other = l
				}
				found := false
				for x := range seen {
					day := dateAt(floorDiv(seen[x], 1e9), loc)
					if it.Kind == "today" {
						found = found || got == fmt.Sprint(compareDates(day, it.Op, dateText(int64(it.Y), it.M, it.D)))
						continue
					}
					for _, y := range seen[x:] {
						found = found || got == fmt.Sprint(compareDates(day, it.Op, dateAt(floorDiv(y, 1e9), other)))
					}
				}
				if !found {
					return fail("value", "%s is %s in row %d", it.text(), got, ri)
				}
				continue
			}
			at := func(ns int64) string {
				u := floorDiv(ns, 1e9)
				switch it.Kind {
				case "ts":
					return fmt.Sprint(u)
				case "date":
					return dateAt(u, loc)
				}
				l, err := zone(it.Zone)
				if err != nil {
					return "error"
				}
				return dateAt(u, l)
			}
			found := -1
			for x := pos; x < len(seen); x++ {
				if at(seen[x]) == got {
					found = x
					break
				}
			}
			if found < 0 {
				want := map[string]bool{}
				for _, x := range seen {
					want[at(x)] = true
				}
				var l []string
				for x := range want {
					l = append(l, x)
				}
				sort.Strings(l)
				return fail("value", "%s is %s in row %d; at the instants the clock was read it was %v", it.text(), got, ri, l)
			}
			// earlier columns may be computed once for all
			if len(seen) > 1 && len(rs.Rows) == 1 {
				pos = found
			}
		}
	}
	return nil
}

func genClock(seed uint64) *Case {
	r := &rng{seed}
	c := &Case{Prop: "C12", Kind: "clock", Seed: seed, Map: pick(r, 0, 1, 2), MapSeed: r.next()}
	k := &ClockCase{Rows: r.n(4)}
	ymd := func() (int, int, int) {
		y := 1900 + r.n(250)
		if r.p(20) {
			y = pick(r, 1970, 2000, 2024, 2100, 1582, 9999, 1)
			if y < 1000 {
				y = 1000
			}
		}
		m := 1 + r.n(12)
		d := 1 + r.n(28)
		if r.p(30) {
			d = time.Date(y, time.Month(m+1), 0, 0, 0, 0, 0, time.UTC).Day()
		}
		if r.p(15) {
			m, d = pick(r, 1, 12, 2), 0
			d = map[int]int{1: 1, 12: 31, 2: 28}[m]
		}
		return y, m, d
	}
	for i := 0; i < 5; i++ {
		s := ClockStmt{Match: r.p(50)}
		for j := 1 + r.n(4); j > 0; j-- {
			it := ClockItem{Kind: pick(r, "date", "ts", "zone", "ymd", "iso", "parse", "cmp", "date", "zone", "parse", "cmp", "same", "today")}
			it.Y, it.M, it.D = ymd()
			switch it.Kind {
			case "zone", "same":
				it.Op = pick(r, "<", "<=", ">", ">=", "=", "<>", "=")
				it.Zone = zoneNames[r.n(len(zoneNames))]
				if r.p(8) {
					it.Zone = badZone
				}
			case "ymd":
				it.Form = pick(r, 0, 0, 0, 1, 2)
			case "iso":
				it.Form = pick(r, 0, 0, 1, 2, 3)
			case "parse":
				it.Form = r.n(6)
			case "today":
				it.Op = pick(r, "<", "<=", ">", ">=", "=", "<>")
				it.Src = r.n(3)
			case "cmp":
				it.Src, it.Src2 = r.n(3), r.n(3)
				it.Op = pick(r, "<", "<=", ">", ">=", "=", "<>")
				it.Y2, it.M2, it.D2 = ymd()
				switch r.n(4) {
				case 0:
					it.Y2, it.M2, it.D2 = it.Y, it.M, it.D
				case 1:
					it.Y2, it.M2 = it.Y, it.M
				case 2:
					it.Y2 = it.Y
				}
				if it.D2 > 28 && it.D2 > time.Date(it.Y2, time.Month(it.M2+1), 0, 0, 0, 0, 0, time.UTC).Day() {
					it.D2 = 28
				}
			}
			s.Items = append(s.Items, it)
		}
		k.Stmts = append(k.Stmts, s)
	}
	// instants around which something happens
	inst := func(locName string) int64 {
		l, _ := zone(locName)
		y, m, d := ymd()
		switch r.n(6) {
		case 0:
			y = 1970 + r.n(70)
		case 1: // a change of the offset
			t := time.Date(1985+r.n(50), time.Month(1+r.n(12)), 1+r.n(28), 0, 0, 0, 0, l)
			_, end := t.ZoneBounds()
			if !end.IsZero() {
				return end.Unix() + int64(pick(r, -1, 0, 1, -3600, 3600, -7200))
			}
		}
		t := time.Date(y, time.Month(m), d, 0, 0, 0, 0, l).Unix()
		return t + int64(pick(r, -1, 0, 1, 43200, 86399, 3599, -3601, r.n(86400)))
	}
	local := "UTC"
	n := 15 + r.n(40)
	for i := 0; i < n; i++ {
		st := ClockStep{S: r.n(len(k.Stmts))}
		if r.p(20) || i == 0 {
			local = zoneNames[r.n(len(zoneNames))]
			st.Local = local
		}
		switch x := r.n(10); {
		case x < 3 || i == 0:
			st.Set = true
			st.At = inst(pick(r, local, zoneNames[r.n(len(zoneNames))]))
		case x < 5:
			st.At = int64(pick(r, 1, 60, 3600, 7200, 43200, 86400, 86399))
		case x < 7:
			st.At = -int64(pick(r, 1, 60, 3600, 7200, 43200, 86400, 86399))
		case x < 8:
			st.At = int64(r.n(40 * 86400))
		}
		if r.p(40) {
			st.Drift = int64(pick(r, 1, 60, 3600, 20000, 86400, -1, -7200))
		}
		if r.p(15) {
			st.Fail = zoneNames[r.n(len(zoneNames))]
			// one the statement uses
			for _, it := range k.Stmts[st.S].Items {
				if it.Zone != "" && r.p(70) {
					st.Fail = it.Zone
				}
			}
			st.FailN = r.n(3)
		}
		k.Steps = append(k.Steps, st)
	}
	// some dates to compare today with are days of the history
	for i := range k.Stmts {
		for j := range k.Stmts[i].Items {
			it := &k.Stmts[i].Items[j]
			if st := k.Steps[r.n(len(k.Steps))]; it.Kind == "today" && st.Set {
				l, _ := zone(zoneNames[r.n(len(zoneNames))])
				y, m, d := civil(floorDiv(st.At, 86400))
				if r.p(50) {
					t := time.Unix(st.At, 0).In(l)
					y, m, d = int64(t.Year()), int(t.Month()), t.Day()
				}
				if y >= 1000 && y <= 9999 {
					it.Y, it.M, it.D = int(y), m, d
				}
			}
		}
	}
	c.Clock = k
	return c
}
