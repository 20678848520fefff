package model

import (
	"encoding/base64"
	"errors"
	"fmt"
	"math"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/sim/zones"
)

// errUnclear marks values on whose meaning readers may differ: what the format
// leaves open, and liberties the package takes on purpose.
var errUnclear = errors.New("unclear")

// Unclear reports whether a strict reading ended at such a value.
func Unclear(err error) bool { return errors.Is(err, errUnclear) }

// Cause names the reason in a few words.
func Cause(err error) string {
	s := err.Error()
	s = s[strings.Index(s, errUnclear.Error()):]

	if i := strings.IndexByte(s, '"'); i >= 0 {
		s = strings.TrimSpace(s[:i])
	}

	return s
}

func unclear(format string, a ...any) error {
	return fmt.Errorf("%w: %s", errUnclear, fmt.Sprintf(format, a...))
}

var (
	durStrict  = regexp.MustCompile(`^[+-]?P(\d+W|\d+D(T(\d+H(\d+M(\d+S)?)?|\d+M(\d+S)?|\d+S))?|T(\d+H(\d+M(\d+S)?)?|\d+M(\d+S)?|\d+S))$`)
	durLenient = regexp.MustCompile(`^[+-]?P\d*D?T(\d+H)(\d+S)$`) // PT1H5S
	floatOK    = regexp.MustCompile(`^[+-]?\d+(\.\d+)?$`)
	offsetOK   = regexp.MustCompile(`^[+-]?\d{4}(\d{2})?$`)
	byDay      = regexp.MustCompile(`^([+-]?)(\d{1,2})(SU|MO|TU|WE|TH|FR|SA)$|^(SU|MO|TU|WE|TH|FR|SA)$`)
	number     = regexp.MustCompile(`^[+-]?\d+$`)
)

// strictProp reads a property and checks its value against the grammar.
func strictProp(name string, ps []rawParam, val string) (Prop, error) {
	for _, c := range []byte(val) {
		if c < 32 && c != '\t' || c == 127 {
			return Prop{}, fmt.Errorf("control character %#x", c)
		}
	}

	spec, ok := byName[name]
	if !ok {
		return Prop{}, unclear("property %s", name)
	}

	kind := spec.kind

	for _, q := range ps {
		if q.name == "VALUE" {
			kind = q.vals[0]
		}
	}

	if kind == Text || kind == MText {
		for i := 0; i < len(val); i++ {
			if val[i] == '\\' {
				i++

				if i == len(val) || !strings.ContainsRune("\\;,nN", rune(val[i])) {
					return Prop{}, unclear("escape")
				}
			}
		}
	}

	if kind == Duration && durLenient.MatchString(val) || kind == Period && durLenient.MatchString(val[strings.IndexByte(val, '/')+1:]) {
		return Prop{}, unclear("duration")
	}

	if a, b, _ := strings.Cut(val, "/"); kind == Period && strings.HasSuffix(a, "Z") != strings.HasSuffix(b, "Z") && !strings.Contains(b, "P") {
		return Prop{}, unclear("zones of a period")
	}

	if kind == Boolean && val != strings.ToUpper(val) || kind == Enum && val != strings.ToUpper(val) {
		return Prop{}, unclear("letter case")
	}

	if kind == Recur && val != strings.ToUpper(val) {
		return Prop{}, unclear("letter case")
	}

	p, err := readProp(name, ps, val)

	switch kind {
	case Boolean:
		if _, e := strconv.ParseBool(strings.ToLower(val)); err != nil && e == nil {
			return p, unclear("boolean")
		}

		return p, err
	case Geo:
		a, b, ok := strings.Cut(val, ";")

		if !ok {
			return p, err
		}

		for _, s := range []string{a, b} {
			f, e := strconv.ParseFloat(s, 64)
			if e != nil {
				return p, e
			}

			if math.IsNaN(f) || math.IsInf(f, 0) {
				return p, errors.New("not a number")
			}
		}

		if !floatOK.MatchString(a) || !floatOK.MatchString(b) {
			return p, unclear("float")
		}

		return p, err
	}

	if err != nil && err != errFreqFirst { // generators begin with FREQ, readers take any order
		return p, err
	}

	switch kind {
	case Enum:
		in, all := false, true

		for _, s := range props {
			if s.name != name {
				continue
			}

			here := false

			for _, e := range s.enum {
				here = here || e == val
			}

			in, all = in || here, all && here
		}

		switch {
		case name == "ACTION", name == "CLASS" && !in:
			return p, unclear("value %q", val) // extensible
		case !in:
			return p, fmt.Errorf("value %q", val)
		case !all:
			return p, unclear("value %q", val) // sets differ by component
		}
	case DateTime:
		return p, wall(p.Val.S[1])
	case Date:
		if _, err := time.Parse(dateFormat, val); err != nil || val < "0001" {
			return p, badOrUnclear(val[:4] < "0001", "date %q", val)
		}
	case Period:
		if err := wall(p.Val.S[1]); err != nil {
			return p, err
		}

		if p.Val.S[2] == "end" {
			if err := wall(p.Val.S[3]); err != nil {
				return p, err
			}

			a, _ := time.Parse(wallFormat, p.Val.S[1])
			b, _ := time.Parse(wallFormat, p.Val.S[3])

			switch d := b.Sub(a); {
			case d > 0 && p.Val.S[0] == "utc", d > 26*time.Hour:
			case d > 0:
				return p, unclear("short period") // clocks may have been set back
			case d == 0, p.Val.S[0] == "utc", d < -26*time.Hour:
				return p, fmt.Errorf("period %q", val)
			default:
				return p, unclear("order of a period")
			}

			return p, nil
		}

		return p, strictDur(val[strings.IndexByte(val, '/')+1:])
	case Duration:
		return p, strictDur(val)
	case Recur:
		return strictRecur(p, val)
	case URI, Addr:
		if u, err := url.Parse(val); err != nil || u.String() != val {
			return p, unclear("uri")
		}
	case Binary:
		b, err := base64.StdEncoding.DecodeString(val)

		if err == nil && base64.StdEncoding.EncodeToString(b) != val {
			return p, unclear("base64")
		}
	case Offset:
		if !offsetOK.MatchString(val) {
			return p, fmt.Errorf("offset %q", val)
		}

		d := strings.TrimLeft(val, "+-")

		if d[2] > '5' || len(d) > 4 && d[4] > '5' {
			return p, fmt.Errorf("offset %q", val)
		}

		if val[0] == '-' && strings.Trim(d, "0") == "" {
			return p, fmt.Errorf("offset %q", val)
		}
	}

	return p, nil
}

func badOrUnclear(u bool, format string, a ...any) error {
	if u {
		return unclear(format, a...)
	}

	return fmt.Errorf(format, a...)
}

func wall(s string) error {
	if s[:4] == "0000" {
		return unclear("year 0")
	}

	if s[13:] == "60" {
		return unclear("leap second")
	}

	if _, err := time.Parse(wallFormat, s); err != nil {
		return err
	}

	return nil
}

func strictDur(s string) error {
	if !durStrict.MatchString(s) {
		return fmt.Errorf("duration %q", s)
	}

	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r < '0' || r > '9' }) {
		if len(f) > 18 {
			return unclear("large number")
		}
	}

	return nil
}

var recurRange = map[string][2]int{"BYSECOND": {0, 60}, "BYMINUTE": {0, 59}, "BYHOUR": {0, 23}, "BYMONTHDAY": {-31, 31}, "BYYEARDAY": {-366, 366}, "BYWEEKNO": {-53, 53}, "BYMONTH": {1, 12}, "BYSETPOS": {-366, 366}}

func strictRecur(p Prop, val string) (Prop, error) {
	seen := map[string]bool{}
	parts := strings.Split(val, ";")

	for i, s := range parts {
		if up := strings.ToUpper(s); up != s {
			if strings.HasPrefix(up, "UNTIL=") && s[6:] != up[6:] {
				return p, unclear("lower-case time")
			}

			parts[i] = up
		}
	}

	var maybe error

	for i, s := range parts {
		k, v, ok := strings.Cut(s, "=")
		if !ok {
			return p, fmt.Errorf("rule part %q", s)
		}

		if seen[k] {
			switch k {
			case "FREQ", "COUNT", "UNTIL", "INTERVAL":
				maybe = unclear("two %s", k)
			default:
				return p, fmt.Errorf("two %s", k)
			}
		}

		seen[k] = true

		switch k {
		case "FREQ":
			ok := false

			for _, f := range freqs {
				ok = ok || f == v
			}

			if !ok {
				return p, fmt.Errorf("frequency %q", v)
			}
		case "UNTIL":
			if len(v) == 8 {
				if _, err := time.Parse(dateFormat, v); err != nil || v < "0001" {
					return p, badOrUnclear(v[:4] == "0000", "date %q", v)
				}
			} else if _, w, err := readStamp(v, ""); err != nil {
				return p, err
			} else if err := wall(w); err != nil {
				return p, err
			}

			if seen["COUNT"] {
				return p, errors.New("COUNT and UNTIL")
			}
		case "COUNT", "INTERVAL":
			if k == "COUNT" && seen["UNTIL"] {
				return p, errors.New("COUNT and UNTIL")
			}

			if v == "" || strings.Trim(v, "0123456789") != "" {
				return p, fmt.Errorf("number %q", v)
			}

			switch {
			case strings.Trim(v, "0") == "":
				maybe = unclear("number %q", v)
			case len(v) > 18:
				maybe = unclear("large number %q", v)
			}

			v = strings.TrimLeft(v, "0")
		case "BYDAY":
			l := strings.Split(v, ",")

			for j, d := range l {
				m := byDay.FindStringSubmatch(d)

				if m == nil {
					return p, fmt.Errorf("day %q", d)
				}

				if m[4] == "" {
					n, _ := strconv.Atoi(m[2])

					if n == 0 || n > 53 {
						return p, fmt.Errorf("day %q", d)
					}

					l[j] = strings.TrimPrefix(m[1], "+") + strconv.Itoa(n) + m[3]
				}
			}

			v = strings.Join(l, ",")
		case "WKST":
			ok := false

			for _, d := range days {
				ok = ok || d == v
			}

			if !ok {
				return p, fmt.Errorf("week start %q", v)
			}
		default:
			rg, ok := recurRange[k]
			if !ok {
				return p, fmt.Errorf("rule part %q", k)
			}

			l := strings.Split(v, ",")

			for j, d := range l {
				if !number.MatchString(d) || rg[0] >= 0 && d[0] < '0' {
					return p, fmt.Errorf("number %q", d)
				}

				n, err := strconv.Atoi(d)

				if err != nil || n < rg[0] || n > rg[1] || n == 0 && rg[0] != 0 {
					return p, fmt.Errorf("number %q", d)
				}

				if len(strings.TrimLeft(d, "+-")) > 3 || rg[1] < 100 && len(strings.TrimLeft(d, "+-")) > 2 {
					maybe = unclear("number %q", d)
				}

				l[j] = strconv.Itoa(n)
			}

			v = strings.Join(l, ",")
		}

		parts[i] = k + "=" + v

		if k == "UNTIL" {
			parts[i] = strings.TrimSuffix(parts[i], "Z")
		}
	}

	if !seen["FREQ"] {
		return p, errors.New("rule without FREQ")
	}

	sort.Strings(parts)
	p.Val.S = append([]string{p.Val.S[0]}, parts...)

	return p, maybe
}

// Escapes rewrites a content line with a text value as a lenient reader may take it:
// a backslash that escapes nothing stands for itself, or for nothing.
func Escapes(l string, keep bool) string {
	head, v := SplitValue(l)

	var sb strings.Builder

	for i := 0; i < len(v); i++ {
		if v[i] != '\\' {
			sb.WriteByte(v[i])

			continue
		}

		i++

		switch {
		case i < len(v) && strings.IndexByte("\\;,nN", v[i]) >= 0:
			sb.WriteString(v[i-1 : i+1])

			continue
		case keep:
			sb.WriteString("\\\\")
		}

		if i < len(v) {
			sb.WriteByte(v[i])
		}
	}

	return head + sb.String()
}

// SplitValue splits a content line after the colon that begins its value.
func SplitValue(l string) (head, val string) {
	_, _, v, err := splitLine(l)
	if err != nil {
		return "", l
	}

	return l[:len(l)-len(v)], v
}

// Settled reports whether every reading of a clock in the tree exists exactly
// once in its zone; those that do not may be taken for another.
func (c *Comp) Settled() bool {
	ok := true

	c.Walk(func(c *Comp) {
		for _, p := range c.Props {
			switch v := p.Val; v.Kind {
			case DateTime:
				ok = ok && settled(v.S[0], v.S[1])
			case Period:
				ok = ok && settled(v.S[0], v.S[1]) && (v.S[2] != "end" || settled(v.S[0], v.S[3]))
			case Recur:
				for _, s := range v.S[1:] {
					if u, is := strings.CutPrefix(s, "UNTIL="); is && len(u) > 8 {
						ok = ok && settled(v.S[0], u)
					}
				}
			}
		}
	})

	return ok
}

func settled(zone, wall string) bool {
	l := time.UTC

	switch {
	case zone == "local":
		l = time.Local
	case strings.HasPrefix(zone, "tz:"):
		var err error

		if l, err = zones.Load(zone[3:]); err != nil {
			return false
		}
	}

	t, err := time.ParseInLocation(wallFormat, wall, l)

	return err == nil && t.Format(wallFormat) == wall
}

// Structured reports whether a line's value has a grammar beyond text.
func Structured(l string) bool {
	name, _, _, err := splitLine(l)
	if err != nil {
		return false
	}

	switch byName[name].kind {
	case "", Text, MText, URI, Addr:
		return false
	}

	return true
}

// ErrIgnored marks a content line that has turned into a property unknown to
// readers, and is to be read as if it were not there.
var ErrIgnored = errors.New("a property that readers ignore")

const tokenChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-"

// repeated returns the name of the one parameter that was given again.
func repeated(ps, was []rawParam) string {
	if len(ps) != len(was)+1 {
		return ""
	}

	count := map[string]int{}

	for _, p := range was {
		count[p.name]--
	}

	again := ""

	for _, p := range ps {
		switch count[p.name]++; {
		case count[p.name] > 1:
			return ""
		case count[p.name] == 1:
			again = p.name
		}
	}

	for _, p := range was {
		if p.name == again {
			return again
		}
	}

	return ""
}

// SplitParams returns the parameters of the part of a line before its value,
// each with the semicolon before it.
func SplitParams(head string) []string {
	var (
		out   []string
		quote bool
		last  = -1
	)

	for i := 0; i < len(head); i++ {
		switch c := head[i]; {
		case c == '"':
			quote = !quote
		case !quote && (c == ';' || c == ':'):
			if last >= 0 {
				out = append(out, head[last:i])
			}

			last = i
		}
	}

	return out
}

// StrictHead judges a content line of which something before the value has
// changed: malformed, unclear, or (nil) as readable as any other.
func StrictHead(was, l string) error {
	if l == "" || l[0] == ' ' || l[0] == '\t' {
		return unclear("a fold")
	}

	name, ps, val, err := splitLine(l)
	if err != nil {
		return err
	}

	for _, c := range []byte(l) {
		if c < 32 && c != '\t' || c == 127 {
			return fmt.Errorf("control character %#x", c)
		}
	}

	if strings.Trim(name, tokenChars) != "" {
		return fmt.Errorf("name %q", name)
	}

	for _, p := range ps {
		if strings.Trim(p.name, tokenChars) != "" {
			return fmt.Errorf("parameter name %q", p.name)
		}
	}

	name0, ps0, val0, err := splitLine(was)
	if _, known := byName[name]; !known && name != "BEGIN" && name != "END" {
		return ErrIgnored
	}

	if again := repeated(ps, ps0); err == nil && name == name0 && val == val0 && again != "" {
		if again == "TZID" || again == "ENCODING" {
			return unclear("parameter %s twice", again)
		}

		return fmt.Errorf("parameter %s twice", again)
	}

	if err != nil || name != name0 || val != val0 || len(ps) != len(ps0) {
		return unclear("another property")
	}

	for i, p := range ps {
		if p.name != ps0[i].name {
			return unclear("another parameter")
		}

		v := p.vals[0]

		if v == "" {
			return unclear("empty parameter")
		}

		if len(p.vals) == len(ps0[i].vals) && strings.Join(p.vals, ",") == strings.Join(ps0[i].vals, ",") && p.quoted[0] == ps0[i].quoted[0] {
			continue
		}

		switch p.name {
		case "VALUE", "TZID":
			return unclear("parameter %s", p.name)
		case "FMTTYPE":
			if i := strings.IndexByte(v, '/'); i <= 0 || i == len(v)-1 || len(p.vals) > 1 {
				return fmt.Errorf("media type %q", v)
			}

			return unclear("parameter %s", p.name)
		case "ENCODING":
			if !strings.EqualFold(v, "BASE64") || len(p.vals) > 1 {
				return fmt.Errorf("encoding %q", v)
			}

			return unclear("letter case")
		}

		s := paramByName[p.name]

		if s.kind == pAddrs || s.kind == pURI {
			for j, v := range p.vals {
				if !p.quoted[j] {
					return fmt.Errorf("parameter %s without quotes", p.name)
				}

				if u, err := url.Parse(v); err != nil || u.String() != v {
					return unclear("uri")
				}
			}
		} else if s.kind != pTexts && len(p.vals) > 1 {
			return fmt.Errorf("parameter %s with several values", p.name)
		}

		switch s.kind {
		case pEnum:
			return unclear("parameter %s", p.name)
		case pBool:
			if _, err := strconv.ParseBool(strings.ToLower(v)); err != nil {
				return fmt.Errorf("boolean %q", v)
			} else if v != "TRUE" && v != "FALSE" {
				return unclear("boolean")
			}
		case pFlag:
			if !strings.EqualFold(v, "THISANDFUTURE") {
				return fmt.Errorf("parameter %s with %q", p.name, v)
			}
		}
	}

	return nil
}
