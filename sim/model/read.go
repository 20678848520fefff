package model

import (
	"encoding/base64"
	"errors"
	"fmt"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Unfold splits a stream into content lines.
func Unfold(b []byte) ([]string, error) {
	s := string(b)

	if !strings.HasSuffix(s, "\r\n") {
		return nil, errors.New("stream does not end in CR LF")
	}

	s = strings.ReplaceAll(s, "\r\n ", "")
	s = strings.ReplaceAll(s, "\r\n\t", "")
	l := strings.Split(strings.TrimSuffix(s, "\r\n"), "\r\n")

	return l, nil
}

// Lint checks the physical form of a stream and returns what is wrong.
func Lint(b []byte) error {
	if !strings.HasSuffix(string(b), "\r\n") {
		return errors.New("does not end in CR LF")
	}

	if !utf8.Valid(b) {
		return errors.New("is not valid UTF-8")
	}

	depth := []string{}
	closed := false

	for n, l := range strings.Split(strings.TrimSuffix(string(b), "\r\n"), "\r\n") {
		switch {
		case len(l) > 75:
			return fmt.Errorf("line %d has %d octets", n+1, len(l))
		case len(l) == 0:
			return fmt.Errorf("line %d is empty", n+1)
		case !utf8.ValidString(l):
			return fmt.Errorf("line %d ends inside a character", n+1)
		}

		for _, c := range []byte(l) {
			if c < 32 && c != '\t' || c == 127 {
				return fmt.Errorf("line %d contains control character %#x", n+1, c)
			}
		}
	}

	lines, err := Unfold(b)
	if err != nil {
		return err
	}

	for n, l := range lines {
		if closed {
			return fmt.Errorf("content line %d follows END:VCALENDAR", n+1)
		}

		if n == 0 && l != "BEGIN:VCALENDAR" {
			return fmt.Errorf("does not begin with BEGIN:VCALENDAR")
		}

		if strings.HasPrefix(l, "BEGIN:") {
			depth = append(depth, l[6:])
		} else if strings.HasPrefix(l, "END:") {
			if len(depth) == 0 || depth[len(depth)-1] != l[4:] {
				return fmt.Errorf("content line %d: unbalanced %s", n+1, l)
			}

			depth = depth[:len(depth)-1]
			closed = len(depth) == 0
		}
	}

	if !closed {
		return errors.New("components are not closed")
	}

	return nil
}

// Parse is the reference reader of streams: it reads what the reference writer
// or the package writes (upper-case names, known items only).
func Parse(b []byte) (*Comp, error) { return parse(b, -1) }

// ParseStrict also checks the value of one content line against the grammar of
// its type.
func ParseStrict(b []byte, line int) (*Comp, error) { return parse(b, line) }

func parse(b []byte, strict int) (*Comp, error) {
	lines, err := Unfold(b)
	if err != nil {
		return nil, err
	}

	var stack []*Comp

	for n, l := range lines {
		name, ps, val, err := splitLine(l)
		if err != nil {
			return nil, fmt.Errorf("content line %d: %w", n+1, err)
		}

		switch name {
		case "BEGIN":
			c := &Comp{Name: val}

			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.Subs = append(p.Subs, c)
			} else if n != 0 {
				return nil, fmt.Errorf("content line %d: second top-level component", n+1)
			}

			stack = append(stack, c)
		case "END":
			if len(stack) == 0 || stack[len(stack)-1].Name != val {
				return nil, fmt.Errorf("content line %d: unbalanced END:%s", n+1, val)
			}

			if len(stack) == 1 {
				if n != len(lines)-1 {
					return nil, fmt.Errorf("content line %d: data after the end", n+2)
				}

				return stack[0], nil
			}

			stack = stack[:len(stack)-1]
		default:
			if len(stack) == 0 {
				return nil, fmt.Errorf("content line %d: outside any component", n+1)
			}

			read := readProp

			if n == strict {
				read = strictProp
			}

			p, err := read(name, ps, val)
			if err != nil {
				return nil, fmt.Errorf("content line %d (%s): %w", n+1, name, err)
			}

			c := stack[len(stack)-1]
			c.Props = append(c.Props, p)
		}
	}

	return nil, errors.New("components are not closed")
}

var errFreqFirst = errors.New("rule does not start with FREQ")

type rawParam struct {
	name   string
	vals   []string
	quoted []bool
}

func splitLine(l string) (name string, ps []rawParam, val string, err error) {
	i := strings.IndexAny(l, ";:")
	if i < 1 {
		return "", nil, "", errors.New("no name")
	}

	name = l[:i]

	for l[i] == ';' {
		l = l[i+1:]

		e := strings.IndexByte(l, '=')
		if e < 1 {
			return "", nil, "", errors.New("no parameter name")
		}

		p := rawParam{name: l[:e]}
		i = e

		for {
			l = l[i+1:]

			if strings.HasPrefix(l, "\"") {
				q := strings.IndexByte(l[1:], '"')
				if q < 0 {
					return "", nil, "", errors.New("unterminated quote")
				}

				p.vals, p.quoted = append(p.vals, l[1:q+1]), append(p.quoted, true)
				i = q + 2
			} else {
				i = strings.IndexAny(l, ";:,\"")
				if i < 0 {
					return "", nil, "", errors.New("unterminated parameter")
				}

				p.vals, p.quoted = append(p.vals, l[:i]), append(p.quoted, false)
			}

			if i >= len(l) || !strings.ContainsRune(";:,", rune(l[i])) {
				return "", nil, "", errors.New("bad parameter value")
			}

			if l[i] != ',' {
				break
			}
		}

		ps = append(ps, p)
	}

	return name, ps, l[i+1:], nil
}

func un6868(s string) string {
	var b strings.Builder

	for i := 0; i < len(s); i++ {
		if s[i] == '^' && i+1 < len(s) {
			switch s[i+1] {
			case 'n':
				b.WriteByte('\n')
				i++

				continue
			case '\'':
				b.WriteByte('"')
				i++

				continue
			case '^':
				b.WriteByte('^')
				i++

				continue
			}
		}

		b.WriteByte(s[i])
	}

	return b.String()
}

// unText decodes escaped text; stop at an unescaped comma if list.
func unText(s string, list bool) ([]string, error) {
	var (
		b   strings.Builder
		out []string
	)

	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '\\':
			i++

			if i == len(s) {
				return nil, errors.New("text ends in backslash")
			}

			switch s[i] {
			case 'n', 'N':
				b.WriteByte('\n')
			case '\\', ';', ',':
				b.WriteByte(s[i])
			default:
				return nil, fmt.Errorf("unknown escape \\%c", s[i])
			}
		case ',':
			if !list {
				return nil, errors.New("unescaped comma")
			}

			out = append(out, b.String())
			b.Reset()
		case ';':
			return nil, errors.New("unescaped semicolon")
		default:
			b.WriteByte(c)
		}
	}

	return append(out, b.String()), nil
}

func digits(s string, n int) bool {
	if len(s) != n {
		return false
	}

	for i := 0; i < n; i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}

	return true
}

func readStamp(s, tzid string) (zone, wall string, err error) {
	zone = "local"

	if tzid != "" {
		zone = "tz:" + tzid
	} else if strings.HasSuffix(s, "Z") {
		zone, s = "utc", s[:len(s)-1]
	}

	if len(s) != 15 || s[8] != 'T' || !digits(s[:8], 8) || !digits(s[9:], 6) {
		return "", "", fmt.Errorf("bad date-time %q", s)
	}

	return zone, s, nil
}

func readDur(s string) (string, error) {
	sign, o := "", s

	if strings.HasPrefix(s, "-") {
		sign, s = "-", s[1:]
	} else {
		s = strings.TrimPrefix(s, "+")
	}

	if !strings.HasPrefix(s, "P") {
		return "", fmt.Errorf("bad duration %q", o)
	}

	s = s[1:]

	var n [128]string

	inTime := false
	last := -1
	order := "WDHMS"

	for s != "" {
		if s[0] == 'T' && !inTime {
			inTime = true
			s = s[1:]
		}

		i := 0

		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}

		if i == 0 || i == len(s) {
			return "", fmt.Errorf("bad duration %q", o)
		}

		k := strings.IndexByte(order, s[i])

		if k <= last || inTime != (k >= 2) || last == 0 {
			return "", fmt.Errorf("bad duration %q", o)
		}

		last = k
		n[s[i]] = strings.TrimLeft(s[:i], "0")
		s = s[i+1:]
	}

	if last == -1 {
		return "", fmt.Errorf("bad duration %q", o)
	}

	if n['W'] != "" {
		return sign + "W" + n['W'], nil
	}

	z := func(s string) string {
		if s == "" {
			return "0"
		}

		return s
	}

	r := "D" + z(n['D']) + "H" + z(n['H']) + "M" + z(n['M']) + "S" + z(n['S'])

	if r == "D0H0M0S0" {
		return "0", nil
	}

	return sign + r, nil
}

func readProp(name string, ps []rawParam, val string) (Prop, error) {
	p := Prop{Name: name}

	spec, ok := byName[name]
	if !ok {
		return p, errors.New("unknown property")
	}

	kind, tzid, enc := spec.kind, "", ""

	for _, q := range ps {
		switch q.name {
		case "VALUE":
			kind = q.vals[0]
			ok := kind == spec.kind

			for _, k := range spec.alt {
				ok = ok || k == kind
			}

			if !ok {
				return p, fmt.Errorf("value type %s", kind)
			}
		case "TZID":
			tzid = un6868(q.vals[0])

			if tzid == "" {
				return p, errors.New("empty TZID")
			}
		case "ENCODING":
			enc = q.vals[0]
		default:
			ps, ok := paramByName[q.name]
			if !ok {
				return p, fmt.Errorf("unknown parameter %s", q.name)
			}

			if len(q.vals) > 1 && ps.kind != pAddrs && ps.kind != pTexts {
				return p, fmt.Errorf("parameter %s: several values", q.name)
			}

			np := Param{Name: q.name}

			for i, v := range q.vals {
				switch ps.kind {
				case pQuoted, pTexts, pURI, pAddrs:
					if !q.quoted[i] {
						return p, fmt.Errorf("parameter %s: must be quoted", q.name)
					}
				}

				if ps.kind == pURI || ps.kind == pAddrs {
					if _, err := url.Parse(v); err != nil {
						return p, err
					}
				} else {
					v = un6868(v)
				}

				np.S = append(np.S, v)
			}

			p.Params = append(p.Params, np)
		}
	}

	sort.SliceStable(p.Params, func(a, b int) bool { return p.Params[a].Name < p.Params[b].Name })

	for i := 1; i < len(p.Params); i++ {
		if p.Params[i].Name == p.Params[i-1].Name {
			return p, fmt.Errorf("parameter %s twice", p.Params[i].Name)
		}
	}

	v := Val{Kind: kind}

	var err error

	switch kind {
	case Text:
		v.S, err = unText(val, false)
	case MText:
		v.S, err = unText(val, true)
	case DateTime:
		var z, w string

		z, w, err = readStamp(val, tzid)
		v.S = []string{z, w}
	case Date:
		if !digits(val, 8) {
			err = fmt.Errorf("bad date %q", val)
		}

		v.S = []string{val}
	case Duration:
		var s string

		s, err = readDur(val)
		v.S = []string{s}
	case Period:
		a, b, ok := strings.Cut(val, "/")
		if !ok || b == "" {
			return p, fmt.Errorf("bad period %q", val)
		}

		z, w, e := readStamp(a, tzid)
		if e != nil {
			return p, e
		}

		if b[0] == 'P' || b[0] == '+' {
			var s string

			s, err = readDur(b)
			v.S = []string{z, w, "dur", s}
		} else {
			z2, w2, e := readStamp(b, tzid)
			if e != nil {
				return p, e
			}

			if z2 != z {
				return p, fmt.Errorf("bad period %q", val)
			}

			v.S = []string{z, w, "end", w2}
		}
	case Recur:
		zone := ""
		parts := strings.Split(val, ";")

		for i, s := range parts {
			k, word, _ := strings.Cut(s, "=")

			if k = strings.ToUpper(k); k != "UNTIL" {
				word = strings.ToUpper(word)
			}

			s = k + s[len(k):len(s)-len(word)] + word
			parts[i] = s

			if strings.HasPrefix(s, "UNTIL=") && len(s) > 6+8 {
				z, w, e := readStamp(s[6:], tzid)
				if e != nil {
					return p, e
				}

				zone, parts[i] = z, "UNTIL="+w
			}
		}

		if !strings.HasPrefix(parts[0], "FREQ=") {
			err = errFreqFirst
		}

		sort.Strings(parts)
		v.S = append([]string{zone}, parts...)
	case URI, Addr:
		_, err = url.Parse(val)
		v.S = []string{val}
	case Integer:
		var n int64

		n, err = strconv.ParseInt(val, 10, 32)
		v.S = []string{strconv.FormatInt(n, 10)}
	case Geo:
		a, b, ok := strings.Cut(val, ";")
		if !ok {
			return p, errors.New("bad pair")
		}

		for _, s := range []string{a, b} {
			f, e := strconv.ParseFloat(s, 64)
			if e != nil || strings.ContainsAny(s, "eExXnNiI") {
				return p, fmt.Errorf("bad float %q", s)
			}

			v.S = append(v.S, float(f))
		}
	case Offset:
		s, neg := val, false

		if strings.HasPrefix(s, "-") {
			neg = true
		}

		s = strings.TrimLeft(s, "+-")

		if !digits(s, 4) && !digits(s, 6) {
			return p, fmt.Errorf("bad offset %q", val)
		}

		n := 0

		for i, f := range []int{3600, 60, 1} {
			if len(s) >= 2*i+2 {
				k, _ := strconv.Atoi(s[2*i : 2*i+2])
				n += k * f
			}
		}

		if neg {
			n = -n
		}

		v.S = []string{strconv.Itoa(n)}
	case Boolean:
		if val != "TRUE" && val != "FALSE" {
			err = fmt.Errorf("bad boolean %q", val)
		}

		v.S = []string{val}
	case Binary:
		if enc != "BASE64" {
			return p, errors.New("binary without ENCODING=BASE64")
		}

		_, err = base64.StdEncoding.DecodeString(val)
		v.S = []string{val}
	case Enum:
		v.S = []string{val}
	default:
		err = fmt.Errorf("value type %s", kind)
	}

	p.Val = v

	return p, err
}
