package model

import (
	"fmt"
	"reflect"
	"sort"

	"vimagination.zapto.org/ics"
)

// Rule says how often a property may occur in a component.
type Rule struct{ Required, Single bool }

// tables is keyed by component name, for alarms by "VALARM/" and the action.
var tables = map[string]map[string]Rule{}

func table(key string, t reflect.Type) {
	m := map[string]Rule{}

	for i := 0; i < t.NumField(); i++ {
		ft := t.Field(i).Type
		r := Rule{Required: true, Single: true}

		switch {
		case ft.Kind() == reflect.Ptr:
			ft, r.Required = ft.Elem(), false
		case ft.Kind() == reflect.Slice && props[ft.Name()].name == "":
			ft, r = ft.Elem(), Rule{}
		}

		if p, ok := props[ft.Name()]; ok {
			m[p.name] = r
		}
	}

	if key[:2] == "VA" {
		m["ACTION"] = Rule{true, true}
	}

	tables[key] = m
}

func init() {
	for _, v := range []any{ics.Calendar{}, ics.Event{}, ics.Todo{}, ics.Journal{}, ics.FreeBusy{}, ics.Timezone{}, ics.Standard{}, ics.Daylight{}} {
		t := reflect.TypeOf(v)
		table(comps[t.Name()], t)
	}

	for _, v := range []any{ics.AlarmAudio{}, ics.AlarmDisplay{}, ics.AlarmEmail{}, ics.AlarmURI{}, ics.AlarmNone{}} {
		t := reflect.TypeOf(v)
		table("VALARM/"+alarms[t.Name()], t)
	}
}

// Repeats reports whether a property may occur more than once in some component.
func Repeats(name string) bool {
	for _, m := range tables {
		if r, ok := m[name]; ok && !r.Single {
			return true
		}
	}

	return false
}

// Key names the kind of component: its name, for alarms with the action.
func (c *Comp) Key() string {
	if c.Name == "VALARM" {
		for _, p := range c.Props {
			if p.Name == "ACTION" {
				return "VALARM/" + p.Val.S[0]
			}
		}
	}

	return c.Name
}

// Required lists the properties a component must have.
func Required(key string) []string {
	var l []string

	for n, r := range tables[key] {
		if r.Required {
			l = append(l, n)
		}
	}

	sort.Strings(l)

	return l
}

// Rules checks how often properties occur, and which need or exclude each other.
func (c *Comp) Rules() error {
	key := c.Key()

	t, ok := tables[key]
	if !ok {
		return fmt.Errorf("%s without a known action", key)
	}

	n := map[string]int{}

	for _, p := range c.Props {
		n[p.Name]++
	}

	for _, name := range Required(key) {
		if n[name] == 0 {
			return fmt.Errorf("%s without %s", key, name)
		}
	}

	for _, p := range c.Props {
		if t[p.Name].Single && n[p.Name] > 1 {
			return fmt.Errorf("%s with two %s", key, p.Name)
		}
	}

	switch c.Name {
	case "VEVENT":
		if n["DTEND"] > 0 && n["DURATION"] > 0 {
			return fmt.Errorf("%s with DTEND and DURATION", key)
		}
	case "VTODO":
		if n["DUE"] > 0 && n["DURATION"] > 0 {
			return fmt.Errorf("%s with DUE and DURATION", key)
		}

		if n["DURATION"] > 0 && n["DTSTART"] == 0 {
			return fmt.Errorf("%s with DURATION, without DTSTART", key)
		}
	case "VTIMEZONE":
		if len(c.Subs) == 0 {
			return fmt.Errorf("%s without observance", key)
		}
	case "VALARM":
		if n["GEO-LOCATION"] > 0 && n["PROXIMITY"] == 0 {
			return fmt.Errorf("%s with GEO-LOCATION, without PROXIMITY", key)
		}

		if _, ok := t["REPEAT"]; ok && !t["REPEAT"].Required && (n["DURATION"] > 0) != (n["REPEAT"] > 0) {
			return fmt.Errorf("%s with one of DURATION and REPEAT", key)
		}
	}

	for _, s := range c.Subs {
		if err := s.Rules(); err != nil {
			return err
		}
	}

	return nil
}

// Walk calls f for the component and everything in it.
func (c *Comp) Walk(f func(*Comp)) {
	f(c)

	for _, s := range c.Subs {
		s.Walk(f)
	}
}

// Clone copies the tree; properties are shared.
func (c *Comp) Clone() *Comp {
	d := &Comp{Name: c.Name, Props: append([]Prop(nil), c.Props...)}

	for _, s := range c.Subs {
		d.Subs = append(d.Subs, s.Clone())
	}

	return d
}

// bound are the properties that exclude or need each other, with a sample.
var bound = []Prop{
	{Name: "DTSTART", Val: Val{DateTime, []string{"utc", "20200102T030405"}}},
	{Name: "DTEND", Val: Val{DateTime, []string{"utc", "20200102T040506"}}},
	{Name: "DUE", Val: Val{Date, []string{"20200103"}}},
	{Name: "DURATION", Val: Val{Duration, []string{"D0H1M0S0"}}},
	{Name: "REPEAT", Val: Val{Integer, []string{"2"}}},
	{Name: "GEO-LOCATION", Val: Val{URI, []string{"geo:1,2"}}},
	{Name: "PROXIMITY", Val: Val{Text, []string{"ARRIVE"}}},
}

// Bound lists samples of those a component of the kind may have.
func Bound(key string) []Prop {
	var l []Prop

	for _, p := range bound {
		if _, ok := tables[key][p.Name]; ok {
			l = append(l, p)
		}
	}

	return l
}
