// Package zones is the simulated time-zone database: a fixed set of zones
// compiled in, so that results do not depend on the machine.
package zones

import (
	"embed"
	"errors"
	"sort"
	"strconv"
	"strings"
	"time"
)

//go:embed data/*.tzif
var fs embed.FS

var (
	data  = map[string][]byte{}
	names []string
)

func init() {
	es, err := fs.ReadDir("data")
	if err != nil {
		panic(err)
	}

	for _, e := range es {
		b, err := fs.ReadFile("data/" + e.Name())
		if err != nil {
			panic(err)
		}

		n := strings.ReplaceAll(strings.TrimSuffix(e.Name(), ".tzif"), "~", "/")
		data[n] = b
		names = append(names, n)
	}

	sort.Strings(names)

	// Make sure the runtime has finished initialising the local zone before
	// it is ever replaced.
	_ = time.Now().Local().String()
}

// Names returns all zone names, sorted.
func Names() []string { return names }

// Load behaves like time.LoadLocation on a host that has exactly this database.
func Load(name string) (*time.Location, error) {
	switch name {
	case "", "UTC":
		return time.UTC, nil
	case "Local":
		return time.Local, nil
	}

	d := zoneData(name)

	if d == nil {
		return nil, errors.New("unknown time zone " + name)
	}

	return time.LoadLocationFromTZData(name, d)
}

// LoadAs supplies a zone of any name with the data of another.
func LoadAs(name, of string) (*time.Location, error) {
	return time.LoadLocationFromTZData(name, zoneData(of))
}

func zoneData(name string) []byte {
	if d, ok := data[name]; ok {
		return d
	}

	return data[base(name)]
}

// Alias returns another name of a zone: "S<n>/<name>". Fresh names keep anything the
// code under test may remember about a zone from spilling over between runs.
func Alias(name string, n int) string {
	if n == 0 {
		return name
	}

	return "S" + strconv.Itoa(n) + "/" + name
}

func base(name string) string {
	if a, b, ok := strings.Cut(name, "/"); ok && len(a) > 1 && a[0] == 'S' && strings.Trim(a[1:], "0123456789") == "" {
		return b
	}

	return ""
}

// SetLocal makes the simulated host's local zone the named one ("" or "UTC":
// a host whose zone is UTC). It changes what time.Local points to, so times
// that hold time.Local change their reading, exactly as on a reconfigured host.
func SetLocal(name string) { setLocal(name, "Local") }

// SetLocalNamed is SetLocal for a program that sets time.Local to a zone it loaded,
// which then also has that zone's name.
func SetLocalNamed(name string) { setLocal(name, name) }

func setLocal(name, label string) {
	if name == "" || name == "UTC" {
		name = "Etc/UTC"
	}

	l, err := time.LoadLocationFromTZData(label, zoneData(name))
	if err != nil {
		panic(err)
	}

	*time.Local = *l
}
