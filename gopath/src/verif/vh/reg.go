package vh

import (
	"strings"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
)

// Base is the directory under which harnesses register.
const Base = "/vp"

// Reset removes everything harnesses registered.
func Reset() { tricorder.UnregisterPath(Base) }

// Spell writes a path of the given components in one of its equivalent
// spellings, absolute or not.
func Spell(t *rapid.T, parts []string, label string) string {
	seps := []string{"/", "/", "/", "//", "/ /", "/\t/", "///", "/  /", "/\u00a0/", "/\u3000\u2003/"}
	ends := []string{"", "", "", "/", "//", "/ ", " /", "/ /", "/\u0085", "/\u00a0/"}
	lead := []string{"/", "/", "", "//", " /", "/ /", "\u00a0/", "/\u2028/"}
	var b strings.Builder
	b.WriteString(rapid.SampledFrom(lead).Draw(t, label+"<"))
	for i, p := range parts {
		if i > 0 {
			b.WriteString(rapid.SampledFrom(seps).Draw(t, label+"/"))
		}
		b.WriteString(p)
	}
	if len(parts) > 0 {
		// a blank end must be a component of its own
		e := rapid.SampledFrom(ends).Draw(t, label+">")
		if strings.HasPrefix(e, " ") {
			e = "/" + e
		}
		b.WriteString(e)
	}
	return b.String()
}

// RegisterIn registers a metric at an absolute path in a group by one of the
// ways there are; all of them amount to the same.
func RegisterIn(t *rapid.T, group *tricorder.Group, path string, metric interface{}, unit units.Unit, desc string) error {
	parts := strings.Split(strings.Trim(path, "/"), "/")
	how := rapid.IntRange(0, 5).Draw(t, "register by")
	if group == tricorder.DefaultGroup && rapid.Bool().Draw(t, "default") {
		how += 6
	}
	switch how {
	case 0, 1:
		return group.RegisterMetric(path, metric, unit, desc)
	case 2:
		return tricorder.RegisterMetricInGroup(path, metric, group, unit, desc)
	case 6, 7:
		return tricorder.RegisterMetric(path, metric, unit, desc)
	}
	k := rapid.IntRange(0, len(parts)-1).Draw(t, "split at")
	dir, err := tricorder.RegisterDirectory("/" + strings.Join(parts[:k], "/"))
	if err != nil {
		return err
	}
	rest := strings.Join(parts[k:], "/")
	switch how {
	case 3:
		return dir.RegisterMetricInGroup(rest, metric, group, unit, desc)
	case 4, 5:
		return tricorder.DirectoryGroup{Group: group, Directory: dir}.RegisterMetric(rest, metric, unit, desc)
	}
	return dir.RegisterMetric(rest, metric, unit, desc)
}

// HasDir tells whether there is a directory at the path.
func HasDir(path string) bool {
	_, err := tricorder.GetDirectory(path)
	return err == nil
}
