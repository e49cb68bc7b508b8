package chk

import "testing"

func TestIncluded(t *testing.T) {
	spec := `^(?i:[a-z][a-z0-9+.-]*)(?::[^\n]*)?$`
	for _, c := range []struct {
		a, b string
		want bool
	}{
		{"^(?:(?i)[a-z][a-z0-9]*(?:[-+][a-z0-9]+)*)(:[^\n]*)?$", spec, true},
		{"^(?:(?i)[a-z][a-z0-9]*(?:[-+][a-z0-9]+)*)(:[^\n]*)?", spec, false},
		{"(?:(?i)[a-z][a-z0-9]*(?:[-+][a-z0-9]+)*)(:[^\n]*)?$", spec, false},
		{"(?m)^[a-z]+$", spec, false},
		{"^[a-z]*$", spec, false},
		{"^\\w+$", spec, false},
		{"^[a-z]\\b$", spec, true},
		{"^https?:.*$", spec, true},
		{"^https?:(?s:.*)$", spec, false},
		{"^a|b$", spec, false},
	} {
		ok, ex, err := searchIncluded(c.a, c.b)
		if err != nil || ok != c.want {
			t.Errorf("%q in %q: %v %q %v", c.a, c.b, ok, ex, err)
		}
		t.Logf("%q %v %q", c.a, ok, ex)
	}
}
