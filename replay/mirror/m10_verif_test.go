package mirror

import (
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"testing"
	"time"
)

// Configurations, good and bad.
func TestReplayM10(t *testing.T) {
	rnd := rand.New(rand.NewSource(10))
	pick := func(l ...string) string { return l[rnd.Intn(len(l))] }
	goodID := regexp.MustCompile(`\A[a-z0-9_-]+\z`)
	tick := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	list := func(n int, f func() string) (l []string) {
		for i := 0; i < n; i++ {
			l = append(l, f())
		}
		return
	}
	for k := 0; k < 3000; k++ {
		dir := vDir0(t, k)
		id := pick("m", "a-b_c9", "ubuntu", "A", "a b", "", "..", "a/b", "é", "a.", "-", "a\n", "\na", "a\x00")
		flat := rnd.Intn(2) == 0
		mc := &MirrConfig{
			Suites: list(rnd.Intn(4), func() string {
				if rnd.Intn(8) == 0 {
					return pick("x", "y/")
				}
				if flat {
					return pick("/", "x/")
				}
				return pick("stable", "a/b")
			}),
			Sections:      list(rnd.Intn(3)*rnd.Intn(2), func() string { return "main" }),
			Architectures: list(rnd.Intn(3)*rnd.Intn(2), func() string { return "amd64" }),
		}
		var u tomlURL
		if err := u.UnmarshalText([]byte("http://localhost/x")); err != nil {
			t.Fatal(err)
		}
		mc.URL = u
		c := &Config{Dir: dir, MaxConns: rnd.Intn(5) - 1, Mirrors: map[string]*MirrConfig{id: mc}}
		ask := id
		bad := ""
		if rnd.Intn(20) == 0 {
			ask = "other"
			bad = "not configured"
		}
		if !goodID.MatchString(ask) {
			bad = "identifier"
		}
		if len(mc.Suites) == 0 {
			bad = "no suites"
		} else {
			f := strings.HasSuffix(mc.Suites[0], "/")
			for _, s := range mc.Suites {
				if strings.HasSuffix(s, "/") != f {
					bad = "mixed"
				}
			}
			if f && len(mc.Sections)+len(mc.Architectures) > 0 {
				bad = "sections or architectures"
			}
		}
		if c.MaxConns < 0 {
			bad = "connections"
		}
		m, err := NewMirror(tick, ask, c)
		des, _ := os.ReadDir(dir)
		what := fmt.Sprintf("mirror %q suites %q sections %q architectures %q connections %d", ask, mc.Suites, mc.Sections, mc.Architectures, c.MaxConns)
		if bad != "" && (err == nil || m != nil || len(des) != 0) {
			t.Fatalf("%s: not refused (%s): %v, %d entries created", what, bad, err, len(des))
		}
		if bad == "" && (err != nil || len(des) != 1) {
			t.Fatalf("%s: refused with %v, %d entries created", what, err, len(des))
		}
		os.RemoveAll(dir)
	}
	for s, want := range map[string]string{
		"http://h/a": "http://h/a/", "https://h/a/": "https://h/a/", "http://h": "http://h/", "ftp://h/a": "", "h/a": "", "file:///x": "", "": "", "http://%zz/": "", "httpx://h/": "", "HTTP://h/b": "http://h/b/", "http://h/a%2Fb": "http://h/a%2Fb/",
	} {
		var u tomlURL
		err := u.UnmarshalText([]byte(s))
		if (err == nil) != (want != "") {
			t.Fatalf("URL %q: %v", s, err)
		}
		if err == nil && (u.URL.String() != want || !strings.HasSuffix(u.URL.Path, "/")) {
			t.Fatalf("URL %q becomes %q, not %q", s, u.URL.String(), want)
		}
		if err != nil && u.URL != nil {
			t.Fatalf("URL %q refused and kept", s)
		}
	}
}
