package cacher

import (
	"math/rand"
	"net/url"
	"regexp"
	"strings"
	"testing"
)

func TestReplayC10(t *testing.T) {
	r := rand.New(rand.NewSource(10))
	valid := regexp.MustCompile(`^[a-z0-9._-]+$`)
	pres := []string{"ubuntu", "a", "a.b", "a_b-c", "0", ".", "..", "...", "", "A", "a/b", "a b", "é", "ubuntu\n", "\nubuntu", "a+b", "up", ".a", "-", "_", "a:"}
	bases := []string{"http://h", "http://h/", "https://h/ubuntu", "http://h/a/b/", "http://h/a%2Fb", "http://h:80/x y"}
	rests := []string{"", "dists/x/Release", "a//b", "../up", "./x", "x:y/z", "a b", "pool/%41", "..", "pool/a?b#c", "/abs", "//x"}
	for n := 0; n < 4000; n++ {
		um := make(URLMap)
		want := map[string]string{}
		for k := r.Intn(6); k >= 0; k-- {
			p, b := pres[r.Intn(len(pres))], bases[r.Intn(len(bases))]
			u, err := url.Parse(b)
			if err != nil {
				continue
			}
			ok := valid.MatchString(p) && p != "." && p != ".." && !strings.Contains(p, "\n")
			err = um.Register(p, u)
			if (err == nil) != ok {
				t.Fatalf("Register(%q): %v", p, err)
			}
			if ok {
				w, _ := url.Parse(b)
				if !strings.HasSuffix(w.Path, "/") {
					w.Path += "/"
					w.RawPath += "/"
				}
				want[p] = w.String()
				if u.String() != want[p] {
					t.Fatalf("Register(%q, %q): the base is %q", p, b, u)
				}
			}
		}
		if len(um) != len(want) {
			t.Fatalf("%d prefixes are registered, want %d", len(um), len(want))
		}
		for k := 0; k < 20; k++ {
			p, rest := pres[r.Intn(len(pres))], rests[r.Intn(len(rests))]
			q := strings.Repeat("/", r.Intn(3)) + p
			if r.Intn(4) > 0 {
				q += "/" + rest
			}
			t1 := strings.SplitN(strings.TrimLeft(q, "/"), "/", 2)
			got := um.URL(q)
			base, ok := want[t1[0]]
			if !ok {
				if got != nil {
					t.Fatalf("URL(%q) = %q with %v", q, got, want)
				}
				continue
			}
			w, err := url.Parse(base)
			if err != nil {
				continue
			}
			if len(t1) == 2 {
				w = w.ResolveReference(&url.URL{Path: t1[1]})
			}
			if got == nil || got.String() != w.String() {
				t.Fatalf("URL(%q) = %q with %v, want %q", q, got, want, w)
			}
			if w2, _ := url.Parse(base); um[t1[0]].String() != w2.String() {
				t.Fatalf("URL(%q) changed the base", q)
			}
		}
	}
}
