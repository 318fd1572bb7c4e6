package mirror

import (
	"math/rand"
	"reflect"
	"strings"
	"testing"
)

// Selection of indices, against the property applied component by component.
func TestReplayM09(t *testing.T) {
	rnd := rand.New(rand.NewSource(9))
	pick := func(l ...string) string { return l[rnd.Intn(len(l))] }
	comps := []string{"main", "updates", "xmain", "mainx", "contrib", "main-x"}
	archs := []string{"amd64", "i386", "all", "arm", "armhf"}
	split := func(p string) (l []string) {
		for _, s := range strings.Split(p, "/") {
			if s != "" {
				l = append(l, s)
			}
		}
		return
	}
	for k := 0; k < 200000; k++ {
		mc := &MirrConfig{Source: rnd.Intn(2) == 0, Suites: []string{"stable"}}
		flat := rnd.Intn(4) == 0
		if flat {
			mc.Suites = []string{pick("/", "x/", "a/b/")}
		} else {
			for i := 0; i < rnd.Intn(3); i++ {
				mc.Sections = append(mc.Sections, pick(comps...)+pick("", "", "", "/", "/sub"))
			}
			for i := 0; i < rnd.Intn(3); i++ {
				mc.Architectures = append(mc.Architectures, pick(archs...))
			}
		}
		dir := pick("dists/stable/", "", "dists/stable/updates/") + pick(comps...) + pick("", "", "/sub") + "/" + pick("source", "binary-amd64", "binary-all", "binary-i386", "i18n", "binary-arm", "binary-armhf", "xbinary-all")
		p := pick(dir+"/", dir+"/", dir+"/", "x"+dir+"/", "") + pick("Packages", "Sources", "Index", "Release", "Contents", "PackagesX") + pick("", "", ".gz", ".xz", ".bz2", ".diff", ".gz.x")
		base := p[strings.LastIndex(p, "/")+1:]
		stem, noext := base, p
		if i := strings.LastIndex(base, "."); i >= 0 {
			stem = base[:i]
			noext = p[:len(p)-(len(base)-i)]
		}
		want := false
		switch {
		case stem == "Index" || stem == "Release":
			want = true
		case flat:
			want = stem == "Packages" || stem == "Sources" && mc.Source
		default:
			l := split(noext)
			ends := func(tail []string) bool {
				return len(l) >= len(tail) && reflect.DeepEqual(l[len(l)-len(tail):], tail)
			}
			for _, s := range mc.Sections {
				for _, a := range append([]string{"all"}, mc.Architectures...) {
					want = want || ends(append(split(s), "binary-"+a, "Packages"))
				}
				want = want || mc.Source && ends(append(split(s), "source", "Sources"))
			}
		}
		if g := mc.MatchingIndex(p); g != want {
			t.Fatalf("%q with sections %q, architectures %q, sources %v, suites %q is selected: %v, not %v", p, mc.Sections, mc.Architectures, mc.Source, mc.Suites, g, want)
		}
	}
	for s, d := range map[string]string{"stable": "dists/stable/", "a/b": "dists/a/b/", "/": "", "x/": "x/", "a/b/": "a/b/", "./": "", "stable-updates": "dists/stable-updates/"} {
		mc := &MirrConfig{Suites: []string{s}}
		want := map[string]bool{}
		for _, n := range []string{"Release", "Release.gpg", "Release.gz", "Release.bz2", "InRelease", "InRelease.gz", "InRelease.bz2"} {
			want[d+n] = true
		}
		got := map[string]bool{}
		l := mc.ReleaseFiles(s)
		for _, p := range l {
			got[p] = true
		}
		if len(l) != 7 || !reflect.DeepEqual(got, want) {
			t.Fatalf("Release files of %q: %q", s, l)
		}
	}
}
