package cacher

import (
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/cybozu-go/aptutil/apt"
)

func TestReplayC04(t *testing.T) {
	r := rand.New(rand.NewSource(4))
	parts := []string{"a", "b", "..", ".", "", "...", "..a", "a..", ".cache", "x.deb"}
	for k := 0; k < 1500; k++ {
		top := vDir(t)
		dir := filepath.Join(top, "q", "cache")
		os.MkdirAll(dir, 0755)
		st := NewStorage(dir, 0)
		var l []string
		for n := 1 + r.Intn(4); n > 0; n-- {
			l = append(l, parts[r.Intn(len(parts))])
		}
		p := strings.Join(l, "/")
		if r.Intn(8) == 0 {
			p = "/" + p
		}
		src := filepath.Join(top, "src")
		ioutil.WriteFile(src, []byte("data"), 0644)
		before := vFiles(top)
		fi := apt.MakeFileInfoNoChecksum(p, 4)
		err := st.Insert(src, fi)
		bad := p != filepath.Clean(p) || filepath.IsAbs(p) || p == "." || p == ".." || strings.HasPrefix(p, "../")
		after := vFiles(top)
		want := before
		if !bad {
			want = append(want[:len(want):len(want)], filepath.Join("q", "cache", p+".cache"))
		}
		sort.Strings(want)
		sort.Strings(after)
		if (err != nil) != bad || bad && err != ErrBadPath {
			t.Fatalf("Insert of %q: %v", p, err)
		}
		if strings.Join(want, "|") != strings.Join(after, "|") {
			t.Fatalf("Insert of %q: files %q, want %q", p, after, want)
		}
		if bad {
			if len(st.ListAll()) != 0 {
				t.Fatalf("%q is listed", p)
			}
			if _, err := os.Stat(filepath.Join(dir, "a")); err == nil {
				t.Fatalf("Insert of %q made directories", p)
			}
			continue
		}
		if f, err := st.Lookup(vInfo(p, []byte("data"))); err != nil {
			t.Fatalf("Lookup of %q: %v", p, err)
		} else {
			if f.Name() != filepath.Join(dir, p+".cache") {
				t.Fatalf("Lookup of %q opens %q", p, f.Name())
			}
			f.Close()
		}
		// what the item is not called stays
		other := filepath.Join(dir, "other")
		ioutil.WriteFile(other, nil, 0644)
		if err := st.Delete(p); err != nil {
			t.Fatalf("Delete of %q: %v", p, err)
		}
		before = append(before, filepath.Join("q", "cache", "other"))
		sort.Strings(before)
		after = vFiles(top)
		sort.Strings(after)
		if strings.Join(before, "|") != strings.Join(after, "|") {
			t.Fatalf("Delete of %q: files %q, want %q", p, after, before)
		}
		os.RemoveAll(top)
	}
}
