package cacher

import (
	"net/http"
	"path/filepath"
	"testing"
	"time"

	"github.com/cybozu-go/aptutil/apt"
)

func TestReplayC05(t *testing.T) {
	u := vUpstream(t)
	cf := vConfig(t, u)
	c := vCacher(t, cf)
	stored := func(p string) bool {
		for _, d := range []string{cf.CacheDirectory, cf.MetaDirectory} {
			for _, f := range vFiles(d) {
				if f == p+".cache" {
					return true
				}
			}
		}
		return false
	}
	get := func(p string, want int, body string) {
		t.Helper()
		st, b, _ := vGet(t, c, p)
		if want == 200 && (st != 200 || b != body) || want != 200 && st == 200 {
			t.Fatalf("Get(%q) gives %d %q", p, st, b)
		}
		if stored(p) != (want == 200) {
			t.Fatalf("Get(%q) gives %d, stored is %v", p, st, stored(p))
		}
	}
	// unknown items are stored as they come, if complete
	u.body("/x.deb", "anything")
	u.body("/empty.deb", "")
	u.short("/short.deb", "0123456789012345678901234567890123456789")
	u.status("/created.deb", 201)
	u.status("/partial.deb", 206)
	get("up/x.deb", 200, "anything")
	get("up/empty.deb", 200, "")
	get("up/short.deb", 0, "")
	get("up/created.deb", 0, "")
	get("up/partial.deb", 0, "")
	// a stored index makes its descriptions known, under its own prefix
	items := map[string]string{"pool/a.deb": "aaaa", "pool/b.deb": "bbbb", "pool/c.deb": "cccc", "pool/d.deb": "dddd", "pool/e.deb": "eeee"}
	pkgs := vPackages(items)
	u.body("/dists/x/main/Packages", pkgs)
	u.body("/base/pool/a.deb", "of another repository")
	u.body("/pool/a.deb", "aaaa")
	u.body("/pool/b.deb", "bbbB")
	u.body("/pool/c.deb", "ccccc")
	u.short("/pool/d.deb", "dddd")
	u.status("/pool/e.deb", 404)
	get("up/dists/x/main/Packages", 200, pkgs)
	get("sub/pool/a.deb", 200, "of another repository")
	get("up/pool/a.deb", 200, "aaaa")
	get("up/pool/b.deb", 0, "")
	get("up/pool/c.deb", 0, "")
	get("up/pool/d.deb", 0, "")
	get("up/pool/e.deb", 0, "")
	// also when they arrive by an unclean path or a compressed index
	u.body("/base/main/Sources", "Package: s\nDirectory: pool\nFiles:\n 00000000000000000000000000000000 3 s.dsc\n")
	u.body("/base/pool/s.dsc", "abc")
	get("sub/main/Sources", 200, "Package: s\nDirectory: pool\nFiles:\n 00000000000000000000000000000000 3 s.dsc\n")
	get("sub/pool/s.dsc", 0, "")
	// broken indices are stored and make nothing known
	u.body("/dists/y/main/Packages", "Package: a\n")
	get("up/dists/y/main/Packages", 200, "Package: a\n")
	// a newer index replaces what is known: the cached file is not served any more
	items["pool/a.deb"] = "AAAA2"
	pkgs2 := vPackages(items)
	u.body("/dists/x/main/Packages", pkgs2)
	vWait(t, c.Download("up/dists/x/main/Packages", nil), "Packages")
	u.body("/pool/a.deb", "AAAA2")
	if st, b, _ := vGet(t, c, "up/pool/a.deb"); st != 200 || b != "AAAA2" {
		t.Fatalf("after the index changed, Get gives %d %q", st, b)
	}
	// a download validated against an outdated description
	old := vInfo("up/pool/f.deb", []byte("old"))
	gate, in := make(chan struct{}), make(chan struct{}, 10)
	u.set("/pool/f.deb", func(w http.ResponseWriter, r *http.Request) { in <- struct{}{}; <-gate; w.Write([]byte("old")) })
	ch := c.Download("up/pool/f.deb", old)
	select {
	case <-in:
	case <-time.After(60 * time.Second):
		t.Fatal("no request is made")
	}
	u.body("/dists/z/main/Packages", vPackages(map[string]string{"pool/f.deb": "newer"}))
	if st, _, _ := vGet(t, c, "up/dists/z/main/Packages"); st != 200 {
		t.Fatalf("Packages: %d", st)
	}
	close(gate)
	vWait(t, ch, "an outdated item")
	if stored("up/pool/f.deb") {
		t.Fatal("a download validated against an outdated description is stored")
	}
	c.fiLock.RLock()
	fi := c.info["up/pool/f.deb"]
	c.fiLock.RUnlock()
	if fi == nil || fi.Size() != 5 {
		t.Fatalf("the description known is %+v", fi)
	}
	// a validated download that is not outdated is stored, one that is invalid is not
	u.body("/pool/g.deb", "gggg")
	vWait(t, c.Download("up/pool/g.deb", vInfo("up/pool/g.deb", []byte("GGGG"))), "g")
	if stored("up/pool/g.deb") {
		t.Fatal("an invalid download is stored")
	}
	vWait(t, c.Download("up/pool/g.deb", apt.MakeFileInfoNoChecksum("up/pool/g.deb", 5)), "g")
	if stored("up/pool/g.deb") {
		t.Fatal("a download of the wrong size is stored")
	}
	vWait(t, c.Download("up/pool/g.deb", vInfo("up/pool/g.deb", []byte("gggg"))), "g")
	if !stored("up/pool/g.deb") {
		t.Fatal("a valid download is not stored")
	}
	// no temporary files stay
	for _, d := range []string{cf.CacheDirectory, cf.MetaDirectory} {
		for _, f := range vFiles(d) {
			if filepath.Ext(f) != ".cache" {
				t.Fatalf("%s stays in %s", f, d)
			}
		}
	}
}
