package mirror

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// Paths leading out of the snapshot, stored directly and listed by a repository.
func TestReplayM07(t *testing.T) {
	rnd := rand.New(rand.NewSource(7))
	segs := []string{"..", ".", "", "a", "b", "m", "...", "..a", "a..", "info.json", "_tmp"}
	for k := 0; k < 2000; k++ {
		top := vDir0(t, k)
		dir := filepath.Join(top, "x", "snap")
		os.MkdirAll(dir, 0755)
		st, err := NewStorage(dir, "m")
		if err != nil {
			t.Fatal(err)
		}
		src := filepath.Join(dir, "source")
		data := []byte(fmt.Sprint(k))
		os.WriteFile(src, data, 0644)
		var l []string
		for i := 0; i <= rnd.Intn(5); i++ {
			l = append(l, segs[rnd.Intn(len(segs))])
		}
		p := strings.Join(l, "/")
		fi := vInfo(p, data)
		byhash := k%2 == 0
		if byhash {
			err = st.StoreLinkWithHash(fi, src)
		} else {
			err = st.StoreLink(fi, src)
		}
		in := filepath.Join(dir, "m") + "/"
		filepath.Walk(top, func(q string, info os.FileInfo, e error) error {
			if e == nil && info.Mode().IsRegular() && q != src && !strings.HasPrefix(q, in) {
				t.Fatalf("storing %q (by-hash %v) creates %s outside %s", p, byhash, q, in)
			}
			return nil
		})
		c := filepath.Clean(p)
		out := c == "/" || c == "." || c == ".." || strings.HasPrefix(c, "../")
		if out && err == nil {
			t.Fatalf("storing %q (by-hash %v) is not refused", p, byhash)
		}
		if !out && c != "." && err != nil && !filepath.IsAbs(c) && !byhash {
			t.Fatalf("storing %q is refused: %v", p, err)
		}
		os.RemoveAll(top)
	}
	for _, evil := range []string{"../../evil", "/../../evil", "pool/../../../evil", "../m2/evil"} {
		top := vDir(t)
		dir := filepath.Join(top, "mirror")
		os.Mkdir(dir, 0755)
		r := newRepo(t)
		r.fill(rnd, false)
		c := vConfig(t, dir, r)
		for _, p := range []string{evil, filepath.Clean(evil), filepath.Clean("/" + evil)[1:], strings.TrimPrefix(evil, "/")} {
			r.files[p] = []byte("evil")
			r.files["/"+p] = []byte("evil")
		}
		r.files["dists/stable/main/binary-amd64/Packages"] = append(vPackages(r, []string{evil}), vPackages(r, []string{"pool/main/p0_1_amd64.deb"})...)
		r.files["dists/stable/Release"] = r.release("dists/stable", []string{"main/binary-amd64/Packages"}, false)
		m := vNew(t, c)
		vUpdate(t, m)
		filepath.Walk(top, func(q string, info os.FileInfo, e error) error {
			if e == nil && info.Mode().IsRegular() && !strings.HasPrefix(q, filepath.Join(m.storage.Dir(), "m")+"/") && filepath.Base(q) != infoJSON && !strings.HasPrefix(filepath.Base(q), "_tmp") {
				t.Fatalf("an index listing %q makes the mirror create %s", evil, q)
			}
			return nil
		})
	}
}
