package mirror

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"testing"

	"github.com/cybozu-go/aptutil/apt"
)

// Histories of a storage next to a model of it.
func TestReplayM08(t *testing.T) {
	rnd := rand.New(rand.NewSource(8))
	paths := []string{"a", "b/c", "b/d", "./e", "b//c", "dists/x/Packages", "dists/x/Release", "f/../g"}
	datas := [][]byte{[]byte(""), []byte("one"), []byte("two"), []byte("six"), []byte("three")}
	for k := 0; k < 300; k++ {
		dir := vDir(t)
		st, err := NewStorage(dir, "m")
		if err != nil {
			t.Fatal(err)
		}
		info := map[string]*apt.FileInfo{} // by recorded path
		file := map[string][]byte{}        // by place
		var hist []string
		say := func(f string, a ...interface{}) {
			t.Fatalf("after %q: %s", hist, fmt.Sprintf(f, a...))
		}
		check := func() {
			if len(st.info) != len(info) {
				say("%d descriptions are recorded instead of %d", len(st.info), len(info))
			}
			for p, fi := range info {
				if g := st.info[p]; g == nil || !g.Same(fi) || g.Path() != fi.Path() {
					say("%q is not recorded with its description", p)
				}
			}
			for p, b := range file {
				g, err := ioutil.ReadFile(filepath.Join(dir, "m", p))
				if err != nil || !bytes.Equal(g, b) {
					say("%q has contents %q (%v) instead of %q", p, g, err, b)
				}
			}
			filepath.Walk(filepath.Join(dir, "m"), func(p string, fi os.FileInfo, err error) error {
				q, _ := filepath.Rel(filepath.Join(dir, "m"), p)
				if err == nil && fi.Mode().IsRegular() {
					if _, ok := file[q]; !ok {
						say("%q should not exist", q)
					}
				}
				return nil
			})
			for _, p := range paths {
				for _, b := range datas {
					for _, byhash := range []bool{false, true} {
						fi := vInfo(p, b)
						var want *apt.FileInfo
						place := ""
						if byhash {
							if x := info[fi.SHA256Path()]; x != nil && fi.Same(x) {
								want, place = x, fi.SHA256Path()
							}
						}
						if want == nil {
							if x := info[p]; x != nil && fi.Same(x) {
								want, place = x, p
							}
						}
						g, fp := st.Lookup(fi, byhash)
						if (g == nil) != (want == nil) || g != nil && (!g.Same(want) || fp != filepath.Join(dir, "m", place)) || g == nil && fp != "" {
							say("Lookup of %q %q by-hash %v gives %v %q, not %v %q", p, b, byhash, g, fp, want, place)
						}
					}
				}
			}
		}
		n := 0
		src := func(b []byte) string {
			n++
			p := filepath.Join(dir, fmt.Sprintf("src%d", n))
			ioutil.WriteFile(p, b, 0644)
			return p
		}
		for i := 0; i < 2+rnd.Intn(8); i++ {
			p, b := paths[rnd.Intn(len(paths))], datas[rnd.Intn(len(datas))]
			fi := vInfo(p, b)
			c := filepath.Clean(p)
			switch rnd.Intn(5) {
			case 0, 1:
				hist = append(hist, fmt.Sprintf("store %s %q", p, b))
				err := st.StoreLink(fi, src(b))
				if info[p] != nil {
					if err == nil {
						say("storing again succeeds")
					}
					break
				}
				info[p] = fi
				if _, ok := file[c]; ok {
					// another spelling of a place taken
					if err == nil {
						say("replacing a link succeeds")
					}
					break
				}
				if err != nil {
					say("%v", err)
				}
				file[c] = b
			case 2, 3:
				hist = append(hist, fmt.Sprintf("store %s %q with hash", p, b))
				if err := st.StoreLinkWithHash(fi, src(b)); err != nil {
					say("%v", err)
				}
				if info[p] == nil {
					info[p] = fi
					if _, ok := file[c]; !ok {
						file[c] = b
					}
				}
				for _, q := range []string{fi.MD5SumPath(), fi.SHA1Path(), fi.SHA256Path()} {
					info[q] = fi
					if _, ok := file[filepath.Clean(q)]; !ok {
						file[filepath.Clean(q)] = b
					}
				}
			case 4:
				hist = append(hist, "save and load")
				if err := st.Save(); err != nil {
					say("Save: %v", err)
				}
				if st, err = NewStorage(dir, "m"); err != nil {
					say("%v", err)
				}
				if err := st.Load(); err != nil {
					say("Load: %v", err)
				}
			}
			check()
		}
		for p := range info {
			c := filepath.Clean(p)
			if _, ok := file[c]; !ok {
				continue
			}
			f, err := st.Open(p)
			if err != nil {
				say("Open %q: %v", p, err)
			}
			g, _ := ioutil.ReadAll(f)
			f.Close()
			if !bytes.Equal(g, file[c]) {
				say("Open %q gives %q", p, g)
			}
		}
		os.RemoveAll(dir)
	}
	if _, err := NewStorage("rel", "m"); err == nil {
		t.Fatal("a relative directory is accepted")
	}
	d := vDir(t)
	ioutil.WriteFile(filepath.Join(d, "f"), nil, 0644)
	if _, err := NewStorage(filepath.Join(d, "f"), "m"); err == nil {
		t.Fatal("a file is accepted as directory")
	}
	ioutil.WriteFile(filepath.Join(d, infoJSON), []byte(`{"a": {"Path":`), 0644)
	st, err := NewStorage(d, "m")
	if err != nil {
		t.Fatal(err)
	}
	if st.Load() == nil {
		t.Fatal("a broken record loads")
	}
}
