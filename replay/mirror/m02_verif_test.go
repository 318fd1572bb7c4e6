package mirror

import (
	"bytes"
	"context"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"testing"
)

// Wrong, short and missing answers for files with a known description.
func TestReplayM02(t *testing.T) {
	rnd := rand.New(rand.NewSource(2))
	deb := "pool/main/p1_1_amd64.deb"
	idx := "dists/stable/main/binary-amd64/Packages"
	other := func(b []byte) []byte {
		c := append([]byte(nil), b...)
		c[rnd.Intn(len(c))] ^= 1
		return c
	}
	for _, byhash := range []bool{false, true} {
		for _, how := range []string{"", "item wrong", "item longer", "item empty", "item status", "index wrong", "index status", "cut once", "release wrong index"} {
			dir := vDir(t)
			r := newRepo(t)
			want := r.fill(rnd, byhash)
			c := vConfig(t, dir, r)
			fails := true
			switch how {
			case "":
				fails = false
			case "item wrong":
				r.wrong[deb] = other(r.files[deb])
			case "item longer":
				r.wrong[deb] = append(append([]byte(nil), r.files[deb]...), 'x')
			case "item empty":
				r.wrong[deb] = []byte{}
			case "item status":
				r.status[deb] = 206
			case "index wrong":
				r.wrong[idx] = other(r.files[idx])
				fails = !byhash
			case "index status":
				r.status[idx] = 403
			case "cut once":
				r.short[deb] = 1
				fails = false
			case "release wrong index":
				r.wrong[idx] = []byte{}
				fails = !byhash
			}
			m := vNew(t, c)
			err := vUpdate(t, m)
			// nothing that does not match is there, whatever the outcome
			for _, p := range want {
				b, e := ioutil.ReadFile(filepath.Join(m.storage.Dir(), "m", p))
				if e == nil && !bytes.Equal(b, r.files[p]) {
					t.Fatalf("by-hash %v, %s: stored %d bytes for %s that do not match its description", byhash, how, len(b), p)
				}
			}
			if (err != nil) != fails {
				t.Fatalf("by-hash %v, %s: the update gives %v", byhash, how, err)
			}
			if err != nil {
				continue
			}
			r.whole(t, dir, want)
			// a record that does not match is not reused
			b := append(other(r.files[deb]), 'z')
			r.files[deb] = b
			old := r.files["dists/stable/main/binary-amd64/Packages"]
			_ = old
			var l1, l2 []string
			for i := 0; i < 6; i++ {
				n := "pool/main/p" + string(rune('0'+i)) + "_1_amd64.deb"
				if i < 4 {
					l1 = append(l1, n)
				}
				if i >= 2 {
					l2 = append(l2, n)
				}
			}
			names := []string{"main/binary-amd64/Packages", "main/binary-i386/Packages", "main/source/Sources", "main/i18n/Translation-en"}
			for s, l := range map[string][]string{"stable": l1, "testing": l2} {
				r.files["dists/"+s+"/main/binary-amd64/Packages"] = vPackages(r, l)
				r.files["dists/"+s+"/Release"] = r.release("dists/"+s, names, false)
			}
			r.wrong, r.short, r.status = map[string][]byte{}, map[string]int{}, map[string]int{}
			r.gets = map[string]int{}
			m = vNew(t, c)
			if err := vUpdate(t, m); err != nil {
				t.Fatalf("second update: %v", err)
			}
			g, e := ioutil.ReadFile(filepath.Join(dir, "m", deb))
			if e != nil || !bytes.Equal(g, b) {
				t.Fatalf("second update: the file that has changed is not the new one (%v)", e)
			}
		}
	}
	// one download, whose description differs in one part only
	for k := 0; k < 4; k++ {
		dir := vDir(t)
		r := newRepo(t)
		r.fill(rnd, false)
		m := vNew(t, vConfig(t, dir, r))
		good := r.files[deb]
		fi := vInfo(deb, good)
		if k > 0 {
			fi = vInfo(deb, other(good))
		}
		ch := make(chan *dlResult, 1)
		m.acquireSemaphore(context.Background())
		vWait(t, "download", func() { m.download(context.Background(), deb, fi, k == 2, ch) })
		x := <-ch
		got, err := m.handleResult(x, k == 3, false)
		_, e := os.Stat(filepath.Join(m.storage.Dir(), "m", deb))
		if k == 0 && (err != nil || got == nil || e != nil) {
			t.Fatalf("a matching file is not stored: %v", err)
		}
		if k > 0 && (err == nil || e == nil) {
			t.Fatalf("a file whose checksum differs is stored (%v, %v)", err, e)
		}
	}
}
