package mirror

import (
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

func vOpen(dir string) (l []string) {
	d, _ := os.ReadDir("/proc/self/fd")
	for _, e := range d {
		s, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(s, dir) {
			l = append(l, s)
		}
	}
	return
}

// Open files and temporary files after updates that succeed and results of every kind.
func TestReplayM11(t *testing.T) {
	rnd := rand.New(rand.NewSource(11))
	dir := vDir(t)
	clean := func(what string, temps bool) {
		for i := 0; ; i++ {
			l := vOpen(dir)
			if len(l) == 0 {
				break
			}
			if i > 100 {
				t.Fatalf("%s: %q are still open", what, l)
			}
			time.Sleep(20 * time.Millisecond)
		}
		if l := vTemps(dir); temps && len(l) != 0 {
			t.Fatalf("%s: %q are left", what, l)
		}
	}
	for _, byhash := range []bool{false, true} {
		r := newRepo(t)
		want := r.fill(rnd, byhash)
		c := vConfig(t, dir, r)
		for round := 0; round < 2; round++ {
			m := vNew(t, c)
			switch {
			case byhash && round == 0:
				r.wrong["dists/stable/main/binary-amd64/Packages"] = []byte("no")
			case !byhash && round == 0:
				r.short["pool/main/p2_1_amd64.deb"] = 1
			}
			if err := vUpdate(t, m); err != nil {
				t.Fatal(err)
			}
			r.whole(t, dir, want)
			clean("a successful update", true)
			st, err := NewStorage(m.storage.Dir(), "m")
			if err != nil {
				t.Fatal(err)
			}
			st.Load()
			clean("Load", true)
			ioutil.WriteFile(filepath.Join(m.storage.Dir(), infoJSON), []byte("{"), 0644)
			st.Load()
			clean("Load of a broken record", true)
			m.storage.Save()
			DirSync(m.storage.Dir())
			DirSyncTree(m.storage.Dir())
			clean("Save and syncing", true)
		}
	}
	r := newRepo(t)
	r.fill(rnd, false)
	m := vNew(t, vConfig(t, dir, r))
	deb := "pool/main/p1_1_amd64.deb"
	gpg := "dists/stable/Release.gpg"
	rel := "dists/stable/Release"
	for _, how := range []string{"ok", "again", "mismatch", "mismatch by-hash", "missing", "missing allowed", "no content", "bad path", "unreadable release", "release ok", "release again", "release missing", "release odd", "no directory"} {
		p := deb
		ch := make(chan *dlResult, 1)
		fi := vInfo(deb, r.files[deb])
		r.status = map[string]int{}
		isRel := strings.Contains(how, "release")
		switch how {
		case "mismatch", "mismatch by-hash":
			fi = vInfo(deb, []byte("other"))
			fi = vInfo("pool/main/p3_1_amd64.deb", []byte("other"))
			p = fi.Path()
		case "missing", "missing allowed":
			r.status[deb] = 404
		case "no content":
			r.status[deb] = 204
		case "bad path":
			p = "../x"
			r.files["../x"] = []byte("x")
			r.files["x"] = []byte("x")
			fi = nil
		case "unreadable release":
			p, fi = "dists/x/Release", nil
			r.files[p] = []byte("MD5Sum:\n a b c d\n")
		case "release ok", "release again":
			p, fi = rel, nil
		case "release missing":
			p, fi = gpg, nil
			r.status[gpg] = 404
		case "release odd":
			p, fi = gpg, nil
			r.status[gpg] = 206
		case "no directory":
			os.RemoveAll(m.storage.Dir())
		}
		vWait(t, "download", func() {
			m.acquireSemaphore(vCtx())
			m.download(vCtx(), p, fi, how == "mismatch by-hash", ch)
		})
		if isRel {
			b := true
			m.handleReleaseResults(ch, &b)
		} else {
			m.handleResult(<-ch, how == "missing allowed", false)
		}
		clean("a result ("+how+")", true)
	}
}
