package mirror

import (
	"math/rand"
	"os"
	"path/filepath"
	"testing"
)

// What the public name refers to, before, during and after updates that succeed or fail.
func TestReplayM01(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	dir := vDir(t)
	r := newRepo(t)
	want := r.fill(rnd, false)
	c := vConfig(t, dir, r)
	pub := filepath.Join(dir, "m")
	prev := ""
	read := func() string {
		s, err := os.Readlink(pub)
		if err != nil {
			return ""
		}
		return s
	}
	for _, how := range []string{"ok", "ok", "404", "tmp", "save", "link", "ok", "cancelled index"} {
		m := vNew(t, c)
		target := filepath.Join(m.storage.Dir(), "m")
		stop := make(chan struct{})
		seen := make(chan string, 1)
		bad := ""
		go func() {
			defer func() { seen <- bad }()
			for {
				select {
				case <-stop:
					return
				default:
				}
				s := read()
				if s == target {
					if _, err := os.Stat(filepath.Join(m.storage.Dir(), infoJSON)); err != nil && bad == "" {
						bad = "the name refers to a snapshot without its record"
					}
				}
				if s != prev && s != target && bad == "" {
					bad = "the name referred to " + s
				}
			}
		}()
		fails := true
		switch how {
		case "ok":
			fails = false
		case "404":
			r.status["dists/stable/Release"] = 404
		case "tmp":
			// left behind by a crash
			if err := os.Symlink("/nowhere", pub+".tmp"); err != nil {
				t.Fatal(err)
			}
			fails = false
		case "save":
			os.Mkdir(filepath.Join(m.storage.Dir(), infoJSON), 0755)
		case "link":
			// the temporary name cannot be removed
			os.MkdirAll(filepath.Join(pub+".tmp", "x"), 0755)
		case "cancelled index":
			r.status["dists/testing/Release.gpg"] = 206
		}
		err := vUpdate(t, m)
		close(stop)
		if b := <-seen; b != "" {
			t.Fatalf("%s: while updating, %s (before: %q, new: %q)", how, b, prev, target)
		}
		switch {
		case fails && err == nil:
			t.Fatalf("%s: the update succeeds", how)
		case fails:
			if read() != prev {
				t.Fatalf("%s: after %v the name refers to %q, not to %q", how, err, read(), prev)
			}
		case err != nil:
			t.Fatalf("%s: the update fails: %v", how, err)
		default:
			if read() != target {
				t.Fatalf("%s: the name refers to %q, not to %q", how, read(), target)
			}
			r.whole(t, dir, want)
			s, err := NewStorage(m.storage.Dir(), "m")
			if err == nil {
				err = s.Load()
			}
			if err != nil || len(s.info) == 0 {
				t.Fatalf("%s: the record of the published snapshot is not there: %v", how, err)
			}
			prev = target
		}
		r.status = map[string]int{}
		os.RemoveAll(pub + ".tmp")
	}
}
