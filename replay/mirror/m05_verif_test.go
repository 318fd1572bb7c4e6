package mirror

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

func vLocked(dir string) bool {
	f, err := os.Open(filepath.Join(dir, lockFilename))
	if err != nil {
		return false
	}
	defer f.Close()
	fl := Flock{f}
	if fl.Lock() != nil {
		return true
	}
	fl.Unlock()
	return false
}

func vList(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil {
			l = append(l, p[len(dir):])
		}
		return nil
	})
	return strings.Join(l, " ")
}

func vFds() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range d {
		s, _ := os.Readlink("/proc/self/fd/" + e.Name())
		if strings.HasSuffix(s, "/"+lockFilename) {
			n++
		}
	}
	return n
}

// Runs while the lock is held by someone else, and a run whose requests see the lock.
// A process can only run once, so each case is a process of its own.
func TestReplayM05(t *testing.T) {
	cases := []string{"held", "held new", "ok", "ok first", "fails", "noopen", "newmirror"}
	if os.Getenv("VCASE") == "" {
		for _, c := range cases {
			cmd := exec.Command(os.Args[0], "-test.run", "^TestReplayM05$", "-test.timeout", "100s")
			cmd.Env = append(os.Environ(), "VCASE="+c)
			out, err := cmd.CombinedOutput()
			if err != nil {
				t.Fatalf("%s: %v\n%s", c, err, out)
			}
		}
		return
	}
	how := os.Getenv("VCASE")
	rnd := rand.New(rand.NewSource(5))
	dir := vDir(t)
	r := newRepo(t)
	want := r.fill(rnd, false)
	c := vConfig(t, dir, r)
	lock := filepath.Join(dir, lockFilename)
	if how != "ok first" && how != "held new" {
		os.WriteFile(lock, nil, 0644)
	}
	os.MkdirAll(filepath.Join(dir, ".m.old", "m"), 0755)
	bad := ""
	r.hook = func(p string) {
		r.mu.Lock()
		defer r.mu.Unlock()
		if !vLocked(dir) {
			bad = "the lock is not held while " + p + " is fetched"
		}
		if _, err := os.Stat(filepath.Join(dir, ".m.old")); err != nil {
			bad = "garbage is collected while " + p + " is fetched"
		}
	}
	switch how {
	case "held", "held new":
		f, err := os.OpenFile(lock, os.O_RDWR|os.O_CREATE, 0644)
		if err != nil {
			t.Fatal(err)
		}
		fl := Flock{f}
		if err := fl.Lock(); err != nil {
			t.Fatal(err)
		}
		before := vList(dir)
		vWait(t, "Run", func() { err = Run(c, nil) })
		if err == nil {
			t.Fatal("Run succeeds while another process holds the lock")
		}
		if s := vList(dir); s != before || len(r.gets) != 0 {
			t.Fatalf("Run without the lock changes %s to %s (%d requests)", before, s, len(r.gets))
		}
		if !vLocked(dir) {
			t.Fatal("the lock of another process was released")
		}
		if n := vFds(); n > 1 {
			t.Fatalf("%d descriptors of the lock file are open", n)
		}
		return
	case "noopen":
		os.Remove(lock)
		os.Symlink("loop", filepath.Join(dir, "loop"))
		os.Symlink(filepath.Join(dir, "loop"), lock)
		before := vList(dir)
		if err := Run(c, nil); err == nil {
			t.Fatal("Run succeeds without a lock file")
		}
		if s := vList(dir); s != before || len(r.gets) != 0 {
			t.Fatalf("Run without the lock changes %s to %s", before, s)
		}
		return
	}
	if how == "fails" {
		r.status["pool/main/p1_1_amd64.deb"] = 404
	}
	if how == "newmirror" {
		c.Mirrors["Bad"] = c.Mirrors["m"]
	}
	var err error
	vWait(t, "Run", func() { err = Run(c, nil) })
	if bad != "" {
		t.Fatal(bad)
	}
	if fails := how == "fails" || how == "newmirror"; (err != nil) != fails {
		t.Fatalf("Run gives %v", err)
	}
	if err == nil {
		r.whole(t, dir, want)
	}
	if vLocked(dir) {
		t.Fatal("the lock is still held after Run")
	}
	if n := vFds(); n != 0 {
		t.Fatalf("%d descriptors of the lock file are still open after Run", n)
	}
	if _, e := os.Stat(filepath.Join(dir, ".m.old")); e == nil {
		t.Fatal(fmt.Sprint("garbage is not collected after ", err))
	}
}
