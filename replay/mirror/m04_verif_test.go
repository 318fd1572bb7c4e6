package mirror

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
)

// Garbage collection of random directories, next to what it has to keep.
func TestReplayM04(t *testing.T) {
	rnd := rand.New(rand.NewSource(4))
	for k := 0; k < 400; k++ {
		dir := vDir(t)
		out := vDir(t)
		os.MkdirAll(filepath.Join(out, "keep", "x"), 0755)
		keep := map[string]bool{}
		all := map[string]bool{}
		var desc []string
		put := func(n string) { all[n] = true }
		os.WriteFile(filepath.Join(dir, ".lock"), nil, 0644)
		put(".lock")
		keep[".lock"] = true
		names := []string{".a.1", ".a.2", "b", ".lock.old", "c.tmp", "file", "z", "lock", "..."}
		for _, n := range names {
			switch rnd.Intn(3) {
			case 0:
				os.MkdirAll(filepath.Join(dir, n, "m", "sub"), 0755)
				os.WriteFile(filepath.Join(dir, n, "m", "f"), []byte("f"), 0644)
				put(n)
			case 1:
				os.WriteFile(filepath.Join(dir, n), []byte("x"), 0644)
				put(n)
			}
		}
		dangling := false
		for i := 0; i < rnd.Intn(4); i++ {
			n := fmt.Sprintf("%c%d", "ALalz"[rnd.Intn(5)], i)
			to := names[rnd.Intn(len(names))]
			var target string
			switch rnd.Intn(8) {
			case 0:
				target = "/nonexistent/dir"
			case 1:
				target = filepath.Join(out, "keep", "x")
			case 2:
				target = filepath.Join(to, "m") // relative
			default:
				target = filepath.Join(dir, to, "m")
			}
			if os.Symlink(target, filepath.Join(dir, n)) != nil {
				continue
			}
			put(n)
			keep[n] = true
			desc = append(desc, n+" -> "+target)
			if p, err := filepath.EvalSymlinks(filepath.Join(dir, n)); err != nil {
				dangling = true
			} else {
				keep[filepath.Base(filepath.Dir(p))] = true
			}
		}
		// a directory next to the mirrors with a name like theirs
		c := &Config{Dir: dir}
		arg := dir
		if rnd.Intn(3) == 0 {
			c.Dir = dir + "/"
		}
		ctx, cancel := context.WithCancel(context.Background())
		stopped := rnd.Intn(10) == 0
		if stopped {
			cancel()
		}
		err := gc(ctx, c)
		cancel()
		left := map[string]bool{}
		des, _ := os.ReadDir(arg)
		for _, de := range des {
			left[de.Name()] = true
		}
		say := func(f string, a ...interface{}) {
			var l []string
			for n := range all {
				l = append(l, n)
			}
			sort.Strings(l)
			t.Fatalf("directory with %s and links %s: %s", strings.Join(l, " "), strings.Join(desc, ", "), fmt.Sprintf(f, a...))
		}
		for n := range all {
			if left[n] {
				continue
			}
			if keep[n] {
				say("%s was removed", n)
			}
			if dangling {
				say("%s was removed although a link cannot be resolved", n)
			}
		}
		if dangling && err == nil {
			say("no error although a link cannot be resolved")
		}
		if _, e := os.Stat(filepath.Join(out, "keep", "x")); e != nil {
			say("something outside was removed")
		}
		for n := range left {
			if err == nil && !keep[n] {
				say("%s is left after success", n)
			}
			if keep[n] && !strings.HasPrefix(n, ".lock") {
				if fi, e := os.Lstat(filepath.Join(dir, n)); e == nil && fi.IsDir() {
					if _, e := os.Stat(filepath.Join(dir, n, "m", "f")); e != nil {
						say("contents of %s were removed", n)
					}
				}
			}
		}
		if !stopped && !dangling && err != nil {
			say("fails: %v", err)
		}
		os.RemoveAll(dir)
		os.RemoveAll(out)
	}
	if gc(context.Background(), &Config{Dir: filepath.Join(vDir(t), "none")}) == nil {
		t.Fatal("a directory that cannot be read gives no error")
	}
}
