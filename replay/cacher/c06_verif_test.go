package cacher

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"
)

func TestReplayC06(t *testing.T) {
	u := vUpstream(t)
	c := vCacher(t, vConfig(t, u))
	// paths that are never fetched
	for _, p := range []string{"", "nope", "nope/dists/x/Release", "upp/x", "Up/x", "up/dists/x/Release.lz", "up/dists/main/Packages.lzma", "sub/Sources.lz"} {
		n := u.total
		if st, _, _ := vGet(t, c, p); st != 404 || u.total != n {
			t.Fatalf("Get(%q) gives %d with %d upstream requests", p, st, u.total-n)
		}
	}
	// statuses of the server
	for _, code := range []int{201, 204, 206, 300, 304, 400, 401, 403, 404, 410, 416, 429, 500, 502, 503, 599} {
		for _, f := range []string{"deb", "Packages", "Release"} {
			p := fmt.Sprintf("s%d/%s", code, f)
			u.status("/"+p, code)
			if st, _, _ := vGet(t, c, "up/"+p); st != code {
				t.Fatalf("upstream status %d is answered as %d", code, st)
			}
			if st, _, _ := vGet(t, c, "up/"+p); st != code {
				t.Fatalf("upstream status %d is answered as %d the second time", code, st)
			}
			if n := u.n("/" + p); n != 1 {
				t.Fatalf("%q is fetched %d times", p, n)
			}
		}
	}
	// a connection that breaks, a body that ends early
	u.set("/abort", func(w http.ResponseWriter, r *http.Request) { panic(http.ErrAbortHandler) })
	u.short("/short.deb", "0123456789")
	u.short("/short/Release", "Suite: x\nMD5Sum:\n 00 1 a\n")
	for _, p := range []string{"up/abort", "up/short.deb", "up/short/Release"} {
		if st, _, _ := vGet(t, c, p); st < 400 {
			t.Fatalf("Get(%q) gives %d", p, st)
		}
	}
	// what is stored is answered with its content
	u.body("/ok.deb", "content")
	if st, b, _ := vGet(t, c, "up/ok.deb"); st != 200 || b != "content" {
		t.Fatalf("Get gives %d %q", st, b)
	}
	u.body("/ok.deb", "other")
	if st, b, _ := vGet(t, c, "up/ok.deb"); st != 200 || b != "content" {
		t.Fatalf("Get gives %d %q after the server changed", st, b)
	}
	// a described item of the wrong content
	u.body("/main/Packages", vPackages(map[string]string{"pool/a.deb": "right", "pool/b.deb": "fine", "pool/c.deb": "wrong size"}))
	u.body("/pool/a.deb", "wrong")
	u.body("/pool/b.deb", "fine")
	u.body("/pool/c.deb", "wrong")
	if st, _, _ := vGet(t, c, "up/main/Packages"); st != 200 {
		t.Fatalf("Packages: %d", st)
	}
	for _, p := range []string{"up/pool/a.deb", "up/pool/c.deb"} {
		for k := 0; k < 2; k++ {
			if st, b, _ := vGet(t, c, p); st < 400 {
				t.Fatalf("an invalid item is answered with %d %q", st, b)
			}
		}
	}
	if st, b, _ := vGet(t, c, "up/pool/b.deb"); st != 200 || b != "fine" {
		t.Fatalf("a valid item is answered with %d %q", st, b)
	}
	// requests that wait for a failing download all get its status
	gate := make(chan struct{})
	u.set("/slow", func(w http.ResponseWriter, r *http.Request) { <-gate; w.WriteHeader(503) })
	var wg sync.WaitGroup
	res := make([]int, 20)
	for i := range res {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			st, f, _ := c.Get("up/slow")
			if f != nil {
				st = -1
			}
			res[i] = st
		}()
	}
	time.Sleep(100 * time.Millisecond)
	close(gate)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	vWait(t, done, "20 requests of a failing path")
	for _, st := range res {
		if st != 503 {
			t.Fatalf("waiting requests are answered with %v", res)
		}
	}
	// nothing but the right files was stored
	for _, d := range []string{c.items.dir, c.meta.dir} {
		for _, f := range vFiles(d) {
			switch f {
			case "up/ok.deb.cache", "up/pool/b.deb.cache", "up/main/Packages.cache":
			default:
				if filepath.Ext(f) == ".cache" {
					t.Fatalf("%s is stored in %s", f, d)
				}
			}
		}
	}
	// a stored item that is lost again
	os.Remove(filepath.Join(c.items.dir, "up/ok.deb.cache"))
	st, f, err := c.Get("up/ok.deb")
	if st == 200 && f == nil || st != 200 && f != nil {
		t.Fatalf("a lost file is answered with %d, %v, %v", st, f, err)
	}
	if f != nil {
		f.Close()
	}
}
