package mirror

import (
	"context"
	"math/rand"
	"testing"
	"time"
)

// Each piece of an update failing in turn.
func TestReplayM03(t *testing.T) {
	rnd := rand.New(rand.NewSource(3))
	try := func(byhash bool, how string, fails bool, prep func(r *vRepo, c *Config), skip map[string]bool) {
		dir := vDir(t)
		r := newRepo(t)
		want := r.fill(rnd, byhash)
		c := vConfig(t, dir, r)
		if prep != nil {
			prep(r, c)
		}
		for round := 0; round < 2; round++ {
			m := vNew(t, c)
			err := vUpdate(t, m)
			if fails && err == nil {
				t.Fatalf("by-hash %v, %s: update %d succeeds", byhash, how, round)
			}
			if !fails {
				if err != nil {
					t.Fatalf("by-hash %v, %s: update %d fails: %v", byhash, how, round, err)
				}
				var l []string
				for _, p := range want {
					if !skip[p] {
						l = append(l, p)
					}
				}
				r.whole(t, dir, l)
				got, e := NewStorage(m.storage.Dir(), "m")
				if e == nil {
					e = got.Load()
				}
				if e != nil {
					t.Fatal(e)
				}
				for _, p := range l {
					if _, ok := got.info[p]; !ok {
						t.Fatalf("by-hash %v, %s: %s is not in the record of the snapshot", byhash, how, p)
					}
				}
			}
		}
	}
	for _, byhash := range []bool{false, true} {
		try(byhash, "everything there", false, nil, nil)
		for _, p := range []string{"pool/main/p0_1_amd64.deb", "pool/main/p5_1_amd64.deb", "pool/src/s_1.tar.gz"} {
			p := p
			try(byhash, p+" missing", true, func(r *vRepo, c *Config) { r.status[p] = 404 }, nil)
			try(byhash, p+" refused", true, func(r *vRepo, c *Config) { r.status[p] = 403 }, nil)
		}
		for _, s := range []string{"stable", "testing"} {
			d := "dists/" + s
			try(byhash, "no Release of "+s, true, func(r *vRepo, c *Config) { delete(r.files, d+"/Release") }, nil)
			try(byhash, "only InRelease of "+s, false, func(r *vRepo, c *Config) {
				r.files[d+"/InRelease"] = append([]byte("-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA1\n\n"), append(append([]byte(nil), r.files[d+"/Release"]...), []byte("-----BEGIN PGP SIGNATURE-----\n\nabc\n-----END PGP SIGNATURE-----\n")...)...)
				delete(r.files, d+"/Release")
			}, map[string]bool{d + "/Release": true})
			try(byhash, "refused index of "+s, true, func(r *vRepo, c *Config) { r.status[d+"/main/source/Sources"] = 403 }, nil)
			try(byhash, "unreadable Packages of "+s, true, func(r *vRepo, c *Config) {
				p := d + "/main/binary-amd64/Packages"
				r.files[p] = []byte("Package: x\nFilename: pool/x\nSize: many\n\n")
				r.files[d+"/Release"] = r.release(d, []string{"main/binary-amd64/Packages"}, false)
			}, nil)
			try(byhash, "index without its selected entries of "+s, true, func(r *vRepo, c *Config) {
				c.Mirrors["m"].Suites = append(c.Mirrors["m"].Suites, "none")
			}, nil)
		}
		if !byhash {
			try(byhash, "index missing", false, func(r *vRepo, c *Config) {
				r.status["dists/stable/main/i18n/Translation-en"] = 404
			}, map[string]bool{"dists/stable/main/i18n/Translation-en": true})
			try(byhash, "inconsistent checksum", true, func(r *vRepo, c *Config) {
				p := "dists/stable/main/binary-amd64/Packages"
				b := r.files[p]
				r.files[p] = append(append([]byte(nil), b...), '\n')
				r.files["dists/stable/InRelease"] = r.release("dists/stable", []string{"main/binary-amd64/Packages"}, false)
				r.files[p] = b
			}, nil)
		}
		if byhash {
			break
		}
		skip := map[string]bool{"dists/stable/main/source/Sources": true, "dists/testing/main/source/Sources": true}
		for i := 0; i < 3; i++ {
			skip["pool/src/s_"+string(rune('0'+i))+".tar.gz"] = true
		}
		try(byhash, "no sources", false, func(r *vRepo, c *Config) { c.Mirrors["m"].Source = false }, skip)
	}
	// cancelled
	for _, at := range []int{0, 3, 9, 16} {
		dir := vDir(t)
		r := newRepo(t)
		r.fill(rnd, false)
		m := vNew(t, vConfig(t, dir, r))
		ctx, cancel := context.WithCancel(context.Background())
		n := 0
		r.hook = func(p string) {
			r.mu.Lock()
			n++
			k := n
			r.mu.Unlock()
			if k > at {
				cancel()
				time.Sleep(50 * time.Millisecond)
			}
		}
		var err error
		vWait(t, "Update", func() { err = m.Update(ctx) })
		if err == nil {
			t.Fatalf("an update cancelled at request %d succeeds", at)
		}
		cancel()
	}
}
