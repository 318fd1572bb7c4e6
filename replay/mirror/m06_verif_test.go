package mirror

import (
	"context"
	"math/rand"
	"testing"
	"time"
)

// The number of requests at a time, and slots after updates that succeed, fail or are cancelled.
func TestReplayM06(t *testing.T) {
	rnd := rand.New(rand.NewSource(6))
	for _, limit := range []int{1, 2, 3, 0} {
		for _, how := range []string{"ok", "wrong by-hash", "missing", "cancelled", "gone"} {
			dir := vDir(t)
			r := newRepo(t)
			r.fill(rnd, how == "wrong by-hash")
			r.delay = 5 * time.Millisecond
			c := vConfig(t, dir, r)
			c.MaxConns = limit
			m := vNew(t, c)
			if limit == 0 && m.semaphore != nil {
				t.Fatalf("limit 0: there is a semaphore")
			}
			ctx, cancel := context.WithCancel(context.Background())
			switch how {
			case "wrong by-hash":
				r.wrong["dists/stable/main/binary-amd64/Packages"] = []byte("no")
			case "missing":
				r.status["pool/main/p1_1_amd64.deb"] = 404
			case "cancelled":
				r.hook = func(p string) {
					if p == "pool/main/p2_1_amd64.deb" {
						cancel()
					}
				}
			case "gone":
				r.status["dists/testing/Release"] = 204
			}
			var err error
			vWait(t, "Update", func() { err = m.Update(ctx) })
			if (err == nil) != (how == "ok" || how == "wrong by-hash") {
				t.Fatalf("limit %d, %s: %v", limit, how, err)
			}
			r.mu.Lock()
			most := r.most
			r.mu.Unlock()
			if limit > 0 && most > limit {
				t.Fatalf("limit %d, %s: %d requests at a time", limit, how, most)
			}
			if limit == 0 && how == "ok" && most < 2 {
				t.Fatalf("no limit: %d request at a time", most)
			}
			// all slots come back
			for i := 0; limit > 0 && len(m.semaphore) != limit; i++ {
				if i > 1000 {
					t.Fatalf("limit %d, %s: %d slots are left after the update", limit, how, len(m.semaphore))
				}
				time.Sleep(10 * time.Millisecond)
			}
			cancel()
		}
	}
	// more slots than the limit must not appear either
	dir := vDir(t)
	r := newRepo(t)
	r.fill(rnd, false)
	c := vConfig(t, dir, r)
	c.MaxConns = 2
	m := vNew(t, c)
	if cap(m.semaphore) != 2 || len(m.semaphore) != 2 {
		t.Fatalf("limit 2: %d slots", len(m.semaphore))
	}
	if err := m.acquireSemaphore(context.Background()); err != nil {
		t.Fatal(err)
	}
	if err := m.acquireSemaphore(context.Background()); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer cancel()
	if err := m.acquireSemaphore(ctx); err == nil {
		t.Fatal("limit 2: a third slot")
	}
	m.releaseSemaphore()
	m.releaseSemaphore()
	c.MaxConns = -1
	if _, err := NewMirror(vTick.Add(time.Hour), "m", c); err == nil {
		t.Fatal("a negative limit is accepted")
	}
}
