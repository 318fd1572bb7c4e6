package cacher

import (
	"fmt"
	"net/http"
	"sync"
	"testing"
	"time"
)

func TestReplayC08(t *testing.T) {
	u := vUpstream(t)
	cf := vConfig(t, u)
	cf.MaxConns = 0
	c := vCacher(t, cf)
	// one download at a time: later requests join it
	for k := 0; k < 20; k++ {
		p := fmt.Sprintf("/join%d", k)
		gate, in := make(chan struct{}), make(chan struct{}, 100)
		fail := k%2 == 1
		u.set(p, func(w http.ResponseWriter, r *http.Request) {
			in <- struct{}{}
			<-gate
			if fail {
				w.WriteHeader(404)
				return
			}
			w.Write([]byte("x"))
		})
		ch := c.Download("up"+p, nil)
		select {
		case <-in:
		case <-time.After(60 * time.Second):
			t.Fatal("no request is made")
		}
		var wg sync.WaitGroup
		for i := 0; i < 10; i++ {
			wg.Add(2)
			go func() {
				defer wg.Done()
				st, f, _ := c.Get("up" + p)
				if f != nil {
					f.Close()
				}
				if (st == 200) == fail {
					t.Errorf("a request that waited gets %d", st)
				}
			}()
			go func() {
				defer wg.Done()
				<-c.Download("up"+p, nil)
			}()
		}
		time.Sleep(20 * time.Millisecond)
		if n := u.n(p); n != 1 {
			t.Fatalf("%d downloads of one path run at a time", n)
		}
		select {
		case <-ch:
			t.Fatal("waiters are released before the download ended")
		default:
		}
		close(gate)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		vWait(t, done, "requests that joined a download")
		vWait(t, ch, "the first request")
	}
	// when waiters are released, the result is recorded and the path is free
	u.status("/gone", 404)
	u.body("/there", "x")
	u.set("/abort", func(w http.ResponseWriter, r *http.Request) { panic(http.ErrAbortHandler) })
	u.short("/short", "0123456789")
	for k := 0; k < 400; k++ {
		p := []string{"gone", "there", "abort", "short"}[k%4]
		ch := c.Download("up/"+p, nil)
		if ch == nil {
			t.Fatal("no download is started")
		}
		n := u.n("/" + p)
		vWait(t, ch, p)
		c.dlLock.RLock()
		st, ok := c.results["up/"+p]
		ch2, busy := c.dlChannels["up/"+p]
		c.dlLock.RUnlock()
		if !ok || (st == 200) != (p == "there") {
			t.Fatalf("waiters for %s are released with the result %d (%v)", p, st, ok)
		}
		if busy {
			t.Fatalf("waiters for %s are released while the path is not free (%v)", p, ch2)
		}
		_ = n
	}
	if c.Download("nope/x", nil) != nil {
		t.Fatal("a download of an unregistered prefix")
	}
	// bad temp directory: the download ends all the same
	cf2 := vConfig(t, u)
	c2 := vCacher(t, cf2)
	c2.items.dir = "/nonexistent/verif"
	vWait(t, c2.Download("up/there", nil), "a download without a temporary file")
	if st, _, _ := vGet(t, c2, "up/there"); st == 200 {
		t.Fatal("status 200")
	}
}
