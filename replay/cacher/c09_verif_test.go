package cacher

import (
	"fmt"
	"net/http"
	"sync"
	"testing"
	"time"
)

func TestReplayC09(t *testing.T) {
	for _, max := range []int{1, 2, 5} {
		u, u2 := vUpstream(t), vUpstream(t)
		u.def = func(w http.ResponseWriter, r *http.Request) {
			time.Sleep(2 * time.Millisecond)
			switch r.URL.Path[len(r.URL.Path)-1] {
			case '0', '1':
				w.WriteHeader(404)
			case '2':
				panic(http.ErrAbortHandler)
			case '3':
				w.Header().Set("Content-Length", "10")
				w.Write([]byte("short"))
			case '4':
				w.WriteHeader(503)
			default:
				w.Write([]byte("data"))
			}
		}
		u2.def = u.def
		cf := vConfig(t, u)
		cf.MaxConns = max
		cf.Mapping["other"] = u2.URL
		c := vCacher(t, cf)
		for round := 0; round < 4; round++ {
			var wg sync.WaitGroup
			for k := 0; k < 60; k++ {
				p := fmt.Sprintf("%s/r%d/%d", []string{"up", "other"}[k%2], round, k)
				valid := vInfo(p, []byte("data"))
				if k%7 == 0 {
					valid = vInfo(p, []byte("wrong"))
				} else if k%3 == 0 {
					valid = nil
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-c.Download(p, valid)
				}()
			}
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			vWait(t, done, fmt.Sprintf("60 downloads of two hosts with %d connections each", max))
			for _, x := range []*vUp{u, u2} {
				x.mu.Lock()
				m := x.max
				x.mu.Unlock()
				if m > max {
					t.Fatalf("%d upstream requests at a time, the limit is %d", m, max)
				}
			}
		}
		// all slots are back: as many downloads as allowed run at a time
		gate, in := make(chan struct{}), make(chan struct{}, 100)
		u.def = func(w http.ResponseWriter, r *http.Request) { in <- struct{}{}; <-gate }
		var chs []<-chan struct{}
		for k := 0; k < max; k++ {
			chs = append(chs, c.Download(fmt.Sprintf("up/all/%d", k), nil))
		}
		for k := 0; k < max; k++ {
			select {
			case <-in:
			case <-time.After(60 * time.Second):
				t.Fatalf("only %d of %d slots are left", k, max)
			}
		}
		close(gate)
		for _, ch := range chs {
			vWait(t, ch, "the last downloads")
		}
	}
	// no limit
	u := vUpstream(t)
	cf := vConfig(t, u)
	cf.MaxConns = 0
	c := vCacher(t, cf)
	gate, in := make(chan struct{}), make(chan struct{}, 100)
	u.def = func(w http.ResponseWriter, r *http.Request) { in <- struct{}{}; <-gate }
	for k := 0; k < 30; k++ {
		c.Download(fmt.Sprintf("up/all/%d", k), nil)
	}
	for k := 0; k < 30; k++ {
		select {
		case <-in:
		case <-time.After(60 * time.Second):
			t.Fatalf("without a limit, only %d of 30 requests are made", k)
		}
	}
	close(gate)
}
