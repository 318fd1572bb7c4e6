package cacher

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"io/ioutil"
)

type vRec struct {
	*httptest.ResponseRecorder
	heads int
}

func (r *vRec) WriteHeader(code int) {
	r.heads++
	r.ResponseRecorder.WriteHeader(code)
}

// vOpen counts the open files below a directory.
func vOpen(d string) (l []string) {
	fds, _ := ioutil.ReadDir("/proc/self/fd")
	for _, f := range fds {
		if n, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(n, d) {
			l = append(l, n)
		}
	}
	return
}

func vServe(t *testing.T, c *Cacher, method, p string, hdr map[string]string) *vRec {
	rec := &vRec{ResponseRecorder: httptest.NewRecorder()}
	r := &http.Request{Method: method, URL: &url.URL{Path: p}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "h"}
	for k, v := range hdr {
		r.Header.Set(k, v)
	}
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		cacheHandler{c}.ServeHTTP(rec, r)
	}()
	select {
	case x := <-done:
		if x != nil {
			t.Fatalf("%s %q panics: %v", method, p, x)
		}
	case <-time.After(60 * time.Second):
		t.Fatalf("%s %q is not answered", method, p)
	}
	if rec.heads > 1 {
		t.Fatalf("%s %q is answered %d times", method, p, rec.heads)
	}
	return rec
}

func TestReplayC11(t *testing.T) {
	u := vUpstream(t)
	conf := vConfig(t, u)
	c := vCacher(t, conf)
	big := strings.Repeat("0123456789", 20000)
	files := map[string]string{"/a.deb": "content of a", "/empty.deb": "", "/big.bin": big, "/x y.txt": "text", "/page.html": "<html>", "/noext": "plain", "/d/Packages": vPackages(map[string]string{"p/a.deb": "right"})}
	for p, b := range files {
		u.body(p, b)
	}
	for _, code := range []int{201, 204, 304, 400, 401, 403, 410, 418, 500, 502, 503, 599} {
		u.status(fmt.Sprintf("/s%d", code), code)
	}
	scratch := filepath.Dir(conf.CacheDirectory)
	// methods
	for _, m := range []string{"POST", "PUT", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PATCH", "", "get", "head", "FOO", "GETT"} {
		for _, p := range []string{"", "/", "/up/a.deb", "/up/nope"} {
			n := u.total
			rec := vServe(t, c, m, p, nil)
			if rec.Code != 501 || u.total != n {
				t.Fatalf("%s %q is answered with %d, %d requests", m, p, rec.Code, u.total-n)
			}
		}
	}
	// statuses passed on
	for _, m := range []string{"GET", "HEAD"} {
		for p, want := range map[string]int{"": 404, "/": 404, "//": 404, ".": 404, "..": 404, "/..": 404, "/up": 404, "/up/": 404, "up": 404, "/nope/x": 404, "/up/missing": 404, "/up/Packages.lzma": 404, "\x00": 404, "/../..": 404} {
			if rec := vServe(t, c, m, p, nil); rec.Code != want {
				t.Fatalf("%s %q is answered with %d, not %d", m, p, rec.Code, want)
			}
		}
		for _, code := range []int{201, 204, 304, 400, 401, 403, 410, 418, 500, 502, 503, 599} {
			p := fmt.Sprintf("/up/s%d", code)
			if rec := vServe(t, c, m, p, nil); rec.Code != code {
				t.Fatalf("%s %q is answered with %d, not %d", m, p, rec.Code, code)
			}
		}
	}
	// contents, through several spellings of each path
	for p, b := range files {
		for _, q := range []string{"/up" + p, "up" + p, "//up/." + p, "/x/../up" + p, "/up/zz/.." + p, "../up" + p} {
			if path.Clean("/"+q) != "/up"+p {
				t.Fatal(q)
			}
			rec := vServe(t, c, "GET", q, nil)
			if rec.Code != 200 || rec.Body.String() != b {
				t.Fatalf("GET %q gives %d and %d bytes, not %d", q, rec.Code, rec.Body.Len(), len(b))
			}
			if n := rec.Result().Header.Get("Content-Length"); n != "" && n != fmt.Sprint(len(b)) {
				t.Fatalf("GET %q has length %s", q, n)
			}
			rec = vServe(t, c, "HEAD", q, nil)
			if rec.Code != 200 || rec.Body.Len() != 0 {
				t.Fatalf("HEAD %q gives %d and a body of %d bytes", q, rec.Code, rec.Body.Len())
			}
			if n := rec.Result().Header.Get("Content-Length"); n != fmt.Sprint(len(b)) {
				t.Fatalf("HEAD %q has length %q, the file has %d", q, n, len(b))
			}
		}
	}
	// first requests by HEAD
	u.body("/h.deb", "head first")
	if rec := vServe(t, c, "HEAD", "/up/h.deb", nil); rec.Code != 200 || rec.Body.Len() != 0 || rec.Result().Header.Get("Content-Length") != "10" {
		t.Fatalf("HEAD gives %d, %d bytes, %v", rec.Code, rec.Body.Len(), rec.Result().Header)
	}
	// ranges are served by net/http
	if rec := vServe(t, c, "GET", "/up/a.deb", map[string]string{"Range": "bytes=2-4"}); rec.Code != 206 && rec.Code != 200 || rec.Code == 206 && rec.Body.String() != files["/a.deb"][2:5] {
		t.Fatalf("a range gives %d %q", rec.Code, rec.Body)
	}
	// a cache file that cannot be opened
	u.body("/e.deb", "soon gone")
	vServe(t, c, "GET", "/up/e.deb", nil)
	f := filepath.Join(conf.CacheDirectory, "up/e.deb.cache")
	os.Remove(f)
	for _, m := range []string{"GET", "HEAD"} {
		rec := vServe(t, c, m, "/up/e.deb", nil)
		if rec.Code == 200 && m == "GET" && rec.Body.String() != "soon gone" || rec.Code != 200 && rec.Code < 400 {
			t.Fatalf("%s of a lost file gives %d %q", m, rec.Code, rec.Body)
		}
	}
	// every file is closed
	dl := time.Now().Add(20 * time.Second)
	for len(vOpen(scratch)) > 0 && time.Now().Before(dl) {
		time.Sleep(20 * time.Millisecond)
	}
	if l := vOpen(scratch); len(l) > 0 {
		t.Fatalf("still open after all requests: %v", l)
	}
	// over the network: no connection is cut
	s := httptest.NewServer(cacheHandler{c})
	defer s.Close()
	for p, b := range files {
		for _, m := range []string{"GET", "HEAD"} {
			r, _ := http.NewRequest(m, s.URL+(&url.URL{Path: "/up" + p}).String(), nil)
			res, err := http.DefaultClient.Do(r)
			if err != nil {
				t.Fatalf("%s %q: %v", m, p, err)
			}
			got, err := ioutil.ReadAll(res.Body)
			res.Body.Close()
			if err != nil || res.StatusCode != 200 || m == "GET" && string(got) != b || m == "HEAD" && res.ContentLength != int64(len(b)) {
				t.Fatalf("%s %q over the network: %d, %d bytes, length %d, %v", m, p, res.StatusCode, len(got), res.ContentLength, err)
			}
		}
	}
}
