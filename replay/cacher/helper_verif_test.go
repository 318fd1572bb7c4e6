package cacher

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/cybozu-go/aptutil/apt"
	"github.com/cybozu-go/log"
)

func init() { log.DefaultLogger().SetOutput(ioutil.Discard) }

func vDir(t *testing.T) string {
	d, err := ioutil.TempDir("", "v")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return d
}

func vData(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func vInfo(p string, data []byte) *apt.FileInfo {
	fi, err := apt.CopyWithFileInfo(ioutil.Discard, strings.NewReader(string(data)), p)
	if err != nil {
		panic(err)
	}
	return fi
}

// ---- a storage next to a model of it

type vItem struct {
	fi    *apt.FileInfo
	data  []byte
	clock int
}

type vStore struct {
	t     *testing.T
	r     *rand.Rand
	dir   string
	cap   uint64
	st    *Storage
	items map[string]*vItem
	clock int
	hist  []string
	known map[string]*apt.FileInfo
}

func (v *vStore) fail(f string, a ...interface{}) {
	h := v.hist
	if len(h) > 60 {
		h = h[len(h)-60:]
	}
	v.t.Fatalf("capacity %d: %s\nhistory: %s", v.cap, fmt.Sprintf(f, a...), strings.Join(h, "; "))
}

func (v *vStore) used() (u uint64) {
	for _, i := range v.items {
		u += uint64(len(i.data))
	}
	return
}

// evict applies the eviction rule to the model.
func (v *vStore) evict() {
	for v.cap > 0 && v.used() > v.cap {
		old := ""
		for p, i := range v.items {
			if old == "" || i.clock < v.items[old].clock {
				old = p
			}
		}
		v.hist = append(v.hist, "(evicts "+old+")")
		delete(v.items, old)
	}
}

// check compares the storage with the model.
func (v *vStore) check() {
	listed := map[string]bool{}
	var sum uint64
	for _, fi := range v.st.ListAll() {
		p := fi.Path()
		if listed[p] {
			v.fail("%q is listed twice", p)
		}
		listed[p] = true
		i := v.items[p]
		if i == nil {
			v.fail("%q is listed and should not be", p)
		}
		if fi.Size() != uint64(len(i.data)) {
			v.fail("%q is listed with size %d, not %d", p, fi.Size(), len(i.data))
		}
		sum += fi.Size()
	}
	for p := range v.items {
		if !listed[p] {
			v.fail("%q is not listed", p)
		}
	}
	if v.st.used != sum {
		v.fail("%d bytes are accounted as used, the items listed have %d", v.st.used, sum)
	}
	if v.cap > 0 && v.st.used > v.cap {
		v.fail("%d bytes are used", v.st.used)
	}
	// files on disk
	files := map[string]bool{}
	filepath.Walk(v.dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() && strings.HasSuffix(p, ".cache") {
			q, _ := filepath.Rel(v.dir, p)
			files[strings.TrimSuffix(q, ".cache")] = true
		}
		return nil
	})
	for p := range files {
		if v.items[p] == nil {
			v.fail("a file is left for %q", p)
		}
	}
	for p := range v.items {
		if !files[p] {
			v.fail("no file for %q", p)
		}
	}
}

var vPaths = []string{"a", "b", "c/d", "c/e", "d/e/f", "x.cache", "c", "g", "h", "i"}

func (v *vStore) insert(p string, data []byte) {
	fi := vInfo(p, data)
	v.insertFI(p, data, fi)
}

func (v *vStore) insertFI(p string, data []byte, fi *apt.FileInfo) {
	v.hist = append(v.hist, fmt.Sprintf("insert %s %d", p, len(data)))
	f, err := v.st.TempFile()
	if err != nil {
		v.fail("TempFile: %v", err)
	}
	f.Write(data)
	f.Close()
	err = v.st.Insert(f.Name(), fi)
	os.Remove(f.Name())
	if err != nil {
		v.fail("Insert: %v", err)
	}
	v.items[p] = &vItem{fi: fi, data: data, clock: v.clock}
	v.clock++
	v.evict()
}

func (v *vStore) lookup(p string, fi *apt.FileInfo) {
	v.hist = append(v.hist, "lookup "+p)
	i := v.items[p]
	want := i != nil && fi.Same(vInfo(p, i.data))
	f, err := v.st.Lookup(fi)
	if !want {
		if err != ErrNotFound || f != nil {
			v.fail("Lookup of %q gives %v, %v: it should not be found", p, f, err)
		}
		return
	}
	if err != nil || f == nil {
		v.fail("Lookup of %q gives %v, %v", p, f, err)
	}
	b, err := ioutil.ReadAll(f)
	f.Close()
	if err != nil || string(b) != string(i.data) {
		v.fail("Lookup of %q gives other contents (%v)", p, err)
	}
	i.clock = v.clock
	v.clock++
}

func (v *vStore) del(p string) {
	v.hist = append(v.hist, "delete "+p)
	if err := v.st.Delete(p); err != nil {
		v.fail("Delete: %v", err)
	}
	delete(v.items, p)
}

// reload opens the directory again: the order of files is that of their names.
func (v *vStore) reload() {
	v.hist = append(v.hist, "reload")
	v.st = NewStorage(v.dir, v.cap)
	if err := v.st.Load(); err != nil {
		v.fail("Load: %v", err)
	}
	var ps []string
	filepath.Walk(v.dir, func(p string, info os.FileInfo, err error) error {
		q, _ := filepath.Rel(v.dir, p)
		if strings.HasSuffix(q, ".cache") && info.Mode().IsRegular() {
			ps = append(ps, strings.TrimSuffix(q, ".cache"))
		}
		return nil
	})
	v.clock = 0
	_ = ps
}

// vHistory runs a random history of operations against the model.
func vHistory(t *testing.T, seed int64, steps int) {
	r := rand.New(rand.NewSource(seed))
	v := &vStore{t: t, r: r, dir: vDir(t), items: map[string]*vItem{}}
	v.cap = []uint64{0, 10, 25, 60, 100}[r.Intn(5)]
	v.st = NewStorage(v.dir, v.cap)
	if err := v.st.Load(); err != nil {
		t.Fatal(err)
	}
	np := 3 + r.Intn(len(vPaths)-3)
	for k := 0; k < steps; k++ {
		p := vPaths[r.Intn(np)]
		switch x := r.Intn(20); {
		case x < 8:
			n := r.Intn(20)
			if r.Intn(30) == 0 {
				n = 120
			}
			v.insert(p, vData(r, n))
		case x < 14:
			var fi *apt.FileInfo
			i := v.items[p]
			switch {
			case i == nil:
				fi = vInfo(p, vData(r, 3))
			case r.Intn(4) == 0:
				fi = vInfo(p, vData(r, len(i.data)))
			case r.Intn(4) == 0:
				fi = apt.MakeFileInfoNoChecksum(p, uint64(len(i.data)))
			case r.Intn(6) == 0:
				fi = apt.MakeFileInfoNoChecksum(p, uint64(len(i.data)+1))
			default:
				fi = vInfo(p, i.data)
			}
			v.lookup(p, fi)
		case x < 17:
			v.del(p)
		case x < 18:
			// a cache file disappears, then its item is replaced or deleted
			if v.items[p] != nil {
				v.hist = append(v.hist, "lose "+p)
				os.Remove(filepath.Join(v.dir, p+".cache"))
				if r.Intn(2) == 0 {
					v.insert(p, vData(r, r.Intn(20)))
				} else {
					v.del(p)
				}
			}
		case x < 19:
			if r.Intn(4) == 0 {
				// loading again what is there already
				v.hist = append(v.hist, "load again")
				if err := v.st.Load(); err != nil {
					v.fail("Load: %v", err)
				}
			}
		default:
			if r.Intn(4) == 0 {
				v.reload()
				// the order of what is found by loading is that of the walk
				var ps []string
				filepath.Walk(v.dir, func(p string, info os.FileInfo, err error) error {
					q, _ := filepath.Rel(v.dir, p)
					if strings.HasSuffix(q, ".cache") && info.Mode().IsRegular() {
						ps = append(ps, strings.TrimSuffix(q, ".cache"))
					}
					return nil
				})
				for n, p := range ps {
					v.items[p].clock = n
				}
				v.clock = len(ps)
			}
		}
		v.check()
	}
}

// ---- an upstream server

type vUp struct {
	*httptest.Server
	mu    sync.Mutex
	hits  map[string]int
	cur   int
	max   int
	h     map[string]http.HandlerFunc
	def   http.HandlerFunc
	total int
}

func vUpstream(t *testing.T) *vUp {
	u := &vUp{hits: map[string]int{}, h: map[string]http.HandlerFunc{}}
	u.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		u.mu.Lock()
		u.hits[r.URL.Path]++
		u.total++
		u.cur++
		if u.cur > u.max {
			u.max = u.cur
		}
		h := u.h[r.URL.Path]
		if h == nil {
			h = u.def
		}
		u.mu.Unlock()
		defer func() {
			u.mu.Lock()
			u.cur--
			u.mu.Unlock()
		}()
		if h == nil {
			http.NotFound(w, r)
			return
		}
		h(w, r)
	}))
	return u
}

func (u *vUp) set(p string, h http.HandlerFunc) {
	u.mu.Lock()
	u.h[p] = h
	u.mu.Unlock()
}

func (u *vUp) body(p string, b string) {
	u.set(p, func(w http.ResponseWriter, r *http.Request) { w.Write([]byte(b)) })
}

func (u *vUp) status(p string, code int) {
	u.set(p, func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(code)
		w.Write([]byte("failed"))
	})
}

// short promises more than it sends.
func (u *vUp) short(p, b string) {
	u.set(p, func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", fmt.Sprint(len(b)))
		w.Write([]byte(b[:len(b)/2]))
		if f, ok := w.(http.Flusher); ok {
			f.Flush()
		}
		panic(http.ErrAbortHandler)
	})
}

func (u *vUp) n(p string) int {
	u.mu.Lock()
	defer u.mu.Unlock()
	return u.hits[p]
}

func vConfig(t *testing.T, u *vUp) *Config {
	d := vDir(t)
	c := NewConfig()
	c.MetaDirectory = filepath.Join(d, "meta")
	c.CacheDirectory = filepath.Join(d, "cache")
	c.CachePeriod = 3600
	c.CheckInterval = 36000
	c.Mapping = map[string]string{"up": u.URL, "sub": u.URL + "/base"}
	return c
}

func vCacher(t *testing.T, c *Config) *Cacher {
	cc, err := NewCacher(c)
	if err != nil {
		t.Fatal(err)
	}
	return cc
}

// vGet calls Get and reads the file; it must answer.
func vGet(t *testing.T, c *Cacher, p string) (int, string, bool) {
	type ans struct {
		st  int
		b   string
		has bool
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		st, f, err := c.Get(p)
		a := ans{st: st, err: err, has: f != nil}
		if f != nil {
			b, _ := ioutil.ReadAll(f)
			a.b = string(b)
			f.Close()
		}
		ch <- a
	}()
	select {
	case a := <-ch:
		if (a.st == 200) != a.has {
			t.Fatalf("Get(%q) gives status %d, file %v, error %v", p, a.st, a.has, a.err)
		}
		return a.st, a.b, a.has
	case <-time.After(60 * time.Second):
		t.Fatalf("Get(%q) does not answer", p)
	}
	return 0, "", false
}

func vWait(t *testing.T, ch <-chan struct{}, what string) {
	select {
	case <-ch:
	case <-time.After(60 * time.Second):
		t.Fatalf("%s: the download does not end", what)
	}
}

// vPackages is a Packages file that lists the items.
func vPackages(items map[string]string) string {
	var b strings.Builder
	for p, d := range items {
		fmt.Fprintf(&b, "Package: x\nFilename: %s\nSize: %d\nMD5sum: %x\nSHA1: %x\nSHA256: %x\n\n", p, len(d), md5.Sum([]byte(d)), sha1.Sum([]byte(d)), sha256.Sum256([]byte(d)))
	}
	return b.String()
}

// vFiles lists files below a directory.
func vFiles(d string) []string {
	var l []string
	filepath.Walk(d, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			q, _ := filepath.Rel(d, p)
			l = append(l, q)
		}
		return nil
	})
	return l
}
