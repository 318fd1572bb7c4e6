package mirror

import (
	"bytes"
	"context"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/cybozu-go/aptutil/apt"
	"github.com/cybozu-go/log"
)

func init() { log.DefaultLogger().SetOutput(ioutil.Discard) }

func vDir(t *testing.T) string {
	d, err := ioutil.TempDir("", "v")
	if err != nil {
		t.Fatal(err)
	}
	d, err = filepath.EvalSymlinks(d)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return d
}

func vInfo(p string, data []byte) *apt.FileInfo {
	fi, err := apt.CopyWithFileInfo(ioutil.Discard, bytes.NewReader(data), p)
	if err != nil {
		panic(err)
	}
	return fi
}

// vWait runs f, which must end in time.
func vWait(t *testing.T, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatalf("%s does not end", what)
	}
}

// ---- a repository served over loopback

type vRepo struct {
	mu     sync.Mutex
	files  map[string][]byte
	status map[string]int    // instead of 200
	short  map[string]int    // the connection is closed this many times in the middle of the body
	wrong  map[string][]byte // served instead of the contents
	gets   map[string]int
	hook   func(p string)
	delay  time.Duration
	now    int
	most   int
	srv    *httptest.Server
}

func newRepo(t *testing.T) *vRepo {
	r := &vRepo{files: map[string][]byte{}, status: map[string]int{}, short: map[string]int{}, wrong: map[string][]byte{}, gets: map[string]int{}}
	r.srv = httptest.NewServer(r)
	t.Cleanup(func() { r.srv.CloseClientConnections(); r.srv.Close() })
	return r
}

func (r *vRepo) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	p := strings.TrimPrefix(req.URL.Path, "/debian/")
	r.mu.Lock()
	r.gets[p]++
	r.now++
	if r.now > r.most {
		r.most = r.now
	}
	b, ok := r.files[p]
	if x, y := r.wrong[p]; y {
		b, ok = x, true
	}
	st := r.status[p]
	cut := r.short[p] > 0
	if cut {
		r.short[p]--
	}
	hook := r.hook
	r.mu.Unlock()
	defer func() {
		r.mu.Lock()
		r.now--
		r.mu.Unlock()
	}()
	if hook != nil {
		hook(p)
	}
	if r.delay > 0 {
		time.Sleep(r.delay)
	}
	switch {
	case st != 0:
		w.WriteHeader(st)
		w.Write([]byte("some other answer"))
	case !ok:
		w.WriteHeader(404)
	case cut:
		w.Header().Set("Content-Length", fmt.Sprint(len(b)+10))
		w.Write(b)
	default:
		w.Write(b)
	}
}

func vSums(p string, b []byte) (string, string, string) {
	return fmt.Sprintf(" %x %d %s\n", md5.Sum(b), len(b), p), fmt.Sprintf(" %x %d %s\n", sha1.Sum(b), len(b), p), fmt.Sprintf(" %x %d %s\n", sha256.Sum256(b), len(b), p)
}

// release makes a Release file for the files given below dir.
func (r *vRepo) release(dir string, names []string, byhash bool) []byte {
	var m, s, x string
	for _, n := range names {
		a, b, c := vSums(n, r.files[path.Join(dir, n)])
		m, s, x = m+a, s+b, x+c
	}
	h := ""
	if byhash {
		h = "Acquire-By-Hash: yes\n"
	}
	return []byte("Origin: v\nSuite: v\n" + h + "MD5Sum:\n" + m + "SHA1:\n" + s + "SHA256:\n" + x)
}

func vPackages(r *vRepo, names []string) []byte {
	var b bytes.Buffer
	for _, n := range names {
		d := r.files[n]
		fmt.Fprintf(&b, "Package: %s\nVersion: 1\nFilename: %s\nSize: %d\nMD5sum: %x\nSHA1: %x\nSHA256: %x\nDescription: x\n y\n\n", path.Base(n), n, len(d), md5.Sum(d), sha1.Sum(d), sha256.Sum256(d))
	}
	return b.Bytes()
}

func vSources(r *vRepo, dir string, names []string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "Package: src\nDirectory: %s\nFiles:\n", dir)
	for _, n := range names {
		d := r.files[path.Join(dir, n)]
		fmt.Fprintf(&b, " %x %d %s\n", md5.Sum(d), len(d), n)
	}
	fmt.Fprintf(&b, "Checksums-Sha256:\n")
	for _, n := range names {
		d := r.files[path.Join(dir, n)]
		fmt.Fprintf(&b, " %x %d %s\n", sha256.Sum256(d), len(d), n)
	}
	return b.Bytes()
}

// fill makes a repository with two suites; want is what a mirror of it needs.
func (r *vRepo) fill(rnd *rand.Rand, byhash bool) (want []string) {
	var l1, l2, src []string
	for i := 0; i < 6; i++ {
		n := fmt.Sprintf("pool/main/p%d_1_amd64.deb", i)
		b := make([]byte, 200+rnd.Intn(4000))
		rnd.Read(b)
		r.files[n] = b
		if i < 4 {
			l1 = append(l1, n)
		}
		if i >= 2 {
			l2 = append(l2, n)
		}
		want = append(want, n)
	}
	for i := 0; i < 3; i++ {
		n := fmt.Sprintf("s_%d.tar.gz", i)
		b := make([]byte, 100+rnd.Intn(1000))
		rnd.Read(b)
		r.files["pool/src/"+n] = b
		src = append(src, n)
		want = append(want, "pool/src/"+n)
	}
	for s, l := range map[string][]string{"stable": l1, "testing": l2} {
		d := "dists/" + s
		r.files[d+"/main/binary-amd64/Packages"] = vPackages(r, l)
		r.files[d+"/main/binary-i386/Packages"] = []byte("Package: other\nFilename: pool/other.deb\nSize: 3\nMD5sum: " + strings.Repeat("0", 32) + "\n\n")
		r.files[d+"/main/source/Sources"] = vSources(r, "pool/src", src)
		r.files[d+"/main/i18n/Translation-en"] = []byte("en " + s)
		names := []string{"main/binary-amd64/Packages", "main/binary-i386/Packages", "main/source/Sources", "main/i18n/Translation-en"}
		for _, n := range names {
			want = append(want, path.Join(d, n))
			if byhash {
				b := r.files[path.Join(d, n)]
				e := path.Join(d, path.Dir(n), "by-hash")
				for _, h := range []string{fmt.Sprintf("MD5Sum/%x", md5.Sum(b)), fmt.Sprintf("SHA1/%x", sha1.Sum(b)), fmt.Sprintf("SHA256/%x", sha256.Sum256(b))} {
					want = append(want, path.Join(e, h))
					r.files[path.Join(e, h)] = b
				}
			}
		}
		r.files[d+"/Release"] = r.release(d, names, byhash)
		r.files[d+"/Release.gpg"] = []byte("signature")
		want = append(want, d+"/Release", d+"/Release.gpg")
	}
	sort.Strings(want)
	return want
}

func vConfig(t *testing.T, dir string, r *vRepo) *Config {
	u, err := url.Parse(r.srv.URL + "/debian/")
	if err != nil {
		t.Fatal(err)
	}
	c := NewConfig()
	c.Dir = dir
	c.Mirrors = map[string]*MirrConfig{"m": {
		URL: tomlURL{u}, Suites: []string{"stable", "testing"}, Sections: []string{"main"}, Source: true, Architectures: []string{"amd64"},
	}}
	return c
}

var vTick = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

func vNew(t *testing.T, c *Config) *Mirror {
	vTick = vTick.Add(time.Minute)
	m, err := NewMirror(vTick, "m", c)
	if err != nil {
		t.Fatalf("NewMirror: %v", err)
	}
	return m
}

func vUpdate(t *testing.T, m *Mirror) (err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	vWait(t, "Update", func() { err = m.Update(ctx) })
	return err
}

// whole checks the published snapshot.
func (r *vRepo) whole(t *testing.T, dir string, want []string) {
	for _, p := range want {
		b, err := ioutil.ReadFile(filepath.Join(dir, "m", p))
		if err != nil {
			t.Fatalf("the update succeeded without %s: %v", p, err)
		}
		if !bytes.Equal(b, r.files[p]) {
			t.Fatalf("the update succeeded with other contents for %s", p)
		}
	}
}

// temps lists temporary files left in snapshots.
func vTemps(dir string) (l []string) {
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && strings.HasPrefix(filepath.Base(p), "_tmp") {
			l = append(l, p)
		}
		return nil
	})
	return
}

func vCtx() context.Context { return context.Background() }

func vDir0(t *testing.T, k int) string {
	d := filepath.Join(os.TempDir(), fmt.Sprintf("d%d_%d", os.Getpid(), k))
	if err := os.Mkdir(d, 0755); err != nil {
		t.Fatal(err)
	}
	return d
}
