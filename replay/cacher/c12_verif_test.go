package cacher

import (
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"crypto/sha1"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func vNew(t *testing.T, c *Config) (cc *Cacher, err error) {
	type ans struct {
		c   *Cacher
		err error
		p   interface{}
	}
	ch := make(chan ans, 1)
	go func() {
		var a ans
		defer func() { a.p = recover(); ch <- a }()
		a.c, a.err = NewCacher(c)
	}()
	select {
	case a := <-ch:
		if a.p != nil {
			t.Fatalf("NewCacher panics on %+v: %v", *c, a.p)
		}
		if (a.c == nil) == (a.err == nil) {
			t.Fatalf("NewCacher gives %v, %v", a.c, a.err)
		}
		return a.c, a.err
	case <-time.After(60 * time.Second):
		t.Fatalf("NewCacher does not return")
	}
	return
}

func TestReplayC12(t *testing.T) {
	u := vUpstream(t)
	// configurations that are refused
	cwd := vDir(t)
	os.Chdir(cwd)
	bad := map[string]func(c *Config){
		"check_interval 0":          func(c *Config) { c.CheckInterval = 0 },
		"check_interval -1":         func(c *Config) { c.CheckInterval = -1 },
		"check_interval min":        func(c *Config) { c.CheckInterval = math.MinInt64 },
		"check_interval max":        func(c *Config) { c.CheckInterval = math.MaxInt64 },
		"check_interval 9223372037": func(c *Config) { c.CheckInterval = 9223372037 },
		"max_conns -1":              func(c *Config) { c.MaxConns = -1 },
		"relative meta_dir":         func(c *Config) { c.MetaDirectory = "meta" },
		"relative cache_dir":        func(c *Config) { c.CacheDirectory = "./cache" },
		"empty meta_dir":            func(c *Config) { c.MetaDirectory = "" },
		"empty cache_dir":           func(c *Config) { c.CacheDirectory = "" },
		"same directory":            func(c *Config) { c.CacheDirectory = c.MetaDirectory },
		"same directory, slash":     func(c *Config) { c.CacheDirectory = c.MetaDirectory + "/" },
		"same directory, dots":      func(c *Config) { c.CacheDirectory = c.MetaDirectory + "/../" + filepath.Base(c.MetaDirectory) },
		"same directory, reversed":  func(c *Config) { c.MetaDirectory = c.CacheDirectory + "//." },
		"capacity 0":                func(c *Config) { c.CacheCapacity = 0 },
		"capacity -1":               func(c *Config) { c.CacheCapacity = -1 },
		"capacity max":              func(c *Config) { c.CacheCapacity = math.MaxInt64 },
		"capacity 2^34":             func(c *Config) { c.CacheCapacity = 1 << 34 },
		"scheme ftp":                func(c *Config) { c.Mapping["x"] = "ftp://h/" },
		"no scheme":                 func(c *Config) { c.Mapping["x"] = "h/path" },
		"scheme httpx":              func(c *Config) { c.Mapping["x"] = "httpx://h/" },
		"file":                      func(c *Config) { c.Mapping["x"] = "file:///etc" },
		"unparsable":                func(c *Config) { c.Mapping["x"] = "http://[::1" },
		"prefix empty":              func(c *Config) { c.Mapping[""] = u.URL },
		"prefix A":                  func(c *Config) { c.Mapping["A"] = u.URL },
		"prefix ..":                 func(c *Config) { c.Mapping[".."] = u.URL },
		"prefix space":              func(c *Config) { c.Mapping["a b"] = u.URL },
	}
	for n, f := range bad {
		c := vConfig(t, u)
		f(c)
		os.Mkdir(filepath.Join(cwd, "meta"), 0755)
		os.Mkdir(filepath.Join(cwd, "cache"), 0755)
		if _, err := vNew(t, c); err == nil {
			t.Fatalf("%s: accepted", n)
		}
	}
	good := map[string]func(c *Config){
		"smallest":      func(c *Config) { c.CheckInterval, c.CacheCapacity, c.MaxConns = 1, 1, 0 },
		"largest":       func(c *Config) { c.CheckInterval, c.CacheCapacity = 9223372036, 1<<34-1 },
		"no mapping":    func(c *Config) { c.Mapping = nil },
		"https":         func(c *Config) { c.Mapping["a-b_0"] = "https://h.example/x" },
		"period":        func(c *Config) { c.CachePeriod = 0 },
		"dirty":         func(c *Config) { c.MetaDirectory += "/../meta//"; c.CacheDirectory += "/." },
		"nested prefix": func(c *Config) { c.CacheDirectory = c.MetaDirectory + "2" },
	}
	for n, f := range good {
		c := vConfig(t, u)
		f(c)
		cc, err := vNew(t, c)
		if err != nil {
			t.Fatalf("%s: %v", n, err)
		}
		if cc.checkInterval != time.Duration(c.CheckInterval)*time.Second || cc.items.capacity != uint64(c.CacheCapacity)<<30 || cc.meta.capacity != 0 || cc.maxConns != c.MaxConns ||
			cc.meta.dir != filepath.Clean(c.MetaDirectory) || cc.items.dir != filepath.Clean(c.CacheDirectory) {
			t.Fatalf("%s: the settings are not applied: %+v", n, *c)
		}
	}

	// an earlier life
	pk := vPackages(map[string]string{"pool/a.deb": "content a", "pool/b.deb": "content b"})
	var gz bytes.Buffer
	zw := gzip.NewWriter(&gz)
	fmt.Fprint(zw, vPackages(map[string]string{"pool/z.deb": "z"}))
	zw.Close()
	rel := fmt.Sprintf("Suite: x\nMD5Sum:\n %x %d main/Packages\nSHA1:\n %x %d main/Packages\n", md5.Sum([]byte(pk)), len(pk), sha1.Sum([]byte(pk)), len(pk))
	u.body("/dists/x/Release", rel)
	u.body("/dists/x/Release.gpg", "signature")
	u.body("/dists/y/InRelease", "-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA512\n\n"+rel+"-----BEGIN PGP SIGNATURE-----\n\nabc\n-----END PGP SIGNATURE-----\n")
	u.body("/dists/x/main/Packages", pk)
	u.body("/dists/x/main/Packages.gz", gz.String())
	u.body("/flat/Sources", "Package: s\nDirectory: pool/s\nFiles:\n 00000000000000000000000000000000 3 s.dsc\n\n")
	u.body("/broken/Packages.gz", "this is not gzip")
	u.body("/broken/Packages.bz2", "nor bzip2")
	u.body("/broken/Sources", "Directory: d\nFiles:\n zz\n\n")
	u.body("/broken/Release", "Suite: x\nMD5Sum:\n zz zz\n")
	u.body("/empty/Packages", "")
	u.body("/pool/a.deb", "content a")
	conf := vConfig(t, u)
	conf.CheckInterval = 1
	old := vCacher(t, conf)
	for _, p := range []string{"up/dists/x/Release", "up/dists/x/Release.gpg", "sub/dists/y/InRelease", "up/dists/y/InRelease", "up/dists/x/main/Packages", "up/dists/x/main/Packages.gz", "up/flat/Sources",
		"up/broken/Packages.gz", "up/broken/Packages.bz2", "up/broken/Sources", "up/broken/Release", "up/empty/Packages", "up/pool/a.deb"} {
		vGet(t, old, p)
	}
	time.Sleep(200 * time.Millisecond)
	copyTo := func(c2 *Config) {
		for i, d := range []string{conf.MetaDirectory, conf.CacheDirectory} {
			to := []string{c2.MetaDirectory, c2.CacheDirectory}[i]
			for _, f := range vFiles(d) {
				if filepath.Ext(f) != ".cache" {
					continue
				}
				b, _ := ioutil.ReadFile(filepath.Join(d, f))
				q := filepath.Join(to, f)
				os.MkdirAll(filepath.Dir(q), 0755)
				ioutil.WriteFile(q, b, 0644)
			}
		}
	}
	for n, f := range map[string]func(c *Config){
		"same":          func(c *Config) {},
		"other mapping": func(c *Config) { c.Mapping = map[string]string{"other": u.URL} },
		"stray files": func(c *Config) {
			for _, d := range []string{c.MetaDirectory, c.CacheDirectory} {
				os.MkdirAll(filepath.Join(d, "x/y"), 0755)
				for _, f := range []string{"README", "x.cache", "_tmp123", "x/y/z", "x/.cache", "up/zz.cache", "Release.cache", "up/Packages.lz.cache"} {
					os.MkdirAll(filepath.Dir(filepath.Join(d, f)), 0755)
					ioutil.WriteFile(filepath.Join(d, f), []byte("stray"), 0644)
				}
			}
		},
	} {
		c2 := vConfig(t, u)
		c2.CheckInterval = 1
		copyTo(c2)
		have := map[string]bool{}
		for _, f := range vFiles(c2.MetaDirectory) {
			have[f] = true
		}
		f(c2)
		u.mu.Lock()
		u.hits = map[string]int{}
		u.mu.Unlock()
		cc, err := vNew(t, c2)
		if err != nil {
			t.Fatalf("%s: the proxy does not start: %v", n, err)
		}
		cc.fiLock.RLock()
		for p, by := range map[string]string{"up/pool/a.deb": "up/dists/x/main/Packages", "up/pool/b.deb": "up/dists/x/main/Packages", "up/pool/z.deb": "up/dists/x/main/Packages.gz",
			"up/dists/x/main/Packages": "up/dists/x/Release", "up/pool/s/s.dsc": "up/flat/Sources"} {
			if fi := cc.info[p]; have[by+".cache"] && (fi == nil || fi.Path() != p) {
				t.Fatalf("%s: %s is not known again (%v)", n, p, fi)
			}
		}
		if fi := cc.info["up/pool/a.deb"]; fi != nil && (fi.Size() != 9 || !fi.Same(vInfo("up/pool/a.deb", []byte("content a")))) {
			t.Fatalf("%s: another description of up/pool/a.deb", n)
		}
		for p := range cc.info {
			if p == "pool/a.deb" || p == "main/Packages" {
				t.Fatalf("%s: %s is known without its prefix", n, p)
			}
		}
		cc.fiLock.RUnlock()
		if n == "other mapping" {
			continue
		}
		// what is not described by another index is kept up to date
		dl := time.Now().Add(20 * time.Second)
		for _, p := range []string{"/dists/x/Release", "/dists/x/Release.gpg", "/dists/y/InRelease"} {
			if !have["up"+p+".cache"] {
				continue
			}
			u.mu.Lock()
			u.hits[p] = 0
			u.mu.Unlock()
		}
		for _, p := range []string{"/dists/x/Release", "/dists/x/Release.gpg", "/dists/y/InRelease"} {
			if !have["up"+p+".cache"] {
				continue
			}
			for u.n(p) < 3 && time.Now().Before(dl) {
				time.Sleep(20 * time.Millisecond)
			}
			if u.n(p) < 1 {
				t.Fatalf("%s: %s is not kept up to date", n, p)
			}
		}
	}
}
