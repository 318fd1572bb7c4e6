prop='C04'; pkg='cacher'
needs='an item path leading out of the cache directory that is clean'
breaks='a path whose first component is .. is accepted when it has a further parent component'
edits=[('cacher/storage.go','case filepath.IsAbs(p):','case filepath.IsAbs(p) && len(p) > 1:')]
demo='''package cacher

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/cybozu-go/aptutil/apt"
)

func TestSeedDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	src := filepath.Join(d, "src")
	ioutil.WriteFile(src, []byte("x"), 0644)
	cm := NewStorage(filepath.Join(d, "cache"), 0)
	for _, p := range []string{"/", "/a"} {
		if err := cm.Insert(src, apt.MakeFileInfoNoChecksum(p, 1)); err != ErrBadPath {
			t.Errorf("%q: %v", p, err)
		}
	}
}
'''
