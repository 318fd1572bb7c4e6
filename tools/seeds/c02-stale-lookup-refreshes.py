prop='C02'; pkg='cacher'
needs='a lookup with an outdated description (right path, other checksum) followed by an insert that evicts'
breaks='a lookup that finds no matching item makes the item under that path the most recently used, so a newer item is evicted'
edits=[('cacher/storage.go','''	if !fi.Same(e.FileInfo) {
		// checksum mismatch
		return nil, ErrNotFound
	}

	e.atime = cm.lclock
	cm.lclock++
	heap.Fix(cm, e.index)
''','''	e.atime = cm.lclock
	cm.lclock++
	heap.Fix(cm, e.index)

	if !fi.Same(e.FileInfo) {
		// checksum mismatch
		return nil, ErrNotFound
	}

''')]
demo='''package cacher

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/cybozu-go/aptutil/apt"
)

func TestSeedDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	src := filepath.Join(d, "src")
	cm := NewStorage(filepath.Join(d, "cache"), 2)
	desc := func(n, data string) *apt.FileInfo {
		fi := apt.MakeFileInfoNoChecksum(n, 0)
		fi.CalcChecksums([]byte(data))
		return fi
	}
	mk := func(n string) *apt.FileInfo {
		ioutil.WriteFile(src, []byte(n), 0644)
		fi := desc(n, n)
		if err := cm.Insert(src, fi); err != nil {
			t.Fatal(err)
		}
		return fi
	}
	a := mk("a")
	b := mk("b")
	if _, err := cm.Lookup(desc("a", "z")); err != ErrNotFound {
		t.Fatal("mismatch was found", err)
	}
	mk("c")
	if f, err := cm.Lookup(b); err != nil {
		t.Error("b was evicted although a is older:", err)
	} else {
		f.Close()
	}
	if _, err := cm.Lookup(a); err == nil {
		t.Error("a is still there")
	}
}
'''
