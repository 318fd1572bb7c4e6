prop='C03'; pkg='cacher'
needs='the removal of a cached file fails with an error other than not-exist'
breaks='Delete drops the record of an item whose file could not be removed, leaving the file behind unaccounted'
edits=[('cacher/storage.go','''	err := os.Remove(filepath.Join(cm.dir, e.FilePath()))
	if err != nil {
		if !os.IsNotExist(err) {
			return err
		}
		log.Warn("cached file was already''','''	err := os.Remove(filepath.Join(cm.dir, e.FilePath()))
	if err != nil {
		if !os.IsNotExist(err) {
			cm.used -= e.Size()
			heap.Remove(cm, e.index)
			delete(cm.cache, p)
			return err
		}
		log.Warn("cached file was already''')]
demo='''package cacher

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/cybozu-go/aptutil/apt"
)

func TestSeedDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	src := filepath.Join(d, "src")
	cm := NewStorage(filepath.Join(d, "cache"), 0)
	fi := apt.MakeFileInfoNoChecksum("a", 0)
	fi.CalcChecksums([]byte("data"))
	ioutil.WriteFile(src, []byte("data"), 0644)
	if err := cm.Insert(src, fi); err != nil {
		t.Fatal(err)
	}
	// make the removal fail: a non-empty directory stands where the file is expected
	p := filepath.Join(d, "cache", "a.cache")
	os.Remove(p)
	os.Mkdir(p, 0755)
	ioutil.WriteFile(filepath.Join(p, "x"), nil, 0644)
	if err := cm.Delete("a"); err == nil {
		t.Fatal("removal should fail")
	}
	if len(cm.ListAll()) != 1 {
		t.Error("the record of an item that was not deleted is gone")
	}
}
'''
