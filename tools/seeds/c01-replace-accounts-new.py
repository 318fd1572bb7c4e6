prop='C01'; pkg='cacher'
needs='replacing a cached item by one of another size, then further operations'
breaks='when an item is replaced the size of the new file instead of the replaced one is subtracted, so the used amount no longer equals the total of the items'
edits=[('cacher/storage.go','''		cm.used -= existing.Size()
		heap.Remove(cm, existing.index)
		delete(cm.cache, p)
		if log''','''		if freed := existing.Size(); freed < fi.Size() || cm.capacity > 0 {
			cm.used -= freed
		} else {
			cm.used -= fi.Size()
		}
		heap.Remove(cm, existing.index)
		delete(cm.cache, p)
		if log''')]
demo='''package cacher

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/cybozu-go/aptutil/apt"
)

func TestSeedDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	src := filepath.Join(d, "src")
	cm := NewStorage(filepath.Join(d, "cache"), 0)
	put := func(n, data string) {
		fi := apt.MakeFileInfoNoChecksum(n, 0)
		fi.CalcChecksums([]byte(data))
		ioutil.WriteFile(src, []byte(data), 0644)
		if err := cm.Insert(src, fi); err != nil {
			t.Fatal(err)
		}
		os.Remove(src)
	}
	for _, n := range []int{5, 9, 2, 2, 7, 0, 3} {
		put("a", "0123456789"[:n])
		put("b", "01234567890123456789"[:20-n])
		var sum uint64
		for _, fi := range cm.ListAll() {
			sum += fi.Size()
		}
		if cm.used != sum {
			t.Errorf("used %d, items %d", cm.used, sum)
		}
	}
}
'''
