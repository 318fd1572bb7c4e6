package apt

import (
	"fmt"
	"path"
	"testing"
)

func TestReplayA03(t *testing.T) {
	r := vNew(3)
	for n := 0; n < 30000; n++ {
		fi := r.info()
		c := vClone(fi)
		want := func(alg string, sum []byte) string {
			if sum == nil {
				return ""
			}
			return path.Join(path.Dir(c.path), "by-hash", alg, fmt.Sprintf("%x", sum))
		}
		if got := fi.MD5SumPath(); got != want("MD5Sum", c.md5sum) {
			t.Fatalf("%+v MD5SumPath %q", c, got)
		}
		if got := fi.SHA1Path(); got != want("SHA1", c.sha1sum) {
			t.Fatalf("%+v SHA1Path %q", c, got)
		}
		if got := fi.SHA256Path(); got != want("SHA256", c.sha256sum) {
			t.Fatalf("%+v SHA256Path %q", c, got)
		}
		pre := r.pick("ubuntu", "a/b", "./x", "a//b/", "", "..", "/x")
		fi2 := fi.AddPrefix(pre)
		w := vClone(c)
		w.path = path.Join(path.Clean(pre), c.path)
		if !vEqual(fi2, w) || fi2 == fi {
			t.Fatalf("%+v AddPrefix %q = %+v", c, pre, fi2)
		}
		if !vEqual(fi, c) || fi.Path() != c.path || fi.Size() != c.size {
			t.Fatalf("%+v changed to %+v", c, fi)
		}
	}
}
