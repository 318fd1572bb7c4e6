package apt

import (
	"bytes"
	"testing"
)

func TestReplayA01(t *testing.T) {
	r := vNew(1)
	for n := 0; n < 60000; n++ {
		a, b := r.info(), r.info()
		if r.Intn(3) > 0 {
			b = vClone(a)
			switch r.Intn(8) {
			case 0:
				b.path += "x"
			case 1:
				b.size++
			case 2:
				b.md5sum = r.sum(16)
			case 3:
				b.sha1sum = r.sum(20)
			case 4:
				b.sha256sum = r.sum(32)
			case 5:
				a.md5sum = r.sum(16)
				a.sha1sum = r.sum(20)
				a.sha256sum = r.sum(32)
			case 6:
				b = a
			}
		}
		ok := func(x, y []byte) bool { return x == nil || bytes.Equal(x, y) }
		want := a.path == b.path && a.size == b.size && ok(a.md5sum, b.md5sum) && ok(a.sha1sum, b.sha1sum) && ok(a.sha256sum, b.sha256sum)
		ca, cb := vClone(a), vClone(b)
		if got := a.Same(b); got != want {
			t.Fatalf("%+v Same %+v = %v", a, b, got)
		}
		if !vEqual(a, ca) || !vEqual(b, cb) {
			t.Fatalf("Same changed a description: %+v %+v", ca, cb)
		}
	}
}
