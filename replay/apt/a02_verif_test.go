package apt

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"testing"
)

type vLimitWriter struct {
	bytes.Buffer
	n int
}

func (w *vLimitWriter) Write(p []byte) (int, error) {
	if w.n >= 0 && w.Len()+len(p) > w.n {
		k := w.n - w.Len()
		w.Buffer.Write(p[:k])
		return k, errVerif
	}
	return w.Buffer.Write(p)
}

func TestReplayA02(t *testing.T) {
	r := vNew(2)
	check := func(fi *FileInfo, p string, data []byte) {
		m, s1, s2 := md5.Sum(data), sha1.Sum(data), sha256.Sum256(data)
		if fi.path != p || fi.size != uint64(len(data)) || !bytes.Equal(fi.md5sum, m[:]) || !bytes.Equal(fi.sha1sum, s1[:]) || !bytes.Equal(fi.sha256sum, s2[:]) {
			t.Fatalf("wrong description %+v of %d bytes as %q", fi, len(data), p)
		}
	}
	for n := 0; n < 1500; n++ {
		size := r.Intn(40)
		if n%10 == 0 {
			size = r.Intn(200000)
		}
		data := r.bytes(size)
		p := r.path()
		w := &vLimitWriter{n: -1}
		fi, err := CopyWithFileInfo(w, r.reader(data, nil), p)
		if err != nil {
			t.Fatalf("copying %d bytes: %v", size, err)
		}
		if !bytes.Equal(w.Bytes(), data) {
			t.Fatalf("%d bytes became %d", size, w.Len())
		}
		check(fi, p, data)
		w = &vLimitWriter{n: -1}
		if fi, err = CopyWithFileInfo(w, r.reader(data, errVerif), p); err == nil || fi != nil {
			t.Fatalf("read error after %d bytes: %+v %v", size, fi, err)
		}
		if size > 0 {
			w = &vLimitWriter{n: r.Intn(size)}
			if fi, err = CopyWithFileInfo(w, r.reader(data, nil), p); err == nil || fi != nil {
				t.Fatalf("write error after %d bytes: %+v %v", w.n, fi, err)
			}
		}
		x := r.info()
		q := x.path
		x.CalcChecksums(data)
		check(x, q, data)
	}
}
