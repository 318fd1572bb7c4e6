package apt

import (
	"bytes"
	"encoding/hex"
	"errors"
	"io"
	"math/rand"
	"strconv"
	"strings"
	"testing"
)

type vRand struct{ *rand.Rand }

func vNew(seed int64) vRand { return vRand{rand.New(rand.NewSource(seed))} }

func (r vRand) bytes(n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func (r vRand) pick(l ...string) string { return l[r.Intn(len(l))] }

// sum is a checksum, often one of few so that equal ones are met.
func (r vRand) sum(n int) []byte {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return bytes.Repeat([]byte{0}, n)
	case 2:
		b := bytes.Repeat([]byte{0}, n)
		b[n-1] = 1
		return b
	case 3:
		b := bytes.Repeat([]byte{0}, n)
		b[0] = 1
		return b
	}
	return r.bytes(n)
}

func (r vRand) path() string {
	return r.pick("a", "b", "a/b", "dists/x/main/binary-amd64/Packages.gz", "./a", "/a", "../a", "a/../b", "a//b/", "", ".", "dists/é/Ünïcode", "pool/\"q\"/<x>&y", "x y")
}

func (r vRand) info() *FileInfo {
	return &FileInfo{path: r.path(), size: uint64(r.Intn(3)), md5sum: r.sum(16), sha1sum: r.sum(20), sha256sum: r.sum(32)}
}

func vClone(fi *FileInfo) *FileInfo {
	c := *fi
	cp := func(b []byte) []byte {
		if b == nil {
			return nil
		}
		return append([]byte{}, b...)
	}
	c.md5sum, c.sha1sum, c.sha256sum = cp(fi.md5sum), cp(fi.sha1sum), cp(fi.sha256sum)
	return &c
}

func vEqual(a, b *FileInfo) bool {
	eq := func(x, y []byte) bool { return (x == nil) == (y == nil) && bytes.Equal(x, y) }
	return a.path == b.path && a.size == b.size && eq(a.md5sum, b.md5sum) && eq(a.sha1sum, b.sha1sum) && eq(a.sha256sum, b.sha256sum)
}

var errVerif = errors.New("injected read error")

// vReader gives data in pieces and ends with err.
type vReader struct {
	r    vRand
	data []byte
	err  error
	fast bool
}

func (v *vReader) Read(p []byte) (int, error) {
	if len(v.data) == 0 {
		return 0, v.err
	}
	n := len(v.data)
	if !v.fast {
		n = 1 + v.r.Intn(7)
		if v.r.Intn(4) == 0 {
			n = 1 + v.r.Intn(5000)
		}
	}
	if n > len(v.data) {
		n = len(v.data)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, v.data[:n])
	v.data = v.data[n:]
	if len(v.data) == 0 && v.r.Intn(2) == 0 {
		return n, v.err
	}
	return n, nil
}

func (r vRand) reader(data []byte, err error) io.Reader {
	if err == nil {
		err = io.EOF
	}
	return &vReader{r: r, data: data, err: err}
}

type vListed struct {
	sums  [3][][]byte
	sizes []uint64
}

// vLine reads a checksum line.
func vLine(l string) (p string, size uint64, sum []byte, ok bool) {
	f := strings.Fields(l)
	if len(f) != 3 {
		return
	}
	sum, err := hex.DecodeString(f[0])
	if err != nil {
		return
	}
	size, err = strconv.ParseUint(f[1], 10, 64)
	return f[2], size, sum, err == nil
}

func vIn(l [][]byte, b []byte) bool {
	if len(l) == 0 {
		return b == nil
	}
	for _, x := range l {
		if bytes.Equal(x, b) {
			return true
		}
	}
	return false
}

// vCheckListed compares extracted descriptions with what was listed.
func vCheckListed(t *testing.T, text string, l []*FileInfo, m map[string]*vListed) {
	seen := map[string]bool{}
	for _, fi := range l {
		w := m[fi.path]
		if w == nil || seen[fi.path] {
			t.Fatalf("%q: unexpected %+v", text, fi)
		}
		seen[fi.path] = true
		if !vIn(w.sums[0], fi.md5sum) || !vIn(w.sums[1], fi.sha1sum) || !vIn(w.sums[2], fi.sha256sum) {
			t.Fatalf("%q: checksums of %+v are not those listed (%+v)", text, fi, w)
		}
		ok := false
		for _, s := range w.sizes {
			ok = ok || s == fi.size
		}
		if !ok {
			t.Fatalf("%q: size of %+v is not listed (%+v)", text, fi, w)
		}
	}
	for p := range m {
		if !seen[p] {
			t.Fatalf("%q: %q is not extracted", text, p)
		}
	}
}

