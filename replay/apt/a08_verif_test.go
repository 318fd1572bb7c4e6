package apt

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"path"
	"strconv"
	"strings"
	"testing"
)

func TestReplayA08(t *testing.T) {
	r := vNew(8)
	hexs := func() string {
		if r.Intn(150) == 0 {
			return r.pick("0", "xyz", "0g", "00 00")
		}
		return hex.EncodeToString(r.bytes(1 + r.Intn(4)))
	}
	for n := 0; n < 15000; n++ {
		var b strings.Builder
		var want []*FileInfo
		bad := false
		for i := r.Intn(5); i > 0; i-- {
			fi := &FileInfo{}
			fmt.Fprintf(&b, "Package: p%d\n", i)
			if r.Intn(100) > 0 {
				f := r.pick("pool/a", "./pool/a", "pool//b", "../c", "pool/x y")
				fmt.Fprintf(&b, "Filename: %s\n", f)
				fi.path = path.Clean(f)
			} else {
				bad = true
			}
			if r.Intn(100) > 0 {
				s := strconv.Itoa(r.Intn(1000))
				if r.Intn(100) == 0 {
					s = r.pick("-1", "x", "1.0", "18446744073709551616", "1 2")
				}
				v, err := strconv.ParseUint(s, 10, 64)
				bad = bad || err != nil
				fi.size = v
				fmt.Fprintf(&b, "Size: %s\n", s)
			} else {
				bad = true
			}
			for k, f := range []string{"MD5sum", "SHA1", "SHA256"} {
				if r.Intn(3) == 0 {
					continue
				}
				h := hexs()
				v, err := hex.DecodeString(h)
				bad = bad || err != nil
				fmt.Fprintf(&b, "%s: %s\n", f, h)
				*[]*[]byte{&fi.md5sum, &fi.sha1sum, &fi.sha256sum}[k] = v
			}
			fmt.Fprintf(&b, "Description: d\n .\n more\n\n")
			want = append(want, fi)
		}
		text := b.String()
		if r.Intn(100) == 0 {
			text += "junk\n"
			bad = true
		}
		l, _, err := ExtractFileInfo("main/Packages", r.reader([]byte(text), nil))
		if bad {
			if err == nil || len(l) > 0 {
				t.Fatalf("%q is extracted: %v, %v", text, l, err)
			}
		} else {
			if err != nil || len(l) != len(want) {
				t.Fatalf("%q: %d entries, %v", text, len(l), err)
			}
			for i := range l {
				a, w := l[i], want[i]
				if a.path != w.path || a.size != w.size || !bytes.Equal(a.md5sum, w.md5sum) || !bytes.Equal(a.sha1sum, w.sha1sum) || !bytes.Equal(a.sha256sum, w.sha256sum) || (a.md5sum == nil) != (w.md5sum == nil) || (a.sha1sum == nil) != (w.sha1sum == nil) || (a.sha256sum == nil) != (w.sha256sum == nil) {
					t.Fatalf("%q: entry %d is %+v, want %+v", text, i, a, w)
				}
			}
		}
		if l, _, err := ExtractFileInfo("main/Packages", r.reader([]byte(text), errVerif)); err == nil || len(l) > 0 {
			t.Fatalf("%q with a read error: %v, %v", text, l, err)
		}
	}
	for n := 0; n < 15000; n++ {
		var b strings.Builder
		bad := false
		type para struct {
			m map[string]*vListed
		}
		var paras []para
		total := 0
		for i := r.Intn(4); i > 0; i-- {
			m := map[string]*vListed{}
			dir := r.pick("pool/main", "./pool", "pool//x", "../y")
			fmt.Fprintf(&b, "Package: p%d\n", i)
			if r.Intn(60) > 0 {
				fmt.Fprintf(&b, "Directory: %s\n", dir)
			} else {
				bad = true
			}
			for alg, f := range []string{"Files", "Checksums-Sha1", "Checksums-Sha256"} {
				if r.Intn(5) == 0 {
					continue
				}
				fmt.Fprintf(&b, "%s:\n", f)
				for k := r.Intn(4); k > 0; k-- {
					l := fmt.Sprintf(" %s %d %s", hex.EncodeToString(r.bytes(1+r.Intn(3))), r.Intn(50), r.pick("a.dsc", "a.tar.gz", "b.dsc", "./a.dsc", "s/c", fmt.Sprintf("p%d", i)))
					if r.Intn(200) == 0 {
						l = r.pick(" 00 1", " 00 1 a b", " 0 1 a", " zz 1 a", " 00 -1 a", " 00 x a")
					}
					b.WriteString(l + "\n")
					q, size, sum, ok := vLine(l)
					if !ok {
						bad = true
						continue
					}
					q = path.Clean(path.Join(dir, q))
					if m[q] == nil {
						m[q] = &vListed{}
						total++
					}
					m[q].sizes = append(m[q].sizes, size)
					m[q].sums[alg] = append(m[q].sums[alg], sum)
				}
			}
			b.WriteString("\n")
			paras = append(paras, para{m})
		}
		text := b.String()
		l, _, err := ExtractFileInfo("main/Sources", r.reader([]byte(text), nil))
		if bad {
			if err == nil || len(l) > 0 {
				t.Fatalf("%q is extracted: %v, %v", text, l, err)
			}
			continue
		}
		if err != nil || len(l) != total {
			t.Fatalf("%q: %d entries, want %d: %v", text, len(l), total, err)
		}
		for _, p := range paras {
			vCheckListed(t, text, l[:len(p.m)], p.m)
			l = l[len(p.m):]
		}
		if l, _, err := ExtractFileInfo("main/Sources", r.reader([]byte(text), errVerif)); err == nil || len(l) > 0 {
			t.Fatalf("%q with a read error: %v, %v", text, l, err)
		}
	}
}
