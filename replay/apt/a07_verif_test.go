package apt

import (
	"fmt"
	"path"
	"strings"
	"testing"
)

func TestReplayA07(t *testing.T) {
	r := vNew(7)
	for n := 0; n < 40000; n++ {
		p := r.pick("dists/x/Release", "dists/x/InRelease", "main/i18n/Index", "Release", "/x/Release")
		m := map[string]*vListed{}
		bad := false
		var b strings.Builder
		fmt.Fprintf(&b, "Suite: x\n")
		for alg, f := range []string{"MD5Sum", "SHA1", "SHA256"} {
			if r.Intn(4) == 0 {
				continue
			}
			fmt.Fprintf(&b, "%s:\n", f)
			for i := r.Intn(5); i > 0; i-- {
				l := fmt.Sprintf(" %x %d %s", r.bytes(1+r.Intn(3)), r.Intn(50), r.pick("main/Packages", "main/Packages.gz", "./main/Packages", "Release", "InRelease", "Release.gpg", "main/Release", "../up", "/abs", "main//Sources", "x"))
				if r.Intn(150) == 0 {
					l = r.pick(" 00 1", " 00", " 00 1 a b", " 0 1 a", " zz 1 a", " 00 -1 a", " 00 1.5 a", " 00 x a", " 00 18446744073709551616 a", " . . .")
				}
				b.WriteString(l + "\n")
				q, size, sum, ok := vLine(l)
				if !ok {
					bad = true
					continue
				}
				q = path.Join(path.Dir(p), path.Clean(q))
				if m[q] == nil {
					m[q] = &vListed{}
				}
				m[q].sizes = append(m[q].sizes, size)
				m[q].sums[alg] = append(m[q].sums[alg], sum)
			}
		}
		for _, x := range []string{"Release", "Release.gpg", "InRelease"} {
			delete(m, path.Join(path.Dir(p), x))
		}
		text := b.String()
		if r.Intn(4) == 0 {
			text += "\nSecond: paragraph\nMD5Sum:\n 00 1 second\n"
		}
		if r.Intn(200) == 0 {
			text = r.pick("", "\n\n", "junk\n", " x\n")
			bad = true
		}
		l, d, err := ExtractFileInfo(p, r.reader([]byte(text), nil))
		if bad {
			if err == nil || len(l) > 0 {
				t.Fatalf("%q is extracted: %v, %v", text, l, err)
			}
			continue
		}
		if err != nil {
			t.Fatalf("%q: %v", text, err)
		}
		if d == nil {
			t.Fatalf("%q: no paragraph", text)
		}
		vCheckListed(t, text, l, m)
		cut := strings.Index(text, "\n") + 1
		if l, _, err := ExtractFileInfo(p, r.reader([]byte(text)[:cut], errVerif)); err == nil || len(l) > 0 {
			t.Fatalf("%q with a read error: %v, %v", text, l, err)
		}
	}
}
