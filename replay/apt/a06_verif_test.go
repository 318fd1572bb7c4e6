package apt

import (
	"io"
	"strings"
	"testing"
)

// vParas is an independent reading of a control file: paragraphs, and whether an invalid line ends it.
func vParas(text string) (out []map[string][]string, bad bool) {
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	for i := range lines {
		lines[i] = strings.TrimSuffix(lines[i], "\r")
	}
	cur := map[string][]string{}
	last, pgp := "", false
	flush := func() {
		if len(cur) > 0 {
			out = append(out, cur)
			cur = map[string][]string{}
		}
		last = ""
	}
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		switch {
		case l == "":
			flush()
		case l[0] == '#':
		case l == "-----BEGIN PGP SIGNED MESSAGE-----":
			pgp = true
			for i++; i < len(lines) && lines[i] != ""; i++ {
			}
		case pgp && l == "-----BEGIN PGP SIGNATURE-----":
			i = len(lines)
		case l[0] == ' ' || l[0] == '\t':
			if last == "" {
				return out, true
			}
			cur[last] = append(cur[last], strings.Trim(l, " \t"))
		default:
			k := strings.IndexByte(l, ':')
			if k < 0 {
				return out, true
			}
			last = l[:k]
			if v := strings.Trim(l[k+1:], " \t"); v != "" {
				cur[last] = append(cur[last], v)
			}
		}
	}
	flush()
	return out, false
}

func vSamePara(a Paragraph, b map[string][]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || len(v) != len(w) || len(v) == 0 {
			return false
		}
		for i := range v {
			if v[i] != w[i] {
				return false
			}
		}
	}
	return true
}

func TestReplayA06(t *testing.T) {
	r := vNew(6)
	for n := 0; n < 40000; n++ {
		var b strings.Builder
		k := r.Intn(14)
		for i := 0; i < k; i++ {
			b.WriteString(r.pick("A: 1", "A: 2", "B:x: y", "C:", "C:  ", "Multi:", " one 1", "\ttwo", " 00 12 file ", "", "", "", "# comment", "-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA512\n", "Long-Name: v \t", "D: z\r"))
			if r.Intn(40) == 0 {
				b.WriteString("\n" + r.pick("no colon", " continued", "-----BEGIN PGP SIGNATURE-----\njunk\nmore", ": empty", "-----BEGIN PGP SIGNATURE-----", " .", "\t"))
			}
			b.WriteString("\n")
		}
		text := b.String()
		if r.Intn(5) == 0 {
			text = strings.TrimSuffix(text, "\n")
		}
		want, bad := vParas(text)
		// a value line of nothing but blanks appends an empty string in this format
		var rerr error
		if r.Intn(6) == 0 {
			rerr = errVerif
		}
		p := NewParser(r.reader([]byte(text), rerr))
		var got []Paragraph
		var err error
		for len(got) < 100 {
			var d Paragraph
			d, err = p.Read()
			if err != nil {
				if d != nil {
					t.Fatalf("%q: paragraph %v with error %v", text, d, err)
				}
				break
			}
			got = append(got, d)
		}
		if len(got) > len(want) {
			t.Fatalf("%q: paragraphs %q, want %q", text, got, want)
		}
		for i := range got {
			if !vSamePara(got[i], want[i]) {
				t.Fatalf("%q: paragraph %d is %q, want %q", text, i, got[i], want[i])
			}
		}
		switch {
		case rerr == nil && !bad:
			if err != io.EOF || len(got) != len(want) {
				t.Fatalf("%q: %d paragraphs and %v, want %d", text, len(got), err, len(want))
			}
		case err == nil || err == io.EOF && !strings.Contains(text, "SIGNATURE"):
			t.Fatalf("%q: ends with %v", text, err)
		case rerr == nil && bad && len(got) != len(want):
			t.Fatalf("%q: %d paragraphs before the error, want %d", text, len(got), len(want))
		}
		for i := 0; i < 3; i++ {
			d, err2 := p.Read()
			if err2 == nil || d != nil || (err == io.EOF) != (err2 == io.EOF) {
				t.Fatalf("%q: after %v: %v %v", text, err, d, err2)
			}
		}
	}
	if _, err := NewParser(strings.NewReader("A: " + strings.Repeat("x", 2<<20) + "\n\nB: 1\n")).Read(); err == nil || err == io.EOF {
		t.Fatalf("a line of 2 MiB: %v", err)
	}
}
