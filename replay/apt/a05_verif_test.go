package apt

import (
	"bytes"
	"compress/gzip"
	"encoding/hex"
	"io"
	"path"
	"strings"
	"testing"

	"github.com/ulikunitz/xz"
)

const vBz2 = "425a68393141592653590103d75c000010df8000104000ce10050248003aafca102000542550d3464c4d3098012943d26869b50369036136c63055cd128472493f226da22427b8e545563f2a48614a0e50b1633d1139307a632a342ee48a70a1200207aeb8"

func vIsMeta(p string) bool {
	b := path.Base(p)
	for _, s := range []string{".gz", ".bz2", ".xz", ".lzma", ".lz"} {
		if strings.HasSuffix(b, s) {
			b = strings.TrimSuffix(b, s)
			break
		}
	}
	switch b {
	case "Release", "Release.gpg", "InRelease", "Packages", "Sources", "Index":
		return true
	}
	return false
}

func vSupported(p string) bool {
	switch path.Ext(p) {
	case "", ".gz", ".bz2", ".xz", ".gpg":
		return true
	}
	return false
}

func TestReplayA05(t *testing.T) {
	r := vNew(5)
	data := map[string]string{
		"packages": "Package: a\nFilename: pool/a\nSize: 3\nMD5sum: 00\n\nPackage: b\nFilename: pool/b\nSize: 4\n",
		"sources":  "Package: a\nDirectory: pool\nFiles:\n 00 3 a.dsc\n 01 4 a.tar\n",
		"release":  "Suite: x\nMD5Sum:\n 00 3 main/Packages\nSHA256:\n 01 3 main/Packages\n",
	}
	kind := map[string]string{"Packages": "packages", "Sources": "sources", "Release": "release", "InRelease": "release", "Index": "release"}
	n := map[string]int{"packages": 2, "sources": 2, "release": 1}
	compress := func(ext string, d []byte) []byte {
		var b bytes.Buffer
		switch ext {
		case ".gz":
			w := gzip.NewWriter(&b)
			w.Write(d)
			w.Close()
		case ".xz":
			w, err := xz.NewWriter(&b)
			if err != nil {
				t.Fatal(err)
			}
			w.Write(d)
			w.Close()
		case ".bz2":
			x, _ := hex.DecodeString(vBz2)
			return x
		default:
			b.Write(d)
		}
		return b.Bytes()
	}
	bases := []string{"Release", "Release.gpg", "InRelease", "Packages", "Sources", "Index", "InRelease.gpg", "Release.gpg.gpg", "release", "Translation-en", "Packages.diff", "xPackages", "Packagesx", "Contents-amd64", "index", "Packages.gz", "", "."}
	exts := []string{"", ".gz", ".bz2", ".xz", ".lzma", ".lz", ".gpg", ".zst", ".Z", ".GZ", ".diff", ".gz.gz", ".xz.gz", ".gz.xz", ".lz.lzma"}
	dirs := []string{"", "main/", "dists/x.gz/", "a/Packages/", "/", "./"}
	for _, b := range bases {
		for _, x := range exts {
			for _, d := range dirs {
				p := d + b + x
				if got := IsMeta(p); got != vIsMeta(p) {
					t.Fatalf("IsMeta(%q) = %v", p, got)
				}
				if got := IsSupported(p); got != vSupported(p) {
					t.Fatalf("IsSupported(%q) = %v", p, got)
				}
				// extraction
				ext := path.Ext(path.Base(p))
				raw := path.Base(p)
				switch ext {
				case ".gz", ".bz2", ".xz":
					raw = strings.TrimSuffix(raw, ext)
				}
				k := kind[raw]
				plain := data[k]
				if ext == ".bz2" && k != "packages" {
					k = ""
				}
				body := compress(ext, []byte(plain))
				l, par, err := ExtractFileInfo(p, r.reader(body, nil))
				switch {
				case !vIsMeta(p) || !vSupported(p):
					if err == nil || l != nil {
						t.Fatalf("%q: %v, %v", p, l, err)
					}
				case k != "":
					if err != nil || len(l) != n[k] {
						t.Fatalf("%q: %d entries, %v", p, len(l), err)
					}
					if (par != nil) != (k == "release") {
						t.Fatalf("%q: paragraph %v", p, par)
					}
					for _, fi := range l {
						if fi.md5sum == nil && fi.size != 4 || k == "release" && fi.path != path.Join(path.Dir(p), "main/Packages") {
							t.Fatalf("%q: %+v", p, fi)
						}
					}
					if ext != "" {
						cut := body[:r.Intn(len(body))]
						if l, _, err := ExtractFileInfo(p, bytes.NewReader(cut)); err == nil && len(l) > 0 || err == nil && ext != ".xz" || l != nil && err != nil {
							t.Fatalf("%q truncated to %d of %d bytes: %v, %v", p, len(cut), len(body), l, err)
						}
						if _, _, err := ExtractFileInfo(p, strings.NewReader(plain)); err == nil {
							t.Fatalf("%q: uncompressed data is accepted", p)
						}
					}
					if l, _, err := ExtractFileInfo(p, io.MultiReader(bytes.NewReader(body[:len(body)/2]), r.reader(nil, errVerif))); err == nil || l != nil {
						t.Fatalf("%q: read error: %v %v", p, l, err)
					}
				}
			}
		}
	}
}
