prop='A01'; pkg='apt'
needs='an expected checksum compared with a description that lacks it, all other checksums agreeing'
breaks='a recorded SHA-256 is not compared when the actual description has none but agrees on MD5'
edits=[('apt/fileinfo.go','if fi.sha256sum != nil && bytes.Compare','if fi.sha256sum != nil && (t.sha256sum != nil || t.md5sum == nil) && bytes.Compare')]
demo='''package apt

import "testing"

func TestSeedDemo(t *testing.T) {
	a := &FileInfo{path: "a", size: 1, md5sum: []byte{1}, sha256sum: []byte{2}}
	b := &FileInfo{path: "a", size: 1, md5sum: []byte{1}}
	if a.Same(b) {
		t.Error("accepted a description without the expected SHA-256")
	}
}
'''
