package apt

import (
	"encoding/json"
	"testing"
)

func TestReplayA04(t *testing.T) {
	r := vNew(4)
	for n := 0; n < 20000; n++ {
		fi := r.info()
		switch r.Intn(4) {
		case 0:
			fi.size = r.Uint64() // 64 bits
		case 1:
			fi.size = uint64(r.Int63())
		}
		c := vClone(fi)
		b, err := json.Marshal(fi)
		if err != nil {
			t.Fatalf("%+v: %v", c, err)
		}
		var got FileInfo
		if err := json.Unmarshal(b, &got); err != nil {
			t.Fatalf("%+v: %v", c, err)
		}
		if !vEqual(&got, c) {
			t.Fatalf("%+v became %+v through %s", c, got, b)
		}
		m := map[string]*FileInfo{"k": fi}
		b, err = json.Marshal(m)
		if err != nil {
			t.Fatal(err)
		}
		used := map[string]*FileInfo{}
		if err := json.Unmarshal(b, &used); err != nil || !vEqual(used["k"], c) {
			t.Fatalf("%+v became %+v in a map (%v)", c, used["k"], err)
		}
		if !vEqual(fi, c) {
			t.Fatalf("encoding changed %+v to %+v", c, fi)
		}
		bad := map[string]interface{}{"Path": "a", "Size": 1, "MD5Sum": "", "SHA1Sum": "", "SHA256Sum": ""}
		bad[r.pick("MD5Sum", "SHA1Sum", "SHA256Sum")] = r.pick("0", "zz", "00 ", "0g", "é", "abc")
		b, _ = json.Marshal(bad)
		if err := json.Unmarshal(b, &got); err == nil {
			t.Fatalf("%s is accepted", b)
		}
	}
}
