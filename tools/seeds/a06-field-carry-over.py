prop='A06'; pkg='apt'
needs='a file with a comment between paragraphs whose second paragraph starts with a continuation line'
breaks='the field of the last paragraph is remembered, so a continuation line without a field above it is accepted'
edits=[('apt/parser.go','''	p.lastField = ""
	if err := p.s.Err()''','''	if p.isPGP || len(ret) > 1 {
		p.lastField = ""
	}
	if err := p.s.Err()''')]
demo='''package apt

import (
	"io"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	for _, s := range []string{"A: 1\\n\\n cont\\nB: 2\\n", "A: 1\\nC: 2\\n\\n cont\\n"} {
		p := NewParser(strings.NewReader(s))
		if _, err := p.Read(); err != nil {
			t.Fatal(err)
		}
		if d, err := p.Read(); err == nil || err == io.EOF {
			t.Errorf("%q: accepted %v", s, d)
		}
	}
}
'''
