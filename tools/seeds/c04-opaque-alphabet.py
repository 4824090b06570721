PROPERTY="C04"
NEEDS="an opaque identifier whose base64 text contains '+' or '/'"
BREAKS="text of opaque node ids uses another alphabet than the parser: such ids do not come back"
EDITS=[("ua/nodeid.go","""	return fmt.Sprintf("ns=%d;b=%s", n.NamespaceIndex, base64.StdEncoding.EncodeToString([]byte(n.ID)))""","""	return fmt.Sprintf("ns=%d;b=%s", n.NamespaceIndex, base64.URLEncoding.EncodeToString([]byte(n.ID)))""")]
PKG="ua"
DEMO='''
package ua

import "testing"

func TestZZDemo(t *testing.T) {
	n := NewNodeIDOpaque(3, ByteString("\\xff\\xef\\xbe"))
	if got := ParseNodeID(n.String()); got != NodeID(n) {
		t.Fatalf("%v -> %q -> %v", n, n.String(), got)
	}
}
'''
