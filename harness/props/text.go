package props

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"

	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
	"pgregory.net/rapid"
)

var textOpts = gen.Opts{MaxDepth: 1, MaxLen: 5, LongStr: true}

// specText writes an identifier in the standard text form (Part 6, 5.3.1.10), independently of the code.
func specText(n ua.NodeID) string {
	ns := func(i uint16) string {
		if i == 0 {
			return ""
		}
		return fmt.Sprintf("ns=%d;", i)
	}
	switch x := n.(type) {
	case ua.NodeIDNumeric:
		return ns(x.NamespaceIndex) + fmt.Sprintf("i=%d", x.ID)
	case ua.NodeIDString:
		return ns(x.NamespaceIndex) + "s=" + x.ID
	case ua.NodeIDGUID:
		h := hex.EncodeToString(x.ID[:])
		return ns(x.NamespaceIndex) + "g=" + h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
	case ua.NodeIDOpaque:
		return ns(x.NamespaceIndex) + "b=" + base64.StdEncoding.EncodeToString([]byte(x.ID))
	}
	return "i=0"
}

func str(v any) string { return v.(fmt.Stringer).String() }

func nilNum(n ua.NodeID) bool {
	x, ok := n.(ua.NodeIDNumeric)
	return n == nil || ok && x == ua.NodeIDNumeric{}
}

func textNodeID(c *kit.C) {
	n := gen.NodeID(c.T, textOpts, false, "n")
	if n == nil {
		return
	}
	s := str(n)
	if s != specText(n) {
		c.Failf("%#v formats as %q, the standard form is %q", n, s, specText(n))
	}
	if m, ok := n.(interface{ MarshalText() ([]byte, error) }); ok {
		if b, err := m.MarshalText(); err != nil || string(b) != s {
			c.Failf("MarshalText of %#v is %q, %v", n, b, err)
		}
	}
	got := ua.ParseNodeID(s)
	if got != n && !(got == nil && nilNum(n)) {
		c.Failf("%#v formats as %q and parses to %#v", n, s, got)
	}
	o := gen.NodeID(c.T, textOpts, false, "o")
	if o != nil && o != n && str(o) == s {
		c.Failf("%#v and %#v both format as %q", n, o, s)
	}
	c.NT(s)
}

func drawURI(t *rapid.T, l string) string {
	return rapid.SampledFrom([]string{"", "urn:a", "http://opcfoundation.org/UA/", "urn:x;y", "urn:100%", "a;ns=3;i=5", "%3B", "%25;", "http://h/%20p?q=1;v=2", "urn:\u00e9\u4e16", ";", "%", "nsu=z", "svr=1"}).Draw(t, l)
}

func textExpanded(c *kit.C) {
	n := ua.ExpandedNodeID{NodeID: gen.NodeID(c.T, textOpts, false, "n"), NamespaceURI: drawURI(c.T, "uri")}
	if rapid.Bool().Draw(c.T, "uri2") {
		n.NamespaceURI = gen.Str(c.T, textOpts, "uri3")
	}
	if rapid.Bool().Draw(c.T, "svr") {
		n.ServerIndex = uint32(gen.Uint(c.T, 32, "svri"))
	}
	s := n.String()
	want := ""
	if n.ServerIndex > 0 {
		want += fmt.Sprintf("svr=%d;", n.ServerIndex)
	}
	if n.NamespaceURI != "" {
		want += "nsu=" + strings.ReplaceAll(strings.ReplaceAll(n.NamespaceURI, "%", "%25"), ";", "%3B") + ";"
	}
	want += specText(n.NodeID)
	if s != want {
		c.Failf("%#v formats as %q, the standard form is %q", n, s, want)
	}
	g := ua.ParseExpandedNodeID(s)
	if g.ServerIndex != n.ServerIndex || g.NamespaceURI != n.NamespaceURI || !(g.NodeID == n.NodeID || nilNum(g.NodeID) && nilNum(n.NodeID)) {
		c.Failf("%#v formats as %q and parses to %#v", n, s, g)
	}
	c.NT(s)
}

func textQualified(c *kit.C) {
	n := ua.QualifiedName{NamespaceIndex: uint16(gen.Uint(c.T, 16, "ns")), Name: gen.Str(c.T, textOpts, "name")}
	if rapid.Bool().Draw(c.T, "colon") {
		n.Name = rapid.SampledFrom([]string{"1:x", ":", "a:b", "::", "70000:y", "-1:z", "0:", "/a/b"}).Draw(c.T, "name2")
	}
	s := n.String()
	if s != fmt.Sprintf("%d:%s", n.NamespaceIndex, n.Name) {
		c.Failf("%#v formats as %q", n, s)
	}
	if g := ua.ParseQualifiedName(s); g != n {
		c.Failf("%#v formats as %q and parses to %#v", n, s, g)
	}
	// text without a valid index prefix is a name in namespace 0
	pre := rapid.SampledFrom([]string{"", "x:", "65536:", "70000:", "-1:", "99999999999999999999:", "0x1:", "1 :"}).Draw(c.T, "prefix")
	if pre != "" || !strings.Contains(n.Name, ":") {
		if g := ua.ParseQualifiedName(pre + n.Name); g != (ua.QualifiedName{Name: pre + n.Name}) {
			c.Failf("%q parses to %#v, want the whole text in namespace 0", pre+n.Name, g)
		}
	}
	// browse paths
	k := rapid.IntRange(1, 4).Draw(c.T, "k")
	var path []ua.QualifiedName
	var toks []string
	for i := 0; i < k; i++ {
		q := ua.QualifiedName{NamespaceIndex: uint16(gen.Uint(c.T, 16, "pns")), Name: strings.ReplaceAll(gen.Str(c.T, textOpts, "pname"), "/", "_")}
		path = append(path, q)
		toks = append(toks, q.String())
	}
	g := ua.ParseBrowsePath(strings.Join(toks, "/"))
	if len(g) != len(path) {
		c.Failf("path %q parses to %d elements, want %d", strings.Join(toks, "/"), len(g), len(path))
	}
	for i := range g {
		if g[i] != path[i] {
			c.Failf("element %d of path %q parses to %v, want %v", i, strings.Join(toks, "/"), g[i], path[i])
		}
	}
	c.NT(s + strings.Join(toks, "/"))
}

// strictParse is the reference reading of a NodeID text: ok=false means "certainly not an identifier",
// unsure means the standard leaves room.
func strictParse(s string) (n ua.NodeID, ok, unsure bool) {
	ns := uint64(0)
	num := func(s string, max uint64) (uint64, bool) {
		if s == "" || len(s) > 18 {
			return 0, false
		}
		v := uint64(0)
		for _, r := range []byte(s) {
			if r < '0' || r > '9' {
				return 0, false
			}
			v = v*10 + uint64(r-'0')
		}
		return v, v <= max
	}
	if strings.HasPrefix(s, "ns=") {
		i := strings.IndexByte(s, ';')
		if i < 0 {
			return nil, false, false
		}
		if len(s[3:i]) > 18 && strings.Trim(s[3:i], "0123456789") == "" {
			return nil, false, strings.HasPrefix(s[3:], "0")
		}
		v, k := num(s[3:i], 65535)
		if !k {
			return nil, false, false
		}
		ns, s = v, s[i+1:]
	}
	if len(s) < 2 || s[1] != '=' {
		return nil, false, false
	}
	body := s[2:]
	switch s[0] {
	case 'i':
		if len(body) > 18 && strings.HasPrefix(body, "0") {
			return nil, false, true
		}
		v, k := num(body, 1<<32-1)
		if !k {
			return nil, false, false
		}
		return ua.NodeIDNumeric{NamespaceIndex: uint16(ns), ID: uint32(v)}, true, false
	case 's':
		return ua.NodeIDString{NamespaceIndex: uint16(ns), ID: body}, true, false
	case 'g':
		h := strings.ReplaceAll(body, "-", "")
		if len(body) == 36 && len(h) == 32 && body[8] == '-' && body[13] == '-' && body[18] == '-' && body[23] == '-' {
			b, err := hex.DecodeString(h)
			if err != nil {
				return nil, false, false
			}
			var g uuid.UUID
			copy(g[:], b)
			return ua.NodeIDGUID{NamespaceIndex: uint16(ns), ID: g}, true, false
		}
		return nil, false, len(h) >= 32
	case 'b':
		if strings.ContainsAny(body, "\r\n") {
			return nil, false, true
		}
		for i, r := range []byte(body) {
			if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '+' || r == '/' || r == '=' && i >= len(body)-2) {
				return nil, false, false
			}
		}
		b, err := base64.StdEncoding.Strict().DecodeString(body)
		if err != nil {
			return nil, false, len(body)%4 == 0
		}
		return ua.NodeIDOpaque{NamespaceIndex: uint16(ns), ID: ua.ByteString(b)}, true, false
	}
	return nil, false, false
}

func textInvalid(c *kit.C) {
	var s string
	switch rapid.IntRange(0, 2).Draw(c.T, "how") {
	case 0:
		s = rapid.StringOfN(rapid.SampledFrom([]rune("nsiugb=;0123456789abAB-/+ ")), 0, 24, -1).Draw(c.T, "text")
	case 1:
		pre := rapid.SampledFrom([]string{"", "ns=1;", "ns=65535;", "ns=65536;", "ns=-1;", "ns=;", "ns=1", "NS=1;", "ns= 1;", "ns=1;ns=2;", "ns=+1;", "ns=0;", "ns=1;;", "ns=18446744073709551617;"}).Draw(c.T, "pre")
		post := rapid.SampledFrom([]string{"i=1", "i=4294967295", "i=4294967296", "i=", "i=-1", "i=1x", "i= 1", "i=0", "I=1", "s=", "s=a;b", "g=", "g=5ce9dbce-5d79-434c-9ac3-1cfba9a6e92c", "g=5CE9DBCE-5D79-434C-9AC3-1CFBA9A6E92C", "g=5ce9dbce-5d79-434c-9ac3-1cfba9a6e92", "g=5ce9dbce-5d79-434c-9ac3-1cfba9a6e92g", "b=", "b=YWJjZA==", "b=YWJjZA", "b=YW$j", "b=====", "x=1", "=", "", "i", "85", "i=18446744073709551701"}).Draw(c.T, "post")
		s = pre + post
	default:
		b := []byte(specText(gen.NodeID(c.T, gen.Opts{MaxLen: 4}, false, "n")))
		if len(b) > 0 {
			b[rapid.IntRange(0, len(b)-1).Draw(c.T, "pos")] = byte(rapid.IntRange(32, 126).Draw(c.T, "ch"))
		}
		s = string(b)
	}
	want, ok, unsure := strictParse(s)
	var got ua.NodeID
	if msg := kit.Panics(func() { got = ua.ParseNodeID(s) }); msg != "" {
		c.Failf("parsing %q panics: %s", s, msg)
	}
	if unsure {
		return
	}
	if !ok && got != nil {
		c.Failf("%q is not an identifier but parses to %#v", s, got)
	}
	if ok && got != want && !(got == nil && nilNum(want)) {
		c.Failf("%q parses to %#v, want %#v", s, got, want)
	}
	var x ua.ExpandedNodeID
	e := s
	if rapid.Bool().Draw(c.T, "expanded") {
		e = rapid.SampledFrom([]string{"svr=1;", "svr=4294967296;", "svr=x;", "svr=1", "nsu=urn:a;", "nsu=urn:a", "svr=2;nsu=b;"}).Draw(c.T, "xpre") + s
	}
	if msg := kit.Panics(func() { x = ua.ParseExpandedNodeID(e) }); msg != "" {
		c.Failf("parsing %q panics: %s", e, msg)
	}
	if (strings.HasPrefix(e, "svr=4294967296;") || strings.HasPrefix(e, "svr=x;") || e == s && !ok) && x.NodeID != nil && !strings.HasPrefix(e, "nsu=") && !strings.HasPrefix(e, "svr=1") {
		c.Failf("%q is not an identifier but parses to %#v", e, x)
	}
	c.NT(e)
}

// mapping: NodeID <-> ExpandedNodeID over namespace tables.
func textMapping(c *kit.C) {
	k := rapid.IntRange(1, 6).Draw(c.T, "k")
	uris := []string{stdURI}
	for i := 1; i < k; i++ {
		uris = append(uris, fmt.Sprintf("urn:t:%d", rapid.IntRange(0, 3).Draw(c.T, "u")*10+i))
	}
	if rapid.IntRange(0, 9).Draw(c.T, "big") == 0 {
		for i := k; i < 400; i++ {
			uris = append(uris, fmt.Sprintf("urn:b:%d", i))
		}
	}
	n := gen.NodeID(c.T, gen.Opts{MaxLen: 4}, true, "n")
	ns := uint16(rapid.IntRange(0, len(uris)+1).Draw(c.T, "ns"))
	switch x := n.(type) {
	case ua.NodeIDNumeric:
		x.NamespaceIndex = ns
		n = x
	case ua.NodeIDString:
		x.NamespaceIndex = ns
		n = x
	case ua.NodeIDGUID:
		x.NamespaceIndex = ns
		n = x
	case ua.NodeIDOpaque:
		x.NamespaceIndex = ns
		n = x
	}
	e := ua.ToExpandedNodeID(n, uris)
	if n != nil && int(ns) < len(uris) && ns > 0 && e.NamespaceURI != uris[ns] {
		c.Failf("%v expands to %v over %q, want namespace %q", n, e, uris, uris[ns])
	}
	if e.ServerIndex != 0 {
		c.Failf("%v expands to server %d", n, e.ServerIndex)
	}
	if back := ua.ToNodeID(e, uris); back != n {
		c.Failf("%v expands to %v and maps back to %v over %q", n, e, back, uris)
	}
	// over a permuted table the same identifier gets the index of its URI there
	perm := rapid.Permutation(uris).Draw(c.T, "perm")
	if n != nil && ns > 0 && int(ns) < len(uris) {
		m := ua.ToNodeID(e, perm)
		want := -1
		for i, u := range perm {
			if u == uris[ns] {
				want = i
				break
			}
		}
		if d := ref.Diff(ua.ToExpandedNodeID(m, perm).NodeID, e.NodeID); want > 0 && d != "" {
			c.Failf("%v maps to %v over %q: %s", e, m, perm, d)
		}
		if want > 0 && ua.ToExpandedNodeID(m, perm).NamespaceURI != uris[ns] {
			c.Failf("%v maps to %v over %q", e, m, perm)
		}
		// and no index if the URI is not in the table
		if g := ua.ToNodeID(e, []string{stdURI, "urn:other"}); g != nil {
			c.Failf("%v maps to %v over a table without its namespace", e, g)
		}
	}
	if n != nil {
		c.NT(fmt.Sprintf("%v over %d", n, len(uris)))
	}
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C04",
		Rule:        "identifiers of all kinds with boundary numbers, unicode, delimiters and percent signs are formatted and parsed back and compared with an independent formatter; valid, near-valid and random texts are parsed and compared with an independent strict parser; node ids are expanded and mapped back over random namespace tables; non-trivial: every case with a non-nil identifier or a text the standard decides, distinct by text",
		Assumptions: []string{"namespace URIs in a table are distinct and not empty", "alternative GUID spellings and base64 with line breaks are not judged"},
		Subs: []kit.Sub{
			{Name: "nodeid", Quick: 60000, Thorough: 1500000, Shards: 2, Fn: textNodeID},
			{Name: "expanded", Quick: 60000, Thorough: 1500000, Shards: 2, Fn: textExpanded},
			{Name: "qualified", Quick: 40000, Thorough: 1000000, Shards: 2, Fn: textQualified},
			{Name: "invalid", Quick: 60000, Thorough: 1500000, Shards: 2, Fn: textInvalid},
			{Name: "mapping", Quick: 40000, Thorough: 1000000, Shards: 2, Fn: textMapping},
		},
	})
}
