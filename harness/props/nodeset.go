package props

import (
	"encoding/base64"
	"encoding/xml"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/kit"
	"verif/harness/ref"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
	"pgregory.net/rapid"
)

// Loading of nodesets. A document is generated together with the address space it describes. The model
// names namespaces by URI, so that it knows nothing about the numbers in the document or in the server.

const ns0 = "http://opcfoundation.org/UA/"

var nsPool = []string{"urn:verif:a", "urn:verif:b&c", "urn:verif:d/", "urn:verif:e", "urn:verif:A", "urn:verif:d", "urn:verif:f é"}

// nsID is a node id with the URI of its namespace.
type nsID struct {
	uri string
	id  string // e.g. s=name
}

type nsRef struct {
	typ     nsID
	inverse bool
	target  nsID
}

type nsNode struct {
	class         string
	id            nsID
	nameURI, name string
	disp, desc    ua.LocalizedText
	refs          []nsRef
	abstract      bool
	symmetric     bool
	inverseName   string
	notifier      byte
	dataType      nsID
	rank          int32
	rankText      string
	dims          []uint32
	dimsText      string
	access        byte
	interval      float64
	historizing   bool
	executable    bool
	noLoops       bool
	value         *nsValue
}

// nsValue is a value: how it is written and what it is in the server (after mapping).
type nsValue struct {
	xml  string
	want func(d *nsDoc) any
	list bool
}

type nsDoc struct {
	table   []string          // of the document: index i is namespace i+1
	alias   map[nsID]string   // aliases by node id
	target  map[string]uint16 // indexes in the server
	nodes   []*nsNode
	prefix  string // of the elements of values
	noise   bool
	rnd     func(l string, n int) int
	pretty  string
	written map[nsID]int
}

func esc(s string) string {
	b := &strings.Builder{}
	xml.EscapeText(b, []byte(s))
	return b.String()
}

// index returns the index of the namespace in the document.
func (d *nsDoc) index(uri string) int {
	if uri == ns0 {
		return 0
	}
	for i, u := range d.table {
		if u == uri {
			return i + 1
		}
	}
	panic("namespace " + uri + " is not in the table")
}

// text writes a node id.
func (d *nsDoc) text(x nsID) string {
	if i := d.index(x.uri); i > 0 || d.rnd("ns=0", 8) == 0 {
		return fmt.Sprintf("ns=%d;%s", i, x.id)
	}
	return x.id
}

// named writes a node id or its alias.
func (d *nsDoc) named(x nsID) string {
	if a, ok := d.alias[x]; ok && d.rnd("alias", 3) > 0 {
		return a
	}
	return d.text(x)
}

// node is the id in the server.
func (d *nsDoc) node(x nsID) ua.NodeID {
	ns := uint16(0)
	if x.uri != ns0 {
		i, ok := d.target[x.uri]
		if !ok {
			panic("namespace " + x.uri + " is not in the server")
		}
		ns = i
	}
	switch v := x.id[2:]; x.id[0] {
	case 'i':
		n, _ := strconv.ParseUint(v, 10, 32)
		return ua.NewNodeIDNumeric(ns, uint32(n))
	case 's':
		return ua.NewNodeIDString(ns, v)
	case 'g':
		return ua.NewNodeIDGUID(ns, uuid.MustParse(v))
	default:
		b, _ := base64.StdEncoding.DecodeString(v)
		return ua.NewNodeIDOpaque(ns, ua.ByteString(b))
	}
}

func std(i int) nsID { return nsID{ns0, fmt.Sprintf("i=%d", i)} }

var nsTexts = []string{"plain", "a & b", "<tag>", "x > y \"q\" 'p'", "ünï 世界 😀", "two  spaces", "l1\nl2", "&amp;", "1:2", "a;b=c", "]]>", "0"}

func nsText(t *rapid.T, l string) string {
	return pick(t, l, nsTexts...) + pick(t, l+"2", "", "", "z", " &lt;z")
}

// uaTag writes an element of a value.
func (d *nsDoc) uaTag(name, body string) string {
	if body == "" && d.rnd("empty", 2) == 0 {
		return "<" + d.prefix + name + "/>"
	}
	return "<" + d.prefix + name + ">" + body + "</" + d.prefix + name + ">"
}

func (d *nsDoc) gap() string {
	return d.pretty
}

func (d *nsDoc) locText(x ua.LocalizedText) string {
	s := ""
	if x.Locale != "" || d.rnd("loc", 2) == 0 {
		s += d.gap() + d.uaTag("Locale", esc(x.Locale))
	}
	return s + d.gap() + d.uaTag("Text", esc(x.Text)) + d.gap()
}

// scalar draws a value of a builtin type and writes its element.
func (d *nsDoc) scalar(t *rapid.T, kind string) (string, func(*nsDoc) any) {
	is := func(x any) func(*nsDoc) any { return func(*nsDoc) any { return x } }
	num := func(lo, hi int64) int64 {
		if rapid.IntRange(0, 3).Draw(t, "edge") == 0 {
			return pick(t, "edges", lo, hi, 0)
		}
		return rapid.Int64Range(lo, hi).Draw(t, "num")
	}
	switch kind {
	case "Boolean":
		v := rapid.Bool().Draw(t, "v")
		s := strconv.FormatBool(v)
		if rapid.IntRange(0, 3).Draw(t, "digit") == 0 {
			s = map[bool]string{true: "1", false: "0"}[v]
		}
		return d.uaTag(kind, s), is(v)
	case "SByte":
		v := num(-128, 127)
		return d.uaTag(kind, fmt.Sprint(v)), is(int8(v))
	case "Byte":
		v := num(0, 255)
		return d.uaTag(kind, fmt.Sprint(v)), is(uint8(v))
	case "Int16":
		v := num(-32768, 32767)
		return d.uaTag(kind, fmt.Sprint(v)), is(int16(v))
	case "UInt16":
		v := num(0, 65535)
		return d.uaTag(kind, fmt.Sprint(v)), is(uint16(v))
	case "Int32":
		v := num(math.MinInt32, math.MaxInt32)
		return d.uaTag(kind, fmt.Sprint(v)), is(int32(v))
	case "UInt32":
		v := num(0, math.MaxUint32)
		return d.uaTag(kind, fmt.Sprint(v)), is(uint32(v))
	case "Int64":
		v := num(math.MinInt64, math.MaxInt64)
		return d.uaTag(kind, fmt.Sprint(v)), is(v)
	case "UInt64":
		v := rapid.Uint64().Draw(t, "v")
		return d.uaTag(kind, fmt.Sprint(v)), is(v)
	case "Float":
		v := rapid.Float32().Draw(t, "v")
		return d.uaTag(kind, strconv.FormatFloat(float64(v), 'g', -1, 32)), is(v)
	case "Double":
		v := rapid.Float64().Draw(t, "v")
		s := strconv.FormatFloat(v, 'g', -1, 64)
		if rapid.IntRange(0, 9).Draw(t, "inf") == 0 {
			v, s = math.Inf(-1), "-INF"
		}
		return d.uaTag(kind, s), is(v)
	case "String":
		v := nsText(t, "v")
		return d.uaTag(kind, esc(v)), is(v)
	case "DateTime":
		v := time.Unix(rapid.Int64Range(-1e9, 4e9).Draw(t, "v"), rapid.Int64Range(0, 9999999).Draw(t, "frac")*100).UTC()
		return d.uaTag(kind, v.Format(time.RFC3339Nano)), is(v)
	case "Guid":
		v := uuid.UUID(rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "v"))
		return d.uaTag(kind, d.gap()+d.uaTag("String", v.String())+d.gap()), is(v)
	case "ByteString":
		v := rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, "v")
		s := base64.StdEncoding.EncodeToString(v)
		if len(s) > 8 && rapid.Bool().Draw(t, "wrap") {
			s = "\n  " + s[:8] + "\n  " + s[8:] + "\n"
		}
		return d.uaTag(kind, s), is(ua.ByteString(v))
	case "XmlElement":
		v := pick(t, "v", "<a/>", "<a b=\"c\">d &amp; e</a>", "<q><r>1</r><r>2</r></q>")
		return d.uaTag(kind, v), is(ua.XMLElement(v))
	case "NodeId":
		x := d.someID(t, "v")
		return d.uaTag(kind, d.gap()+d.uaTag("Identifier", esc(d.text(x)))+d.gap()), func(d *nsDoc) any { return d.node(x) }
	case "ExpandedNodeId":
		x := d.someID(t, "v")
		if rapid.Bool().Draw(t, "uri") {
			svr := rapid.IntRange(0, 2).Draw(t, "svr")
			s := "nsu=urn:elsewhere;" + x.id
			if svr > 0 {
				s = fmt.Sprintf("svr=%d;%s", svr, s)
			}
			return d.uaTag(kind, d.gap()+d.uaTag("Identifier", esc(s))+d.gap()), func(d *nsDoc) any {
				return ua.ExpandedNodeID{ServerIndex: uint32(svr), NamespaceURI: "urn:elsewhere", NodeID: d.node(nsID{ns0, x.id})}
			}
		}
		return d.uaTag(kind, d.gap()+d.uaTag("Identifier", esc(d.text(x)))+d.gap()), func(d *nsDoc) any { return ua.ExpandedNodeID{NodeID: d.node(x)} }
	case "QualifiedName":
		uri, name := d.someURI(t, "vns"), nsText(t, "v")
		s := ""
		if i := d.index(uri); i > 0 || rapid.Bool().Draw(t, "zero") {
			s = d.gap() + d.uaTag("NamespaceIndex", fmt.Sprint(i))
		}
		return d.uaTag(kind, s+d.gap()+d.uaTag("Name", esc(name))+d.gap()), func(d *nsDoc) any {
			q := ua.QualifiedName{Name: name}
			if uri != ns0 {
				q.NamespaceIndex = d.target[uri]
			}
			return q
		}
	case "LocalizedText":
		v := ua.LocalizedText{Text: nsText(t, "v"), Locale: pick(t, "locale", "", "en", "de-DE")}
		return d.uaTag(kind, d.locText(v)), is(v)
	}
	panic(kind)
}

// object draws a structure.
func (d *nsDoc) object(t *rapid.T, kind string) (string, func(*nsDoc) any) {
	wrap := func(body string, typ int) string {
		return d.uaTag("ExtensionObject", d.gap()+d.uaTag("TypeId", d.uaTag("Identifier", fmt.Sprintf("i=%d", typ)))+d.gap()+d.uaTag("Body", d.gap()+d.uaTag(kind, body)+d.gap())+d.gap())
	}
	text := func(l string) ua.LocalizedText {
		return ua.LocalizedText{Text: nsText(t, l), Locale: pick(t, l+"loc", "", "en")}
	}
	switch kind {
	case "Range":
		v := ua.Range{Low: float64(rapid.IntRange(-100, 100).Draw(t, "low")) / 4, High: float64(rapid.IntRange(-100, 100).Draw(t, "high")) / 4}
		return wrap(d.uaTag("Low", fmt.Sprint(v.Low))+d.gap()+d.uaTag("High", fmt.Sprint(v.High)), 885), func(*nsDoc) any { return v }
	case "EUInformation":
		v := ua.EUInformation{NamespaceURI: nsText(t, "uri"), UnitID: rapid.Int32().Draw(t, "unit"), DisplayName: text("disp"), Description: text("desc")}
		return wrap(d.uaTag("NamespaceUri", esc(v.NamespaceURI))+d.uaTag("UnitId", fmt.Sprint(v.UnitID))+d.gap()+d.uaTag("DisplayName", d.locText(v.DisplayName))+d.uaTag("Description", d.locText(v.Description)), 888), func(*nsDoc) any { return v }
	case "EnumValueType":
		v := ua.EnumValueType{Value: rapid.Int64().Draw(t, "value"), DisplayName: text("disp"), Description: text("desc")}
		return wrap(d.uaTag("Value", fmt.Sprint(v.Value))+d.gap()+d.uaTag("DisplayName", d.locText(v.DisplayName))+d.uaTag("Description", d.locText(v.Description)), 7616), func(*nsDoc) any { return v }
	case "Argument":
		x := d.someID(t, "argtype")
		v := ua.Argument{Name: nsText(t, "name"), ValueRank: pick(t, "rank", int32(-1), 1), Description: text("desc")}
		return wrap(d.uaTag("Name", esc(v.Name))+d.gap()+d.uaTag("DataType", d.gap()+d.uaTag("Identifier", esc(d.text(x))))+d.uaTag("ValueRank", fmt.Sprint(v.ValueRank))+d.uaTag("ArrayDimensions", "")+d.gap()+d.uaTag("Description", d.locText(v.Description)), 297),
			func(d *nsDoc) any { v := v; v.DataType = d.node(x); return v }
	}
	panic(kind)
}

func (d *nsDoc) someURI(t *rapid.T, l string) string {
	return pick(t, l, append([]string{ns0}, d.table...)...)
}

// ident draws an identifier that no other node has.
func (d *nsDoc) ident(t *rapid.T, l string) string {
	n := len(d.written) + 1
	switch rapid.IntRange(0, 3).Draw(t, l) {
	case 0:
		return fmt.Sprintf("i=%d", 500000+n)
	case 1:
		return fmt.Sprintf("s=%s.%d", pick(t, l+"s", "a", "a&b", "x <y>", "ns=1;i=5", "é\"'", "a;b"), n)
	case 2:
		return fmt.Sprintf("g=%s", uuid.UUID{15: byte(n), 0: byte(rapid.IntRange(0, 255).Draw(t, l+"g"))})
	default:
		return "b=" + base64.StdEncoding.EncodeToString([]byte(fmt.Sprintf("%c?>%d", rapid.IntRange(33, 250).Draw(t, l+"b"), n)))
	}
}

// someID draws the id of something that need not exist.
func (d *nsDoc) someID(t *rapid.T, l string) nsID {
	return nsID{d.someURI(t, l+"ns"), pick(t, l, "i=63", "i=12", "s=some & <thing>", "g=00112233-4455-6677-8899-aabbccddeeff", "b=AQI/")}
}

var nsLists = []string{"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String", "DateTime", "Guid", "ByteString", "XmlElement", "LocalizedText", "QualifiedName"}
var nsScalars = append([]string{"NodeId", "ExpandedNodeId"}, nsLists...)
var nsBuiltin = map[string]int{"Boolean": 1, "SByte": 2, "Byte": 3, "Int16": 4, "UInt16": 5, "Int32": 6, "UInt32": 7, "Int64": 8, "UInt64": 9, "Float": 10, "Double": 11, "String": 12, "DateTime": 13, "Guid": 14, "ByteString": 15, "XmlElement": 16, "NodeId": 17, "ExpandedNodeId": 18, "QualifiedName": 20, "LocalizedText": 21}

// standard data types that derive from builtin ones
var nsDerived = map[string][]int{"Double": {290}, "DateTime": {294}, "String": {295}, "UInt32": {288, 289}, "Int32": {29, 257}}

// nsSuper are the supertypes of the standard types that a fresh namespace gets.
var nsSuper = map[int]int{290: 11, 294: 13, 295: 12, 288: 7, 289: 7, 257: 29, 29: 24, 11: 26, 13: 24, 12: 24, 7: 28, 28: 26, 26: 24, 6: 27, 27: 26, 10: 26, 1: 24, 15: 24, 14: 24}

// draw a value with the data type and value rank of its variable.
func (d *nsDoc) drawValue(t *rapid.T, n *nsNode, types map[string][]nsID) {
	typeFor := func(kind string) nsID {
		if xs := types[kind]; len(xs) > 0 && rapid.IntRange(0, 1).Draw(t, "own") == 0 {
			return pick(t, "owntype", xs...)
		}
		if xs := nsDerived[kind]; len(xs) > 0 && rapid.IntRange(0, 2).Draw(t, "derived") == 0 {
			return std(pick(t, "derivedtype", xs...))
		}
		return std(nsBuiltin[kind])
	}
	n.rank = -1
	switch rapid.IntRange(0, 9).Draw(t, "valuekind") {
	case 0: // none
		n.dataType = typeFor(pick(t, "kind", "String", "Double", "Boolean", "DateTime"))
	case 1, 2, 3, 4:
		kind := pick(t, "kind", nsScalars...)
		n.dataType = typeFor(kind)
		v := &nsValue{}
		v.xml, v.want = d.scalar(t, kind)
		n.value = v
		if rapid.IntRange(0, 4).Draw(t, "any") == 0 {
			n.rank = pick(t, "rank", int32(-2), -3)
		}
	case 5:
		base := pick(t, "base", 24, 26, 27, 28)
		kinds := map[int][]string{24: nsScalars, 26: nsLists[1:11], 27: {"SByte", "Int16", "Int32", "Int64"}, 28: {"Byte", "UInt16", "UInt32", "UInt64"}}[base]
		n.dataType = std(base)
		v := &nsValue{}
		v.xml, v.want = d.scalar(t, pick(t, "kind", kinds...))
		n.value = v
		n.rank = pick(t, "rank", int32(-1), -1, -2, -3)
	case 6, 7:
		kind := pick(t, "kind", nsLists...)
		n.dataType = typeFor(kind)
		n.value = d.listOf(t, "ListOf"+kind, func() (string, func(*nsDoc) any) { return d.scalar(t, kind) })
		n.rank = pick(t, "rank", int32(1), 1, 1, 0, -2, -3)
	case 8:
		switch rapid.IntRange(0, 2).Draw(t, "variant") {
		case 0:
			n.dataType = std(24)
			n.value = d.listOf(t, "ListOfVariant", func() (string, func(*nsDoc) any) {
				s, f := d.scalar(t, pick(t, "kind", nsScalars...))
				if rapid.IntRange(0, 3).Draw(t, "bare") > 0 {
					s = d.uaTag("Variant", d.gap()+d.uaTag("Value", d.gap()+s+d.gap())+d.gap())
				}
				return s, f
			})
		case 1:
			n.dataType = std(296)
			n.value = d.listOf(t, "ListOfExtensionObject", func() (string, func(*nsDoc) any) { return d.object(t, "Argument") })
		default:
			n.dataType = std(7594)
			n.value = d.listOf(t, "ListOfExtensionObject", func() (string, func(*nsDoc) any) { return d.object(t, "EnumValueType") })
		}
		n.rank = 1
	default:
		v := &nsValue{}
		if rapid.Bool().Draw(t, "eu") {
			n.dataType = std(887)
			v.xml, v.want = d.object(t, "EUInformation")
		} else {
			n.dataType = std(884)
			v.xml, v.want = d.object(t, "Range")
		}
		n.value = v
	}
	n.rankText = fmt.Sprint(n.rank)
	if n.rank == -1 && rapid.Bool().Draw(t, "norank") {
		n.rankText = ""
	}
	if n.rank == 1 && rapid.Bool().Draw(t, "dims") {
		n.dims = []uint32{uint32(pick(t, "dim", 0, 7))}
		n.dimsText = fmt.Sprint(n.dims[0])
	}
	if n.value == nil && rapid.IntRange(0, 3).Draw(t, "matrix") == 0 {
		n.rank, n.rankText, n.dims, n.dimsText = 3, "3", []uint32{2, 0, 4000000000}, "2,0,4000000000"
	}
}

func (d *nsDoc) listOf(t *rapid.T, tag string, item func() (string, func(*nsDoc) any)) *nsValue {
	s := ""
	var wants []func(*nsDoc) any
	for k := rapid.IntRange(0, 4).Draw(t, "len"); k > 0; k-- {
		x, f := item()
		s += d.gap() + x
		wants = append(wants, f)
	}
	return &nsValue{xml: d.uaTag(tag, s+d.gap()), list: true, want: func(d *nsDoc) any {
		l := []any{}
		for _, f := range wants {
			l = append(l, f(d))
		}
		return l
	}}
}

// drawDoc draws a document.
func drawDoc(t *rapid.T, appURI, unique string) *nsDoc {
	d := &nsDoc{alias: map[nsID]string{}, target: map[string]uint16{}, written: map[nsID]int{}}
	d.rnd = func(l string, n int) int { return rapid.IntRange(0, n-1).Draw(t, l) }
	d.prefix = pick(t, "prefix", "", "uax:")
	d.pretty = pick(t, "pretty", "", "\n    ")
	d.noise = rapid.Bool().Draw(t, "noise")
	for _, u := range rapid.Permutation(append([]string{appURI}, nsPool...)).Draw(t, "table")[:rapid.IntRange(1, 4).Draw(t, "uris")] {
		d.table = append(d.table, u)
	}
	if rapid.IntRange(0, 5).Draw(t, "ns0") == 0 {
		d.table = append(d.table, ns0)
	}
	for _, i := range []int{1, 6, 12, 35, 45, 46, 47, 40, 24, 294, 85} {
		if rapid.IntRange(0, 2).Draw(t, "aliased") > 0 {
			d.alias[std(i)] = fmt.Sprintf("%s%d", pick(t, "aliasname", "Name", "Has & Type ", "é", "T=x;"), i)
		}
	}
	own := func() string { return pick(t, "ns", d.table...) }
	add := func(class string) *nsNode {
		uri := own()
		n := &nsNode{class: class, rank: -1, access: 1, executable: true}
		n.id = nsID{uri, d.ident(t, "id")}
		if uri == ns0 || unique != "" {
			n.id.id = "s=" + unique + n.id.id // unlike standard ones and those of other cases
		}
		d.written[n.id] = len(d.nodes)
		n.nameURI, n.name = d.someURI(t, "namens"), nsText(t, "name")
		n.disp = ua.LocalizedText{Text: nsText(t, "disp"), Locale: pick(t, "disploc", "", "", "en", "de-DE")}
		if rapid.Bool().Draw(t, "desc") {
			n.desc = ua.LocalizedText{Text: nsText(t, "desct"), Locale: pick(t, "descloc", "", "", "en")}
		}
		if rapid.IntRange(0, 5).Draw(t, "idalias") == 0 {
			d.alias[n.id] = fmt.Sprintf("My%d", len(d.nodes))
		}
		d.nodes = append(d.nodes, n)
		return n
	}
	// data types with their base
	types := map[string][]nsID{}
	var own2 []nsID
	base := map[nsID]string{}
	for k := rapid.IntRange(0, 3).Draw(t, "types"); k > 0; k-- {
		n := add("UADataType")
		n.abstract = rapid.Bool().Draw(t, "abstract")
		var super nsID
		var kind string
		if len(own2) > 0 && rapid.Bool().Draw(t, "chain") {
			super = pick(t, "super", own2...)
			kind = base[super]
		} else {
			kind = pick(t, "base", "Int32", "Int32", "Double", "String", "UInt32", "Boolean", "ByteString", "Guid")
			super = std(nsBuiltin[kind])
			if xs := nsDerived[kind]; len(xs) > 0 && rapid.IntRange(0, 3).Draw(t, "std") > 0 {
				super = std(xs[0])
			}
		}
		types[kind] = append(types[kind], n.id)
		own2, base[n.id] = append(own2, n.id), kind
		if i, ok := d.written[super]; ok && rapid.Bool().Draw(t, "forward") {
			d.nodes[i].refs = append(d.nodes[i].refs, nsRef{std(45), false, n.id})
		} else {
			n.refs = append(n.refs, nsRef{std(45), true, super})
		}
	}
	rtypes := []nsID{std(35), std(46), std(47), std(48), std(40), std(37)}
	for k := rapid.IntRange(0, 1).Draw(t, "reftypes"); k > 0; k-- {
		n := add("UAReferenceType")
		n.refs = append(n.refs, nsRef{std(45), true, std(35)})
		n.abstract, n.symmetric, n.inverseName = rapid.Bool().Draw(t, "abstract"), rapid.Bool().Draw(t, "symmetric"), pick(t, "inverse", "", "Inverse & Of", "x<y>")
		rtypes = append(rtypes, n.id)
	}
	for k := rapid.IntRange(1, 6).Draw(t, "others"); k > 0; k-- {
		n := add(pick(t, "class", "UAObject", "UAVariable", "UAVariable", "UAVariable", "UAVariable", "UAMethod", "UAView", "UAObjectType", "UAVariableType"))
		switch n.class {
		case "UAObject":
			n.notifier = byte(pick(t, "notifier", 0, 1, 4, 13, 255))
		case "UAView":
			n.notifier, n.noLoops = byte(pick(t, "notifier", 0, 1, 5)), rapid.Bool().Draw(t, "noloops")
		case "UAMethod":
			n.executable = rapid.Bool().Draw(t, "executable")
		case "UAObjectType":
			n.abstract = rapid.Bool().Draw(t, "abstract")
		case "UAVariableType":
			n.abstract = rapid.Bool().Draw(t, "abstract")
			d.drawValue(t, n, types)
		case "UAVariable":
			n.access = byte(pick(t, "access", 1, 0, 3, 2, 5, 255))
			n.interval = pick(t, "interval", 0, 0.5, 250, -1)
			n.historizing = rapid.IntRange(0, 3).Draw(t, "hist") == 0
			d.drawValue(t, n, types)
		}
		for r := rapid.IntRange(0, 3).Draw(t, "refs"); r > 0; r-- {
			typ := pick(t, "reftype", rtypes...)
			if typ == std(40) || typ == std(37) {
				target := pick(t, "def", std(58), std(63), d.nodes[0].id)
				if target != n.id {
					n.refs = append(n.refs, nsRef{typ, false, target})
				}
				continue
			}
			x := nsRef{typ, rapid.Bool().Draw(t, "inverse"), std(85)}
			switch rapid.IntRange(0, 6).Draw(t, "to") {
			case 0, 1, 2, 3:
				x.target = d.nodes[rapid.IntRange(0, len(d.nodes)-1).Draw(t, "peer")].id
			case 4:
				x.target = nsID{own(), fmt.Sprintf("s=nowhere%s & %d", unique, rapid.IntRange(0, 1).Draw(t, "nowhere"))}
			}
			if x.target == n.id {
				continue
			}
			n.refs = append(n.refs, x)
			if i, ok := d.written[x.target]; ok && rapid.IntRange(0, 2).Draw(t, "both") == 0 {
				d.nodes[i].refs = append(d.nodes[i].refs, nsRef{typ, !x.inverse, n.id})
			}
		}
	}
	// the same reference is described once
	for _, n := range d.nodes {
		var rs []nsRef
		seen := map[nsRef]bool{}
		for _, r := range n.refs {
			if !seen[r] {
				seen[r] = true
				rs = append(rs, r)
			}
		}
		n.refs = rs
	}
	d.nodes = rapid.Permutation(d.nodes).Draw(t, "order")
	return d
}

func (d *nsDoc) flag(name string, v, def bool) string {
	if v == def && d.rnd(name, 2) == 0 {
		return ""
	}
	s := fmt.Sprint(v)
	if d.rnd(name+"digit", 4) == 0 {
		s = map[bool]string{true: "1", false: "0"}[v]
	}
	return fmt.Sprintf(" %s=\"%s\"", name, s)
}

func (d *nsDoc) elem(name string, x ua.LocalizedText) string {
	loc := ""
	if x.Locale != "" {
		loc = fmt.Sprintf(" Locale=%q", x.Locale)
	}
	body := esc(x.Text)
	if d.rnd("cdata", 4) == 0 && !strings.Contains(x.Text, "]]>") {
		body = "<![CDATA[" + x.Text + "]]>"
	}
	return fmt.Sprintf("<%s%s>%s</%s>", name, loc, body, name)
}

// document writes the document.
func (d *nsDoc) document() string {
	b := &strings.Builder{}
	p := func(f string, a ...any) { b.WriteString(d.pretty); fmt.Fprintf(b, f, a...) }
	if d.rnd("header", 2) == 0 {
		b.WriteString(`<?xml version="1.0" encoding="utf-8"?>`)
	}
	b.WriteString(`<UANodeSet xmlns="http://opcfoundation.org/UA/2011/03/UANodeSet.xsd" xmlns:uax="http://opcfoundation.org/UA/2008/02/Types.xsd" LastModified="2020-01-02T03:04:05Z">`)
	if d.noise {
		p("<!-- UANodeSet <UAObject/> -->")
	}
	p("<NamespaceUris>")
	for _, u := range d.table {
		p("<Uri>%s</Uri>", esc(u))
	}
	p("</NamespaceUris>")
	if d.noise {
		p(`<Models><Model ModelUri="urn:x" Version="1.0"><RequiredModel ModelUri="http://opcfoundation.org/UA/"/></Model></Models>`)
	}
	p("<Aliases>")
	var as []nsID
	for x := range d.alias {
		as = append(as, x)
	}
	sort.Slice(as, func(i, j int) bool { return d.alias[as[i]] < d.alias[as[j]] })
	for _, x := range as {
		p(`<Alias Alias="%s">%s</Alias>`, esc(d.alias[x]), esc(d.text(x)))
	}
	p("</Aliases>")
	if d.noise {
		p(`<Extensions><Extension><x:Tool xmlns:x="urn:t">1</x:Tool></Extension></Extensions>`)
	}
	for _, n := range d.nodes {
		name := esc(n.name)
		if i := d.index(n.nameURI); i > 0 || strings.Contains(n.name, ":") || d.rnd("zero", 2) == 0 {
			name = fmt.Sprintf("%d:%s", i, name)
		}
		attrs := fmt.Sprintf(` NodeId="%s" BrowseName="%s"`, esc(d.text(n.id)), name)
		hasValue := false
		switch n.class {
		case "UADataType", "UAObjectType":
			attrs += d.flag("IsAbstract", n.abstract, false)
		case "UAReferenceType":
			attrs += d.flag("IsAbstract", n.abstract, false) + d.flag("Symmetric", n.symmetric, false)
		case "UAMethod":
			attrs += d.flag("Executable", n.executable, true)
		case "UAView":
			attrs += d.flag("ContainsNoLoops", n.noLoops, false)
		case "UAVariableType":
			attrs += d.flag("IsAbstract", n.abstract, false)
			hasValue = true
		case "UAVariable":
			attrs += d.flag("Historizing", n.historizing, false)
			if n.access != 1 || d.rnd("access", 2) == 0 {
				attrs += fmt.Sprintf(` AccessLevel="%d"`, n.access)
			}
			if n.interval != 0 || d.rnd("interval", 2) == 0 {
				attrs += fmt.Sprintf(` MinimumSamplingInterval="%v"`, n.interval)
			}
			hasValue = true
		}
		if n.notifier != 0 {
			attrs += fmt.Sprintf(` EventNotifier="%d"`, n.notifier)
		}
		if hasValue {
			if n.dataType != std(24) || d.rnd("type", 2) == 0 {
				attrs += fmt.Sprintf(` DataType="%s"`, esc(d.named(n.dataType)))
			}
			if n.rankText != "" {
				attrs += fmt.Sprintf(` ValueRank="%s"`, n.rankText)
			}
			if n.dimsText != "" {
				attrs += fmt.Sprintf(` ArrayDimensions="%s"`, n.dimsText)
			}
		}
		p("<%s%s>", n.class, attrs)
		p("%s", d.elem("DisplayName", n.disp))
		if n.desc.Text != "" {
			p("%s", d.elem("Description", n.desc))
		}
		if d.noise && d.rnd("doc", 3) == 0 {
			p("<Documentation>http://x/</Documentation><!-- <Value/> -->")
		}
		if len(n.refs) > 0 || d.rnd("norefs", 2) == 0 {
			p("<References>")
			for _, r := range n.refs {
				p(`<Reference ReferenceType="%s"%s>%s</Reference>`, esc(d.named(r.typ)), d.flag("IsForward", !r.inverse, true), esc(d.named(r.target)))
			}
			p("</References>")
		}
		if n.inverseName != "" {
			p("<InverseName>%s</InverseName>", esc(n.inverseName))
		}
		if n.value != nil {
			x := n.value.xml
			if d.prefix == "" {
				x = strings.Replace(x, ">", ` xmlns="http://opcfoundation.org/UA/2008/02/Types.xsd">`, 1)
				if strings.HasSuffix(strings.SplitN(x, " xmlns", 2)[0], "/") {
					x = strings.Replace(x, "/ xmlns=\"http://opcfoundation.org/UA/2008/02/Types.xsd\">", "/>", 1)
				}
			}
			p("<Value>%s%s%s</Value>", d.gap(), x, d.gap())
		}
		p("</%s>", n.class)
	}
	p("</UANodeSet>")
	return b.String()
}

type nsEdge struct {
	typ     ua.NodeID
	inverse bool
	target  ua.NodeID
}

func edges(n server.Node, uris []string) map[nsEdge]int {
	m := map[nsEdge]int{}
	for _, r := range n.References() {
		m[nsEdge{r.ReferenceTypeID, r.IsInverse, ua.ToNodeID(r.TargetID, uris)}]++
	}
	return m
}

// sameValue compares a value in the server with the described one.
func sameValue(got any, v *nsValue, d *nsDoc) string {
	if v == nil {
		if got != nil {
			return fmt.Sprintf("got %v, want no value", got)
		}
		return ""
	}
	want := v.want(d)
	if !v.list {
		return ref.Diff(got, want)
	}
	g := reflect.ValueOf(got)
	if !g.IsValid() || g.Kind() != reflect.Slice {
		return fmt.Sprintf("got %T %v, want a list", got, got)
	}
	l := want.([]any)
	if g.Len() != len(l) {
		return fmt.Sprintf("got %d elements, want %d", g.Len(), len(l))
	}
	for i, x := range l {
		y := g.Index(i).Interface()
		if a, ok := x.(ua.Argument); ok {
			if b, ok := y.(ua.Argument); ok { // the dimensions are not described
				for _, n := range b.ArrayDimensions {
					if n != 0 {
						return fmt.Sprintf("element %d has dimensions %v", i, b.ArrayDimensions)
					}
				}
				b.ArrayDimensions, a.ArrayDimensions = nil, nil
				x, y = a, b
			}
		}
		if s := ref.Diff(y, x); s != "" {
			return fmt.Sprintf("element %d: %s", i, s)
		}
	}
	return ""
}

// checkDoc compares the address space with the described one.
func checkDoc(c *kit.C, d *nsDoc, nm *server.NamespaceManager, before []string, outside map[ua.NodeID]map[nsEdge]int, doc string) {
	uris := nm.NamespaceUris()
	fail := func(f string, a ...any) {
		c.Failf("%s\nnamespaces before %q, after %q\n%s", fmt.Sprintf(f, a...), before, uris, doc)
	}
	want := append([]string{}, before...)
	for _, u := range d.table {
		if !in(u, want...) {
			want = append(want, u)
		}
	}
	if len(uris) != len(want) {
		fail("the namespaces are %q, want %q", uris, want)
	}
	for i, u := range uris {
		if i < len(before) && u != before[i] || !in(u, want...) {
			fail("the namespaces are %q, want %q", uris, want)
		}
		d.target[u] = uint16(i)
	}
	// the described references and their inverses
	refs := map[ua.NodeID]map[nsEdge]int{}
	ids := map[ua.NodeID]*nsNode{}
	for _, n := range d.nodes {
		ids[d.node(n.id)] = n
		refs[d.node(n.id)] = map[nsEdge]int{}
	}
	for x, es := range outside {
		refs[x] = map[nsEdge]int{}
		for e, k := range es {
			refs[x][e] = k
		}
	}
	for _, n := range d.nodes {
		for _, r := range n.refs {
			typ, target := d.node(r.typ), d.node(r.target)
			refs[d.node(n.id)][nsEdge{typ, r.inverse, target}] = 1
			if m := refs[target]; m != nil && r.typ != std(40) && r.typ != std(37) {
				m[nsEdge{typ, !r.inverse, d.node(n.id)}] = 1
			}
		}
	}
	var keys []ua.NodeID
	for x := range refs {
		keys = append(keys, x)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	for _, x := range keys {
		n, ok := nm.FindNode(x)
		if !ok {
			fail("there is no node %v", x)
		}
		got := edges(n, uris)
		for e := range refs[x] {
			if got[e] == 0 {
				fail("node %v lacks the reference %+v", x, e)
			}
		}
		for e, k := range got {
			if refs[x][e] != k {
				fail("node %v has %d references %+v, want %d", x, k, e, refs[x][e])
			}
		}
	}
	for _, x := range keys {
		n := ids[x]
		if n == nil {
			continue
		}
		node, _ := nm.FindNode(x)
		eq := func(what string, got, want any) {
			if s := ref.Diff(got, want); s != "" {
				fail("the %s of %v is %v, want %v: %s", what, x, got, want, s)
			}
		}
		nameNS := uint16(0)
		if n.nameURI != ns0 {
			nameNS = d.target[n.nameURI]
		}
		eq("id", node.NodeID(), x)
		eq("browse name", node.BrowseName(), ua.QualifiedName{NamespaceIndex: nameNS, Name: n.name})
		eq("display name", node.DisplayName(), n.disp)
		eq("description", node.Description(), n.desc)
		class := map[string]ua.NodeClass{"UAObject": 1, "UAVariable": 2, "UAMethod": 4, "UAObjectType": 8, "UAVariableType": 16, "UAReferenceType": 32, "UADataType": 64, "UAView": 128}[n.class]
		eq("class", node.NodeClass(), class)
		dims := func(got []uint32) {
			if n.dimsText == "" {
				for _, v := range got {
					if v != 0 {
						fail("the dimensions of %v are %v, none are described", x, got)
					}
				}
				return
			}
			eq("dimensions", got, n.dims)
		}
		switch v := node.(type) {
		case *server.ObjectNode:
			eq("event notifier", v.EventNotifier(), n.notifier)
		case *server.ViewNode:
			eq("event notifier", v.EventNotifier(), n.notifier)
			eq("absence of loops", v.ContainsNoLoops(), n.noLoops)
		case *server.MethodNode:
			eq("executable flag", v.Executable(), n.executable)
		case *server.ObjectTypeNode:
			eq("abstract flag", v.IsAbstract(), n.abstract)
		case *server.DataTypeNode:
			eq("abstract flag", v.IsAbstract(), n.abstract)
		case *server.ReferenceTypeNode:
			eq("abstract flag", v.IsAbstract(), n.abstract)
			eq("symmetric flag", v.Symmetric(), n.symmetric)
			eq("inverse name", v.InverseName().Text, n.inverseName)
		case *server.VariableTypeNode:
			eq("abstract flag", v.IsAbstract(), n.abstract)
			eq("data type", v.DataType(), d.node(n.dataType))
			eq("value rank", v.ValueRank(), n.rank)
			dims(v.ArrayDimensions())
			if s := sameValue(v.Value().Value, n.value, d); s != "" {
				fail("the value of %v: %s", x, s)
			}
		case *server.VariableNode:
			eq("data type", v.DataType(), d.node(n.dataType))
			eq("value rank", v.ValueRank(), n.rank)
			dims(v.ArrayDimensions())
			eq("access level", v.AccessLevel(), n.access)
			eq("sampling interval", v.MinimumSamplingInterval(), n.interval)
			eq("historizing flag", v.Historizing(), n.historizing)
			if s := sameValue(v.Value().Value, n.value, d); s != "" {
				fail("the value of %v: %s", x, s)
			}
			if v.Value().StatusCode != 0 {
				fail("the value of %v has status %s", x, hx(v.Value().StatusCode))
			}
			hist.reset()
			v.SetValue(ua.NewDataValue(v.Value().Value, 0, time.Now(), 0, time.Now(), 0))
			if k := len(hist.wrote); (k == 1) != n.historizing {
				fail("an update of %v offers %d values to the historian of the server", x, k)
			}
		default:
			fail("node %v is a %T", x, node)
		}
	}
	// nothing is at the numbers of the document
	for _, n := range d.nodes {
		raw := *d
		raw.target = map[string]uint16{n.id.uri: uint16(d.index(n.id.uri))}
		x := raw.node(n.id)
		if _, ok := refs[x]; ok {
			continue
		}
		if _, ok := nm.FindNode(x); ok {
			fail("there is a node %v that nothing describes", x)
		}
	}
}

// nsFresh makes a namespace with the nodes that documents use and a random table.
func nsFresh(t *rapid.T) (*server.NamespaceManager, map[ua.NodeID]map[nsEdge]int) {
	nm := server.NewNamespaceManager(w.Server)
	for k := rapid.IntRange(0, 4).Draw(t, "registered"); k > 0; k-- {
		nm.Add(pick(t, "registereduri", append([]string{"urn:other1", "urn:other2"}, nsPool...)...))
	}
	var ns []server.Node
	for _, i := range []int{35, 45, 46, 47, 48, 40, 37} {
		ns = append(ns, server.NewReferenceTypeNode(w.Server, num(0, uint32(i)), qn(0, "r"), lt("r"), lt(""), nil, nil, false, false, lt("")))
	}
	for _, i := range []uint32{58, 63} {
		ns = append(ns, server.NewObjectTypeNode(w.Server, num(0, i), qn(0, "t"), lt("t"), lt(""), nil, nil, false))
	}
	ns = append(ns, server.NewObjectNode(w.Server, num(0, 85), qn(0, "Objects"), lt("o"), lt(""), nil, nil, 0))
	for i := 1; i < 300; i++ {
		s, ok := nsSuper[i]
		var rs []ua.Reference
		if ok {
			rs = append(rs, ua.Reference{ReferenceTypeID: num(0, 45), IsInverse: true, TargetID: ua.NewExpandedNodeID(num(0, uint32(s)))})
		}
		if ok || i == 24 {
			ns = append(ns, server.NewDataTypeNode(w.Server, num(0, uint32(i)), qn(0, "d"), lt("d"), lt(""), nil, rs, false, nil))
		}
	}
	if err := nm.AddNodes(ns...); err != nil {
		kit.Infra("AddNodes: %v", err)
	}
	return nm, nsOutside(nm)
}

// nsOutside notes the references of standard nodes.
func nsOutside(nm *server.NamespaceManager) map[ua.NodeID]map[nsEdge]int {
	m := map[ua.NodeID]map[nsEdge]int{}
	for _, i := range []uint32{85, 58, 63, 35, 11, 12, 6, 29, 1} {
		if n, ok := nm.FindNode(num(0, i)); ok {
			m[num(0, i)] = edges(n, nm.NamespaceUris())
		}
	}
	return m
}

func nodesetFresh(c *kit.C) {
	t := c.T
	nm, outside := nsFresh(t)
	for k := rapid.IntRange(1, 2).Draw(t, "documents"); k > 0; k-- {
		d := drawDoc(t, nm.NamespaceUris()[1], fmt.Sprintf("f%d", k))
		before := append([]string{}, nm.NamespaceUris()...)
		doc := d.document()
		if err := nm.LoadNodeSetFromBuffer([]byte(doc)); err != nil {
			c.Failf("the document is refused: %v\n%s", err, doc)
		}
		checkDoc(c, d, nm, before, outside, doc)
		outside = nsOutside(nm)
		for _, n := range d.nodes {
			c.Label(n.class)
		}
		c.NT(doc)
	}
}

var nsCase int

// nodesetServed loads into the address space of a running server and asks through services.
func nodesetServed(c *kit.C) {
	t := c.T
	nm := w.NamespaceManager()
	nsCase++
	d := drawDoc(t, nm.NamespaceUris()[1], fmt.Sprintf("c%d.", nsCase))
	before := append([]string{}, nm.NamespaceUris()...)
	outside := nsOutside(nm)
	doc := d.document()
	err := nm.LoadNodeSetFromBuffer([]byte(doc))
	if err != nil {
		c.Failf("the document is refused: %v\n%s", err, doc)
	}
	for i, u := range nm.NamespaceUris() {
		d.target[u] = uint16(i)
	}
	defer func() {
		var ns []server.Node
		for _, n := range d.nodes {
			if x, ok := nm.FindNode(d.node(n.id)); ok {
				ns = append(ns, x)
			}
		}
		nm.DeleteNodes(ns, false)
	}()
	checkDoc(c, d, nm, before, outside, doc)
	fail := func(f string, a ...any) { c.Failf("%s\n%s", fmt.Sprintf(f, a...), doc) }
	req := &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: ua.VariableIDServerNamespaceArray, AttributeID: ua.AttributeIDValue}}}
	for _, n := range d.nodes {
		req.NodesToRead = append(req.NodesToRead, ua.ReadValueID{NodeID: d.node(n.id), AttributeID: ua.AttributeIDDisplayName}, ua.ReadValueID{NodeID: d.node(n.id), AttributeID: ua.AttributeIDValue})
	}
	r, code := do[ua.ReadResponse](c, w.ses, req)
	if code != 0 || len(r.Results) != len(req.NodesToRead) {
		fail("Read answered %s", hx(code))
	}
	if s := ref.Diff(r.Results[0].Value, nm.NamespaceUris()); s != "" {
		fail("the namespace array of the server is %v: %s", r.Results[0].Value, s)
	}
	for i, n := range d.nodes {
		if s := ref.Diff(r.Results[1+2*i].Value, n.disp); s != "" {
			fail("the display name of %v reads as %v: %s", d.node(n.id), r.Results[1+2*i].Value, s)
		}
		if n.class == "UAVariable" && n.access&1 != 0 {
			if s := sameValue(r.Results[2+2*i].Value, n.value, d); s != "" || r.Results[2+2*i].StatusCode != 0 {
				fail("the value of %v reads as %v: %s", d.node(n.id), r.Results[2+2*i], s)
			}
		}
	}
	c.NT(doc)
}

// nodesetBroken loads documents with an error.
func nodesetBroken(c *kit.C) {
	t := c.T
	nm, outside := nsFresh(t)
	d := drawDoc(t, nm.NamespaceUris()[1], "f")
	doc := d.document()
	what := pick(t, "error", "cut", "tag", "class", "id", "id", "bool", "byte", "number")
	swap := func(old, new string) { doc = strings.Replace(doc, old, new, 1) }
	class := d.nodes[rapid.IntRange(0, len(d.nodes)-1).Draw(t, "node")]
	bad := ""
	switch what {
	case "cut":
		doc = doc[:rapid.IntRange(0, len(doc)-len("</UANodeSet>")).Draw(t, "at")]
	case "tag":
		swap("</"+class.class+">", pick(t, "end", "", "</UA>", "</"+class.class))
	case "class":
		bad = pick(t, "class", "UAThing", "Object", "UAobject")
		doc = strings.Replace(doc, "</UANodeSet>", fmt.Sprintf(`<%s NodeId="ns=1;s=new" BrowseName="x"><DisplayName>x</DisplayName></%s></UANodeSet>`, bad, bad), 1)
	case "id":
		bad = pick(t, "id", "ns=x;i=85", "ns=70000;i=85", "ns=-1;i=85", "i=abc", "i=4294967296", "i=-1", "thing", "", "g=zz", "ns=1;g=", "b=*", "ns=1", "x=5")
		doc = strings.Replace(doc, "</UANodeSet>", fmt.Sprintf(`<UAObject NodeId="%s" BrowseName="x"><DisplayName>x</DisplayName></UAObject></UANodeSet>`, bad), 1)
	case "bool":
		doc = strings.Replace(doc, "</UANodeSet>", `<UAObjectType NodeId="ns=1;s=new" BrowseName="x" IsAbstract="maybe"><DisplayName>x</DisplayName></UAObjectType></UANodeSet>`, 1)
	case "byte":
		doc = strings.Replace(doc, "</UANodeSet>", `<UAObject NodeId="ns=1;s=new" BrowseName="x" EventNotifier="256"><DisplayName>x</DisplayName></UAObject></UANodeSet>`, 1)
	case "number":
		v := pick(t, "value", "<uax:Int32>1.5</uax:Int32>", "<uax:Int32>4294967296</uax:Int32>", "<uax:Double>x</uax:Double>", "<uax:DateTime>yesterday</uax:DateTime>", "<uax:ListOfByte><uax:Byte>-1</uax:Byte></uax:ListOfByte>", "<uax:Boolean>2</uax:Boolean>", "<uax:ByteString>*</uax:ByteString>")
		doc = strings.Replace(doc, "</UANodeSet>", `<UAVariable NodeId="ns=1;s=new" BrowseName="x" DataType="i=6"><DisplayName>x</DisplayName><Value>`+v+`</Value></UAVariable></UANodeSet>`, 1)
	}
	var err error
	if p := kit.Panics(func() { err = nm.LoadNodeSetFromBuffer([]byte(doc)) }); p != "" {
		c.Failf("a document with an error (%s %s) panics: %s\n%s", what, bad, p, doc)
	}
	if err == nil {
		c.Failf("a document with an error (%s %s) is accepted\n%s", what, bad, doc)
	}
	// what was there is still there
	uris := nm.NamespaceUris()
	for x, es := range outside {
		n, ok := nm.FindNode(x)
		if !ok {
			c.Failf("node %v is gone after a refused document\n%s", x, doc)
		}
		got := edges(n, uris)
		for e := range es {
			if got[e] == 0 {
				c.Failf("node %v lost %+v after a refused document\n%s", x, e, doc)
			}
		}
	}
	c.Label(what)
	c.NT(doc)
}

// nodesetMutate loads damaged documents: accepted or not, nothing crashes.
func nodesetMutate(c *kit.C) {
	t := c.T
	nm, _ := nsFresh(t)
	d := drawDoc(t, nm.NamespaceUris()[1], "f")
	doc := []byte(d.document())
	for k := rapid.IntRange(1, 6).Draw(t, "edits"); k > 0; k-- {
		at := rapid.IntRange(0, len(doc)-1).Draw(t, "at")
		switch rapid.IntRange(0, 4).Draw(t, "edit") {
		case 0:
			doc[at] = rapid.Byte().Draw(t, "byte")
		case 1:
			to := min(len(doc), at+rapid.IntRange(1, 30).Draw(t, "len"))
			doc = append(doc[:at:at], doc[to:]...)
		case 2: // exchange the names of elements
			a, b := pick(t, "a", "Range", "EUInformation", "Argument", "EnumValueType", "Int32", "ListOfInt32", "UAVariable", "Identifier", "String", "Value", "Guid", "DataType", "i="), pick(t, "b", "Range", "Argument", "EUInformation", "Int32", "ListOfGuid", "UAObject", "Text", "Value", "Body", "ns=")
			doc = []byte(strings.ReplaceAll(string(doc), a, b))
		case 3:
			ins := pick(t, "ins", "<", ">", "&", "\"", "<Value/>", "ns=9;", "svr=", "nsu=", ";", ":", "<uax:ListOfExtensionObject><uax:ExtensionObject/></uax:ListOfExtensionObject>")
			doc = append(doc[:at:at], append([]byte(ins), doc[at:]...)...)
		default: // remove an element
			tag := pick(t, "tag", "Body", "String", "Range", "Identifier", "Argument", "Name", "Text", "References", "DisplayName", "Aliases", "NamespaceUris")
			s := string(doc)
			if i := strings.Index(s, tag+">"); i > 0 {
				if j := strings.Index(s[i+1:], tag+">"); j > 0 {
					a := strings.LastIndex(s[:i], "<")
					doc = []byte(s[:a] + s[i+1+j+len(tag)+1:])
				}
			}
		}
		if len(doc) == 0 {
			doc = []byte(" ")
		}
	}
	var err error
	if p := kit.Panics(func() { err = nm.LoadNodeSetFromBuffer(doc) }); p != "" {
		c.Failf("a damaged document panics: %s\n%s", p, doc)
	}
	c.Label(map[bool]string{true: "accepted", false: "refused"}[err == nil])
	c.NT(string(doc))
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C30",
		Rule:        "fresh: one or two documents loaded into a namespace with random registrations; served: a document loaded into a running server and read back through services; the generator draws the described nodes (all classes, attributes, values, references, aliases, tables) and writes them in many ways, every getter and reference is compared; broken: documents with an error must be refused; mutate: damaged documents must not crash; non-trivial: distinct documents",
		Assumptions: []string{"values are of the types that the loader knows, matrices, structures of other types, StatusCode, DataValue and lists of NodeId are not; white space around identifiers, several display names and the locale of inverse names are not judged"},
		Subs: []kit.Sub{{Name: "fresh", Quick: 6000, Thorough: 400000, Shards: 3, Fn: nodesetFresh, Setup: setup(server.WithHistorian(hist))},
			{Name: "served", Quick: 2000, Thorough: 100000, Shards: 2, Fn: nodesetServed, Setup: setup(server.WithHistorian(hist))},
			{Name: "broken", Quick: 3000, Thorough: 200000, Shards: 2, Fn: nodesetBroken, Setup: setup(server.WithHistorian(hist))},
			{Name: "mutate", Quick: 6000, Thorough: 400000, Shards: 3, Fn: nodesetMutate, Setup: setup(server.WithHistorian(hist))}},
	})
}
