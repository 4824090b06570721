package props

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

func num(ns uint16, i uint32) ua.NodeID { return ua.NewNodeIDNumeric(ns, i) }

// the reference types used, with their supertypes (Part 5)
var rtSuper = map[ua.NodeID]ua.NodeID{
	num(0, 32): num(0, 31), num(0, 33): num(0, 31), num(0, 34): num(0, 33), num(0, 35): num(0, 33), num(0, 36): num(0, 33),
	num(0, 44): num(0, 34), num(0, 45): num(0, 34), num(0, 46): num(0, 44), num(0, 47): num(0, 44), num(0, 48): num(0, 36), num(0, 49): num(0, 47),
	num(0, 40): num(0, 32), num(2, 11): num(0, 35), num(2, 12): num(2, 11), num(2, 13): num(0, 47), num(2, 14): num(0, 32),
}

var rts = []ua.NodeID{num(0, 35), num(0, 46), num(0, 47), num(0, 48), num(0, 49), num(2, 11), num(2, 12), num(2, 13), num(2, 14)}
var rtAsk = []ua.NodeID{nil, num(0, 31), num(0, 32), num(0, 33), num(0, 34), num(0, 35), num(0, 40), num(0, 44), num(0, 46), num(0, 47), num(0, 48), num(2, 11), num(2, 12), num(2, 13), num(2, 14)}

func rtIs(t, want ua.NodeID, sub bool) bool {
	if want == nil || t == want {
		return true
	}
	if !sub {
		return false
	}
	for x, ok := rtSuper[t]; ok; x, ok = rtSuper[x] {
		if x == want {
			return true
		}
	}
	return false
}

const (
	cpLimit     = 4
	browseLimit = 30
)

func graphSetup() func() {
	caps := ua.NewServerCapabilities()
	caps.MaxBrowseContinuationPoints = cpLimit
	caps.OperationLimits.MaxNodesPerBrowse = browseLimit
	caps.OperationLimits.MaxNodesPerTranslateBrowsePathsToNodeIds = browseLimit
	f := setup(server.WithServerCapabilities(caps))()
	rt := func(i uint32, super ua.NodeID) server.Node {
		return server.NewReferenceTypeNode(w.Server, num(2, i), qn(2, fmt.Sprint("rt", i)), lt("rt"), lt(""), nil,
			[]ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasSubtype, IsInverse: true, TargetID: ua.NewExpandedNodeID(super)}}, false, false, lt("inv"))
	}
	w.add(rt(11, num(0, 35)), rt(12, num(2, 11)), rt(13, num(0, 47)), rt(14, num(0, 32)))
	return f
}

type gnode struct {
	id    ua.NodeID
	class ua.NodeClass
	bn    ua.QualifiedName
	dn    ua.LocalizedText
	td    ua.NodeID
	perms []ua.RolePermissionType // nil: the defaults
	decl  []ua.Reference
}

// may tells whether a user with the roles may do something with the node.
func may(perms []ua.RolePermissionType, roles int, p ua.PermissionType) bool {
	if perms == nil {
		perms = []ua.RolePermissionType{{RoleID: role(0), Permissions: allPerms}}
	}
	for _, rp := range perms {
		for i := 0; i < 8; i++ {
			if roles&(1<<i) != 0 && rp.RoleID == role(i) && rp.Permissions&p != 0 {
				return true
			}
		}
	}
	return false
}

type edge struct {
	src, dst int
	rt       ua.NodeID
}

type graph struct {
	nodes []*gnode
	edges []edge
}

// xid writes an expanded node id in one of its forms.
func xid(t *rapid.T, id ua.NodeID, l string) ua.ExpandedNodeID {
	x := ua.NewExpandedNodeID(id)
	if rapid.IntRange(0, 4).Draw(t, l+"nsu") > 0 {
		return x
	}
	switch v := id.(type) {
	case ua.NodeIDNumeric:
		x.NamespaceURI, x.NodeID = w.uris()[v.NamespaceIndex], ua.NewNodeIDNumeric(0, v.ID)
	case ua.NodeIDString:
		x.NamespaceURI, x.NodeID = w.uris()[v.NamespaceIndex], ua.NewNodeIDString(0, v.ID)
	case ua.NodeIDGUID:
		x.NamespaceURI, x.NodeID = w.uris()[v.NamespaceIndex], ua.NewNodeIDGUID(0, v.ID)
	case ua.NodeIDOpaque:
		x.NamespaceURI, x.NodeID = w.uris()[v.NamespaceIndex], ua.NewNodeIDOpaque(0, v.ID)
	}
	return x
}

// local maps an expanded id back, independently of the code.
func local(x ua.ExpandedNodeID, uris []string) ua.NodeID {
	if x.NamespaceURI == "" {
		return x.NodeID
	}
	ns := -1
	for i, u := range uris {
		if u == x.NamespaceURI {
			ns = i
		}
	}
	if ns < 0 {
		return nil
	}
	switch v := x.NodeID.(type) {
	case ua.NodeIDNumeric:
		return ua.NewNodeIDNumeric(uint16(ns), v.ID)
	case ua.NodeIDString:
		return ua.NewNodeIDString(uint16(ns), v.ID)
	case ua.NodeIDGUID:
		return ua.NewNodeIDGUID(uint16(ns), v.ID)
	case ua.NodeIDOpaque:
		return ua.NewNodeIDOpaque(uint16(ns), v.ID)
	}
	return nil
}

func drawPerms(t *rapid.T, l string) []ua.RolePermissionType {
	switch rapid.IntRange(0, 5).Draw(t, l+"perms") {
	case 0, 1, 2:
		return nil
	case 3:
		return []ua.RolePermissionType{}
	}
	r := []ua.RolePermissionType{}
	for i := 0; i < 3; i++ {
		if rapid.Bool().Draw(t, l+"has") {
			p := ua.PermissionType(rapid.IntRange(0, 0x1FFFF).Draw(t, l+"p"))
			if rapid.Bool().Draw(t, l+"browse") {
				p |= ua.PermissionTypeBrowse
			}
			r = append(r, ua.RolePermissionType{RoleID: role(i), Permissions: p})
		}
	}
	return r
}

// drawGraph draws nodes and edges; names names the browse names, so that they collide.
func drawGraph(t *rapid.T, maxNodes, maxEdges int) *graph {
	g := &graph{}
	n := rapid.IntRange(1, maxNodes).Draw(t, "nodes")
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("n%d", i)
		x := &gnode{id: w.id(t, l), bn: qn(pick(t, l+"ns", uint16(2), 2, 3, 0), pick(t, l+"bn", "a", "a", "b", "c")), dn: ua.NewLocalizedText(gen.Str(t, valOpts, l+"dn"), "en"), perms: drawPerms(t, l)}
		x.class = pick(t, l+"class", ua.NodeClassObject, ua.NodeClassObject, ua.NodeClassVariable, ua.NodeClassVariable, ua.NodeClassMethod, ua.NodeClassObjectType, ua.NodeClassVariableType, ua.NodeClassReferenceType, ua.NodeClassDataType, ua.NodeClassView)
		if x.class == ua.NodeClassObject || x.class == ua.NodeClassVariable {
			x.td = pick(t, l+"td", nil, num(0, 58), num(0, 61), num(0, 63), num(0, 68))
		}
		g.nodes = append(g.nodes, x)
	}
	m := rapid.IntRange(0, maxEdges).Draw(t, "edges")
	hub := rapid.IntRange(0, n-1).Draw(t, "hub")
	seen := map[string]bool{}
	for i := 0; i < m; i++ {
		l := fmt.Sprintf("e%d", i)
		e := edge{src: rapid.IntRange(0, n-1).Draw(t, l+"s"), dst: rapid.IntRange(0, n-1).Draw(t, l+"d"), rt: rapid.SampledFrom(rts).Draw(t, l+"t")}
		if rapid.Bool().Draw(t, l+"hub") {
			e.src = hub
		}
		k := fmt.Sprint(e)
		if seen[k] {
			continue
		}
		seen[k] = true
		g.edges = append(g.edges, e)
		side := rapid.IntRange(0, 3).Draw(t, l+"side") // who declares it
		if side != 1 {
			g.nodes[e.src].decl = append(g.nodes[e.src].decl, ua.Reference{ReferenceTypeID: e.rt, TargetID: xid(t, g.nodes[e.dst].id, l)})
		}
		if side == 1 || side == 2 {
			g.nodes[e.dst].decl = append(g.nodes[e.dst].decl, ua.Reference{ReferenceTypeID: e.rt, IsInverse: true, TargetID: xid(t, g.nodes[e.src].id, l+"i")})
		}
	}
	return g
}

func (g *graph) build() []server.Node {
	ns := []server.Node{}
	for _, x := range g.nodes {
		refs := x.decl
		if x.td != nil {
			refs = append([]ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDHasTypeDefinition, TargetID: ua.NewExpandedNodeID(x.td)}}, refs...)
		}
		ns = append(ns, mkNode(x.class, x.id, x.bn, x.dn, x.perms, refs))
	}
	return ns
}

func mkNode(class ua.NodeClass, id ua.NodeID, bn ua.QualifiedName, dn ua.LocalizedText, perms []ua.RolePermissionType, refs []ua.Reference) server.Node {
	var n server.Node
	switch class {
	case ua.NodeClassObject:
		n = server.NewObjectNode(w.Server, id, bn, dn, lt(""), perms, refs, 0)
	case ua.NodeClassVariable:
		n = server.NewVariableNode(w.Server, id, bn, dn, lt(""), perms, refs, ua.DataValue{}, ua.DataTypeIDInt32, -1, nil, 3, 0, false, nil)
	case ua.NodeClassMethod:
		n = server.NewMethodNode(w.Server, id, bn, dn, lt(""), perms, refs, true)
	case ua.NodeClassObjectType:
		n = server.NewObjectTypeNode(w.Server, id, bn, dn, lt(""), perms, refs, false)
	case ua.NodeClassVariableType:
		n = server.NewVariableTypeNode(w.Server, id, bn, dn, lt(""), perms, refs, ua.DataValue{}, ua.DataTypeIDInt32, -1, nil, false)
	case ua.NodeClassReferenceType:
		n = server.NewReferenceTypeNode(w.Server, id, bn, dn, lt(""), perms, refs, false, false, lt(""))
	case ua.NodeClassDataType:
		n = server.NewDataTypeNode(w.Server, id, bn, dn, lt(""), perms, refs, false, nil)
	default:
		n = server.NewViewNode(w.Server, id, bn, dn, lt(""), perms, refs, false, 0)
	}
	return n
}

// mref is a reference as the model sees it from one node.
type mref struct {
	rt      ua.NodeID
	forward bool
	target  int // index, or -1 for the type definition
}

func (g *graph) refs(i int) (r []mref) {
	if g.nodes[i].td != nil {
		r = append(r, mref{num(0, 40), true, -1})
	}
	for _, e := range g.edges {
		if e.src == i {
			r = append(r, mref{e.rt, true, e.dst})
		}
		if e.dst == i {
			r = append(r, mref{e.rt, false, e.src})
		}
	}
	return
}

var stdInfo = map[ua.NodeID]struct {
	class  ua.NodeClass
	bn, dn string
}{
	num(0, 58): {ua.NodeClassObjectType, "BaseObjectType", "BaseObjectType"}, num(0, 61): {ua.NodeClassObjectType, "FolderType", "FolderType"},
	num(0, 63): {ua.NodeClassVariableType, "BaseDataVariableType", "BaseDataVariableType"}, num(0, 68): {ua.NodeClassVariableType, "PropertyType", "PropertyType"},
}

// expectBrowse returns the multiset of descriptions.
func (g *graph) expectBrowse(i, roles int, d ua.BrowseDescription) []string {
	out := []string{}
	for _, r := range g.refs(i) {
		if d.BrowseDirection == ua.BrowseDirectionForward && !r.forward || d.BrowseDirection == ua.BrowseDirectionInverse && r.forward {
			continue
		}
		if !rtIs(r.rt, d.ReferenceTypeID, d.IncludeSubtypes) {
			continue
		}
		rd := ua.ReferenceDescription{}
		class := ua.NodeClassUnspecified
		var td ua.NodeID
		if r.target < 0 {
			if !may(nil, roles, ua.PermissionTypeBrowse) {
				continue
			}
			si := stdInfo[g.nodes[i].td]
			rd.NodeID = ua.NewExpandedNodeID(g.nodes[i].td)
			class, rd.BrowseName, rd.DisplayName = si.class, qn(0, si.bn), ua.NewLocalizedText(si.dn, "")
		} else {
			t := g.nodes[r.target]
			if !may(t.perms, roles, ua.PermissionTypeBrowse) {
				continue
			}
			rd.NodeID, class, rd.BrowseName, rd.DisplayName, td = ua.NewExpandedNodeID(t.id), t.class, t.bn, t.dn, t.td
		}
		if d.NodeClassMask != 0 && d.NodeClassMask&uint32(class) == 0 {
			continue
		}
		rd.ReferenceTypeID, rd.IsForward, rd.NodeClass = r.rt, r.forward, class
		if td != nil {
			rd.TypeDefinition = ua.NewExpandedNodeID(td)
		}
		if d.ResultMask&1 == 0 {
			rd.ReferenceTypeID = nil
		}
		if d.ResultMask&2 == 0 {
			rd.IsForward = false
		}
		if d.ResultMask&4 == 0 {
			rd.NodeClass = 0
		}
		if d.ResultMask&8 == 0 {
			rd.BrowseName = ua.QualifiedName{}
		}
		if d.ResultMask&16 == 0 {
			rd.DisplayName = ua.LocalizedText{}
		}
		if d.ResultMask&32 == 0 {
			rd.TypeDefinition = ua.ExpandedNodeID{}
		}
		out = append(out, rdText(rd))
	}
	sort.Strings(out)
	return out
}

// rdText is a canonical text of a description; the locale of names of standard nodes is left out.
func rdText(rd ua.ReferenceDescription) string {
	rt := "-"
	if rd.ReferenceTypeID != nil && rd.ReferenceTypeID != num(0, 0) {
		rt = fmt.Sprint(rd.ReferenceTypeID)
	}
	td := "-"
	if x := local(rd.TypeDefinition, w.uris()); x != nil && x != num(0, 0) {
		td = fmt.Sprint(x)
	}
	return fmt.Sprintf("%s fwd=%v -> %v class %d bn %d:%q dn %q td %s", rt, rd.IsForward, local(rd.NodeID, w.uris()), rd.NodeClass, rd.BrowseName.NamespaceIndex, rd.BrowseName.Name, rd.DisplayName.Text, td)
}

func texts(rs []ua.ReferenceDescription) []string {
	r := []string{}
	for _, x := range rs {
		r = append(r, rdText(x))
	}
	return r
}

func sorted(s []string) []string { r := append([]string{}, s...); sort.Strings(r); return r }

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type cpoint struct {
	cp   ua.ByteString
	rest []string // what is still to come, in order
	page int
	full []string
}

type bsess struct {
	s     *wire.Session
	roles int
	cps   []*cpoint
	old   []ua.ByteString
}

func browseHistory(c *kit.C) {
	t := c.T
	g := drawGraph(t, 7, 24)
	defer w.add(g.build()...)()
	us := []*bsess{{s: w.ses, roles: 1}, {s: w.user("m2"), roles: 2}, {s: w.user("m7"), roles: 7}, {s: w.user("m07"), roles: 7}}
	defer func() {
		for _, u := range us {
			for _, p := range u.cps {
				wire.Do[ua.BrowseNextResponse](u.s, &ua.BrowseNextRequest{ReleaseContinuationPoints: true, ContinuationPoints: []ua.ByteString{p.cp}})
			}
		}
	}()
	for step, k := 0, rapid.IntRange(1, 8).Draw(t, "steps"); step < k; step++ {
		l := fmt.Sprintf("s%d", step)
		u := rapid.SampledFrom(us).Draw(t, l+"who")
		op := rapid.IntRange(0, 9).Draw(t, l+"op")
		if op < 4 || (op < 8 && len(u.cps) == 0) {
			req := &ua.BrowseRequest{RequestedMaxReferencesPerNode: uint32(pick(t, l+"page", 0, 0, 1, 1, 2, 3, 5, 1000, math.MaxInt32))}
			idx := []int{}
			cnt := rapid.IntRange(0, 4).Draw(t, l+"cnt")
			if rapid.IntRange(0, 19).Draw(t, l+"many") == 0 {
				cnt, req.RequestedMaxReferencesPerNode = rapid.IntRange(browseLimit, browseLimit+2).Draw(t, l+"cnt2"), 0
			}
			for i := 0; i < cnt; i++ {
				li := fmt.Sprintf("%sd%d", l, i)
				d := ua.BrowseDescription{BrowseDirection: ua.BrowseDirection(pick(t, li+"dir", 0, 1, 2, 2, 2)), ReferenceTypeID: rapid.SampledFrom(rtAsk).Draw(t, li+"rt"),
					IncludeSubtypes: rapid.Bool().Draw(t, li+"sub"), ResultMask: uint32(pick(t, li+"rm", 63, 63, rapid.IntRange(0, 63).Draw(t, li+"rmv")))}
				if rapid.Bool().Draw(t, li+"all") {
					d.ReferenceTypeID = nil
				}
				if rapid.IntRange(0, 2).Draw(t, li+"masked") == 0 {
					d.NodeClassMask = uint32(rapid.IntRange(0, 255).Draw(t, li+"mask"))
				}
				x := rapid.IntRange(0, len(g.nodes)-1).Draw(t, li+"node")
				d.NodeID = g.nodes[x].id
				switch rapid.IntRange(0, 19).Draw(t, li+"err") {
				case 0:
					d.NodeID, x = ua.NewNodeIDString(2, "nope"), -1
				case 1:
					d.BrowseDirection, x = ua.BrowseDirection(pick(t, li+"bd", 3, -1, 99)), -2
				case 2:
					d.ReferenceTypeID, x = pick(t, li+"brt", num(0, 85), num(0, 999999), ua.NodeID(ua.NewNodeIDString(2, "nope"))), -3
				}
				idx = append(idx, x)
				req.NodesToBrowse = append(req.NodesToBrowse, d)
			}
			viewBad := false
			if rapid.IntRange(0, 9).Draw(t, l+"view") == 0 {
				req.View = ua.ViewDescription{ViewID: pick(t, l+"vid", num(0, 85), ua.NodeID(ua.NewNodeIDString(2, "nope")))}
				viewBad = true
			}
			r, code := do[ua.BrowseResponse](c, u.s, req)
			want := []ua.StatusCode{}
			if viewBad {
				want = append(want, ua.BadViewIDUnknown)
			}
			if cnt == 0 {
				want = append(want, ua.BadNothingToDo)
			}
			if cnt > browseLimit {
				want = append(want, ua.BadTooManyOperations)
			}
			if len(want) > 0 {
				if !in(code, want...) {
					c.Failf("browse of %d nodes answered with %s, want %x", cnt, hx(code), want)
				}
				continue
			}
			if code != 0 || len(r.Results) != cnt {
				c.Failf("browse of %d nodes answered with %s and %d results", cnt, hx(code), len(r.Results))
			}
			outstanding := len(u.cps)
			refused := 0
			for i, x := range idx {
				res := r.Results[i]
				d := req.NodesToBrowse[i]
				desc := fmt.Sprintf("browse of %v direction %d type %v subtypes %v classes %d results %d page %d as roles %d", d.NodeID, d.BrowseDirection, d.ReferenceTypeID, d.IncludeSubtypes, d.NodeClassMask, d.ResultMask, req.RequestedMaxReferencesPerNode, u.roles)
				bad := ua.StatusCode(0)
				switch x {
				case -1:
					bad = ua.BadNodeIDUnknown
				case -2:
					bad = ua.BadBrowseDirectionInvalid
				case -3:
					bad = ua.BadReferenceTypeIDInvalid
					// a hidden node may be reported first
					if res.StatusCode == ua.BadNodeIDUnknown {
						bad = ua.BadNodeIDUnknown
					}
				default:
					if !may(g.nodes[x].perms, u.roles, ua.PermissionTypeBrowse) {
						bad = ua.BadNodeIDUnknown
					}
				}
				if bad != 0 {
					if res.StatusCode != bad || len(res.References) != 0 || len(res.ContinuationPoint) != 0 {
						c.Failf("%s: status %s with %d references, want %s", desc, hx(res.StatusCode), len(res.References), hx(bad))
					}
					continue
				}
				all := g.expectBrowse(x, u.roles, d)
				page := int(req.RequestedMaxReferencesPerNode)
				c.NT(fmt.Sprintf("%d refs page %d: %s", len(all), page, desc))
				if res.StatusCode == ua.BadNoContinuationPoints && page > 0 && len(all) > page {
					refused++
					continue
				}
				if res.StatusCode != 0 {
					c.Failf("%s: status %s", desc, hx(res.StatusCode))
				}
				got := texts(res.References)
				if page == 0 || len(all) <= page {
					if !same(sorted(got), all) || len(res.ContinuationPoint) != 0 {
						c.Failf("%s: got %d references and continuation point %x\n got  %s\n want %s", desc, len(got), string(res.ContinuationPoint), strings.Join(sorted(got), "\n      "), strings.Join(all, "\n      "))
					}
					c.Label("whole")
					continue
				}
				if len(got) != page || len(res.ContinuationPoint) == 0 {
					c.Failf("%s: got %d references and continuation point %x of %d references", desc, len(got), string(res.ContinuationPoint), len(all))
				}
				// the order is that of an unpaged browse
				q := &ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{d}}
				fr, code := do[ua.BrowseResponse](c, u.s, q)
				if code != 0 || len(fr.Results) != 1 {
					c.Failf("%s: unpaged: %s", desc, hx(code))
				}
				full := texts(fr.Results[0].References)
				if !same(sorted(full), all) {
					c.Failf("%s: unpaged browse has\n      %s\n want %s", desc, strings.Join(sorted(full), "\n      "), strings.Join(all, "\n      "))
				}
				if !same(got, full[:page]) {
					c.Failf("%s: the first page is not the beginning of the unpaged browse:\n %s\n---\n %s", desc, strings.Join(got, "\n "), strings.Join(full, "\n "))
				}
				for _, p := range u.cps {
					if p.cp == res.ContinuationPoint {
						c.Failf("%s: continuation point %x is already in use", desc, string(p.cp))
					}
				}
				u.cps = append(u.cps, &cpoint{cp: res.ContinuationPoint, rest: full[page:], page: page, full: full})
				c.Label("paged")
			}
			if len(u.cps) > cpLimit {
				c.Failf("%d continuation points with a limit of %d", len(u.cps), cpLimit)
			}
			if refused > 0 {
				c.Label("no continuation points")
				if len(u.cps) < cpLimit {
					c.Failf("BadNoContinuationPoints with %d of %d continuation points in use (%d before)", len(u.cps), cpLimit, outstanding)
				}
			}
			continue
		}
		// BrowseNext with a mix of own, used, foreign and made up continuation points
		req := &ua.BrowseNextRequest{ReleaseContinuationPoints: rapid.IntRange(0, 3).Draw(t, l+"rel") == 0}
		use := []*cpoint{}
		cnt := rapid.IntRange(1, 3).Draw(t, l+"cnt")
		used := map[*cpoint]bool{}
		for i := 0; i < cnt; i++ {
			li := fmt.Sprintf("%sc%d", l, i)
			var p *cpoint
			var b ua.ByteString
			switch rapid.IntRange(0, 9).Draw(t, li+"kind") {
			case 0:
				b = ua.ByteString(rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, li+"rnd"))
			case 1:
				if len(u.old) > 0 {
					b = rapid.SampledFrom(u.old).Draw(t, li+"old")
				}
			case 2:
				v := rapid.SampledFrom(us).Draw(t, li+"other")
				if v != u && len(v.cps) > 0 {
					b = rapid.SampledFrom(v.cps).Draw(t, li+"foreign").cp
					for _, o := range u.cps {
						if o.cp == b { // both sessions may use the same bytes
							p = o
						}
					}
				}
			}
			if b == "" && len(u.cps) > 0 {
				p = rapid.SampledFrom(u.cps).Draw(t, li+"own")
				b = p.cp
			}
			if b == "" {
				b = "nope"
			}
			if p == nil { // by chance
				for _, o := range u.cps {
					if o.cp == b {
						p = o
					}
				}
			}
			if p != nil && used[p] {
				continue
			}
			used[p] = true
			use = append(use, p)
			req.ContinuationPoints = append(req.ContinuationPoints, b)
		}
		if len(use) == 0 {
			continue
		}
		r, code := do[ua.BrowseNextResponse](c, u.s, req)
		if code != 0 || len(r.Results) != len(use) {
			c.Failf("browse next answered with %s", hx(code))
		}
		for i, p := range use {
			res := r.Results[i]
			b := req.ContinuationPoints[i]
			desc := fmt.Sprintf("browse next of %x release %v", string(b), req.ReleaseContinuationPoints)
			if p == nil {
				c.NT("invalid cp " + fmt.Sprint(len(b)))
				if res.StatusCode != ua.BadContinuationPointInvalid || len(res.References) != 0 {
					c.Failf("%s of a point this session does not have: %s, %d references", desc, hx(res.StatusCode), len(res.References))
				}
				continue
			}
			for j, o := range u.cps {
				if o == p {
					u.cps = append(u.cps[:j:j], u.cps[j+1:]...)
					break
				}
			}
			u.old = append(u.old, b)
			if res.StatusCode != 0 {
				c.Failf("%s: %s", desc, hx(res.StatusCode))
			}
			if req.ReleaseContinuationPoints {
				if len(res.References) != 0 || len(res.ContinuationPoint) != 0 {
					c.Failf("%s: %d references, point %x", desc, len(res.References), string(res.ContinuationPoint))
				}
				c.Label("released")
				continue
			}
			got := texts(res.References)
			wantN := min(p.page, len(p.rest))
			if !same(got, p.rest[:wantN]) {
				c.Failf("%s: page\n %s\nshould be\n %s", desc, strings.Join(got, "\n "), strings.Join(p.rest[:wantN], "\n "))
			}
			rest := p.rest[wantN:]
			if (len(rest) > 0) != (len(res.ContinuationPoint) > 0) {
				c.Failf("%s: %d references to come, continuation point %x", desc, len(rest), string(res.ContinuationPoint))
			}
			c.Label("next page")
			c.NT(fmt.Sprintf("next %d of %d", wantN, len(p.full)))
			if len(rest) > 0 {
				u.cps = append(u.cps, &cpoint{cp: res.ContinuationPoint, rest: rest, page: p.page, full: p.full})
				for j, o := range u.old { // identifiers may be used again only after they were given out again
					if o == res.ContinuationPoint {
						u.old = append(u.old[:j:j], u.old[j+1:]...)
						break
					}
				}
			}
		}
	}
}

func translate(c *kit.C) {
	t := c.T
	g := drawGraph(t, 8, 20)
	defer w.add(g.build()...)()
	u := pick(t, "who", &bsess{s: w.ses, roles: 1}, &bsess{s: w.ses, roles: 1}, &bsess{s: w.user("m2"), roles: 2}, &bsess{s: w.user("m7"), roles: 7})
	n := rapid.IntRange(0, 5).Draw(t, "paths")
	if rapid.IntRange(0, 29).Draw(t, "many") == 0 {
		n = browseLimit + rapid.IntRange(0, 2).Draw(t, "over")
	}
	req := &ua.TranslateBrowsePathsToNodeIDsRequest{}
	starts := []int{}
	for i := 0; i < n; i++ {
		l := fmt.Sprintf("p%d", i)
		x := rapid.IntRange(0, len(g.nodes)-1).Draw(t, l+"start")
		bp := ua.BrowsePath{StartingNode: g.nodes[x].id}
		at := x
		for k, m := 0, pick(t, l+"len", 1, 1, 2, 2, 3, 4, 0); k < m; k++ {
			lk := fmt.Sprintf("%se%d", l, k)
			e := ua.RelativePathElement{ReferenceTypeID: rapid.SampledFrom(rtAsk).Draw(t, lk+"rt"), IsInverse: rapid.Bool().Draw(t, lk+"inv"), IncludeSubtypes: rapid.Bool().Draw(t, lk+"sub"),
				TargetName: qn(pick(t, lk+"ns", uint16(2), 2, 3, 0), pick(t, lk+"bn", "a", "a", "b", "c"))}
			// most of the time follow a reference that exists
			if rs := g.refs(at); len(rs) > 0 && rapid.IntRange(0, 5).Draw(t, lk+"walk") > 0 {
				r := rapid.SampledFrom(rs).Draw(t, lk+"ref")
				if r.target >= 0 {
					e.IsInverse, e.TargetName, at = !r.forward, g.nodes[r.target].bn, r.target
					if !rtIs(r.rt, e.ReferenceTypeID, e.IncludeSubtypes) {
						e.ReferenceTypeID = r.rt
					}
				}
			}
			if rapid.IntRange(0, 29).Draw(t, lk+"noname") == 0 {
				e.TargetName.Name = ""
			}
			bp.RelativePath.Elements = append(bp.RelativePath.Elements, e)
		}
		if rapid.IntRange(0, 19).Draw(t, l+"unk") == 0 {
			bp.StartingNode, x = ua.NewNodeIDString(2, "nope"), -1
		}
		starts = append(starts, x)
		req.BrowsePaths = append(req.BrowsePaths, bp)
	}
	r, code := do[ua.TranslateBrowsePathsToNodeIDsResponse](c, u.s, req)
	if n == 0 || n > browseLimit {
		want := ua.BadNothingToDo
		if n > 0 {
			want = ua.BadTooManyOperations
		}
		if code != want {
			c.Failf("%d paths answered with %s", n, hx(code))
		}
		return
	}
	if code != 0 || len(r.Results) != n {
		c.Failf("%d paths answered with %s", n, hx(code))
	}
	for i, bp := range req.BrowsePaths {
		res := r.Results[i]
		desc := fmt.Sprintf("path %+v from %v as roles %d", bp.RelativePath.Elements, bp.StartingNode, u.roles)
		es := bp.RelativePath.Elements
		judged := true
		bad := []ua.StatusCode{}
		if len(es) == 0 {
			bad = append(bad, ua.BadNothingToDo)
		}
		for k, e := range es {
			if e.TargetName.Name == "" {
				bad = append(bad, ua.BadBrowseNameInvalid)
				if k == len(es)-1 {
					judged = false // Part 4 allows it, the server need not
				}
			}
		}
		if starts[i] < 0 || !may(g.nodes[starts[i]].perms, u.roles, ua.PermissionTypeBrowse) {
			bad = append(bad, ua.BadNodeIDUnknown)
		}
		if !judged {
			continue
		}
		if len(bad) == 0 {
			cur := map[int]bool{starts[i]: true}
			depth := 0
			for _, e := range es {
				next := map[int]bool{}
				for x := range cur {
					for _, rf := range g.refs(x) {
						if rf.target < 0 || rf.forward == e.IsInverse || !rtIs(rf.rt, e.ReferenceTypeID, e.IncludeSubtypes) || g.nodes[rf.target].bn != e.TargetName || !may(g.nodes[rf.target].perms, u.roles, ua.PermissionTypeBrowse) {
							continue
						}
						next[rf.target] = true
					}
				}
				cur = next
				if len(cur) > 0 {
					depth++
				}
			}
			c.NT(fmt.Sprintf("%d of %d elements, %d targets: %s", depth, len(es), len(cur), desc))
			if len(cur) > 0 {
				want, got := []string{}, []string{}
				for x := range cur {
					want = append(want, fmt.Sprint(g.nodes[x].id))
				}
				for _, tg := range res.Targets {
					if tg.RemainingPathIndex != math.MaxUint32 {
						c.Failf("%s: remaining path index %d", desc, tg.RemainingPathIndex)
					}
					got = append(got, fmt.Sprint(local(tg.TargetID, w.uris())))
				}
				c.Label("match")
				if res.StatusCode != 0 || !same(uniq(got), uniq(want)) {
					c.Failf("%s: %s with targets %v, want %v", desc, hx(res.StatusCode), uniq(got), uniq(want))
				}
				continue
			}
			c.Label("no match")
			bad = append(bad, ua.BadNoMatch)
		}
		if !in(res.StatusCode, bad...) || len(res.Targets) != 0 {
			c.Failf("%s: %s with %d targets, want %x", desc, hx(res.StatusCode), len(res.Targets), bad)
		}
	}
}

func uniq(s []string) []string {
	r := []string{}
	for i, x := range sorted(s) {
		if i == 0 || r[len(r)-1] != x {
			r = append(r, x)
		}
	}
	return r
}

func init() {
	_ = ref.Diff
	kit.Register(&kit.Check{
		ID:          "C17",
		Rule:        "random graphs of nodes of every class with typed references (custom subtypes, self loops, declared from either end), visibility by role, and histories of Browse, BrowseNext and release by four sessions with continuation points at the limit, used, foreign and made up; results are compared with the model graph; non-trivial: every judged result, distinct by filter, page and size",
		Assumptions: []string{"the graph does not change while a continuation point is held", "an empty continuation point is not judged"},
		Subs:        []kit.Sub{{Name: "history", Quick: 12000, Thorough: 400000, Shards: 6, Fn: browseHistory, Setup: graphSetup}},
	})
	kit.Register(&kit.Check{
		ID:          "C18",
		Rule:        "random graphs with colliding browse names and relative paths that mostly follow existing references; targets are compared with the set a path search over the model graph finds; non-trivial: every judged path, distinct by path and number of targets",
		Assumptions: []string{"an empty name in the last element is not judged", "duplicates and order of targets are not judged"},
		Subs:        []kit.Sub{{Name: "paths", Quick: 20000, Thorough: 600000, Shards: 6, Fn: translate, Setup: graphSetup}},
	})
}
