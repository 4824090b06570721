package props

import (
	"encoding/xml"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/harness/env"
	"verif/harness/kit"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"github.com/google/uuid"
	"pgregory.net/rapid"
)

// returns runs a call of the code under test that must return.
func returns(c *kit.C, what string, f func()) {
	if !kit.Within(20*time.Second, f) {
		c.Hardf("%s does not return", what)
	}
}

type rkey struct {
	rt  ua.NodeID
	inv bool
	to  ua.NodeID
}

func (k rkey) String() string {
	if k.inv {
		return fmt.Sprintf("<%v-%v", k.rt, k.to)
	}
	return fmt.Sprintf("-%v>%v", k.rt, k.to)
}

type snode struct {
	node  server.Node
	class ua.NodeClass
	bn    ua.QualifiedName
	refs  map[rkey]bool
}

type space struct {
	in   map[ua.NodeID]*snode          // present nodes of the case
	std  map[ua.NodeID]map[rkey]bool   // references of standard nodes to nodes of the case
	base map[ua.NodeID]map[string]bool // other references of standard nodes
}

var owning = []ua.NodeID{num(0, 47), num(0, 46), num(0, 45), num(0, 49)} // HasComponent, HasProperty, HasSubtype, HasOrderedComponent
var spaceRts = []ua.NodeID{num(0, 47), num(0, 47), num(0, 46), num(0, 45), num(0, 49), num(0, 35), num(0, 36), num(0, 40), num(0, 37)}

func oneWay(rt ua.NodeID) bool { return rt == num(0, 40) || rt == num(0, 37) }

// The last ones are added by spaceSetup.
var stdParents = []ua.NodeID{num(0, 85), num(0, 2253), num(0, 58), num(0, 2004), ua.NewNodeIDString(0, "verif"), ua.NewNodeIDGUID(0, uuid.UUID{7, 8, 9}), ua.NewNodeIDOpaque(0, "verif"), num(0, 4000000000)}

func spaceSetup() func() {
	done := setup()()
	for _, id := range stdParents[4:] {
		w.NamespaceManager().AddNode(server.NewObjectNode(w.Server, id, qn(0, "std"), lt("std"), lt(""), nil, objRefs(ua.ObjectIDObjectsFolder), 0))
	}
	return done
}

func (s *space) refsOf(id ua.NodeID) map[rkey]bool {
	if n, ok := s.in[id]; ok {
		return n.refs
	}
	return s.std[id]
}

func (s *space) present(id ua.NodeID) bool {
	_, ok := s.in[id]
	return ok || s.std[id] != nil
}

func (s *space) add(ns []*snode) {
	for _, n := range ns {
		s.in[n.node.NodeID()] = n
	}
	for _, n := range ns {
		for k := range n.refs {
			if !oneWay(k.rt) && s.present(k.to) {
				s.refsOf(k.to)[rkey{k.rt, !k.inv, n.node.NodeID()}] = true
			}
		}
	}
}

func (s *space) del(id ua.NodeID) bool {
	n, ok := s.in[id]
	if !ok {
		return false
	}
	for k := range n.refs {
		if !oneWay(k.rt) && s.present(k.to) {
			delete(s.refsOf(k.to), rkey{k.rt, !k.inv, id})
		}
	}
	delete(s.in, id)
	return true
}

// owned is the set of nodes of the case reachable over ownership references, without the start.
func (s *space) owned(id ua.NodeID) []ua.NodeID {
	seen := map[ua.NodeID]bool{id: true}
	q := []ua.NodeID{id}
	r := []ua.NodeID{}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		for k := range s.refsOf(x) {
			if !k.inv && in(k.rt, owning...) && !seen[k.to] && s.present(k.to) {
				seen[k.to] = true
				q = append(q, k.to)
				if s.in[k.to] != nil {
					r = append(r, k.to)
				}
			}
		}
	}
	return r
}

func refsText(m map[rkey]bool) string {
	r := []string{}
	for k := range m {
		r = append(r, k.String())
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func asKeys(rs []ua.Reference) map[rkey]bool {
	m := map[rkey]bool{}
	for _, r := range rs {
		m[rkey{r.ReferenceTypeID, r.IsInverse, local(r.TargetID, w.uris())}] = true
	}
	return m
}

// verify compares the whole model with the address space.
func (s *space) verify(c *kit.C, ids []ua.NodeID, desc string) {
	nm := w.NamespaceManager()
	mine := map[ua.NodeID]bool{}
	for _, id := range ids {
		mine[id] = true
	}
	for _, id := range ids {
		got, ok := nm.FindNode(id)
		want := s.in[id]
		if ok != (want != nil) {
			c.Failf("%s: node %v found: %v, want %v", desc, id, ok, want != nil)
		}
		_, isObj := nm.FindObject(id)
		_, isVar := nm.FindVariable(id)
		_, isMet := nm.FindMethod(id)
		if isObj != (want != nil && want.class == ua.NodeClassObject) || isVar != (want != nil && want.class == ua.NodeClassVariable) || isMet != (want != nil && want.class == ua.NodeClassMethod) {
			c.Failf("%s: node %v (present: %v) is found as object %v, variable %v, method %v", desc, id, want != nil, isObj, isVar, isMet)
		}
		if want == nil {
			continue
		}
		if got != want.node {
			c.Failf("%s: another node than the added one is found for %v", desc, id)
		}
		gk := asKeys(got.References())
		for k := range want.refs {
			if !gk[k] && !(oneWay(k.rt) && !s.present(k.to)) {
				c.Failf("%s: node %v has lost or never got the reference %v; has %s, want %s", desc, id, k, refsText(gk), refsText(want.refs))
			}
		}
		for k := range gk {
			if !want.refs[k] {
				c.Failf("%s: node %v has the reference %v which should not exist (target present: %v); has %s, want %s", desc, id, k, s.present(k.to), refsText(gk), refsText(want.refs))
			}
		}
		for _, bn := range []ua.QualifiedName{qn(2, "a"), qn(2, "b"), qn(1, "a"), qn(1, "b")} {
			var props, comps []server.Node
			for k := range want.refs {
				if t := s.in[k.to]; t != nil && !k.inv && t.bn == bn {
					if k.rt == num(0, 46) {
						props = append(props, t.node)
					}
					if k.rt == num(0, 47) {
						comps = append(comps, t.node)
					}
				}
			}
			p, ok := nm.FindProperty(got, bn)
			hit, vars := false, len(props) > 0
			for _, x := range props {
				hit = hit || x == server.Node(p)
				if _, v := x.(*server.VariableNode); !v {
					vars = false
				}
			}
			if len(props) == 0 && ok || vars && !ok || ok && !hit {
				c.Failf("%s: property %v of %v: found %v, want one of %d", desc, bn, id, ok, len(props))
			}
			q, ok := nm.FindComponent(got, bn)
			hit = false
			for _, x := range comps {
				hit = hit || x == q
			}
			if ok != (len(comps) > 0) || ok && !hit {
				c.Failf("%s: component %v of %v: found %v, want one of %d", desc, bn, id, ok, len(comps))
			}
		}
	}
	for _, id := range stdParents {
		n, ok := nm.FindNode(id)
		if !ok {
			c.Failf("%s: the standard node %v is gone", desc, id)
		}
		base := map[string]bool{}
		for k := range asKeys(n.References()) {
			if mine[k.to] {
				if !s.std[id][k] {
					c.Failf("%s: standard node %v has the reference %v which should not exist (target present: %v)", desc, id, k, s.in[k.to] != nil)
				}
			} else {
				base[k.String()] = true
			}
		}
		gk := asKeys(n.References())
		for k := range s.std[id] {
			if !gk[k] {
				c.Failf("%s: standard node %v misses the reference %v", desc, id, k)
			}
		}
		for k := range s.base[id] {
			if !base[k] {
				c.Failf("%s: standard node %v has lost its reference %v", desc, id, k)
			}
		}
		if len(base) != len(s.base[id]) {
			c.Failf("%s: standard node %v has new references to foreign nodes", desc, id)
		}
	}
}

func spaceHistory(c *kit.C) {
	t := c.T
	nm := w.NamespaceManager()
	ids := []ua.NodeID{}
	for i, n := 0, rapid.IntRange(2, 10).Draw(t, "ids"); i < n; i++ {
		ids = append(ids, w.id(t, fmt.Sprintf("id%d", i)))
	}
	never := w.id(t, "never")
	s := &space{in: map[ua.NodeID]*snode{}, std: map[ua.NodeID]map[rkey]bool{}, base: map[ua.NodeID]map[string]bool{}}
	for _, id := range stdParents {
		n, _ := nm.FindNode(id)
		s.std[id], s.base[id] = map[rkey]bool{}, map[string]bool{}
		for k := range asKeys(n.References()) {
			s.base[id][k.String()] = true
		}
	}
	defer func() {
		for _, n := range s.in {
			nm.DeleteNode(n.node, false)
		}
	}()
	trace := []string{}
	step := func(f string, a ...any) string {
		trace = append(trace, fmt.Sprintf(f, a...))
		return strings.Join(trace, "; ")
	}
	big := rapid.IntRange(0, 3).Draw(t, "dense")
	for i, k := 0, rapid.IntRange(1, 8).Draw(t, "steps"); i < k; i++ {
		l := fmt.Sprintf("s%d", i)
		absent, here := []ua.NodeID{}, []ua.NodeID{}
		for _, id := range ids {
			if s.in[id] == nil {
				absent = append(absent, id)
			} else {
				here = append(here, id)
			}
		}
		op := rapid.IntRange(0, 9).Draw(t, l+"op")
		desc := ""
		switch {
		case len(here) == 0 || op < 4 && len(absent) > 0:
			n := rapid.IntRange(1, min(len(absent), 1+2*big)).Draw(t, l+"n")
			batch := absent[:n]
			targets := append(append([]ua.NodeID{}, here...), batch...)
			add := []*snode{}
			seenAll := ""
			for j, id := range batch {
				lj := fmt.Sprintf("%sa%d", l, j)
				x := &snode{class: pick(t, lj+"class", ua.NodeClassObject, ua.NodeClassVariable, ua.NodeClassMethod, ua.NodeClassObjectType, ua.NodeClassDataType), bn: pick(t, lj+"bn", qn(2, "a"), qn(2, "b"), qn(1, "a"), qn(2, "a")), refs: map[rkey]bool{}}
				decl := []ua.Reference{}
				for q, m := 0, rapid.IntRange(0, 1+big).Draw(t, lj+"refs"); q < m; q++ {
					lq := fmt.Sprintf("%sr%d", lj, q)
					rt := rapid.SampledFrom(spaceRts).Draw(t, lq+"t")
					inv := rapid.Bool().Draw(t, lq+"inv") && !oneWay(rt)
					to := ua.NodeID(nil)
					switch rapid.IntRange(0, 9).Draw(t, lq+"kind") {
					case 0:
						to = never
					case 1, 2:
						to = rapid.SampledFrom(stdParents).Draw(t, lq+"std")
						if !inv && in(rt, owning...) && (!in(to, num(0, 85), num(0, 2004)) || rapid.Bool().Draw(t, lq+"own")) {
							inv = true // standard nodes own nodes of the server that the model does not know
						}
					default:
						to = rapid.SampledFrom(targets).Draw(t, lq+"to")
					}
					if x.refs[rkey{rt, inv, to}] {
						continue
					}
					x.refs[rkey{rt, inv, to}] = true
					decl = append(decl, ua.Reference{ReferenceTypeID: rt, IsInverse: inv, TargetID: xid(t, to, lq)})
				}
				x.node = mkNode(x.class, id, x.bn, lt("x"), nil, decl)
				add = append(add, x)
				seenAll += fmt.Sprintf(" %v{%s}", id, refsText(x.refs))
			}
			desc = step("add%s", seenAll)
			nodes := []server.Node{}
			for _, x := range add {
				nodes = append(nodes, x.node)
			}
			var err error
			single := len(nodes) == 1 && rapid.Bool().Draw(t, l+"single")
			returns(c, desc, func() {
				if single {
					err = nm.AddNode(nodes[0])
				} else {
					err = nm.AddNodes(nodes...)
				}
			})
			if err != nil {
				c.Failf("%s: %v", desc, err)
			}
			s.add(add)
		case op < 6: // delete by node, optionally recursive, optionally several
			n := rapid.IntRange(1, min(3, len(here))).Draw(t, l+"n")
			at := rapid.IntRange(0, len(here)-n).Draw(t, l+"at")
			rec := rapid.Bool().Draw(t, l+"rec")
			del := here[at : at+n]
			if rec { // deleting by node does not spare standard nodes
				if s.reachesStd(del) {
					rec = false
				}
			}
			gone := map[ua.NodeID]bool{}
			nodes := []server.Node{}
			for _, id := range del {
				gone[id] = true
				nodes = append(nodes, s.in[id].node)
				if rec {
					for _, x := range s.owned(id) {
						gone[x] = true
					}
				}
			}
			desc = step("delete %v recursive %v", del, rec)
			single := n == 1 && rapid.Bool().Draw(t, l+"single")
			returns(c, desc, func() {
				if single {
					nm.DeleteNode(nodes[0], rec)
				} else {
					nm.DeleteNodes(nodes, rec)
				}
			})
			for id := range gone {
				s.del(id)
			}
			if len(gone) > n {
				c.Label("recursive delete of descendants")
			}
		case op < 8:
			id := rapid.SampledFrom(here).Draw(t, l+"id")
			desc = step("delete recursively by id %v", id)
			gone := append(s.owned(id), id)
			cnt, err := 0, error(nil)
			returns(c, desc, func() { cnt, err = nm.DeleteNodeByIDRecursive(id) })
			if err != nil || cnt != len(gone) {
				c.Failf("%s: reported %d deleted (%v), want %d", desc, cnt, err, len(gone))
			}
			for _, x := range gone {
				s.del(x)
			}
			if len(gone) > 1 {
				c.Label("recursive delete by id of descendants")
			}
		default:
			id := rapid.SampledFrom(ids).Draw(t, l+"id")
			want := error(nil)
			if s.in[id] == nil {
				want = ua.BadNodeIDUnknown
			}
			if rapid.IntRange(0, 2).Draw(t, l+"std") == 0 {
				id, want = rapid.SampledFrom(stdParents).Draw(t, l+"sid"), ua.BadNodeIDInvalid
			}
			var err error
			if rapid.Bool().Draw(t, l+"rec") && want != nil {
				desc = step("delete recursively by id %v", id)
				cnt := 0
				returns(c, desc, func() { cnt, err = nm.DeleteNodeByIDRecursive(id) })
				if cnt != 0 {
					c.Failf("%s: reported %d deleted", desc, cnt)
				}
			} else {
				desc = step("delete by id %v", id)
				returns(c, desc, func() { err = nm.DeleteNodeByID(id) })
			}
			if err != want {
				c.Failf("%s: %v, want %v", desc, err, want)
			}
			if want == nil {
				s.del(id)
			}
		}
		s.verify(c, append(ids, never), desc)
	}
	c.NT(strings.Join(trace, "; "))
}

func (s *space) reachesStd(ids []ua.NodeID) bool {
	seen := map[ua.NodeID]bool{}
	var walk func(id ua.NodeID) bool
	walk = func(id ua.NodeID) bool {
		if seen[id] {
			return false
		}
		seen[id] = true
		for k := range s.refsOf(id) {
			if !k.inv && in(k.rt, owning...) {
				if s.std[k.to] != nil || s.in[k.to] != nil && walk(k.to) {
					return true
				}
			}
		}
		return false
	}
	for _, id := range ids {
		if walk(id) {
			return true
		}
	}
	return false
}

// spaceConcurrent lets goroutines add and delete nodes of their own below shared parents while others browse.
func spaceConcurrent(c *kit.C) {
	t := c.T
	nm := w.NamespaceManager()
	parent := w.id(t, "parent")
	p := mkNode(ua.NodeClassObject, parent, qn(2, "p"), lt("p"), nil, nil)
	nm.AddNode(p)
	defer nm.DeleteNodeByIDRecursive(parent)
	type plan struct {
		ids []ua.NodeID
		ops []int
	}
	plans := []plan{}
	n := rapid.IntRange(2, 6).Draw(t, "workers")
	for i := 0; i < n; i++ {
		pl := plan{}
		for j := 0; j < 4; j++ {
			pl.ids = append(pl.ids, w.id(t, "id"))
		}
		pl.ops = rapid.SliceOfN(rapid.IntRange(0, 11), 5, 40).Draw(t, "ops")
		plans = append(plans, pl)
	}
	stop := make(chan struct{})
	var rd, wg sync.WaitGroup
	rd.Add(1)
	go func() {
		defer rd.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			for _, r := range p.References() {
				nm.FindNode(local(r.TargetID, w.uris()))
			}
			nm.FindComponent(p, qn(2, "zz"))
		}
	}()
	alive := make([]map[ua.NodeID]bool, n)
	bad := make([]string, n)
	start := make(chan struct{})
	for i := range plans {
		alive[i] = map[ua.NodeID]bool{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, op := range plans[i].ops {
				id := plans[i].ids[op%4]
				if alive[i][id] {
					if op < 6 {
						if err := nm.DeleteNodeByID(id); err != nil {
							bad[i] = fmt.Sprintf("delete of a present node: %v", err)
						}
					} else {
						x, ok := nm.FindNode(id)
						if !ok {
							bad[i] = "an added node is not found"
							return
						}
						nm.DeleteNode(x, true)
					}
				} else {
					nm.AddNode(mkNode(ua.NodeClassObject, id, qn(2, "c"), lt("c"), nil, []ua.Reference{{ReferenceTypeID: num(0, 47), IsInverse: true, TargetID: ua.NewExpandedNodeID(parent)}}))
				}
				alive[i][id] = !alive[i][id]
				if _, ok := nm.FindNode(id); ok != alive[i][id] {
					bad[i] = fmt.Sprintf("node found: %v, want %v", ok, alive[i][id])
				}
			}
		}()
	}
	close(start)
	returns(c, "a set of concurrent additions and deletions", wg.Wait)
	close(stop)
	rd.Wait()
	want := map[rkey]bool{}
	for i := range plans {
		if bad[i] != "" {
			c.Failf("concurrent additions and deletions by %d workers: %s", n, bad[i])
		}
		for id, a := range alive[i] {
			if a {
				want[rkey{num(0, 47), false, id}] = true
			}
		}
	}
	got := asKeys(p.References())
	if refsText(got) != refsText(want) || len(p.References()) != len(want) {
		c.Failf("after concurrent additions and deletions by %d workers the parent has %d references, want %d: %s / %s", n, len(p.References()), len(want), refsText(got), refsText(want))
	}
	c.NT(fmt.Sprint(n, plans[0].ops, plans[1].ops))
}

// ---- C20

type stdType struct {
	id, super ua.NodeID
}

var (
	stdOnce  sync.Once
	stdSuper map[ua.NodeID]ua.NodeID
	stdTypes []ua.NodeID
	stdSubs  map[ua.NodeID][]ua.NodeID
)

// repoDir is the tree under test.
func repoDir() string { return env.RepoDir() }

// loadStd parses the standard nodeset for type nodes and HasSubtype references.
func loadStd() {
	stdOnce.Do(func() {
		b, err := os.ReadFile(filepath.Join(repoDir(), "server", "nodeset_1_04.xml"))
		if err != nil {
			kit.Infra("%v", err)
		}
		type nd struct {
			XMLName xml.Name
			ID      string `xml:"NodeId,attr"`
			Refs    []struct {
				Type string `xml:"ReferenceType,attr"`
				Fwd  string `xml:"IsForward,attr"`
				To   string `xml:",chardata"`
			} `xml:"References>Reference"`
		}
		var doc struct {
			Nodes []nd `xml:",any"`
		}
		if err := xml.Unmarshal(b, &doc); err != nil {
			kit.Infra("%v", err)
		}
		pid := func(s string) ua.NodeID {
			var i uint32
			if _, err := fmt.Sscanf(strings.TrimSpace(s), "i=%d", &i); err != nil {
				kit.Infra("id %q", s)
			}
			return num(0, i)
		}
		stdSuper, stdSubs = map[ua.NodeID]ua.NodeID{}, map[ua.NodeID][]ua.NodeID{}
		for _, n := range doc.Nodes {
			switch n.XMLName.Local {
			case "UADataType", "UAObjectType", "UAVariableType", "UAReferenceType":
			default:
				continue
			}
			id := pid(n.ID)
			stdTypes = append(stdTypes, id)
			for _, r := range n.Refs {
				if r.Type == "HasSubtype" || r.Type == "i=45" {
					if r.Fwd == "false" {
						stdSuper[id] = pid(r.To)
					} else {
						stdSuper[pid(r.To)] = id
					}
				}
			}
		}
		for a, b := range stdSuper {
			stdSubs[b] = append(stdSubs[b], a)
		}
		if len(stdTypes) < 300 {
			kit.Infra("only %d standard types", len(stdTypes))
		}
	})
}

func typeHierarchy(c *kit.C) {
	loadStd()
	t := c.T
	nm := w.NamespaceManager()
	ids := []ua.NodeID{}
	n := rapid.IntRange(1, 12).Draw(t, "n")
	if rapid.IntRange(0, 9).Draw(t, "deep") == 0 {
		n = rapid.IntRange(13, 60).Draw(t, "n2")
	}
	for i := 0; i < n; i++ {
		ids = append(ids, w.id(t, "id"))
	}
	class := pick(t, "class", ua.NodeClassDataType, ua.NodeClassDataType, ua.NodeClassObjectType, ua.NodeClassReferenceType, ua.NodeClassVariableType)
	super := map[ua.NodeID]ua.NodeID{}
	nodes := map[ua.NodeID]server.Node{}
	roots := []ua.NodeID{num(0, 24), num(0, 22), num(0, 29), num(0, 26), num(0, 27), num(0, 28), num(0, 12), num(0, 6), num(0, 11), num(0, 290), num(0, 884), num(0, 58), num(0, 31), num(0, 47), num(0, 63)}
	defer func() {
		for _, x := range nodes {
			nm.DeleteNode(x, false)
		}
	}()
	cyclic := false
	up := func(x ua.NodeID) ua.NodeID {
		if s, ok := super[x]; ok {
			return s
		}
		if nodes[x] != nil {
			return nil
		}
		return stdSuper[x]
	}
	trace := []string{}
	for round, rounds := 0, rapid.IntRange(1, 4).Draw(t, "rounds"); round < rounds; round++ {
		l := fmt.Sprintf("r%d", round)
		absent, here := []ua.NodeID{}, []ua.NodeID{}
		for _, id := range ids {
			if nodes[id] == nil {
				absent = append(absent, id)
			} else {
				here = append(here, id)
			}
		}
		if len(here) > 0 && (len(absent) == 0 || rapid.Bool().Draw(t, l+"del")) {
			// delete some types
			for j, m := 0, rapid.IntRange(1, min(3, len(here))).Draw(t, l+"dels"); j < m; j++ {
				id := rapid.SampledFrom(here).Draw(t, l+"d")
				if nodes[id] == nil {
					continue
				}
				nm.DeleteNode(nodes[id], false)
				delete(nodes, id)
				delete(super, id)
				for a, b := range super {
					if b == id {
						delete(super, a)
					}
				}
				trace = append(trace, fmt.Sprintf("delete %v", id))
			}
		} else {
			k := rapid.IntRange(1, len(absent)).Draw(t, l+"adds")
			chain := rapid.Bool().Draw(t, l+"chain")
			decl := map[ua.NodeID][]ua.Reference{}
			cands := append([]ua.NodeID{}, here...)
			cyc := !cyclic && rapid.IntRange(0, 14).Draw(t, l+"cyc") == 0
			for j, id := range absent[:k] {
				lj := fmt.Sprintf("%sa%d", l, j)
				var p ua.NodeID
				switch {
				case chain && len(cands) > 0:
					p = cands[len(cands)-1]
				case len(cands) > 0 && rapid.IntRange(0, 3).Draw(t, lj+"own") > 0:
					p = rapid.SampledFrom(cands).Draw(t, lj+"p")
				case rapid.IntRange(0, 9).Draw(t, lj+"root") > 0:
					p = rapid.SampledFrom(roots).Draw(t, lj+"rt")
				}
				if cyc && j == 0 {
					p = absent[k-1]
					cyclic = true
				}
				cands = append(cands, id)
				if p == nil {
					trace = append(trace, fmt.Sprintf("add %v", id))
					continue
				}
				super[id] = p
				trace = append(trace, fmt.Sprintf("add %v below %v", id, p))
				inBatch := false
				for _, b := range absent[:k] {
					inBatch = inBatch || b == p
				}
				side := rapid.IntRange(0, 2).Draw(t, lj+"side")
				if !inBatch || side != 1 {
					decl[id] = append(decl[id], ua.Reference{ReferenceTypeID: num(0, 45), IsInverse: true, TargetID: xid(t, p, lj)})
				}
				if inBatch && side > 0 {
					decl[p] = append(decl[p], ua.Reference{ReferenceTypeID: num(0, 45), TargetID: xid(t, id, lj+"f")})
				}
			}
			batch := []server.Node{}
			for j, id := range absent[:k] {
				lj := fmt.Sprintf("%sa%d", l, j)
				refs := decl[id]
				if rapid.IntRange(0, 3).Draw(t, lj+"noise") == 0 {
					refs = append([]ua.Reference{{ReferenceTypeID: num(0, 35), IsInverse: true, TargetID: ua.NewExpandedNodeID(num(0, 86))}, {ReferenceTypeID: num(0, 35), TargetID: ua.NewExpandedNodeID(num(0, 29))}}, refs...)
				}
				nodes[id] = mkNode(class, id, qn(2, "t"), lt("t"), nil, refs)
				batch = append(batch, nodes[id])
			}
			nm.AddNodes(batch...)
		}
		hist := strings.Join(trace, "; ")
		if len(hist) > 1500 {
			hist = "..." + hist[len(hist)-1500:]
		}
		all := append(append([]ua.NodeID{}, ids...), roots...)
		all = append(all, num(0, 999999), nil)
		anc := func(x ua.NodeID) []ua.NodeID {
			r := []ua.NodeID{}
			for i := 0; i < 200; i++ {
				x = up(x)
				if x == nil {
					return r
				}
				r = append(r, x)
			}
			return r
		}
		loops := map[ua.NodeID]bool{}
		for _, x := range all {
			loops[x] = len(anc(x)) > 99
		}
		// all pairs of a sample
		sample := all
		if len(sample) > 24 {
			sample = nil
			for i := 0; i < 24; i++ {
				sample = append(sample, rapid.SampledFrom(all).Draw(t, "sample"))
			}
		}
		for i := 0; i < 4; i++ {
			sample = append(sample, rapid.SampledFrom(stdTypes).Draw(t, "std"))
		}
		for _, x := range sample {
			ax := anc(x)
			var st ua.NodeID
			var vt byte
			returns(c, fmt.Sprintf("%s: a query about %v", hist, x), func() { st = nm.FindSuperType(x); vt = nm.FindVariantType(x) })
			if want := up(x); st != want {
				c.Failf("%s: supertype of %v is %v, want %v", hist, x, st, want)
			}
			want := byte(0)
			for _, y := range append([]ua.NodeID{x}, ax...) {
				if v, ok := y.(ua.NodeIDNumeric); ok && v.NamespaceIndex == 0 {
					if v.ID >= 1 && v.ID <= 25 {
						want = byte(v.ID)
						break
					}
					if v.ID == 29 {
						want = 6
						break
					}
				}
			}
			if !loops[x] && vt != want {
				c.Failf("%s: built-in type of data type %v is %d, want %d", hist, x, vt, want)
			}
			for _, y := range sample {
				var got bool
				returns(c, fmt.Sprintf("%s: IsSubtype(%v, %v)", hist, x, y), func() { got = nm.IsSubtype(x, y) })
				if !loops[x] && y != nil && got != in(y, ax...) {
					c.Failf("%s: IsSubtype(%v, %v) is %v, want %v", hist, x, y, got, !got)
				}
			}
			if node, ok := nm.FindNode(x); ok && (nodes[x] != nil || rapid.IntRange(0, 4).Draw(t, "subs") == 0) {
				var subs []server.Node
				returns(c, fmt.Sprintf("%s: GetSubTypes(%v)", hist, x), func() { subs = nm.GetSubTypes(node) })
				got, wants := []string{}, []string{}
				for _, s := range subs {
					got = append(got, fmt.Sprint(s.NodeID()))
				}
				for _, y := range append(append([]ua.NodeID{}, ids...), stdTypes...) {
					if y != x && in(x, anc(y)...) {
						wants = append(wants, fmt.Sprint(y))
					}
				}
				if !loops[x] && !same(uniq(got), sorted(wants)) {
					c.Failf("%s: subtypes of %v are %v, want %v", hist, x, uniq(got), sorted(wants))
				}
			}
		}
		c.NT(hist)
	}
	if cyclic {
		c.Label("cycle")
	}
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C19",
		Rule:        "histories of single, batch, recursive and by-id additions and deletions of nodes of five classes with references declared from either end to present, batch, standard and missing nodes (cycles, self loops, diamonds, re-adding), compared after every step with a model of nodes and references; and concurrent histories over disjoint nodes below a shared parent; non-trivial: distinct histories",
		Assumptions: []string{"an id is added again only after it was deleted", "references to nodes that are added later by another call are not judged", "type definition and modelling rule references are one-way", "only deletion by id spares nodes of the standard namespace"},
		Subs: []kit.Sub{{Name: "history", Quick: 24000, Thorough: 1000000, Shards: 6, Fn: spaceHistory, Setup: spaceSetup},
			{Name: "concurrent", Quick: 2500, Thorough: 60000, Shards: 2, Fn: spaceConcurrent, Setup: setup()}},
	})
	kit.Register(&kit.Check{
		ID:          "C20",
		Rule:        "random type forests (chains up to 60, cycles, declared from either end, namespace index or uri) below standard types, changed by additions and deletions; every pair of a sample of custom and standard types is queried and compared with the hierarchy; the standard hierarchy is parsed independently from the nodeset file; non-trivial: distinct forests",
		Assumptions: []string{"a type has at most one supertype", "on a cycle only termination is judged"},
		Subs:        []kit.Sub{{Name: "hierarchy", Quick: 3000, Thorough: 200000, Shards: 6, Fn: typeHierarchy, Setup: setup()}},
	})
}
