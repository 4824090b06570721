import os
exec(open(os.path.join(os.path.dirname(__file__),'helper.py')).read())
PROPERTY="C20"
NEEDS="a type hierarchy of more than forty levels"
BREAKS="a subtype far below a type is not recognised as its subtype"
EDITS=[("server/namespace_manager.go","	if i > 100 {\n","	if i > 40 {\n")]
DEMO=demo('''
func TestZZDemo(t *testing.T) {
	srv, _, _ := zzServer(t)
	m := srv.NamespaceManager()
	sup := ua.NodeID(ua.ReferenceTypeIDOrganizes)
	for i := uint32(1); i <= 60; i++ {
		id := ua.NewNodeIDNumeric(2, i)
		m.AddNode(server.NewReferenceTypeNode(srv, id, ua.NewQualifiedName(2, "r"), ua.NewLocalizedText("r", ""), ua.NewLocalizedText("", ""), nil,
			[]ua.Reference{ua.NewReference(ua.ReferenceTypeIDHasSubtype, true, ua.NewExpandedNodeID(sup))}, false, false, ua.NewLocalizedText("", "")))
		sup = id
		if !m.IsSubtype(id, ua.ReferenceTypeIDOrganizes) {
			t.Fatalf("%d levels below Organizes, not a subtype", i)
		}
	}
}
''')
