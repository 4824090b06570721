import os
exec(open(os.path.join(os.path.dirname(__file__),'helper.py')).read())
PROPERTY='C18'
NEEDS='a browse path with an inverse element that includes subtypes, where the reference has a subtype'
BREAKS='inverse path elements do not follow references of subtypes'
EDITS=[('server/server_service_set.go', '(includeSubtypes && m.IsSubtype(r.ReferenceTypeID, referenceTypeID))', '(includeSubtypes && !isInverse && m.IsSubtype(r.ReferenceTypeID, referenceTypeID))')]
DEMO=demo('\nfunc TestZZDemo(t *testing.T) {\n\tsrv, u, _ := zzServer(t)\n\tzzVar(srv, "a", uint32(1), ua.DataTypeIDUInt32, -1)\n\tc := zzDial(t, u)\n\tfor _, inv := range []bool{false, true} {\n\t\tfrom, to, name := ua.NodeID(ua.ObjectIDServer), ua.NodeID(ua.ObjectIDObjectsFolder), "Objects"\n\t\tif !inv {\n\t\t\tfrom, to, name = to, from, "Server"\n\t\t}\n\t\tfor _, ty := range []ua.NodeID{ua.ReferenceTypeIDOrganizes, ua.ReferenceTypeIDHierarchicalReferences} {\n\t\t\tx, err := c.TranslateBrowsePathsToNodeIDs(context.Background(), &ua.TranslateBrowsePathsToNodeIDsRequest{BrowsePaths: []ua.BrowsePath{{StartingNode: from, RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{{ReferenceTypeID: ty, IsInverse: inv, IncludeSubtypes: true, TargetName: ua.NewQualifiedName(0, name)}}}}}})\n\t\t\tif err != nil || len(x.Results[0].Targets) != 1 || x.Results[0].Targets[0].TargetID.NodeID != to {\n\t\t\t\tt.Fatalf("inverse %v type %v: %v %v", inv, ty, err, x)\n\t\t\t}\n\t\t}\n\t}\n}\n','')
