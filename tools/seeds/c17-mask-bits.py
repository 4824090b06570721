import os
exec(open(os.path.join(os.path.dirname(__file__),'helper.py')).read())
PROPERTY='C17'
NEEDS='a browse whose result mask asks for the node class and not for the type definition'
BREAKS='the node class that the mask asks for is left out of the reference descriptions'
EDITS=[('server/server_service_set.go', '\t\t\t\tif d.ResultMask&uint32(ua.BrowseResultMaskNodeClass) != 0 {\n', '\t\t\t\tif d.ResultMask&uint32(ua.BrowseResultMaskNodeClass) != 0 && d.ResultMask&uint32(ua.BrowseResultMaskNodeClass|ua.BrowseResultMaskTypeDefinition) != uint32(ua.BrowseResultMaskNodeClass) {\n')]
DEMO=demo('\nfunc TestZZDemo(t *testing.T) {\n\tsrv, u, _ := zzServer(t)\n\tzzVar(srv, "a", uint32(1), ua.DataTypeIDUInt32, -1)\n\tc := zzDial(t, u)\n\tfor m := uint32(0); m < 64; m++ {\n\t\tx, err := c.Browse(context.Background(), &ua.BrowseRequest{NodesToBrowse: []ua.BrowseDescription{{NodeID: ua.ObjectIDObjectsFolder, BrowseDirection: ua.BrowseDirectionForward, ReferenceTypeID: ua.ReferenceTypeIDOrganizes, IncludeSubtypes: true, ResultMask: m}}})\n\t\tif err != nil || len(x.Results[0].References) == 0 {\n\t\t\tt.Fatalf("%v %v", err, x)\n\t\t}\n\t\tfor _, r := range x.Results[0].References {\n\t\t\tif got := r.NodeClass != 0; got != (m&uint32(ua.BrowseResultMaskNodeClass) != 0) {\n\t\t\t\tt.Fatalf("mask %d: %v", m, r)\n\t\t\t}\n\t\t}\n\t}\n}\n','')
