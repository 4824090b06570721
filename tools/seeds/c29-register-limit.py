import os
exec(open(os.path.join(os.path.dirname(__file__),'helper.py')).read())
PROPERTY='C29'
NEEDS='an UnregisterNodes request with exactly one node more than the operation limit'
BREAKS='a request beyond the operation limit is executed'
EDITS=[('server/server_service_set.go', '\tif l > int(srv.serverCapabilities.OperationLimits.MaxNodesPerRegisterNodes) {\n', '\tif l > int(srv.serverCapabilities.OperationLimits.MaxNodesPerRegisterNodes)+1 {\n', 1)]
DEMO=demo('\nfunc TestZZDemo(t *testing.T) {\n\t_, u, _ := zzServer(t)\n\tc := zzDial(t, u)\n\tx, err := c.Read(context.Background(), &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: ua.VariableIDServerServerCapabilitiesOperationLimitsMaxNodesPerRegisterNodes, AttributeID: ua.AttributeIDValue}}})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tn, ok := x.Results[0].Value.(uint32)\n\tif !ok || n == 0 || n > 1000000 {\n\t\tt.Fatal(x)\n\t}\n\tfor d, want := range map[int]bool{0: true, 1: false, 2: false} {\n\t\tids := make([]ua.NodeID, int(n)+d)\n\t\tfor i := range ids {\n\t\t\tids[i] = ua.ObjectIDServer\n\t\t}\n\t\tif _, err := c.UnregisterNodes(context.Background(), &ua.UnregisterNodesRequest{NodesToUnregister: ids}); (err == nil) != want {\n\t\t\tt.Fatalf("%d nodes: %v", len(ids), err)\n\t\t}\n\t}\n}\n','')
