import os
exec(open(os.path.join(os.path.dirname(__file__),'helper.py')).read())
PROPERTY='C15'
NEEDS='a scalar UInt16 written to a variable declared UInt32'
BREAKS='a value of another type than the declared one is stored instead of refused with BadTypeMismatch'
EDITS=[('server/server_service_set.go', '\t\t\t\tif destType != ua.VariantTypeUInt16 && destType != ua.VariantTypeVariant {\n', '\t\t\t\tif destType != ua.VariantTypeUInt16 && destType != ua.VariantTypeUInt32 && destType != ua.VariantTypeVariant {\n', 0)]
DEMO=demo('\nfunc TestZZDemo(t *testing.T) {\n\tsrv, u, _ := zzServer(t, server.WithRolePermissions([]ua.RolePermissionType{{RoleID: ua.ObjectIDWellKnownRoleAnonymous, Permissions: 0xFFFFF}}))\n\tzzVar(srv, "a", uint32(1), ua.DataTypeIDUInt32, -1)\n\tc := zzDial(t, u)\n\tfor v, want := range map[any]ua.StatusCode{uint16(7): ua.BadTypeMismatch, int32(7): ua.BadTypeMismatch, uint32(7): ua.Good} {\n\t\tx, err := c.Write(context.Background(), &ua.WriteRequest{NodesToWrite: []ua.WriteValue{{NodeID: ua.NewNodeIDString(2, "a"), AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: v}}}})\n\t\tif err != nil || x.Results[0] != want {\n\t\t\tt.Fatalf("%T: %v %v", v, err, x)\n\t\t}\n\t}\n}\n','')
