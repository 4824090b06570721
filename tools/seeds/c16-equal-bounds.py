import os
exec(open(os.path.join(os.path.dirname(__file__),'helper.py')).read())
PROPERTY="C16"
NEEDS="an index range whose two bounds are equal, such as 2:2"
BREAKS="a malformed range with equal bounds is accepted instead of answered with BadIndexRangeInvalid"
EDITS=[("server/server_service_set.go","		if lo >= hi {\n","		if lo > hi {\n",0)]
DEMO=demo('''
func TestZZDemo(t *testing.T) {
	srv, u, _ := zzServer(t)
	zzVar(srv, "a", []int32{1, 2, 3, 4}, ua.DataTypeIDInt32, 1)
	c := zzDial(t, u)
	for r, want := range map[string]ua.StatusCode{"2:2": ua.BadIndexRangeInvalid, "1:2": ua.Good, "3:1": ua.BadIndexRangeInvalid} {
		x, err := c.Read(context.Background(), &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: ua.NewNodeIDString(2, "a"), AttributeID: ua.AttributeIDValue, IndexRange: r}}})
		if err != nil || x.Results[0].StatusCode != want {
			t.Fatalf("%s: %v %v", r, err, x)
		}
	}
}
''')
