import os
exec(open(os.path.join(os.path.dirname(__file__),'helper.py')).read())
PROPERTY="C14"
NEEDS="a read that asks for server timestamps of a value with a status other than Good"
BREAKS="the server timestamp of a value that is not good is left out though it was asked for"
EDITS=[("server/server_service_set.go","""			values[i] = ua.NewDataValue(value.Value, value.StatusCode, time.Time{}, 0, value.ServerTimestamp, 0)
		}
		return values
	case ua.TimestampsToReturnNeither:""","""			if value.StatusCode&0x40000000 != 0 {
				// no time to report for an uncertain value
				value.ServerTimestamp = value.SourceTimestamp
			}
			values[i] = ua.NewDataValue(value.Value, value.StatusCode, time.Time{}, 0, value.ServerTimestamp, 0)
		}
		return values
	case ua.TimestampsToReturnNeither:""")]
DEMO=demo('''
func TestZZDemo(t *testing.T) {
	srv, u, _ := zzServer(t)
	n := zzVar(srv, "a", int32(1), ua.DataTypeIDInt32, -1)
	a, b := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC), time.Date(2021, 1, 2, 3, 4, 5, 0, time.UTC)
	c := zzDial(t, u)
	for _, st := range []ua.StatusCode{0, ua.UncertainLastUsableValue, ua.BadSensorFailure} {
		n.SetValue(ua.NewDataValue(int32(1), st, a, 0, b, 0))
		x, err := c.Read(context.Background(), &ua.ReadRequest{TimestampsToReturn: ua.TimestampsToReturnServer, NodesToRead: []ua.ReadValueID{{NodeID: n.NodeID(), AttributeID: ua.AttributeIDValue}}})
		if err != nil || !x.Results[0].ServerTimestamp.Equal(b) || !x.Results[0].SourceTimestamp.IsZero() {
			t.Fatalf("%v %v", err, x)
		}
	}
}
''')
