import os
exec(open(os.path.join(os.path.dirname(__file__),'helper.py')).read())
PROPERTY='C22'
NEEDS='a Float or Double that moves by exactly the deadband'
BREAKS='a change by exactly the deadband, which is not more than the deadband, is reported'
EDITS=[('server/datachange_monitored_item.go', '\t\treturn math.Abs(vc.Float()-vp.Float()) <= deadband\n', '\t\treturn math.Abs(vc.Float()-vp.Float()) < deadband\n')]
DEMO=demo('\nfunc zzItem(t *testing.T, c *client.Client, interval float64, item ua.MonitoredItemCreateRequest) uint32 {\n\ts, err := c.CreateSubscription(context.Background(), &ua.CreateSubscriptionRequest{RequestedPublishingInterval: interval, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 100, PublishingEnabled: true})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tx, err := c.CreateMonitoredItems(context.Background(), &ua.CreateMonitoredItemsRequest{SubscriptionID: s.SubscriptionID, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{item}})\n\tif err != nil || x.Results[0].StatusCode != 0 {\n\t\tt.Fatal(err, x)\n\t}\n\treturn s.SubscriptionID\n}\n\nfunc zzPublish(t *testing.T, c *client.Client) ua.NotificationMessage {\n\tctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)\n\tdefer cancel()\n\tfor {\n\t\tx, err := c.Publish(ctx, &ua.PublishRequest{})\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tif len(x.NotificationMessage.NotificationData) > 0 {\n\t\t\treturn x.NotificationMessage\n\t\t}\n\t}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\tsrv, u, _ := zzServer(t)\n\tn := zzVar(srv, "a", float64(1), ua.DataTypeIDDouble, -1)\n\tc := zzDial(t, u)\n\tzzItem(t, c, 100, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: n.NodeID(), AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting,\n\t\tRequestedParameters: ua.MonitoringParameters{QueueSize: 10, DiscardOldest: true, SamplingInterval: 100, Filter: ua.DataChangeFilter{Trigger: ua.DataChangeTriggerStatusValue, DeadbandType: uint32(ua.DeadbandTypeAbsolute), DeadbandValue: 2}}})\n\tgot := []any{}\n\tfor len(got) < 2 {\n\t\tfor _, v := range zzPublish(t, c).NotificationData[0].(ua.DataChangeNotification).MonitoredItems {\n\t\t\tgot = append(got, v.Value.Value)\n\t\t}\n\t\tif len(got) == 1 {\n\t\t\tfor _, v := range []float64{2, 3, 0, -1, 3.5} {\n\t\t\t\tn.SetValue(ua.NewDataValue(v, 0, time.Now(), 0, time.Now(), 0))\n\t\t\t\ttime.Sleep(600 * time.Millisecond)\n\t\t\t}\n\t\t}\n\t}\n\tif fmt.Sprint(got) != "[1 3.5]" {\n\t\t// -1 and 3 are not further than 2 from 1\n\t\tt.Fatal(got)\n\t}\n}\n','')
