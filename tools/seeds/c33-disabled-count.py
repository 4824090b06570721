import os
exec(open(os.path.join(os.path.dirname(__file__),'helper.py')).read())
PROPERTY='C33'
NEEDS='a monitored item deleted while it is disabled'
BREAKS='the diagnostics of the subscription keep counting the deleted item as disabled'
EDITS=[('server/subscription.go', '\t\tif item.MonitoringMode() == ua.MonitoringModeDisabled {\n\t\t\ts.disabledMonitoredItemCount--\n\t\t}\n\t\tret = true\n', '\t\tret = true\n')]
DEMO=demo('\nfunc TestZZDemo(t *testing.T) {\n\t_, u, _ := zzServer(t)\n\tc := zzDial(t, u)\n\tctx := context.Background()\n\ts, err := c.CreateSubscription(ctx, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 1000, RequestedLifetimeCount: 100, RequestedMaxKeepAliveCount: 10})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tm, err := c.CreateMonitoredItems(ctx, &ua.CreateMonitoredItemsRequest{SubscriptionID: s.SubscriptionID, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{\n\t\t{ItemToMonitor: ua.ReadValueID{NodeID: ua.VariableIDServerServerStatusCurrentTime, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeDisabled}}})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tcount := func() uint32 {\n\t\tr, err := c.Read(ctx, &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: ua.VariableIDServerServerDiagnosticsSubscriptionDiagnosticsArray, AttributeID: ua.AttributeIDValue}}})\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\treturn r.Results[0].Value.([]ua.ExtensionObject)[0].(ua.SubscriptionDiagnosticsDataType).DisabledMonitoredItemCount\n\t}\n\tif n := count(); n != 1 {\n\t\tt.Fatal(n)\n\t}\n\tif _, err := c.DeleteMonitoredItems(ctx, &ua.DeleteMonitoredItemsRequest{SubscriptionID: s.SubscriptionID, MonitoredItemIDs: []uint32{m.Results[0].MonitoredItemID}}); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif n := count(); n != 0 {\n\t\tt.Fatal(n)\n\t}\n}\n','')
