import os
exec(open(os.path.join(os.path.dirname(__file__),'helper.py')).read())
PROPERTY='C26'
NEEDS='an event filter of a type whose matching events have a type two or more levels below'
BREAKS='events of indirect subtypes do not match an OfType clause'
EDITS=[('server/event_monitored_item.go', '\t\t\t\t\tif c == b || mi.srv.namespaceManager.IsSubtype(c, b) {\n', '\t\t\t\t\tif c == b || mi.srv.namespaceManager.FindSuperType(c) == b {\n')]
DEMO=demo('\nfunc zzItem(t *testing.T, c *client.Client, interval float64, item ua.MonitoredItemCreateRequest) uint32 {\n\ts, err := c.CreateSubscription(context.Background(), &ua.CreateSubscriptionRequest{RequestedPublishingInterval: interval, RequestedLifetimeCount: 1000, RequestedMaxKeepAliveCount: 100, PublishingEnabled: true})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tx, err := c.CreateMonitoredItems(context.Background(), &ua.CreateMonitoredItemsRequest{SubscriptionID: s.SubscriptionID, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{item}})\n\tif err != nil || x.Results[0].StatusCode != 0 {\n\t\tt.Fatal(err, x)\n\t}\n\treturn s.SubscriptionID\n}\n\nfunc zzPublish(t *testing.T, c *client.Client) ua.NotificationMessage {\n\tctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)\n\tdefer cancel()\n\tfor {\n\t\tx, err := c.Publish(ctx, &ua.PublishRequest{})\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tif len(x.NotificationMessage.NotificationData) > 0 {\n\t\t\treturn x.NotificationMessage\n\t\t}\n\t}\n}\n\nfunc TestZZDemo(t *testing.T) {\n\tsrv, u, _ := zzServer(t)\n\tc := zzDial(t, u)\n\tzzItem(t, c, 100, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: ua.ObjectIDServer, AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: ua.MonitoringModeReporting,\n\t\tRequestedParameters: ua.MonitoringParameters{QueueSize: 10, DiscardOldest: true, Filter: ua.EventFilter{SelectClauses: ua.BaseEventSelectClauses, WhereClause: ua.ContentFilter{Elements: []ua.ContentFilterElement{{FilterOperator: ua.FilterOperatorOfType, FilterOperands: []ua.ExtensionObject{ua.LiteralOperand{Value: ua.Variant(ua.ObjectTypeIDConditionType)}}}}}}}})\n\tn := 0\n\tsrvObj, _ := srv.NamespaceManager().FindObject(ua.ObjectIDServer)\n\tfor _, ty := range []ua.NodeID{ua.ObjectTypeIDBaseEventType, ua.ObjectTypeIDAlarmConditionType, ua.ObjectTypeIDConditionType} {\n\t\tsrv.NamespaceManager().OnEvent(srvObj, &ua.BaseEvent{EventID: "x", EventType: ty, SourceName: "s", Time: time.Now(), ReceiveTime: time.Now(), Severity: 100})\n\t}\n\ttime.Sleep(500 * time.Millisecond)\n\tfor _, d := range zzPublish(t, c).NotificationData {\n\t\tn += len(d.(ua.EventNotificationList).Events)\n\t}\n\tif n != 2 {\n\t\tt.Fatalf("%d events", n)\n\t}\n}\n','')
