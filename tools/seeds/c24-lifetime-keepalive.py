import os
exec(open(os.path.join(os.path.dirname(__file__),'helper.py')).read())
PROPERTY='C24'
NEEDS='a requested lifetime count between two and three times the keep-alive count'
BREAKS='the revised lifetime is less than three keep-alive periods'
EDITS=[('server/subscription.go', '\t\tif s.maxKeepAliveCount*3 > lifetimeCount {\n\t\t\tlifetimeCount = s.maxKeepAliveCount * 3\n', '\t\tif s.maxKeepAliveCount*2 > lifetimeCount {\n\t\t\tlifetimeCount = s.maxKeepAliveCount * 3\n')]
DEMO=demo('\nfunc TestZZDemo(t *testing.T) {\n\t_, u, _ := zzServer(t)\n\tc := zzDial(t, u)\n\tfor _, l := range []uint32{0, 150, 250, 350} {\n\t\ts, err := c.CreateSubscription(context.Background(), &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 1000, RequestedLifetimeCount: l, RequestedMaxKeepAliveCount: 100})\n\t\tif err != nil || s.RevisedLifetimeCount < 3*s.RevisedMaxKeepAliveCount {\n\t\t\tt.Fatalf("%d: %v %v", l, err, s)\n\t\t}\n\t}\n}\n','')
