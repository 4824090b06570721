import os
exec(open(os.path.join(os.path.dirname(__file__),'helper.py')).read())
PROPERTY='C34'
NEEDS='a client which asks GetEndpoints with another url than the server was configured with, before another client asks or creates a session'
BREAKS='the url one client asked for is given to all others, in CreateSession and to authenticators'
EDITS=[('server/server_service_set.go', '\teps := make([]ua.EndpointDescription, 0, len(srv.Endpoints()))\n\tfor _, ep := range srv.Endpoints() {\n', '\tall := srv.Endpoints()\n\teps := make([]ua.EndpointDescription, 0, len(all))\n\tfor i := range all {\n\t\tep := &all[i]\n'), ('server/server_service_set.go', '\t\t\t\t\tep.EndpointURL = req.EndpointURL\n\t\t\t\t\teps = append(eps, ep)', '\t\t\t\t\tep.EndpointURL = req.EndpointURL\n\t\t\t\t\teps = append(eps, *ep)'), ('server/server_service_set.go', '\t\t\tep.EndpointURL = req.EndpointURL\n\t\t\teps = append(eps, ep)\n\t\t}', '\t\t\tep.EndpointURL = req.EndpointURL\n\t\t\teps = append(eps, *ep)\n\t\t}')]
DEMO=demo('\nfunc TestZZDemo(t *testing.T) {\n\tsrv, u, _ := zzServer(t)\n\tv := strings.Replace(u, "127.0.0.1", "localhost", 1)\n\tr, err := client.GetEndpoints(context.Background(), &ua.GetEndpointsRequest{EndpointURL: v})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor _, e := range r.Endpoints {\n\t\tif e.EndpointURL != v {\n\t\t\tt.Fatal(e.EndpointURL)\n\t\t}\n\t}\n\tfor _, e := range srv.Endpoints() {\n\t\tif e.EndpointURL != u {\n\t\t\tt.Fatal(e.EndpointURL)\n\t\t}\n\t}\n}\n','\t"strings"\n')
