package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/kit"
	"verif/harness/pki"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// What discovery says, against the options of the server and against what it accepts.

func discWorld(kinds string, none bool) {
	n := fmt.Sprint("disc", kinds, none)
	if worlds[n] == nil {
		ok := func() error { return nil }
		opts := []server.Option{server.WithAnonymousIdentity(strings.Contains(kinds, "a")), server.WithSecurityPolicyNone(none), server.WithInsecureSkipVerify(), server.WithMaxSessionCount(100000),
			server.WithGetRolesFunc(func(id any, a, e string) ([]ua.NodeID, error) { return []ua.NodeID{role(0)}, nil })}
		if strings.Contains(kinds, "u") {
			opts = append(opts, server.WithAuthenticateUserNameIdentityFunc(func(u ua.UserNameIdentity, a, e string) error { return ok() }))
		}
		if strings.Contains(kinds, "x") {
			opts = append(opts, server.WithAuthenticateX509IdentityFunc(func(u ua.X509Identity, a, e string) error { return ok() }))
		}
		worlds[n] = &world{Srv: startSrv("r2048_1", opts...), name: map[string]*wire.Session{}}
	}
	w = worlds[n]
}

var discModes = []ua.MessageSecurityMode{ua.MessageSecurityModeNone, ua.MessageSecurityModeSign, ua.MessageSecurityModeSignAndEncrypt}

// discEndpoint says an endpoint without its url and level.
func discEndpoint(e ua.EndpointDescription) string {
	var toks []string
	for _, p := range e.UserIdentityTokens {
		toks = append(toks, fmt.Sprint(p.TokenType))
	}
	sort.Strings(toks)
	return fmt.Sprintf("%d %s tokens %v profile %s server %s certificate %x", e.SecurityMode, e.SecurityPolicyURI, toks, e.TransportProfileURI, e.Server.ApplicationURI, hash8([]byte(e.ServerCertificate)))
}

func hash8(b []byte) uint64 {
	h := uint64(1469598103934665603)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

func discModel(kinds string, none bool) []string {
	var toks []ua.UserTokenPolicy
	for i, k := range "aux" {
		if strings.ContainsRune(kinds, k) {
			toks = append(toks, ua.UserTokenPolicy{TokenType: ua.UserTokenType(i)})
		}
	}
	var out []string
	add := func(m ua.MessageSecurityMode, p string) {
		out = append(out, discEndpoint(ua.EndpointDescription{SecurityMode: m, SecurityPolicyURI: p, UserIdentityTokens: toks, TransportProfileURI: ua.TransportProfileURIUaTcpTransport,
			Server: ua.ApplicationDescription{ApplicationURI: w.LocalDescription().ApplicationURI}, ServerCertificate: ua.ByteString(w.Cert.DER)}))
	}
	if none {
		add(ua.MessageSecurityModeNone, wire.None)
	}
	for _, p := range wire.Policies {
		add(ua.MessageSecurityModeSign, p)
		add(ua.MessageSecurityModeSignAndEncrypt, p)
	}
	sort.Strings(out)
	return out
}

func discList(es []ua.EndpointDescription) []string {
	var out []string
	for _, e := range es {
		out = append(out, discEndpoint(e))
	}
	sort.Strings(out)
	return out
}

func discover(c *kit.C) {
	t := c.T
	kinds := pick(t, "kinds", "a", "u", "x", "au", "ax", "ux", "aux", "")
	none := rapid.Bool().Draw(t, "none")
	discWorld(kinds, none)
	what := fmt.Sprintf("server with identities %q, unsecured endpoint %t", kinds, none)
	model := discModel(kinds, none)

	cl, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, wire.NoSec)
	if err != nil {
		c.Failf("discovery is refused: %v (%s)", err, what)
	}
	cl.Start()
	defer cl.Drop()
	bare := &wire.Session{Client: cl}
	// endpoints
	url := pick(t, "url", w.URL, "", "opc.tcp://other.example:4840/path", "opc.tcp://127.0.0.1:1")
	const tcp = "http://opcfoundation.org/UA-Profile/Transport/uatcp-uasc-uabinary"
	profiles := [][]string{nil, {}, {tcp}, {"http://other"}, {"http://other", tcp}, {tcp, tcp}, {strings.ToUpper(tcp)}, {""}}[rapid.IntRange(0, 7).Draw(t, "profiles")]
	want := model
	if len(profiles) > 0 && !in(tcp, profiles...) {
		want = nil
	}
	e, code := do[ua.GetEndpointsResponse](c, bare, &ua.GetEndpointsRequest{EndpointURL: url, ProfileURIs: profiles})
	if code != 0 {
		c.Failf("GetEndpoints is refused with %s (%s)", hx(code), what)
	}
	if got := discList(e.Endpoints); fmt.Sprint(got) != fmt.Sprint(want) {
		c.Failf("GetEndpoints (profiles %q) answers\n%s\nnot\n%s\n(%s)", profiles, strings.Join(got, "\n"), strings.Join(want, "\n"), what)
	}
	ids := map[string]bool{}
	level := map[ua.MessageSecurityMode][2]int{}
	for _, x := range e.Endpoints {
		if url != "" && x.EndpointURL != url {
			c.Failf("GetEndpoints for %q answers with the url %q", url, x.EndpointURL)
		}
		if x.Server.ApplicationType != ua.ApplicationTypeServer || x.Server.ApplicationName.Text != "verif" {
			c.Failf("the endpoint describes the server as %v", x.Server)
		}
		for _, p := range x.UserIdentityTokens {
			if ids[p.PolicyID] {
				c.Failf("two user token policies have the id %q", p.PolicyID)
			}
			ids[p.PolicyID] = true
			if p.TokenType != ua.UserTokenTypeAnonymous && (p.SecurityPolicyURI == wire.None || p.SecurityPolicyURI == "" && x.SecurityPolicyURI == wire.None) {
				c.Failf("the endpoint %s takes %v tokens unprotected", discEndpoint(x), p.TokenType)
			}
		}
		l, ok := level[x.SecurityMode]
		if !ok {
			l = [2]int{255, 0}
		}
		level[x.SecurityMode] = [2]int{min(l[0], int(x.SecurityLevel)), max(l[1], int(x.SecurityLevel))}
	}
	if len(e.Endpoints) > 0 {
		if none && level[1][1] >= level[2][0] || level[2][1] >= level[3][0] {
			c.Failf("the security levels (lowest, highest) of None %v, Sign %v and SignAndEncrypt %v do not rise", level[1], level[2], level[3])
		}
	}
	// servers
	own := w.LocalDescription().ApplicationURI
	uris := [][]string{nil, {}, {own}, {"urn:other"}, {"urn:other", own}, {own, own}, {strings.ToUpper(own)}, {own[:len(own)-1]}}[rapid.IntRange(0, 7).Draw(t, "servers")]
	f, code := do[ua.FindServersResponse](c, bare, &ua.FindServersRequest{EndpointURL: url, ServerURIs: uris})
	if code != 0 {
		c.Failf("FindServers is refused with %s (%s)", hx(code), what)
	}
	n := 1
	if len(uris) > 0 && !in(own, uris...) {
		n = 0
	}
	if len(f.Servers) != n || n == 1 && (f.Servers[0].ApplicationURI != own || f.Servers[0].ApplicationType != ua.ApplicationTypeServer || fmt.Sprint(f.Servers[0].DiscoveryURLs) != fmt.Sprint(w.LocalDescription().DiscoveryURLs)) {
		c.Failf("FindServers (uris %q) answers %v", uris, f.Servers)
	}
	// the endpoints, used
	var hist []string
	for k := rapid.IntRange(1, 4).Draw(t, "tries"); k > 0; k-- {
		sec := wire.Sec{Policy: pick(t, "policy", append([]string{wire.None}, wire.Policies...)...), Mode: pick(t, "mode", wire.ModeSignAndEncrypt, wire.ModeSign), ServerCert: w.Cert.DER, Client: pki.App("urn:verif:client", "r2048_2")}
		if sec.Policy == wire.None {
			sec = wire.NoSec
		}
		tok := pick(t, "token", "a", "u", "x")
		h := fmt.Sprintf("%s with %q", secName(sec), tok)
		if sec.Policy == wire.None && !none {
			// nothing but discovery is offered there: not even a session is created
			dcl, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, sec)
			if err == nil {
				dcl.Start()
				_, err = dcl.CreateSession(wire.CreateOpts{})
				dcl.Drop()
			}
			if err == nil {
				c.Failf("a session is created on an unsecured channel, which is not advertised (%s)", what)
			}
		}
		advertised := strings.Contains(kinds, tok) && (sec.Policy != wire.None || none)
		err := discUse(c, sec, tok, model)
		if advertised && err != nil {
			c.Failf("%s is advertised, but %v (%s)", h, err, what)
		}
		if !advertised && err == nil {
			c.Failf("%s is not advertised, but accepted (%s)", h, what)
		}
		hist = append(hist, fmt.Sprintf("%s %t", h, advertised))
		c.Label(fmt.Sprintf("advertised %t", advertised))
	}
	c.NT(fmt.Sprint(what, url, profiles, uris, hist))
	c.Note("%s: url %q profiles %q uris %q; %v", what, url, profiles, uris, hist)
}

func discUse(c *kit.C, sec wire.Sec, tok string, model []string) error {
	cl, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, sec)
	if err != nil {
		return err
	}
	cl.Start()
	defer cl.Drop()
	s, err := cl.CreateSession(wire.CreateOpts{})
	if err != nil {
		return err
	}
	if got := discList(s.Created.ServerEndpoints); fmt.Sprint(got) != fmt.Sprint(model) {
		c.Failf("CreateSession describes the endpoints as\n%s\nGetEndpoints as\n%s", strings.Join(got, "\n"), strings.Join(model, "\n"))
	}
	for _, e := range s.Created.ServerEndpoints {
		if e.EndpointURL != w.URL {
			c.Failf("CreateSession says the endpoint url %q, the server's is %q: another client asked for that one", e.EndpointURL, w.URL)
		}
	}
	var id wire.Identity
	switch tok {
	case "a":
		id = s.Anonymous()
	case "u":
		id = s.UserName("m1", "pw")
	case "x":
		ct := pki.App("urn:user", "r2048_3")
		id = s.X509(ct)
	}
	if err := s.Activate(id); err != nil {
		return err
	}
	if _, err := readOne(s, ua.VariableIDServerServerStatusState); err != nil {
		return err
	}
	_, err = wire.Do[ua.CloseSessionResponse](s, &ua.CloseSessionRequest{})
	return err
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C34",
		Rule:        "random servers (which identities they take, with or without an unsecured endpoint) are asked for endpoints and servers with random urls, profiles and server uris; the answers are compared with what the options promise, and random combinations of policy, mode and identity are then used; non-trivial: distinct servers, questions and uses",
		Assumptions: []string{"the locale of a discovery request is not judged", "the url of an endpoint is not judged when the request names none"},
		Subs:        []kit.Sub{{Name: "endpoints", Quick: 240, Thorough: 8000, Shards: 4, Fn: discover}},
	})
}
