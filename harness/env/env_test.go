package env

import (
	"testing"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"verif/harness/pki"
	"verif/harness/wire"
)

// the stack talks to the server under every policy, mode and key size
func TestSmoke(t *testing.T) {
	t0 := time.Now()
	for _, sk := range []string{"r2048_1", "r4096_1", "r3072_1"} {
		s := Start(sk, server.WithAnonymousIdentity(true), server.WithSecurityPolicyNone(true), server.WithInsecureSkipVerify(),
			server.WithAuthenticateUserNameIdentityFunc(func(u ua.UserNameIdentity, a, e string) error {
				if u.Password != "pw" {
					return ua.BadUserAccessDenied
				}
				return nil
			}))
		t.Log("server up", time.Since(t0))
		for _, p := range append([]string{wire.None}, wire.Policies...) {
			for _, m := range []ua.MessageSecurityMode{1, 2, 3} {
				if (p == wire.None) != (m == 1) {
					continue
				}
				for _, k := range []string{"r2048_2", "r4096_2", "r1024_1"} {
					sec := wire.Sec{Policy: p, Mode: m, Client: pki.App("urn:verif:client", k), ServerCert: s.Cert.DER}
					t1 := time.Now()
					x, err := wire.NewSessionAs(s.Addr, s.URL, sec, func(s *wire.Session) wire.Identity { return s.UserName("u", "pw") })
					if err != nil {
						t.Errorf("%s %s %s %d: %v", sk, k, p, m, err)
						continue
					}
					if err := x.Renew(); err != nil {
						t.Errorf("%s %s %s %d: renew %v", sk, k, p, m, err)
						continue
					}
					r, err := wire.Do[ua.ReadResponse](x, &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: ua.VariableIDServerServerStatusState, AttributeID: ua.AttributeIDValue}}})
					if err != nil || len(r.Results) != 1 || r.Results[0].Value != int32(0) {
						t.Errorf("%s %d: %v %v", p, m, r, err)
					}
					x.Close()
					_ = t1
				}
			}
		}
		t.Log("done", time.Since(t0))
	}
}
