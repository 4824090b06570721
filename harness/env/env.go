// Package env starts servers of the code under test for the checks.
package env

import (
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"time"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"verif/harness/kit"
	"verif/harness/pki"
	"verif/harness/wire"
)

// ServerURI is the application uri of the servers.
const ServerURI = "urn:verif:server"

// Srv is a running server.
type Srv struct {
	*server.Server
	Addr string
	URL  string
	Dir  string
	Cert *pki.Cert
}

var reserved []net.Listener

// Port reserves a free port outside the range of outgoing connections. The reservation is a socket in the
// abstract namespace that lives as long as the process: no other process of the harness takes the port
// between this check and the server's listening.
func Port() int {
	for i := 0; i < 2000; i++ {
		p := 10000 + rand.IntN(20000)
		r, err := net.Listen("unix", fmt.Sprintf("@verif-port-%d", p))
		if err != nil {
			continue
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			r.Close()
			continue
		}
		l.Close()
		reserved = append(reserved, r)
		return p
	}
	kit.Infra("no free port")
	return 0
}

// New makes a server without listening.
func New(key string, opts ...server.Option) *Srv {
	dir, err := os.MkdirTemp("", "srv")
	if err != nil {
		kit.Infra("%v", err)
	}
	cert := pki.Make(pki.Spec{CN: "srv", URI: ServerURI, DNS: []string{"localhost"}, IPs: []net.IP{net.IPv4(127, 0, 0, 1)}, Key: pki.Key(key)})
	c, k := cert.Files(dir, "server")
	port := Port()
	url := fmt.Sprintf("opc.tcp://localhost:%d", port)
	s, err := server.New(ua.ApplicationDescription{ApplicationURI: ServerURI, ProductURI: "urn:verif", ApplicationName: ua.LocalizedText{Text: "verif", Locale: "en"}, ApplicationType: ua.ApplicationTypeServer, DiscoveryURLs: []string{url}},
		c, k, url, opts...)
	if err != nil {
		kit.Infra("server.New: %v", err)
	}
	return &Srv{Server: s, Addr: fmt.Sprintf("127.0.0.1:%d", port), URL: url, Dir: dir, Cert: cert}
}

// Start makes a server and lets it listen.
func Start(key string, opts ...server.Option) *Srv {
	for try := 0; ; try++ {
		s := New(key, opts...)
		fail := make(chan error, 1)
		go func() { fail <- s.ListenAndServe() }()
		if s.wait(fail) {
			return s
		}
		if try > 5 {
			kit.Infra("the server does not listen")
		}
	}
}

func (s *Srv) wait(fail chan error) bool {
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) {
		select {
		case <-fail:
			return false
		default:
		}
		c, err := net.DialTimeout("tcp", s.Addr, time.Second)
		if err == nil {
			c.Close()
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

// Sub makes a directory below the server's.
func (s *Srv) Sub(name string) string {
	d := filepath.Join(s.Dir, name)
	os.MkdirAll(d, 0o755)
	return d
}

// Session opens an anonymous, unsecured session.
func (s *Srv) Session() *wire.Session {
	x, err := wire.NewSession(s.Addr, s.URL)
	if err != nil {
		kit.Infra("session: %v", err)
	}
	return x
}

// RepoDir is the tree under test.
func RepoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}
