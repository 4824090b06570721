HELPER='''
func zzCert(t *testing.T, dir, name string) (string, string) {
	key, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	uri, _ := url.Parse("urn:zz:" + name)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour * 24),
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageContentCommitment | x509.KeyUsageKeyEncipherment | x509.KeyUsageDataEncipherment | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, BasicConstraintsValid: true, IsCA: true, URIs: []*url.URL{uri}, DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	raw, err := x509.CreateCertificate(rand.Reader, tpl, tpl, key.Public(), key)
	if err != nil {
		t.Fatal(err)
	}
	cf, kf := filepath.Join(dir, name+".crt"), filepath.Join(dir, name+".key")
	os.WriteFile(cf, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: raw}), 0600)
	os.WriteFile(kf, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(key)}), 0600)
	return cf, kf
}

// zzServer starts a server on a free port and returns it with its url and the directory of its certificates.
func zzServer(t *testing.T, opts ...server.Option) (*server.Server, string, string) {
	dir := t.TempDir()
	cf, kf := zzCert(t, dir, "server")
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	u := fmt.Sprintf("opc.tcp://127.0.0.1:%d", l.Addr().(*net.TCPAddr).Port)
	l.Close()
	srv, err := server.New(ua.ApplicationDescription{ApplicationURI: "urn:zz:server", ApplicationName: ua.LocalizedText{Text: "zz"}, ApplicationType: ua.ApplicationTypeServer, DiscoveryURLs: []string{u}}, cf, kf, u,
		append([]server.Option{server.WithAnonymousIdentity(true), server.WithSecurityPolicyNone(true), server.WithInsecureSkipVerify()}, opts...)...)
	if err != nil {
		t.Fatal(err)
	}
	go srv.ListenAndServe()
	for i := 0; i < 100; i++ {
		if c, err := net.Dial("tcp", u[len("opc.tcp://"):]); err == nil {
			c.Close()
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	return srv, u, dir
}

func zzDial(t *testing.T, u string, opts ...client.Option) *client.Client {
	c, err := client.Dial(context.Background(), u, append([]client.Option{client.WithInsecureSkipVerify()}, opts...)...)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { c.Abort(context.Background()) })
	return c
}
'''
IMPORTS='''
package server_test

import (
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/awcullen/opcua/client"
	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
)

var _ = zzServer
var _ = zzDial

func zzVar(srv *server.Server, id string, v any, ty ua.NodeID, rank int32) *server.VariableNode {
	n := server.NewVariableNode(srv, ua.NewNodeIDString(2, id), ua.NewQualifiedName(2, id), ua.NewLocalizedText(id, ""), ua.NewLocalizedText("", ""), nil,
		[]ua.Reference{ua.NewReference(ua.ReferenceTypeIDOrganizes, true, ua.NewExpandedNodeID(ua.ObjectIDObjectsFolder))},
		ua.NewDataValue(v, 0, time.Now(), 0, time.Now(), 0), ty, rank, nil, ua.AccessLevelsCurrentRead|ua.AccessLevelsCurrentWrite, 0, false, nil)
	srv.NamespaceManager().AddNode(n)
	return n
}
'''
PKG="server"
def demo(body, extra=''):
    return IMPORTS.replace('import (', 'import (\n'+extra,1)+HELPER+body
