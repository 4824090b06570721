package props

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/env"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// world is a server shared by the cases of a child process. Cases add nodes of their own and remove them again.
type world struct {
	*env.Srv
	ses  *wire.Session // anonymous, every permission
	mu   sync.Mutex
	next uint32
	name map[string]*wire.Session
}

// role i of the harness.
func role(i int) ua.NodeID { return ua.NewNodeIDNumeric(1, uint32(900+i)) }

// allPerms is every permission.
const allPerms = ua.PermissionType(0x1FFFF)

// rolesOf gives user "m<mask>" the roles of the mask; anonymous has role 0.
func rolesOf(id any, app, ep string) ([]ua.NodeID, error) {
	switch u := id.(type) {
	case ua.UserNameIdentity:
		m, err := strconv.Atoi(strings.TrimPrefix(u.UserName, "m"))
		if err != nil {
			return nil, ua.BadUserAccessDenied
		}
		r := []ua.NodeID{}
		for i := 0; i < 16; i++ {
			if m&(1<<i) != 0 {
				r = append(r, role(i))
			}
		}
		return r, nil
	case ua.AnonymousIdentity:
		return []ua.NodeID{role(0)}, nil
	}
	return nil, ua.BadUserAccessDenied
}

// baseOpts are the options every world has.
func baseOpts() []server.Option {
	return []server.Option{
		server.WithAnonymousIdentity(true), server.WithSecurityPolicyNone(true), server.WithInsecureSkipVerify(),
		server.WithAuthenticateUserNameIdentityFunc(func(u ua.UserNameIdentity, a, e string) error {
			if u.Password != "pw" {
				return ua.BadUserAccessDenied
			}
			return nil
		}),
		server.WithGetRolesFunc(rolesOf),
		server.WithRolePermissions([]ua.RolePermissionType{{RoleID: role(0), Permissions: allPerms}}),
		server.WithMaxSessionCount(1000),
	}
}

// w is the world of this process.
var w *world

func setup(opts ...server.Option) func() func() {
	return func() func() {
		s := env.Start("r2048_1", append(baseOpts(), opts...)...)
		w = &world{Srv: s, name: map[string]*wire.Session{}}
		s.NamespaceManager().Add("urn:verif:ns2")
		s.NamespaceManager().Add("urn:verif:ns3")
		w.ses = s.Session()
		return func() {}
	}
}

// user returns a session of a user name.
func (w *world) user(u string) *wire.Session {
	w.mu.Lock()
	defer w.mu.Unlock()
	if s, ok := w.name[u]; ok {
		return s
	}
	s, err := wire.NewSessionAs(w.Addr, w.URL, wire.NoSec, func(s *wire.Session) wire.Identity { return s.UserName(u, "pw") })
	if err != nil {
		kit.Infra("session of %s: %v", u, err)
	}
	w.name[u] = s
	return s
}

// id makes a fresh node id of a random kind in namespace 2.
func (w *world) id(t *rapid.T, l string) ua.NodeID {
	w.mu.Lock()
	w.next++
	n := w.next
	w.mu.Unlock()
	switch rapid.IntRange(0, 3).Draw(t, l) {
	case 0:
		return ua.NewNodeIDNumeric(2, 100000+n)
	case 1:
		return ua.NewNodeIDString(2, fmt.Sprintf("n%d", n))
	case 2:
		g := gen.GUID(t, l)
		g[0], g[1], g[2], g[3] = byte(n), byte(n>>8), byte(n>>16), 77
		return ua.NewNodeIDGUID(2, g)
	default:
		return ua.NewNodeIDOpaque(2, ua.ByteString(fmt.Sprintf("o%d", n)))
	}
}

// add adds nodes and returns a function that removes them.
func (w *world) add(ns ...server.Node) func() {
	if err := w.NamespaceManager().AddNodes(ns...); err != nil {
		kit.Infra("AddNodes: %v", err)
	}
	return func() {
		for i := len(ns) - 1; i >= 0; i-- {
			w.NamespaceManager().DeleteNode(ns[i], false)
		}
	}
}

func (w *world) uris() []string { return w.NamespaceManager().NamespaceUris() }

// do sends a request of the anonymous session and fails the case when the connection misbehaves.
func do[T any](c *kit.C, s *wire.Session, req ua.ServiceRequest) (*T, ua.StatusCode) {
	r, err := wire.Do[T](s, req)
	if err != nil {
		if code := wire.CodeOf(err); code != 0 {
			return r, code
		}
		c.Hardf("%T is not answered properly: %v", req, err)
	}
	return r, 0
}

func tick(t time.Time) time.Time { return t.Truncate(100 * time.Nanosecond) }

func qn(ns uint16, n string) ua.QualifiedName { return ua.NewQualifiedName(ns, n) }
func lt(s string) ua.LocalizedText            { return ua.NewLocalizedText(s, "en") }

func objRefs(parent ua.NodeID) []ua.Reference {
	return []ua.Reference{{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, IsInverse: true, TargetID: ua.NewExpandedNodeID(parent)}}
}

// variable makes a plain variable node.
func (w *world) variable(id ua.NodeID, v any, dt ua.NodeID, rank int32, access byte) *server.VariableNode {
	return server.NewVariableNode(w.Server, id, qn(2, "v"), lt("v"), lt(""), nil, objRefs(ua.ObjectIDObjectsFolder),
		ua.NewDataValue(v, 0, time.Now(), 0, time.Now(), 0), dt, rank, nil, access, 0, false, nil)
}

func in[T comparable](x T, xs ...T) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func pick[T any](t *rapid.T, l string, xs ...T) T { return xs[rapid.IntRange(0, len(xs)-1).Draw(t, l)] }

func hx(c ua.StatusCode) string { return fmt.Sprintf("0x%08x", uint32(c)) }

// startSrv starts a server with exactly the given options.
func startSrv(key string, opts ...server.Option) *env.Srv { return env.Start(key, opts...) }
