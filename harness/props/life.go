package props

import (
	"fmt"
	"math"
	"sync"
	"time"

	"verif/harness/kit"
	"verif/harness/wire"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Settings of subscriptions and their life in real time.

const lifeSlack = 3 * time.Second // what a busy machine may add

// revised judges the answer to a request for settings.
func revised(i, ri float64, k, rk, l, rl uint32) string {
	if !(ri >= 125 && ri <= 60000) {
		return fmt.Sprintf("the publishing interval %v is revised to %v, outside of 125..60000", i, ri)
	}
	if i >= 125 && i <= 60000 && ri != i {
		return fmt.Sprintf("the publishing interval %v is revised to %v", i, ri)
	}
	if i < 125 && ri != 125 || i > 60000 && ri != 60000 {
		return fmt.Sprintf("the publishing interval %v is revised to %v, not to the nearest limit", i, ri)
	}
	if rk == 0 {
		return fmt.Sprintf("the keep-alive count %d is revised to 0", k)
	}
	if k > 0 && float64(k)*ri <= 60000 && rk != k {
		return fmt.Sprintf("the keep-alive count %d (interval %v) is revised to %d", k, ri, rk)
	}
	if float64(rk)*ri >= 60000+ri {
		return fmt.Sprintf("the keep-alive count %d (interval %v) is revised to %d, more than a minute", k, ri, rk)
	}
	if rl < 3*rk {
		return fmt.Sprintf("the lifetime count %d is revised to %d, less than three times the keep-alive count %d", l, rl, rk)
	}
	t := float64(l) * ri
	if l >= 3*rk && t >= 10000 && t <= 3600000 && rl != l {
		return fmt.Sprintf("the lifetime count %d (interval %v, keep-alive count %d) is revised to %d", l, ri, rk, rl)
	}
	rt := float64(rl) * ri
	if rt < 10000 {
		return fmt.Sprintf("the lifetime count %d (interval %v) is revised to %d, less than ten seconds", l, ri, rl)
	}
	if rt >= 3600000+ri {
		return fmt.Sprintf("the lifetime count %d (interval %v) is revised to %d, more than an hour", l, ri, rl)
	}
	return ""
}

func drawInterval(t *rapid.T) float64 {
	switch rapid.IntRange(0, 4).Draw(t, "ik") {
	case 0:
		return pick(t, "i", 0, -1, 1, 124, 124.999, 125, 125.001, 59999, 60000, 60000.5, 60001, 1e9, 1e18, 1e300, -1e300, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, 5e-324)
	case 1:
		return rapid.Float64().Draw(t, "i")
	case 2:
		return float64(rapid.IntRange(125, 60000).Draw(t, "i"))
	case 3:
		return rapid.Float64Range(100, 70000).Draw(t, "i")
	}
	return float64(rapid.IntRange(125, 2000).Draw(t, "i"))
}

func drawCount(t *rapid.T, i float64) uint32 {
	switch rapid.IntRange(0, 4).Draw(t, "ck") {
	case 0:
		return pick[uint32](t, "c", 0, 1, 2, 3, 4, 10, 480, 28800, 28801, math.MaxUint32, math.MaxUint32/3, math.MaxUint32/3-1, math.MaxUint32/3+1, math.MaxInt32, math.MaxInt32+1)
	case 1:
		return rapid.Uint32().Draw(t, "c")
	case 2, 3:
		// around the limits in time
		ms := pick(t, "ms", 10000.0, 60000, 3600000, 20000, 180000)
		if math.IsNaN(i) {
			i = 125
		}
		return uint32(max(0, int(ms/min(max(i, 125), 60000))+rapid.IntRange(-2, 2).Draw(t, "d")))
	}
	return uint32(rapid.IntRange(1, 100).Draw(t, "c"))
}

// lifeParams checks revisions.
func lifeParams(c *kit.C) {
	t := c.T
	i := drawInterval(t)
	k, l := drawCount(t, i), drawCount(t, i)
	x, code := do[ua.CreateSubscriptionResponse](c, w.ses, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: i, RequestedLifetimeCount: l, RequestedMaxKeepAliveCount: k, PublishingEnabled: true})
	if code != 0 {
		c.Failf("CreateSubscription with interval %v, keep-alive %d, lifetime %d is refused with %s", i, k, l, hx(code))
	}
	id := x.SubscriptionID
	defer do[ua.DeleteSubscriptionsResponse](c, w.ses, &ua.DeleteSubscriptionsRequest{SubscriptionIDs: []uint32{id}})
	c.NT(fmt.Sprintf("interval %v keep-alive %d lifetime %d -> %v %d %d", i, k, l, x.RevisedPublishingInterval, x.RevisedMaxKeepAliveCount, x.RevisedLifetimeCount))
	if m := revised(i, x.RevisedPublishingInterval, k, x.RevisedMaxKeepAliveCount, l, x.RevisedLifetimeCount); m != "" {
		c.Failf("CreateSubscription with interval %v, keep-alive %d, lifetime %d: %s", i, k, l, m)
	}
	for n := rapid.IntRange(0, 2).Draw(t, "mods"); n > 0; n-- {
		i := drawInterval(t)
		k, l := drawCount(t, i), drawCount(t, i)
		y, code := do[ua.ModifySubscriptionResponse](c, w.ses, &ua.ModifySubscriptionRequest{SubscriptionID: id, RequestedPublishingInterval: i, RequestedLifetimeCount: l, RequestedMaxKeepAliveCount: k})
		if code != 0 {
			c.Failf("ModifySubscription with interval %v, keep-alive %d, lifetime %d is refused with %s", i, k, l, hx(code))
		}
		c.Label("modified")
		if m := revised(i, y.RevisedPublishingInterval, k, y.RevisedMaxKeepAliveCount, l, y.RevisedLifetimeCount); m != "" {
			c.Failf("ModifySubscription with interval %v, keep-alive %d, lifetime %d: %s", i, k, l, m)
		}
	}
}

type lifePlan struct {
	kind  string
	i     int // publishing interval
	k, l  uint32
	i2    int // after a modification
	k2    uint32
	gaps  []int // pauses in ms
	how   []string
	n     int // subscriptions
	stale int
	data  bool
	off   bool
}

func drawLife(t *rapid.T) lifePlan {
	p := lifePlan{kind: pick(t, "kind", "keepalive", "expire", "disabled", "reconnect", "expire", "keepalive", "many")}
	// a keep-alive period of up to 4 s
	ik := func() (int, uint32) {
		i := pick(t, "i", 125, 200, 500, 1000, 1500)
		return i, uint32(rapid.IntRange(1, max(1, 4000/i)).Draw(t, "k"))
	}
	p.i, p.k = ik()
	p.n = 1
	switch p.kind {
	case "keepalive":
		p.i2, p.k2 = ik()
	case "expire", "many":
		p.data, p.off = rapid.Bool().Draw(t, "data"), rapid.IntRange(0, 2).Draw(t, "off") == 0
		p.i = pick(t, "i", 125, 250, 500, 1000, 2000)
		p.k = uint32(rapid.IntRange(1, max(1, 3000/p.i)).Draw(t, "k"))
		p.l = uint32(rapid.IntRange(0, max(1, 12000/p.i)).Draw(t, "l"))
		if p.kind == "many" {
			p.n = rapid.IntRange(60, 90).Draw(t, "n")
			p.data = false
		}
		total := 0
		for total < 16000 && p.kind == "expire" && rapid.IntRange(0, 4).Draw(t, "again") > 0 {
			g := rapid.IntRange(1000, 7000).Draw(t, "gap")
			total += g
			p.gaps = append(p.gaps, g)
			p.how = append(p.how, pick(t, "how", "publish", "publish", "mode", "modify", "republish", "items"))
		}
	case "disabled":
		for n := rapid.IntRange(4, 16).Draw(t, "n"); n > 0; n-- {
			p.how = append(p.how, pick(t, "how", "set", "off", "on", "set", "off"))
			p.gaps = append(p.gaps, rapid.IntRange(0, 400).Draw(t, "gap"))
		}
	case "reconnect":
		p.i = 500
		p.k = 4
		p.stale = rapid.IntRange(4, 70).Draw(t, "stale")
	}
	return p
}

// feed keeps n publish requests outstanding and reports what comes back.
type feed struct {
	l    *lane
	out  chan pubGot
	stop chan struct{}
	wg   sync.WaitGroup
}

type pubGot struct {
	x   *ua.PublishResponse
	err error
	raw *wire.Msg
	at  time.Time
}

func (l *lane) feed(n int) *feed {
	f := &feed{l: l, out: make(chan pubGot, 1000), stop: make(chan struct{})}
	for ; n > 0; n-- {
		f.wg.Add(1)
		go func() {
			defer f.wg.Done()
			for {
				req := &ua.PublishRequest{RequestHeader: l.s.Header()}
				ch, _, err := l.s.Go(req)
				if err != nil {
					f.out <- pubGot{err: err, at: time.Now()}
					return
				}
				select {
				case <-f.stop:
					return
				case <-l.s.DeadCh():
					f.out <- pubGot{err: fmt.Errorf("connection closed"), at: time.Now()}
					return
				case r := <-ch:
					x, err := wire.As[ua.PublishResponse](req, r.Msg, r.Err)
					f.out <- pubGot{x, err, r.Raw, time.Now()}
					if err != nil {
						return
					}
				}
			}
		}()
	}
	return f
}

func (f *feed) end() { close(f.stop); f.wg.Wait() }

// next waits for a response.
func (f *feed) next(d time.Duration, why string) pubGot {
	select {
	case g := <-f.out:
		if g.err != nil {
			f.l.failf("Publish is answered with %v", g.err)
		}
		return g
	case <-time.After(d):
		f.l.failf("no answer to outstanding publish requests within %v (%s)", d, why)
	}
	panic("unreachable")
}

func lifeRun(l *lane, p lifePlan) {
	switch p.kind {
	case "keepalive":
		lifeKeepAlive(l, p)
	case "disabled":
		lifeDisabled(l, p)
	case "reconnect":
		lifeReconnect(l, p)
	default:
		lifeExpire(l, p)
	}
	l.label(p.kind)
}

func (l *lane) subscribe(p lifePlan, enabled bool) *ua.CreateSubscriptionResponse {
	x := must[ua.CreateSubscriptionResponse](l, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: float64(p.i), RequestedLifetimeCount: p.l, RequestedMaxKeepAliveCount: p.k, PublishingEnabled: enabled})
	l.note("subscription %d: interval %v keep-alive %d lifetime %d", x.SubscriptionID, x.RevisedPublishingInterval, x.RevisedMaxKeepAliveCount, x.RevisedLifetimeCount)
	if x.RevisedPublishingInterval != float64(p.i) || x.RevisedMaxKeepAliveCount != p.k {
		l.failf("interval %d and keep-alive %d are revised to %v and %d", p.i, p.k, x.RevisedPublishingInterval, x.RevisedMaxKeepAliveCount)
	}
	return x
}

func (p lifePlan) period() time.Duration {
	return time.Duration(p.i) * time.Millisecond * time.Duration(p.k)
}

func lifeKeepAlive(l *lane, p lifePlan) {
	x := l.subscribe(p, true)
	f := l.feed(3)
	defer f.end()
	watch := func(d time.Duration, extra time.Duration) {
		for end := time.Now().Add(2*d + time.Second); time.Now().Before(end); {
			g := f.next(d+extra+lifeSlack, fmt.Sprintf("the keep-alive period is %v", d))
			if g.x.SubscriptionID != x.SubscriptionID {
				l.failf("a message of subscription %d arrives", g.x.SubscriptionID)
			}
			extra = 0
			l.label("keep-alives in time")
		}
	}
	watch(p.period(), 0)
	q := p
	q.i, q.k = p.i2, p.k2
	l.note("modify to interval %d keep-alive %d", q.i, q.k)
	y := must[ua.ModifySubscriptionResponse](l, &ua.ModifySubscriptionRequest{SubscriptionID: x.SubscriptionID, RequestedPublishingInterval: float64(q.i), RequestedMaxKeepAliveCount: q.k})
	if y.RevisedPublishingInterval != float64(q.i) || y.RevisedMaxKeepAliveCount != q.k {
		l.failf("interval %d and keep-alive %d are revised to %v and %d", q.i, q.k, y.RevisedPublishingInterval, y.RevisedMaxKeepAliveCount)
	}
	watch(q.period(), p.period())
}

func lifeItem(l *lane, sub uint32) (*server.VariableNode, *server.DataChangeMonitoredItem, func()) {
	w.mu.Lock()
	w.next++
	id := num(2, 200000+w.next)
	w.mu.Unlock()
	n := w.variable(id, int32(1), ua.DataTypeIDInt32, -1, 3)
	undo := w.add(n)
	x := must[ua.CreateMonitoredItemsResponse](l, &ua.CreateMonitoredItemsRequest{SubscriptionID: sub, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
		ItemToMonitor: ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting,
		RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, QueueSize: 1024}}}})
	if len(x.Results) != 1 || x.Results[0].StatusCode != 0 {
		l.failf("item is refused: %v", x.Results)
	}
	s, _ := w.SubscriptionManager().Get(sub)
	it, _ := s.FindItem(x.Results[0].MonitoredItemID)
	return n, it.(*server.DataChangeMonitoredItem), undo
}

// lifeDisabled switches publishing off and on under way; chunk sequence numbers tell what was sent before what.
func lifeDisabled(l *lane, p lifePlan) {
	p.i, p.k = 125, 1
	x := l.subscribe(p, true)
	n, it, undo := lifeItem(l, x.SubscriptionID)
	defer undo()
	f := l.feed(3)
	v, on := int32(1), true
	type span struct {
		from uint32
		on   bool
		sent time.Time
	}
	spans := []span{{0, true, time.Time{}}}
	got := []pubGot{}
	for i, h := range p.how {
		switch h {
		case "set":
			v++
			n.SetValue(ua.NewDataValue(v, 0, time.Now(), 0, time.Now(), 0))
			it.Poll()
		default:
			req := &ua.SetPublishingModeRequest{RequestHeader: l.s.Header(), PublishingEnabled: h == "on", SubscriptionIDs: []uint32{x.SubscriptionID}}
			sent := time.Now()
			ch, _, err := l.s.Go(req)
			if err != nil {
				l.failf("SetPublishingMode: %v", err)
			}
			select {
			case r := <-ch:
				y, err := wire.As[ua.SetPublishingModeResponse](req, r.Msg, r.Err)
				if err != nil || len(y.Results) != 1 || y.Results[0] != 0 {
					l.failf("SetPublishingMode: %v %v", err, y)
				}
				on = h == "on"
				spans = append(spans, span{r.Raw.Seq, on, sent})
			case <-time.After(30 * time.Second):
				l.failf("SetPublishingMode is not answered")
			}
		}
		l.note("%s", h)
		time.Sleep(time.Duration(p.gaps[i]) * time.Millisecond)
	}
	if !on {
		spans = append(spans, span{math.MaxUint32, true, time.Now()})
		must[ua.SetPublishingModeResponse](l, &ua.SetPublishingModeRequest{PublishingEnabled: true, SubscriptionIDs: []uint32{x.SubscriptionID}})
	}
	// everything arrives in the end
	last := int32(0)
	for last < v {
		g := f.next(p.period()+lifeSlack, "values are due")
		got = append(got, g)
		for _, d := range g.x.NotificationMessage.NotificationData {
			for _, m := range d.(ua.DataChangeNotification).MonitoredItems {
				if y := m.Value.Value.(int32); y != last+1 {
					l.failf("value %d arrives after %d", y, last)
				}
				last++
			}
		}
		if len(got) > 500 {
			l.failf("value %d does not arrive", last+1)
		}
	}
	f.end()
	for _, g := range got {
		if len(g.x.NotificationMessage.NotificationData) == 0 {
			continue
		}
		// sent after the answer to "off" and received before the next request was sent
		for i, s := range spans[:len(spans)-1] {
			if !s.on && g.raw.Seq > s.from && g.at.Before(spans[i+1].sent) || !s.on && !spans[i+1].on && g.raw.Seq > s.from && g.raw.Seq < spans[i+1].from {
				l.failf("data is sent while publishing is disabled")
			}
		}
	}
	l.label("publishing switched")
}

func lifeReconnect(l *lane, p lifePlan) {
	l.subscribe(p, true)
	must[ua.PublishResponse](l, &ua.PublishRequest{})
	for i := 0; i < p.stale; i++ {
		if _, _, err := l.s.Go(&ua.PublishRequest{RequestHeader: l.s.Header()}); err != nil {
			l.failf("Publish cannot be sent: %v", err)
		}
	}
	// the server has them all
	must[ua.ReadResponse](l, &ua.ReadRequest{NodesToRead: []ua.ReadValueID{{NodeID: ua.VariableIDServerServerStatusState, AttributeID: ua.AttributeIDValue}}})
	l.s.Drop()
	c, err := wire.Connect(w.Addr, w.URL, wire.DefaultLimits, wire.NoSec)
	if err != nil {
		l.failf("no second connection: %v", err)
	}
	c.Start()
	l.s.Client = c
	if err := l.s.Activate(l.s.Anonymous()); err != nil {
		l.failf("the session cannot be activated on a new connection: %v", err)
	}
	l.note("reconnected with %d publish requests of the lost connection", p.stale)
	f := l.feed(3)
	defer f.end()
	for i := 0; i < 3; i++ {
		f.next(p.period()+lifeSlack, fmt.Sprintf("the keep-alive period is %v", p.period()))
	}
}

func lifeExpire(l *lane, p lifePlan) {
	type one struct {
		id         uint32
		from, till time.Time // when the last reset was asked for and answered
		life, keep time.Duration
		gone       time.Time
		interval   time.Duration
	}
	subs := []*one{}
	for i := 0; i < p.n; i++ {
		t0 := time.Now()
		x := l.subscribe(p, !p.off)
		ms := time.Duration(p.i) * time.Millisecond
		subs = append(subs, &one{id: x.SubscriptionID, from: t0, till: time.Now(), life: ms * time.Duration(x.RevisedLifetimeCount), keep: ms * time.Duration(x.RevisedMaxKeepAliveCount), interval: ms})
	}
	if p.data {
		_, _, undo := lifeItem(l, subs[0].id)
		defer undo()
	}
	look := func() int {
		left := 0
		for _, s := range subs {
			if !s.gone.IsZero() {
				continue
			}
			before := time.Now()
			if _, ok := w.SubscriptionManager().Get(s.id); !ok {
				s.gone = time.Now()
				if d := s.gone.Sub(s.from); d < s.life-s.interval-100*time.Millisecond {
					l.failf("subscription %d is removed %v after its last request, its lifetime is %v", s.id, d, s.life)
				}
				continue
			}
			left++
			if d := before.Sub(s.till); d > s.life+s.keep+s.interval+lifeSlack {
				l.failf("subscription %d is still there %v after its last request, its lifetime is %v and its keep-alive period %v", s.id, d, s.life, s.keep)
			}
		}
		return left
	}
	for i, g := range p.gaps {
		time.Sleep(time.Duration(g) * time.Millisecond)
		s := subs[0]
		if look() == 0 {
			break
		}
		t0 := time.Now()
		l.note("%s after %d ms", p.how[i], g)
		switch p.how[i] {
		case "publish":
			if y := must[ua.PublishResponse](l, &ua.PublishRequest{}); y.SubscriptionID != s.id {
				l.failf("a message of subscription %d arrives", y.SubscriptionID)
			}
		case "mode":
			must[ua.SetPublishingModeResponse](l, &ua.SetPublishingModeRequest{PublishingEnabled: !p.off, SubscriptionIDs: []uint32{s.id}})
		case "modify":
			y := must[ua.ModifySubscriptionResponse](l, &ua.ModifySubscriptionRequest{SubscriptionID: s.id, RequestedPublishingInterval: float64(p.i), RequestedLifetimeCount: p.l, RequestedMaxKeepAliveCount: p.k})
			s.life = s.interval * time.Duration(y.RevisedLifetimeCount)
		case "items":
			must[ua.CreateMonitoredItemsResponse](l, &ua.CreateMonitoredItemsRequest{SubscriptionID: s.id, ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: num(2, 9), AttributeID: 13}}}})
		case "republish":
			ask[ua.RepublishResponse](l, &ua.RepublishRequest{SubscriptionID: s.id, RetransmitSequenceNumber: 99999})
		}
		s.from, s.till = t0, time.Now()
	}
	l.note("silence")
	for look() > 0 {
		time.Sleep(50 * time.Millisecond)
	}
	// one status change for each
	told := map[uint32]bool{}
	for {
		x, code := ask[ua.PublishResponse](l, &ua.PublishRequest{})
		if code == ua.BadNoSubscription {
			break
		}
		if code != 0 {
			l.failf("Publish after the end is answered with %s", hx(code))
		}
		mine := false
		for _, s := range subs {
			mine = mine || s.id == x.SubscriptionID
		}
		d := x.NotificationMessage.NotificationData
		if !mine || told[x.SubscriptionID] || len(d) != 1 {
			l.failf("after the end of the subscriptions message %+v of subscription %d arrives (again: %v)", x.NotificationMessage, x.SubscriptionID, told[x.SubscriptionID])
		}
		if sc, ok := d[0].(ua.StatusChangeNotification); !ok || sc.Status != ua.BadTimeout {
			l.failf("after the end of a subscription %+v arrives, not a timeout", d[0])
		}
		told[x.SubscriptionID] = true
	}
	if len(told) < min(len(subs), 64) {
		l.failf("%d subscriptions ended, the client is told of %d", len(subs), len(told))
	}
}

func lifeCheck(c *kit.C) {
	plans := []lifePlan{}
	for i := 30; i > 0; i-- {
		plans = append(plans, drawLife(c.T))
	}
	lanes(c, plans, lifeRun)
}

func init() {
	kit.Register(&kit.Check{
		ID:          "C24",
		Rule:        "params: random CreateSubscription and ModifySubscription parameters (extremes, NaN, around each limit in time) against the rules for revised values; life: lanes in real time that watch keep-alives under outstanding publishes, modified settings, publishing switched off and on, reconnecting with publish requests of the lost connection, and expiry after pauses and resets, alone or with 60 to 90 subscriptions; non-trivial: distinct parameter sets and lane histories",
		Assumptions: []string{"a busy machine delays a message by less than three seconds", "a subscription counts its lifetime in publishing cycles, at most one keep-alive period late"},
		Subs: []kit.Sub{{Name: "params", Quick: 6000, Thorough: 200000, Shards: 2, Fn: lifeParams, Setup: setup(server.WithMaxSubscriptionCount(100000), server.WithServerDiagnostics(false))},
			{Name: "life", Quick: 6, Thorough: 120, Shards: 6, Fn: lifeCheck, Setup: monSetup, Budget: 60 * time.Second}},
	})
}
