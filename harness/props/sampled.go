package props

import (
	"fmt"
	"math"
	"time"

	"verif/harness/kit"

	"github.com/awcullen/opcua/server"
	"github.com/awcullen/opcua/ua"
	"pgregory.net/rapid"
)

// Items sampled by the clock: the values set are distinct, so that what arrives tells which of them were sampled.
// What is sampled depends on the schedule; what arrives must be a subsequence of what was set, no faster than the
// sampling interval, each value further from the one before than the deadband, and must end within the deadband of
// the last value set.

type sampledPlan struct {
	interval float64
	dead     float64
	filter   *ua.DataChangeFilter
	steps    []float64
	pause    []time.Duration
	late     bool
	ints     bool
}

func drawSampled(t *rapid.T, filtered bool) sampledPlan {
	p := sampledPlan{interval: pick[float64](t, "interval", 20, 50, 100, 200), dead: 0, late: rapid.Bool().Draw(t, "late"), ints: rapid.Bool().Draw(t, "ints")}
	if filtered {
		p.dead = pick(t, "dead", 0, 1, 2, 2.5, 10)
		p.filter = &ua.DataChangeFilter{Trigger: ua.DataChangeTrigger(rapid.IntRange(1, 2).Draw(t, "trigger")), DeadbandType: uint32(ua.DeadbandTypeAbsolute), DeadbandValue: p.dead}
	}
	slow := rapid.Bool().Draw(t, "slow")
	for k := rapid.IntRange(2, 30).Draw(t, "sets"); k > 0; k-- {
		s := 1.0
		if !slow {
			s = float64(rapid.IntRange(1, 8).Draw(t, "step"))
		}
		p.steps = append(p.steps, s)
		p.pause = append(p.pause, time.Duration(pick(t, "pause", 0, 0, 1, 5, 20, 60, 110))*time.Millisecond)
	}
	return p
}

func sampledRun(l *lane, p sampledPlan) {
	w.mu.Lock()
	w.next++
	id := num(2, 200000+w.next)
	w.mu.Unlock()
	val := func(x float64) any {
		if p.ints {
			return int32(x)
		}
		return x
	}
	ty := ua.DataTypeIDDouble
	if p.ints {
		ty = ua.DataTypeIDInt32
	}
	dv := func(x float64) ua.DataValue {
		n := time.Now().UTC()
		return ua.NewDataValue(val(x), 0, monClock, 0, n, 0)
	}
	v := 100.0
	n := server.NewVariableNode(w.Server, id, qn(2, "v"), lt("v"), lt(""), nil, objRefs(ua.ObjectIDObjectsFolder), dv(v), ty, -1, nil, 3, 0, false, nil)
	defer w.add(n)()
	cs := must[ua.CreateSubscriptionResponse](l, &ua.CreateSubscriptionRequest{RequestedPublishingInterval: 0, RequestedLifetimeCount: 10000, RequestedMaxKeepAliveCount: 1, PublishingEnabled: true})
	it := monItem{handle: 7, qs: 1000, oldest: true, sample: p.interval, filter: p.filter}
	l.note("interval %v filter %+v steps %v pauses %v late %v", p.interval, p.filter, p.steps, p.pause, p.late)
	start := time.Now()
	x := must[ua.CreateMonitoredItemsResponse](l, &ua.CreateMonitoredItemsRequest{SubscriptionID: cs.SubscriptionID, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
		ItemToMonitor: ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: it.params()}}})
	if len(x.Results) != 1 || x.Results[0].StatusCode != 0 || x.Results[0].RevisedSamplingInterval < p.interval {
		l.failf("the item is answered with %+v", x.Results)
	}
	set := map[float64]int{v: 0}
	got := []float64{}
	quiet := 0
	pull := func() {
		r := must[ua.PublishResponse](l, &ua.PublishRequest{})
		quiet++
		for _, d := range r.NotificationMessage.NotificationData {
			dc, ok := d.(ua.DataChangeNotification)
			if !ok {
				l.failf("notification data is a %T", d)
			}
			for _, mn := range dc.MonitoredItems {
				quiet = 0
				if mn.ClientHandle != 7 || mn.Value.StatusCode != 0 {
					l.failf("%+v arrives", mn)
				}
				f := math.NaN()
				switch y := mn.Value.Value.(type) {
				case int32:
					f = float64(y)
				case float64:
					f = y
				}
				i, ok := set[f]
				if !ok {
					l.failf("%v arrives, it was never set", mn.Value.Value)
				}
				if k := len(got); k > 0 {
					if j := set[got[k-1]]; i <= j {
						l.failf("value %v (set as number %d) arrives after value %v (number %d): %v", f, i, got[k-1], j, got)
					}
					if math.Abs(f-got[k-1]) <= p.dead {
						l.failf("value %v is within the deadband of the value before it: %v", f, got)
					}
				} else if i != 0 {
					l.failf("the first value to arrive is %v, the value when the item was made is 100", f)
				}
				got = append(got, f)
			}
		}
	}
	for i := range p.steps {
		time.Sleep(p.pause[i])
		v += p.steps[i]
		set[v] = i + 1
		n.SetValue(dv(v))
		if !p.late && i%4 == 0 {
			pull()
		}
	}
	for quiet = 0; ; {
		pull()
		if len(got) > 0 && math.Abs(v-got[len(got)-1]) <= p.dead && quiet >= 3 {
			break
		}
		if quiet > 120 {
			l.failf("the last value %v does not arrive: %v", v, got)
		}
	}
	if most := int(time.Since(start)/(time.Duration(x.Results[0].RevisedSamplingInterval)*time.Millisecond)) + 2; len(got) > most {
		l.failf("%d values arrive in a time for %d samples: %v", len(got), most, got)
	}
	if len(got) > 2 {
		l.label("several samples")
	}
	if len(got) < len(set) {
		l.label("some left out")
	}
	l.note("%v", fmt.Sprint(got))
}

func sampledCheck(filtered bool) func(*kit.C) {
	return func(c *kit.C) {
		ps := []sampledPlan{}
		for i := pick(c.T, "lanes", 40, 1, 40, 8); i > 0; i-- {
			ps = append(ps, drawSampled(c.T, filtered))
		}
		lanes(c, ps, sampledRun)
	}
}
