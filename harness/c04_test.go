package vh

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

func init() { checks["C04"] = checkC04 }

// the ways in which one domain's policy may fail, besides those of outage
const (
	c04Hang = outageWays + iota
	c04NotModified
	c04Expired
	c04Forged
	c04Unknown
	c04Altered
	c04Ways
)

type outage04 struct {
	from, to time.Time
	way      int
}

// hist04 is what the server of one domain served.
type hist04 struct {
	dom     string
	exp     map[int]time.Time
	pubAt   map[int]time.Time
	byTag   map[string]int
	cur     int
	outages []outage04
}

func (h *hist04) published(t time.Time) int {
	best := 0
	for v, at := range h.pubAt {
		if !at.After(t) && v > best {
			best = v
		}
	}
	return best
}

// lasting says that every version which the server had from a to b is unexpired at b.
func (h *hist04) lasting(a, b time.Time) bool {
	for v := h.published(a); v <= h.published(b); v++ {
		if !h.exp[v].After(b) {
			return false
		}
	}
	return true
}

// healthy says that no outage touches the time from a to b.
func (h *hist04) healthy(a, b time.Time) bool {
	for _, o := range h.outages {
		if o.from.Before(b) && o.to.After(a) {
			return false
		}
	}
	return true
}

type deliv04 struct {
	v  int
	at time.Time
}

func (h *hist04) delivered(reqs []Req) (l []deliv04) {
	for _, q := range reqs {
		if strings.HasSuffix(q.URL, policyPath(h.dom)) && q.Status == 200 && q.Err == nil && !q.Done.IsZero() {
			if v := h.byTag[q.Tag]; v > 0 && h.exp[v].After(q.Done) {
				l = append(l, deliv04{v, q.Done})
			}
		}
	}
	return
}

// world04 serves the histories with outages.
func world04(g *Rng, w *World, doms []string, horizon time.Duration, unit time.Duration) map[string]*hist04 {
	hs := map[string]*hist04{}
	start := time.Now()
	for n, d := range doms {
		h := &hist04{dom: d, exp: map[int]time.Time{}, pubAt: map[int]time.Time{}, byTag: map[string]int{}}
		hs[d] = h
		at := start.Add(unit)
		for at.Before(start.Add(horizon)) && !(n == 0 && len(doms) > 1 && g.P(20)) {
			at = at.Add(g.Dur(0, Pick(g, []time.Duration{2 * unit, 8 * unit})))
			o := outage04{from: at, way: g.N(c04Ways)}
			at = at.Add(g.Dur(unit/10, Pick(g, []time.Duration{unit, 4 * unit, 15 * unit})))
			o.to = at
			if g.P(5) { // for good
				o.to = start.Add(1000 * horizon)
				at = o.to
			}
			h.outages = append(h.outages, o)
		}
	}
	w.SetFault(func(path string, rq *http.Request, rec *Req) (Resp, bool) {
		for _, d := range doms {
			if path != policyPath(d) {
				continue
			}
			n := time.Now()
			for _, o := range hs[d].outages {
				if n.Before(o.from) || !n.Before(o.to) {
					continue
				}
				way := o.way
				if rq.Header.Get("If-None-Match") == "" && way == c04NotModified {
					way = 1
				}
				switch way {
				case c04Hang:
					return Resp{Hang: true}, true
				case c04NotModified:
					return Resp{Status: http.StatusNotModified}, true
				case c04Expired: // authentic, but expired a moment ago
					return Resp{Status: 200, Header: map[string]string{"ETag": `"old"`}, Body: verDoc05(NewRng("old"), w, d, 250, n.Add(-time.Millisecond)).JSON()}, true
				case c04Forged, c04Unknown, c04Altered: // never expires, but is not authentic
					doc := verDoc05(NewRng("forged"), w, d, 251, n.Add(100000*time.Hour))
					switch way {
					case c04Forged:
						doc.ZTS = EC(40)
					case c04Unknown:
						doc.ZTSID = "none"
					}
					b := doc.JSON()
					if way == c04Altered {
						b = []byte(strings.ReplaceAll(string(b), `"expires":"2`, `"expires":"3`))
					}
					return Resp{Status: 200, Header: map[string]string{"ETag": `"forged"`}, Body: b}, true
				}
				return outage{way: way}.resp(false), true
			}
		}
		return Resp{}, false
	})
	return hs
}

func (h *hist04) publish(g *Rng, w *World, life time.Duration) {
	h.cur++
	e := time.Now().Add(life).Truncate(time.Millisecond)
	h.exp[h.cur], h.pubAt[h.cur] = e, time.Now()
	w.ServePolicy(verDoc05(g, w, h.dom, h.cur, e))
	h.byTag[fmt.Sprint(w.Ver)] = h.cur
}

func checkC04(r *Run) {
	pools()
	const eps = 5 * time.Millisecond
	r.Bubbles("outages", r.Tier(500, 12000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		doms := Shuffle(g, []string{"dom.a", "dom.ab", "dom", "xdom.a"})[:g.Range(1, 3)]
		U := Pick(g, []time.Duration{30 * time.Second, 5 * time.Minute, time.Hour, 6 * time.Hour}) // the unit of what happens
		P, purge := U, Pick(g, []time.Duration{U / 10, U / 3, U, 3 * U})
		horizon := U * time.Duration(g.Range(15, 40))
		expiring := i%3 == 0 // no periodic refreshes, or rare ones
		if expiring {
			P, purge = Pick(g, []time.Duration{2 * horizon, 2 * horizon, horizon / 3}), Pick(g, []time.Duration{U / 20, U / 10, U / 3})
		}
		att, rdelay := g.Range(0, 3), Pick(g, []time.Duration{time.Second, U / 20})
		C := min(U/6, 30*time.Second)
		lat := g.Dur(0, Pick(g, []time.Duration{time.Millisecond, C / 3}))
		D := time.Duration(att+1) * (C + rdelay) // the longest update
		B := P + 2*D + 3*time.Second             // the longest until a published policy has to be in effect
		margin := Pick(g, []time.Duration{time.Second, U / 2, 4 * U})
		hs := world04(g, w, doms, horizon, U)
		if expiring { // few outages
			for _, d := range doms {
				var l []outage04
				for _, o := range hs[d].outages {
					if o.to.Sub(o.from) < 2*U && g.P(40) {
						l = append(l, o)
					}
				}
				hs[d].outages = l
			}
		}
		lg := NewRng(g.U64())
		w.Latency = func(string) time.Duration { return lg.Dur(lat/2, lat) }
		life := func() time.Duration {
			if expiring {
				return Pick(g, []time.Duration{U, g.Dur(U, 2*U)}) + 2*lat
			}
			return max(g.Dur(U/4, Pick(g, []time.Duration{U, 3 * U, 12 * U})), 2*lat+10*time.Millisecond)
		}
		pause := func() time.Duration {
			if expiring { // mostly before the expiry
				return g.Dur(U/2, U)
			}
			return g.Dur(U/5, Pick(g, []time.Duration{2 * U, 8 * U}))
		}
		pubAt := map[string]time.Time{}
		for _, d := range doms {
			hs[d].publish(g, w, max(life(), D+time.Second))
			pubAt[d] = time.Now().Add(pause())
		}
		pd := w.Policyd(doms, policy.WithHTTPClient(w.Client(C)), policy.WithRefreshPeriod(P.String()), policy.WithPurgePeriod(purge.String()),
			policy.WithRetryAttempts(att), policy.WithRetryDelay(rdelay.String()), policy.WithExpiryMargin(margin.String()))
		cfg := fmt.Sprintf("refresh period %v purge period %v attempts %d retry delay %v timeout %v latency %v expiry margin %v", P, purge, att, rdelay, C, lat, margin)
		if err := pd.Update(ctx); err != nil {
			r.Violate(i, "init", "%s: the first update failed: %v", cfg, err)
			return
		}
		begin := time.Now()
		drain(pd.Start(ctx))
		type vread struct {
			v  int
			at time.Time
		}
		reads := map[string][]vread{}
		end := begin.Add(horizon)
		var allOut []outage04
		for _, d := range doms {
			allOut = append(allOut, hs[d].outages...)
		}
		for n := 0; time.Now().Before(end) && n < 400; n++ {
			now := time.Now()
			to := now.Add(g.Dur(time.Millisecond, horizon/60))
			d := Pick(g, doms)
			switch g.N(6) { // the interesting times
			case 0:
				e := hs[d].exp[max(1, hs[d].cur-g.N(2))]
				to = e.Add(Pick(g, []time.Duration{-10 * time.Millisecond, 10 * time.Millisecond, purge, purge + C, -D, P}))
			case 1:
				k := now.Sub(begin)/P + 1
				to = begin.Add(k * P).Add(Pick(g, []time.Duration{-time.Millisecond, time.Millisecond, lat + time.Millisecond, D, D + time.Second}))
			case 2:
				if len(allOut) > 0 {
					o := Pick(g, allOut)
					to = o.to.Add(B + time.Second)
				}
			}
			if far := now.Add(horizon / 30); to.After(far) || !to.After(now) {
				to = now.Add(g.Dur(time.Millisecond, horizon/60))
			}
			for _, d := range doms { // publish on the way
				if !pubAt[d].After(to) {
					time.Sleep(time.Until(pubAt[d]))
					if hs[d].cur < 240 {
						hs[d].publish(g, w, life())
					}
					pubAt[d] = time.Now().Add(pause())
				}
			}
			time.Sleep(time.Until(to) + 333*time.Nanosecond)
			for _, d := range doms {
				at := time.Now()
				got, err := pd.CheckPolicyRoles(ctx, d, roles05, "act", "res")
				v, bad := version05(got, err)
				if bad != "" {
					r.Violate(i, "torn", "%s: domain %s at %v: the answer is not that of any version: %s", cfg, d, at, bad)
					return
				}
				reads[d] = append(reads[d], vread{v, at})
			}
		}
		reqs := w.Reqs()
		for _, d := range doms {
			h := hs[d]
			del := h.delivered(reqs)
			best, bestAt := 0, begin
			for n, q := range reads[d] {
				say := func(class, what string) {
					var near []string
					for _, x := range reqs {
						if strings.HasSuffix(x.URL, policyPath(d)) && x.At.After(q.at.Add(-3*U)) && x.At.Before(q.at) {
							v := h.byTag[x.Tag]
							near = append(near, fmt.Sprintf("%v-%v status %d error %v version %d expiry %v", x.At.Sub(begin), x.Done.Sub(begin), x.Status, x.Err, v, h.exp[v].Sub(begin)))
						}
					}
					r.Violate(i, class, "%s: %s: domain %s at %v: the decision is by version %d (expiry %v), the newest before was version %d at %v (expiry %v), published is %d; fetches: %s", cfg, what, d, q.at.Sub(begin), q.v, h.exp[q.v].Sub(begin), best, bestAt.Sub(begin), h.exp[best].Sub(begin), h.published(q.at), strings.Join(near, "; "))
				}
				// expired says that a version from least on, which may be in effect, is expired
				expired := func(least int) bool {
					for _, x := range del {
						if x.v >= least && !x.at.After(q.at) && !h.exp[x.v].After(q.at.Add(eps)) {
							return true
						}
					}
					return false
				}
				out := !h.healthy(q.at, q.at.Add(1))
				r.Eval(q.v == 0 || out, cfg, d, n, q.v, q.at.Sub(begin))
				r.Count("decisions", 1)
				if q.v > 0 {
					known := false
					for _, x := range del {
						known = known || x.v == q.v && !x.at.After(q.at)
					}
					switch {
					case !known:
						say("not delivered", "granted by a policy which is not authentic or not delivered")
						return
					case q.at.After(h.exp[q.v].Add(eps)):
						say("expired", "granted by an expired policy")
						return
					case q.v < best:
						say("older", "granted by an older policy")
						return
					}
					if out {
						r.Count("grants during an outage", 1)
					}
					best, bestAt = q.v, q.at
				} else {
					if !expired(best) {
						say("rejected", "rejected before the policy expired")
						return
					}
					r.Count("rejections after expiry", 1)
				}
				// recovered for long enough
				if from := q.at.Add(-B); !from.Before(begin) && h.healthy(from, q.at) && h.lasting(from, q.at) {
					p := h.published(from)
					if q.v < p {
						say("not recovered", fmt.Sprintf("although the server was well since %v, when it served version %d,", from.Sub(begin), p))
						return
					}
					r.Count("decisions after recovery", 1)
					for _, o := range h.outages {
						if n > 0 && o.to.After(q.at.Add(-2*B)) && o.to.Before(q.at) && q.v > 0 {
							r.Count("grants after recovery", 1)
							break
						}
					}
					for _, o := range doms {
						if !hs[o].healthy(from, q.at) && q.v > 0 {
							r.Count("grants while another domain fails", 1)
							break
						}
					}
				}
				// a policy which expires is fetched at the next purge, if everything is well
				if q.v == 0 && best > 0 {
					e := h.exp[best]
					later := false // another version came into effect and expired meanwhile
					for _, x := range del {
						later = later || x.v > best && !x.at.After(q.at) && !h.exp[x.v].After(q.at)
					}
					// no periodic refresh is under way
					since := e.Sub(begin) % P
					quiet := since > 2*D+time.Second && since < P-time.Second && q.at.Sub(e) < P-since
					if quiet && !later && h.healthy(e.Add(-time.Second), q.at) && h.lasting(e, q.at) && q.at.After(e.Add(purge+time.Duration(2+2*len(doms))*lat+time.Second)) {
						say("not refreshed", "not fetched anew after it expired")
						return
					}
				}
				if n > 0 && q.v > 0 && best > 1 && expiring && q.at.After(h.exp[best-1]) {
					r.Count("grants after a refresh on expiry", 1)
				}
			}
		}
	})

	// many domains expire while each other's are being fetched
	r.Bubbles("coincident", r.Tier(300, 10000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		doms := []string{"dom.a", "dom.ab", "dom.c", "dom", "dom.e", "xdom.a", "dom.g", "dom.a.b", "dom.i", "DOM.C"}[:g.Range(2, 10)]
		purge, slow := g.Dur(time.Second, 20*time.Second), g.Dur(time.Millisecond, 25*time.Second)
		pd := w.Policyd(doms, policy.WithRefreshPeriod("1000h"), policy.WithPurgePeriod(purge.String()), policy.WithRetryAttempts(g.N(2)), policy.WithRetryDelay("1s"))
		hs := map[string]*hist04{}
		first := time.Now().Add(time.Minute)
		spread := Pick(g, []time.Duration{0, time.Millisecond, slow / 2, slow, slow, 3 * slow})
		var last time.Time
		for _, d := range doms {
			hs[d] = &hist04{dom: d, exp: map[int]time.Time{}, pubAt: map[int]time.Time{}, byTag: map[string]int{}}
			hs[d].publish(g, w, time.Until(first.Add(g.Dur(0, spread))))
			if e := hs[d].exp[1]; e.After(last) {
				last = e
			}
		}
		if err := pd.Update(ctx); err != nil {
			panic(err)
		}
		drain(pd.Start(ctx))
		time.Sleep(50 * time.Second)
		for _, d := range doms {
			hs[d].publish(g, w, 500*time.Hour)
		}
		lg := NewRng(g.U64())
		w.Latency = func(string) time.Duration { return lg.Dur(slow/2, slow) }
		cfg := fmt.Sprintf("%d domains, purge period %v, responses take to %v, the policies expire within %v", len(doms), purge, slow, spread)
		// each of them may have to be fetched again for every other which is refreshed first
		bound := last.Add(purge + time.Duration(len(doms)+1)*slow + 2*time.Second)
		for !time.Now().After(bound.Add(time.Minute)) {
			time.Sleep(g.Dur(time.Millisecond, 10*time.Second))
			for _, d := range doms {
				got, err := pd.CheckPolicyRoles(ctx, d, roles05, "act", "res")
				v, bad := version05(got, err)
				now := time.Now()
				if bad != "" || v == 1 && now.After(hs[d].exp[1].Add(eps)) {
					r.Violate(i, "expired", "%s: domain %s at %v after its expiry: decision by version %d %s", cfg, d, now.Sub(hs[d].exp[1]), v, bad)
					return
				}
				if v == 0 && now.Before(hs[d].exp[1]) {
					r.Violate(i, "rejected", "%s: domain %s at %v before its expiry: rejected", cfg, d, hs[d].exp[1].Sub(now))
					return
				}
				if v != 2 && now.After(bound) {
					var l []string
					for _, q := range w.Reqs() {
						if q.At.After(first) {
							l = append(l, fmt.Sprintf("%s %v-%v", trimBase(q.URL), q.At.Sub(first), q.Done.Sub(first)))
						}
					}
					for _, o := range doms {
						l = append(l, fmt.Sprintf("%s expired at %v", o, hs[o].exp[1].Sub(first)))
					}
					r.Violate(i, "not refreshed", "%s: domain %s: decision by version %d, %v after its expiry; %s", cfg, d, v, now.Sub(hs[d].exp[1]), strings.Join(l, "; "))
					return
				}
			}
		}
		r.Eval(true, cfg)
		r.Count("coincident expiries", len(doms))
	})

	// the whole authorizer: an answer may be reused for the time of the cache
	r.Bubbles("authorizer", r.Tier(200, 5000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		const dom = "dom.a"
		P := Pick(g, []time.Duration{time.Minute, 10 * time.Minute, time.Hour})
		T := Pick(g, []time.Duration{P / 20, P / 3, 2 * P}).Round(time.Second)
		purge := Pick(g, []time.Duration{P / 5, P, 3 * P})
		C := 5 * time.Second
		att, rdelay := g.Range(0, 2), Pick(g, []time.Duration{time.Second, 4 * time.Second})
		D := time.Duration(att+1)*(C+rdelay) + 3*time.Second
		horizon := P * time.Duration(g.Range(15, 40))
		hs := world04(g, w, []string{dom}, horizon, P)
		h := hs[dom]
		cfg := fmt.Sprintf("refresh period %v purge period %v cache time %v attempts %d retry delay %v", P, purge, T, att, rdelay)
		life := func() time.Duration { return g.Dur(P/4+10*time.Second, Pick(g, []time.Duration{2 * P, 6 * P})) }
		az := w.Authz([]string{dom}, authorizerd.WithHTTPClient(w.Client(C)), authorizerd.WithCacheExp(T), authorizerd.WithPolicyRefreshPeriod(P.String()), authorizerd.WithPolicyPurgePeriod(purge.String()),
			authorizerd.WithPolicyRetryDelay(rdelay.String()), authorizerd.WithPolicyRetryAttempts(att), authorizerd.WithPolicyExpiryMargin(Pick(g, []string{"1s", "1h"})))
		h.publish(g, w, life())
		if err := az.Init(ctx); err != nil {
			r.Violate(i, "init", "%s: %v", cfg, err)
			return
		}
		begin := time.Now()
		drain(az.Start(ctx))
		var toks []string
		for k := 0; k < 3; k++ {
			toks = append(toks, w.AccessToken(dom, []string{"all", fmt.Sprint("r", k)}, "user", fmt.Sprint("c", k)), w.RoleToken(dom, []string{"all", fmt.Sprint("r", k)}, "user"))
		}
		type ask struct {
			at time.Time
			ok bool
		}
		var asks []ask
		var mu sync.Mutex
		pubAt := time.Now().Add(g.Dur(P/5, 3*P))
		for n := 0; time.Now().Before(begin.Add(horizon)) && n < 300; n++ {
			to := time.Now().Add(g.Dur(time.Millisecond, horizon/60))
			if g.P(30) {
				to = h.exp[h.cur].Add(Pick(g, []time.Duration{-10 * time.Millisecond, 10 * time.Millisecond, -T / 2, T - time.Second, T + time.Second, purge + C}))
				if !to.After(time.Now()) || to.After(time.Now().Add(horizon/20)) {
					to = time.Now().Add(g.Dur(time.Millisecond, horizon/60))
				}
			}
			if !pubAt.After(to) {
				time.Sleep(time.Until(pubAt))
				if h.cur < 240 {
					h.publish(g, w, life())
				}
				pubAt = time.Now().Add(g.Dur(P/2, 5*P))
			}
			time.Sleep(time.Until(to) + 333*time.Nanosecond)
			k := g.N(len(toks))
			at := time.Now()
			var err error
			if k%2 == 0 {
				_, err = az.AuthorizeAccessToken(ctx, toks[k], "act", "res", nil)
			} else {
				_, err = az.AuthorizeRoleToken(ctx, toks[k], "act", "res")
			}
			mu.Lock()
			asks = append(asks, ask{at, err == nil})
			mu.Unlock()
		}
		del := h.delivered(w.Reqs())
		for n, q := range asks {
			// the policies which may have been in effect from a moment on, until the request
			may := func(from time.Time) (l []deliv04) {
				last := -1
				for k, x := range del {
					if !x.at.After(from.Add(-D)) {
						last = k
					}
				}
				for k, x := range del {
					if (k == last || x.at.After(from.Add(-D))) && !x.at.After(q.at) {
						l = append(l, x)
					}
				}
				return
			}
			r.Eval(true, "authorizer", cfg, n, q.ok, q.at.Sub(begin))
			just := false
			if q.ok {
				for _, x := range may(q.at.Add(-T - 100*time.Millisecond)) {
					just = just || h.exp[x.v].Add(T+100*time.Millisecond).After(q.at)
				}
			} else {
				for _, x := range may(q.at) {
					just = just || !h.exp[x.v].After(q.at.Add(eps))
				}
			}
			if !just {
				var l []string
				for _, x := range del {
					l = append(l, fmt.Sprintf("version %d at %v expiry %v", x.v, x.at.Sub(begin), h.exp[x.v].Sub(begin)))
				}
				r.Violate(i, map[bool]string{true: "expired", false: "rejected"}[q.ok], "%s: request %d at %v granted %v; delivered were %s", cfg, n, q.at.Sub(begin), q.ok, strings.Join(l, "; "))
				return
			}
			r.Count(map[bool]string{true: "tokens granted", false: "tokens rejected"}[q.ok], 1)
		}
	})
	// whenever the policy was loaded, and by which call, it is fetched anew within the purge period of its expiry
	r.Bubbles("lifecycle", r.Tier(250, 8000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		const dom, lat = "dom.a", 100 * time.Millisecond
		w.Latency = func(string) time.Duration { return lat }
		purge := Pick(g, []time.Duration{10 * time.Second, time.Minute})
		P := 40 * purge
		many := i%80 == 7
		h := &hist04{dom: dom, exp: map[int]time.Time{}, pubAt: map[int]time.Time{}, byTag: map[string]int{}}
		publish := func(life time.Duration) {
			if !many {
				h.publish(g, w, life)
				return
			}
			h.cur++
			e := time.Now().Add(life).Truncate(time.Millisecond)
			h.exp[h.cur] = e
			d := verDoc05(g, w, dom, h.cur, e)
			for k := 0; k < 6000; k++ { // the roles of the others
				d.Policies[0] = append(d.Policies[0], Ass{fmt.Sprint(dom, ":role.other", k), "act", dom + ":res", "allow"})
			}
			w.ServePolicy(d)
		}
		az := w.Authz([]string{dom}, authorizerd.WithHTTPClient(w.Client(0)), authorizerd.WithCacheExp(time.Hour), authorizerd.WithPolicyRefreshPeriod(P.String()), authorizerd.WithPolicyPurgePeriod(purge.String()),
			authorizerd.WithPubkeyRefreshPeriod("500h"), authorizerd.WithJwkRefreshPeriod("500h"))
		cfg := fmt.Sprintf("refresh period %v purge period %v many roles %v", P, purge, many)
		n := 0
		// granted is the version by which a request is granted now
		granted := func() (int, bool) {
			n++
			tok := w.RoleToken(dom, roles05, fmt.Sprint("user", n))
			ch := make(chan error, 1)
			var p authorizerd.Principal
			go func() {
				var err error
				p, err = az.AuthorizeRoleToken(context.Background(), tok, "act", "res")
				ch <- err
			}()
			var err error
			select {
			case err = <-ch:
			case <-time.After(time.Minute):
				r.Violate(i, "hang", "%s: a request is not answered within a minute", cfg)
				return 0, false
			}
			var got []string
			if err == nil {
				got = p.AuthorizedRoles()
			}
			v, bad := version05(got, err)
			if bad != "" {
				r.Violate(i, "torn", "%s: %s", cfg, bad)
				return 0, false
			}
			return v, true
		}
		publish(g.Dur(3*purge, P/3))
		inits := g.Range(1, 2)
		for run := 0; run < g.Range(1, 3); run++ {
			ctx, cancel := context.WithCancel(context.Background())
			for k := 0; k < inits; k++ {
				ictx, icancel := ctx, func() {}
				how := "the context of the daemon"
				if g.P(50) {
					ictx, icancel = context.WithTimeout(context.Background(), time.Minute)
					how = "a context of its own"
				}
				if h.exp[h.cur].Before(time.Now().Add(2 * purge)) {
					publish(g.Dur(3*purge, P/3))
				}
				if err := az.Init(ictx); err != nil {
					r.Violate(i, "init", "%s: %v", cfg, err)
					icancel()
					settle(cancel)
					return
				}
				if g.P(80) {
					icancel()
				} else {
					defer icancel()
				}
				cfg += ", initialized with " + how
			}
			if g.P(30) {
				time.Sleep(g.Dur(0, 4*purge))
			}
			drain(az.Start(ctx))
			begin := time.Now()
			cfg += ", started"
			for time.Now().Before(begin.Add(P - 2*time.Second)) { // there is no periodic refresh in this time
				e, cur := h.exp[h.cur], h.cur
				mid := time.Now().Add(g.Dur(0, max(0, time.Until(e)-time.Second)))
				time.Sleep(time.Until(mid))
				again := g.P(85)
				if again { // before it expires
					publish(time.Until(e) + 2*purge + g.Dur(purge, P/3))
				}
				if len(h.exp) > 200 {
					break
				}
				time.Sleep(time.Until(e.Add(purge + 4*lat + time.Second)))
				if begin.Add(P - 2*time.Second).Before(time.Now()) {
					break
				}
				if time.Now().Before(begin.Add(purge + 4*lat + time.Second)) {
					time.Sleep(time.Until(begin.Add(purge + 4*lat + time.Second)))
				}
				v, ok := granted()
				if !ok {
					settle(cancel)
					return
				}
				r.Eval(true, cfg, v, time.Since(begin))
				switch {
				case again && v != cur+1:
					var l []string
					for _, q := range w.Reqs() {
						if strings.HasSuffix(q.URL, policyPath(dom)) {
							l = append(l, fmt.Sprintf("%v version %s", q.At.Sub(begin), q.Tag))
						}
					}
					r.Violate(i, "not refreshed", "%s: %v after the start: version %d expired %v ago and version %d was published before, the answer is by version %d; fetches: %s", cfg, time.Since(begin), cur, time.Since(e), cur+1, v, strings.Join(l, "; "))
					settle(cancel)
					return
				case !again && v != 0:
					r.Violate(i, "expired", "%s: %v after the start: version %d expired %v ago, the answer is by version %d", cfg, time.Since(begin), cur, time.Since(e), v)
					settle(cancel)
					return
				case !again: // until the periodic refresh
					publish(P + g.Dur(purge, P/3))
					time.Sleep(time.Until(begin.Add(P + 4*lat)))
					if v, ok := granted(); !ok || v != h.cur {
						r.Violate(i, "not refreshed", "%s: version %d was not fetched at the periodic refresh, the answer is by version %d", cfg, h.cur, v)
						settle(cancel)
						return
					}
				default:
					r.Count("refreshes on expiry after a start", 1)
					if run > 0 {
						r.Count("refreshes on expiry after a restart", 1)
					}
				}
			}
			cancel()
			time.Sleep(g.Dur(time.Second, 2*purge))
			inits = g.N(3) // a restart may go without
			cfg += ", stopped"
			if h.exp[h.cur].Before(time.Now().Add(3 * purge)) {
				inits = max(inits, 1)
			}
		}
		time.Sleep(5 * time.Second)
	})
	r.Need("refreshes on expiry after a start", 500)
	r.Need("refreshes on expiry after a restart", 100)
	r.Need("grants during an outage", 2000)
	r.Need("rejections after expiry", 2000)
	r.Need("grants after recovery", 500)
	r.Need("grants while another domain fails", 200)
	r.Need("grants after a refresh on expiry", 2000)
	r.Need("tokens granted", 2000)
	r.Need("tokens rejected", 1000)
}
