package vh

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

func init() { checks["C16"] = checkC16 }

// outage makes the pages of one kind fail for some time.
type outage struct {
	kind     string
	from, to time.Time
	way      int
	only     string // one of the pages of the kind, or "" for all
}

const outageWays = 9

func (o outage) resp(hang bool) Resp {
	switch o.way {
	case 0:
		return Resp{Err: &netErr{true}}
	case 1:
		return Resp{Status: 500, Body: []byte("error")}
	case 2:
		return Resp{Status: 404, Body: []byte(`{"code":404}`)}
	case 3:
		return Resp{Status: 200, Body: []byte("<html>captive portal</html>")}
	case 4:
		return Resp{Status: 200, Body: []byte(`{"keys":`), BodyErr: errors.New("verif: connection reset")}
	case 5:
		return Resp{Status: 503}
	case 6:
		return Resp{Status: 401, Body: []byte("no")}
	case 7:
		return Resp{Status: 200}
	}
	if hang {
		return Resp{Hang: true}
	}
	return Resp{Err: &netErr{false}}
}

type gotErr struct {
	at  time.Time
	err error
}

// errLog reads the error channel as a user does.
type errLog struct {
	mu     sync.Mutex
	l      []gotErr
	closed time.Time
	done   chan struct{}
}

func newErrLog(ech <-chan error) *errLog {
	e := &errLog{done: make(chan struct{})}
	go func() {
		for err := range ech {
			e.mu.Lock()
			e.l = append(e.l, gotErr{time.Now(), err})
			e.mu.Unlock()
		}
		e.mu.Lock()
		e.closed = time.Now()
		e.mu.Unlock()
		close(e.done)
	}()
	return e
}

func (e *errLog) get() []gotErr {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]gotErr{}, e.l...)
}

func checkC16(r *Run) {
	pools()
	r.Bubbles("timelines", r.Tier(400, 5000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		base, fin := context.WithCancel(context.Background())
		defer settle(fin)
		ctx, cancel := context.WithCancel(base)
		doms := []string{"dom.a", "dom.b"}[:g.Range(1, 2)]
		extra := []string{"https://other.test/keys"}[:g.N(2)]
		hang := g.P(30)
		c := 500 * time.Millisecond // the longest a request takes
		cl := w.Client(0)
		if hang {
			cl, c = w.Client(5*time.Second), 5*time.Second
		}
		period := map[string]time.Duration{}
		delay := map[string]time.Duration{}
		for _, k := range []string{"pubkey", "policy", "jwk"} {
			period[k] = Pick(g, []time.Duration{2 * time.Minute, 5 * time.Minute, 17 * time.Minute})
			delay[k] = Pick(g, []time.Duration{time.Second, 3 * time.Second, 20 * time.Second})
		}
		att := g.Range(1, 3)
		upd := map[string]time.Duration{
			"pubkey": c,
			"policy": time.Duration(att+1) * (c + delay["policy"]),
			"jwk":    time.Duration(1+len(extra)) * c,
		}
		lat := g.Dur(0, 500*time.Millisecond)
		w.Latency = func(string) time.Duration { return lat }
		kindOf := func(u string) string {
			switch {
			case strings.Contains(u, "/signed_policy_data"):
				return "policy"
			case strings.Contains(u, "/service/"):
				return "pubkey"
			}
			return "jwk"
		}
		pages := map[string][]string{
			"pubkey": {w.keyPath("zts"), w.keyPath("zms")},
			"jwk":    append([]string{jwksPath}, extra...),
		}
		for _, d := range doms {
			pages["policy"] = append(pages["policy"], policyPath(d))
		}
		ver := map[string]int{}
		publish := func(d string) {
			ver[d]++
			w.ServePolicy(w.Doc(d, time.Now().Add(5000*time.Hour), []Ass{{d + ":role.base", "act", d + ":res", "allow"}, {fmt.Sprintf("%s:role.v%d", d, ver[d]), "act", d + ":res", "allow"}}))
		}
		gen := 0
		rotate := func() {
			// documents already served name keys which stay
			gen++
			w.ZTSKeys["rot"], w.JWKeys["rot"] = EC(8+gen%8), EC(9+gen%8)
			w.ServeKeys()
			for _, u := range extra {
				w.SetExtra(u, jwksDoc(map[string]*Key{"rot": EC(10 + gen%8)}), gen)
			}
		}
		for _, d := range doms {
			publish(d)
		}
		rotate()

		start := time.Now()
		end := start.Add(g.Dur(40*time.Minute, 100*time.Minute))
		only := ""
		if g.P(60) {
			only = Pick(g, []string{"pubkey", "policy", "jwk"})
		}
		var outs []outage
		at := start
		for {
			at = at.Add(g.Dur(time.Second, 20*time.Minute))
			o := outage{kind: Pick(g, []string{"pubkey", "policy", "jwk"}), from: at, to: at.Add(g.Dur(5*time.Second, 12*time.Minute)), way: g.N(outageWays)}
			if only != "" {
				o.kind = only
			}
			if g.P(40) {
				o.only = Pick(g, pages[o.kind])
			}
			if o.to.After(end) {
				break
			}
			outs = append(outs, o)
			if g.P(60) {
				at = o.to
			}
		}
		noInit := g.P(35) // policies fail at initialization, the user starts nevertheless
		if noInit {
			o := outage{kind: "policy", from: start, to: start.Add(upd["policy"] + period["policy"] + g.Dur(0, 6*time.Minute)), way: g.N(outageWays)}
			if g.P(40) {
				o.only = Pick(g, pages[o.kind])
			}
			outs = append(outs, o)
		}
		w.SetFault(func(path string, q *http.Request, _ *Req) (Resp, bool) {
			k := kindOf(path)
			for _, o := range outs {
				if n := time.Now(); o.kind == k && (o.only == "" || o.only == path) && !n.Before(o.from) && n.Before(o.to) {
					return o.resp(hang), true
				}
			}
			return Resp{}, false
		})
		az := w.Authz(doms, authorizerd.WithHTTPClient(cl), authorizerd.WithEnableRoleToken(), authorizerd.WithJwkURLs(extra),
			authorizerd.WithPubkeyRefreshPeriod(period["pubkey"].String()), authorizerd.WithPubkeyRetryDelay(delay["pubkey"].String()),
			authorizerd.WithPolicyRefreshPeriod(period["policy"].String()), authorizerd.WithPolicyRetryDelay(delay["policy"].String()), authorizerd.WithPolicyRetryAttempts(att),
			authorizerd.WithJwkRefreshPeriod(period["jwk"].String()), authorizerd.WithJwkRetryDelay(delay["jwk"].String()))
		cfg := fmt.Sprintf("periods %v delays %v attempts %d domains %v extra %v initialized %v timeout %v", period, delay, att, doms, extra, !noInit, hang)
		if err := az.Init(ctx); noInit != (err != nil) {
			r.Violate(i, "init", "%s: initialization returned %v, outages %v", cfg, err, outs)
			cancel()
			return
		}
		started := time.Now()
		before := w.NReqs()
		el := newErrLog(az.Start(ctx))
		r.Count("outages", len(outs))

		// changes on the server, and questions long enough after
		changed := map[string]time.Time{"pubkey": start, "policy": start, "jwk": start}
		quiet := func(kind string, now time.Time) bool {
			since := changed[kind]
			if noInit && since == start {
				since = started
			}
			for _, o := range outs {
				if o.kind != kind {
					continue
				}
				if !now.Before(o.from) && now.Before(o.to) {
					return false
				}
				if o.to.After(since) && !o.to.After(now) {
					since = o.to
				}
			}
			// a running update, its retry, and the next tick, which may come during another update
			return now.Sub(since) > period[kind]+2*(upd[kind]+delay[kind])+2*time.Second
		}
		nonce := 0
		for time.Now().Before(end) {
			switch g.N(4) {
			case 0:
				publish(Pick(g, doms))
				changed["policy"] = time.Now()
			case 1:
				rotate()
				changed["pubkey"], changed["jwk"] = time.Now(), time.Now()
			}
			time.Sleep(g.Dur(time.Second, Pick(g, []time.Duration{time.Minute, 15 * time.Minute, 25 * time.Minute})))
			now := time.Now()
			qk, qp, qj := quiet("pubkey", now), quiet("policy", now), quiet("jwk", now)
			for _, d := range doms {
				if !qp {
					continue
				}
				ask := func(role string, tok bool, key *Key) error {
					nonce++
					if tok {
						_, err := az.AuthorizeRoleToken(ctx, RT{Domain: d, Roles: []string{role}, Principal: fmt.Sprint("p", nonce), T: now.Unix() - 60, E: now.Unix() + 3600, KeyID: "rot"}.Sign(key), "act", "res")
						return err
					}
					_, err := az.AuthorizeAccessToken(ctx, AT(key, map[string]any{"kid": "rot"}, ATClaims(d, []string{role}, fmt.Sprint("p", nonce), "c", now.Unix()-60, now.Unix()+3600)), "act", "res", nil)
					return err
				}
				for _, tok := range []bool{true, false} {
					cur, old := w.ZTSKeys["rot"], EC(8+(gen+7)%8)
					if !tok {
						cur, old = w.JWKeys["rot"], EC(9+(gen+7)%8)
					}
					if (tok && !qk) || (!tok && !qj) {
						continue
					}
					for _, q := range []struct {
						role string
						key  *Key
						want bool
					}{{"base", cur, true}, {"base", old, false}, {fmt.Sprintf("v%d", ver[d]), cur, true}, {fmt.Sprintf("v%d", ver[d]-1), cur, false}} {
						if err := ask(q.role, tok, q.key); (err == nil) != q.want {
							r.Violate(i, "not in effect", "%s: at %v %s of role %s signed by the current key %v: granted %v, the server changed at %v, outages %v, requests %v, error %v",
								cfg, now, map[bool]string{true: "role token", false: "access token"}[tok], q.role, q.key == cur, err == nil, changed, outs, tailReqs(w.Reqs(), 12), err)
							cancel()
							return
						}
						r.Count("probes of the current state", 1)
					}
				}
			}
		}
		time.Sleep(g.Dur(0, time.Minute))
		cancel()
		stopped := time.Now()
		select {
		case <-el.done:
		case <-time.After(time.Minute):
			r.Violate(i, "not closed", "%s: the error channel is open a minute after the context was cancelled", cfg)
			return
		}
		errs := el.get()
		if len(errs) == 0 || rootCause(errs[len(errs)-1].err) != context.Canceled {
			r.Violate(i, "cancel", "%s: the last error is %v, not the error of the context", cfg, errs[max(0, len(errs)-1):])
			return
		}
		r.Count("shutdowns", 1)
		time.Sleep(100 * (20*time.Second + 4*25*time.Second)) // after bounded time nothing happens any more
		n := w.NReqs()
		time.Sleep(48 * time.Hour)
		all := w.Reqs()
		if len(all) != n {
			r.Violate(i, "not stopped", "%s: requests go on long after the context was cancelled: %v", cfg, tailReqs(all, 5))
			return
		}
		for _, q := range all[before:] {
			if q.At.After(stopped) && q.Err == nil {
				r.Violate(i, "not stopped", "%s: a request without cancelled context %v after the context was cancelled: %s", cfg, q.At.Sub(stopped), q.URL)
				return
			}
		}

		// offline: the trace of requests and errors
		var reqs []Req
		for _, q := range all[before:] {
			if q.At.Before(stopped) {
				reqs = append(reqs, q)
			}
		}
		failed := func(q Req) bool { // by what was injected
			k := kindOf(q.URL)
			p := trimBase(q.URL)
			for _, o := range outs {
				if o.kind == k && (o.only == "" || o.only == p) && !q.At.Before(o.from) && q.At.Before(o.to) {
					return true
				}
			}
			return false
		}
		const eps = 10 * time.Millisecond
		updFailed := map[string]int{}
		var failTimes []time.Time
		for kind, ps := range pages {
			for _, p := range ps {
				last, lastFailed, first := started, false, true
				var lastReq Req
				cnt := 0
				hadThis := false // an accepted policy to fall back to
				for _, q := range all[:before] {
					hadThis = hadThis || trimBase(q.URL) == p && !failed(q)
				}
				for _, q := range append(append([]Req{}, reqs...), Req{URL: "end", At: stopped}) {
					if q.URL != "end" && trimBase(q.URL) != p {
						continue
					}
					// a tick may come during an update or the wait after it
					limit := max(period[kind], upd[kind]+delay[kind]) + eps
					if kind == "jwk" {
						limit += upd[kind] // one page after the other
					}
					if lastFailed {
						switch {
						case kind != "policy":
							limit = upd[kind] + delay[kind] + eps
						case !hadThis:
							limit = upd[kind] + delay[kind] + eps
						}
					}
					if gap := q.At.Sub(last); gap > limit {
						r.Violate(i, "not refreshed", "%s: no request of %s for %v, between %v (first %v, failed %v, status %d) and %v, at most %v expected, outages %v", cfg, p, gap, last, first, lastFailed, lastReq.Status, q.At, limit, outs)
						return
					}
					if q.URL == "end" {
						break
					}
					cnt++
					last, lastReq, first = q.Done, q, false
					if q.Done.IsZero() {
						last = stopped
					}
					lastFailed = failed(q)
					if !lastFailed {
						hadThis = true
						if q.Status != 200 && q.Status != 304 && q.Err == nil {
							r.Violate(i, "page", "%s: unexpected status %d of %s", cfg, q.Status, q.URL)
							return
						}
					} else if kind != "policy" || !hadThis {
						updFailed[kind]++
						through := kind != "policy"
						for _, o := range outs {
							through = through || o.kind == kind && (o.only == "" || o.only == p) && !q.At.Before(o.from) && q.At.Add(upd[kind]).Before(o.to)
						}
						if through {
							failTimes = append(failTimes, q.Done)
						}
						r.Count("failed refreshes", 1)
					} else {
						r.Count("failed refreshes with fallback", 1)
					}
					r.Count("refresh requests", 1)
					r.Eval(true, i, p, q.At.Sub(start))
				}
				// not more often than configured
				ticks := int(stopped.Sub(started)/period[kind]) + 1
				limit := ticks
				for _, q := range reqs {
					if kindOf(q.URL) == kind && failed(q) {
						limit++
					}
				}
				if kind == "policy" && noInit {
					limit = limit * 2 // updates repeated for another domain without accepted document
				}
				if cnt > limit {
					r.Violate(i, "too often", "%s: %d requests of %s in %v, at most %d expected, outages %v", cfg, cnt, p, stopped.Sub(started), limit, outs)
					return
				}
				for _, o := range outs {
					if o.kind != kind || (o.only != "" && o.only != p) {
						continue
					}
					in := 0
					for _, q := range reqs {
						if trimBase(q.URL) == p && !q.At.Before(o.from) && q.At.Before(o.to) {
							in++
						}
					}
					// each tick may retry at once
					d := o.to.Sub(o.from)
					if most := int(d/delay[kind]) + 2*(int(d/period[kind])+2) + 2; in > most {
						r.Violate(i, "retries", "%s: %d requests of %s in the outage %v, at most %d expected", cfg, in, p, o, most)
						return
					}
				}
			}
		}
		// errors are reported, each failed update once
		nerr := 0
		for _, e := range errs[:len(errs)-1] {
			if e.at.Before(stopped) {
				nerr++
			}
		}
		nfail := updFailed["pubkey"] + updFailed["jwk"]
		if updFailed["policy"] > 0 {
			nfail += updFailed["policy"]
		}
		if nerr > nfail {
			r.Violate(i, "errors", "%s: %d errors reported, but only %d requests failed: %v", cfg, nerr, nfail, errs[:min(len(errs), 5)])
			return
		}
		r.Count("reported errors", nerr)
		if len(failTimes) > 0 {
			slack := 20*time.Second + time.Duration(att+1)*(c+20*time.Second) + eps
			if only != "" {
				slack = upd[only] + delay[only] + eps
				if noInit && only != "policy" {
					slack = max(slack, upd["policy"]+delay["policy"]+eps)
				}
			}
			for _, ft := range failTimes {
				if stopped.Sub(ft) < slack+time.Second {
					continue
				}
				ok := false
				for _, e := range errs {
					ok = ok || (!e.at.Before(ft.Add(-eps)) && !e.at.After(ft.Add(slack)))
				}
				if !ok {
					r.Violate(i, "not reported", "%s: no error was reported within %v of the failed refresh at %v: outages %v", cfg, slack, ft, outs)
					return
				}
			}
		}
	})
	// nobody reads the errors for a while
	r.Bubbles("late reader", r.Tier(60, 600), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		kind := Pick(g, []string{"pubkey", "policy", "jwk"})
		page := map[string]string{"pubkey": w.keyPath(Pick(g, []string{"zts", "zms"})), "policy": policyPath("dom"), "jwk": jwksPath}[kind]
		w.ServePolicy(w.Doc("dom", time.Now().Add(5000*time.Hour), []Ass{{"dom:role.base", "act", "dom:res", "allow"}}))
		per := 1 // requests of an update
		if kind == "policy" {
			per = 3
		}
		way := g.N(outageWays - 1)
		failing := true
		failed := 0
		w.SetFault(func(path string, q *http.Request, _ *Req) (Resp, bool) {
			if path == page && failing {
				failed++
				return outage{way: way}.resp(false), true
			}
			return Resp{}, false
		})
		m := Pick(g, []string{"1s", "20s", "1m"})
		az := w.Authz([]string{"dom"}, authorizerd.WithEnableRoleToken(), authorizerd.WithPubkeyRefreshPeriod("10m"), authorizerd.WithPubkeyRetryDelay(m),
			authorizerd.WithPolicyRefreshPeriod("10m"), authorizerd.WithPolicyRetryDelay(m), authorizerd.WithPolicyRetryAttempts(per-1),
			authorizerd.WithJwkRefreshPeriod("10m"), authorizerd.WithJwkRetryDelay(m))
		ech := az.Start(ctx)
		until := Pick(g, []int{1, 2, 5, 20, 80, 215, 260}) * per
		for n := 0; failed < until && n < 40000; n++ {
			time.Sleep(500 * time.Millisecond)
		}
		for failed%per != 0 {
			time.Sleep(500 * time.Millisecond)
		}
		time.Sleep(time.Millisecond)
		if failed%per == 0 {
			failing = false
		}
		time.Sleep(5 * time.Minute)
		el := newErrLog(ech)
		time.Sleep(10 * time.Minute)
		failing = false
		got, all := 0, el.get() // policies cannot be verified without the keys, which is another error
		for _, e := range all {
			if strings.Contains(e.err.Error(), "update "+kind+" error") {
				got++
			}
		}
		if kind != "pubkey" {
			got = len(all)
		} else if got == 0 && len(all) > failed/per { // worded differently
			got = failed / per
		}
		r.Eval(true, kind, page, way, m, until)
		r.Count("errors read late", got)
		if failed%per == 0 && got != failed/per {
			r.Violate(i, "late errors", "%s failed %d times while nobody read the errors, %d errors were read afterwards (delay %s)", kind, failed/per, got, m)
		}
	})
	r.Need("errors read late", 500)
	r.Need("probes of the current state", 2000)
	r.Need("failed refreshes", 1000)
	r.Need("reported errors", 1000)
	r.Need("shutdowns", 100)
}

func tailReqs(l []Req, n int) []string {
	var o []string
	for _, q := range l[max(0, len(l)-n):] {
		o = append(o, fmt.Sprintf("%s at %v status %d %v", trimBase(q.URL), q.At, q.Status, q.Err))
	}
	return o
}
