package vh

import (
	"context"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/yahoojapan/athenz-authorizer/v5/policy"

	"verifharness/pt"
)

func init() { checks["C05"] = checkC05 }

const c05Bits = 8

// verDoc05 is a document which says its version by which of its roles are allowed: b<i> for a set bit and c<i> for a
// clear one. So the answer to one request for all these roles tells one complete version, or else is a mixture.
func verDoc05(g *Rng, w *World, dom string, v int, exp time.Time) *DocSpec {
	var l []Ass
	for i := 0; i < c05Bits; i++ {
		role := fmt.Sprintf("%s:role.%s%d", dom, map[bool]string{true: "b", false: "c"}[v>>i&1 == 1], i)
		l = append(l, Ass{role, "act", dom + ":res", "allow"})
		for n := g.N(4); n > 0; n-- {
			l = append(l, Ass{role, Pick(g, []string{"other", "read", "w*"}), dom + ":" + Pick(g, []string{"x", "y*", "z"}), Pick(g, []string{"allow", "deny"})})
		}
	}
	l = append(l, Ass{dom + ":role.all", "act", dom + ":res", "allow"}, Ass{dom + ":role.never", "act", dom + ":res", "allow"}, Ass{dom + ":role.never", "*", dom + ":r*", "deny"})
	l = Shuffle(g, l)
	pols := make([][]Ass, g.Range(1, 6))
	for _, a := range l {
		k := g.N(len(pols))
		pols[k] = append(pols[k], a)
	}
	return w.Doc(dom, exp, pols...)
}

// roles05 are the roles asked for, and the version which the answer tells: 0 for none, -1 for what is no version.
var roles05 = func() []string {
	l := []string{"all"}
	for i := 0; i < c05Bits; i++ {
		l = append(l, fmt.Sprint("b", i), fmt.Sprint("c", i))
	}
	return l
}()

func version05(got []string, err error) (int, string) {
	d, ok := decisionOf(err)
	switch {
	case !ok:
		return -1, fmt.Sprintf("error %v", err)
	case d == NoMatch:
		return 0, ""
	case d == Deny:
		return -1, "denied"
	}
	seen := map[string]bool{}
	for _, s := range got {
		seen[s] = true
	}
	v := 0
	for i := 0; i < c05Bits; i++ {
		b, c := seen[fmt.Sprint("b", i)], seen[fmt.Sprint("c", i)]
		if b == c {
			return -1, fmt.Sprintf("no complete version: roles %v", sortedSet(got))
		}
		v |= b2i(b) << i
	}
	if !seen["all"] {
		return -1, fmt.Sprintf("no complete version: roles %v", sortedSet(got))
	}
	return v, ""
}

type read05 struct {
	dom        string
	v          int
	start, end int64
}

func checkC05(r *Run) {
	pools()
	doms := []string{"dom.a", "dom.b"}

	// in real time, with delays between statements: one updater, concurrent readers
	n := r.Tier(100, 2500)
	r.casesOn("updates", n, 3, func(t *testing.T, i int, g *Rng) {
		if i%3 == 0 {
			perturbOn(NewRng(r.Seed, i), siteHot(NewRng(r.Seed, "hot", i))...)
		}
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var clock atomic.Int64
		lat := NewRng(g.U64())
		w.Latency = func(string) time.Duration {
			return Pick(lat, []time.Duration{0, 0, 50 * time.Microsecond, lat.Dur(0, 2*time.Millisecond)})
		}
		pd := w.Policyd(doms, policy.WithRetryDelay("1ms"), policy.WithPurgePeriod("10ms"), policy.WithRetryAttempts(1))
		faulty := map[string]Resp{}
		w.Fault = func(path string, _ *http.Request, _ *Req) (Resp, bool) {
			rs, ok := faulty[path]
			return rs, ok
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		readers := 4
		reads := make([][]read05, readers)
		for k := 0; k < readers; k++ {
			rg := NewRng(g.U64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					dom := Pick(rg, doms)
					never := rg.P(15)
					roles := roles05
					if rg.P(50) {
						roles = Shuffle(rg, roles)
					}
					if never {
						roles = append([]string{"never"}, roles...)
					}
					s := clock.Add(1)
					got, err := pd.CheckPolicyRoles(ctx, dom, roles, "act", "res")
					e := clock.Add(1)
					if never { // denied by every version
						if d, ok := decisionOf(err); !ok || d == Allow {
							r.Violate(i, "torn", "domain %s: a role denied by every version was decided %v %v", dom, d, err)
							return
						}
						continue
					}
					v, bad := version05(got, err)
					if bad != "" {
						r.Violate(i, "torn", "domain %s: the answer is not that of any version: %s", dom, bad)
						return
					}
					reads[k] = append(reads[k], read05{dom, v, s, e})
				}
			}()
		}

		type set struct {
			start, end int64
			ver        map[string]map[int]bool // the versions which may be in it
			what       string
		}
		sets := []set{{0, 0, map[string]map[int]bool{"dom.a": {0: true}, "dom.b": {0: true}}, "before the first update"}}
		served := map[string]int{}
		cache := map[string]map[int]bool{"dom.a": {0: true}, "dom.b": {0: true}} // accepted last, 0 for none
		initial := g.N(4)                                                        // updates failing before the first one which succeeds
		failed, fell := 0, 0
		for u := 1; u <= 30; u++ {
			what := fmt.Sprintf("update %d:", u)
			w.mu2.Lock()
			for d := range faulty {
				delete(faulty, d)
			}
			w.mu2.Unlock()
			for _, d := range doms {
				if g.P(80) || served[d] == 0 {
					w.ServePolicy(verDoc05(g, w, d, u, time.Now().Add(1000*time.Hour)))
					served[d] = u
					what += fmt.Sprintf(" %s served as %d;", d, u)
				}
			}
			bad := map[string]bool{}
			mode := g.N(10)
			if u <= initial {
				mode = 0
			}
			switch mode {
			case 0, 1, 2: // one domain fails
				bad[Pick(g, doms)] = true
			case 3:
				bad["dom.a"], bad["dom.b"] = true, true
			}
			for _, d := range doms {
				if !bad[d] {
					continue
				}
				rs := outage{way: g.N(8)}.resp(false)
				if g.P(40) { // forged
					doc := verDoc05(g, w, d, 200+g.N(50), time.Now().Add(time.Hour))
					doc.ZTS = EC(20)
					rs = Resp{Status: 200, Header: map[string]string{"ETag": `"forged"`}, Body: doc.JSON()}
				}
				w.mu2.Lock()
				faulty[policyPath(d)] = rs
				w.mu2.Unlock()
				what += fmt.Sprintf(" %s fails;", d)
			}
			uctx, ucancel := context.WithCancel(ctx)
			unsure := false
			switch {
			case g.P(5):
				ucancel()
				unsure = true
			case g.P(10):
				unsure = true
				d := g.Dur(0, 2*time.Millisecond)
				go func() {
					time.Sleep(d)
					ucancel()
				}()
			}
			if unsure {
				what += " cancelled;"
			}
			s := clock.Add(1)
			err := pd.Update(uctx)
			e := clock.Add(1)
			ucancel()
			must, may := false, unsure // fail
			for _, d := range doms {
				c := map[int]bool{}
				switch {
				case !bad[d] && !unsure:
					c[served[d]] = true
				default:
					for v := range cache[d] {
						c[v] = true
					}
					if !bad[d] {
						c[served[d]] = true
					}
				}
				must = must || len(c) == 1 && c[0]
				may = may || c[0]
				cache[d] = c
			}
			if err == nil {
				if must {
					r.Violate(i, "empty", "%s the update succeeded without a document of every domain", what)
					break
				}
				st := set{s, e, map[string]map[int]bool{}, what}
				for _, d := range doms {
					delete(cache[d], 0)
					st.ver[d] = cache[d]
				}
				sets = append(sets, st)
				fell += b2i(len(bad) > 0)
			} else {
				failed++
				if !may {
					r.Violate(i, "update", "%s the update failed: %v", what, err)
					break
				}
			}
			if g.P(60) {
				time.Sleep(g.Dur(0, 2*time.Millisecond))
			}
		}
		close(stop)
		wg.Wait()

		// offline: every read has to fit between the sets which are in effect for sure
		var all []read05
		for _, l := range reads {
			all = append(all, l...)
		}
		lows := make([]int, len(all))
		seen := map[string]bool{}
		type ev struct {
			at   int64
			kind int // 0 the end of a read or an update raises the least set, 1 the start of a read
			k    int
		}
		var evs []ev
		ups := make([]int, len(all))
		for k, q := range all {
			lo, hi := -1, -1
			for s, st := range sets {
				if st.start < q.end && st.ver[q.dom][q.v] {
					if lo < 0 {
						lo = s
					}
					hi = s
				}
			}
			if lo < 0 {
				r.Violate(i, "unknown version", "domain %s: a decision by version %d, which no successful update brought; updates: %v", q.dom, q.v, sets)
				return
			}
			lows[k], ups[k] = lo, hi
			evs = append(evs, ev{q.start, 1, k}, ev{q.end, 0, k})
			seen[fmt.Sprint(q.dom, q.v)] = true
		}
		for s, st := range sets {
			if s > 0 {
				evs = append(evs, ev{st.end, 0, -s})
			}
		}
		sort.Slice(evs, func(a, b int) bool { return evs[a].at < evs[b].at })
		least, by := 0, "the start"
		during := 0
		for _, x := range evs {
			switch {
			case x.kind == 0 && x.k < 0:
				if -x.k > least {
					least, by = -x.k, "the successful "+sets[-x.k].what
				}
			case x.kind == 0:
				if lows[x.k] > least {
					least, by = lows[x.k], fmt.Sprintf("a decision by version %d of %s", all[x.k].v, all[x.k].dom)
				}
			default:
				q := all[x.k]
				if ups[x.k] < least {
					r.Violate(i, "older", "domain %s: a decision by version %d, of at most set %d, started after set %d was in effect, by %s; the updates were %v", q.dom, q.v, ups[x.k], least, by, sets)
					return
				}
			}
		}
		for _, q := range all {
			for _, st := range sets[1:] {
				if q.start < st.end && q.end > st.start {
					during++
					break
				}
			}
		}
		r.Count("decisions", len(all))
		r.Count("decisions during updates", during)
		r.Count("updates succeeded", len(sets)-1)
		r.Count("updates failed", failed)
		r.Count("updates with fallback", fell)
		r.Count("versions seen", len(seen))
		r.Eval(len(seen) > 3, i, len(all), len(sets), sortedKeys(seen))
	})
	pt.Disable()
	ptReport(r)

	// sets of thousands of roles, each version having roles of its own: no decision and no report is by two versions
	r.Cases("large sets", r.Tier(4, 40), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		pd := w.Policyd(doms, policy.WithRetryDelay("1ms"), policy.WithPurgePeriod("10ms"), policy.WithRetryAttempts(1))
		size := g.Range(1200, 4000)
		roles := func(v, k int) string { return fmt.Sprintf("v%d_%d", v, k) }
		doc := func(d string, v int) *DocSpec {
			pols := make([][]Ass, g.Range(1, 4))
			for k := 0; k < size; k++ {
				q := g.N(len(pols))
				pols[q] = append(pols[q], Ass{d + ":role." + roles(v, k), "act", d + ":res", "allow"})
			}
			return w.Doc(d, time.Now().Add(1000*time.Hour), pols...)
		}
		var newest, done atomic.Int64
		stop := make(chan struct{})
		var wg sync.WaitGroup
		check := func(k int, rg *Rng, d string) bool {
			low := done.Load()
			top := int(newest.Load())
			if top == 0 {
				time.Sleep(time.Millisecond)
				return true
			}
			var ask []string
			for v := max(1, top-2); v <= top; v++ {
				for q := 0; q < 6; q++ {
					ask = append(ask, roles(v, rg.N(size)))
				}
			}
			got, err := pd.CheckPolicyRoles(ctx, d, Shuffle(rg, ask), "act", "res")
			end := newest.Load()
			by := map[string]int{}
			for _, s := range got {
				by[strings.Split(s, "_")[0]]++
			}
			want := 0
			for v := range by {
				for _, s := range ask {
					want += b2i(strings.HasPrefix(s, v+"_"))
				}
			}
			switch {
			case len(by) > 1 || len(by) == 1 && len(got) != want:
				r.Violate(i, "torn", "%d roles of each version, domain %s: asked for %v, allowed are %v: not by one version", size, d, ask, got)
				return false
			case len(by) == 0 && end == int64(top) && low == end:
				r.Violate(i, "empty", "%d roles of each version, domain %s, version %d in effect: asked for %v, nothing is allowed: %v", size, d, low, ask, err)
				return false
			case len(by) == 1:
				for v := range by {
					var n int
					fmt.Sscanf(v, "v%d", &n)
					if int64(n) < low {
						r.Violate(i, "older", "%d roles of each version, domain %s: version %d decided after the update to %d", size, d, n, low)
						return false
					}
				}
			}
			r.Count("decisions by large sets", 1)
			return true
		}
		for k := 0; k < 3; k++ {
			rg := NewRng(g.U64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					if !check(k, rg, Pick(rg, doms)) {
						return
					}
				}
			}()
		}
		for v := 1; v <= 5; v++ {
			for _, d := range doms {
				w.ServePolicy(doc(d, v))
			}
			newest.Store(int64(v))
			if err := pd.Update(ctx); err != nil {
				r.Violate(i, "update", "an update with %d roles failed: %v", size, err)
				break
			}
			done.Store(int64(v))
			other := 0
			rep := pd.GetPolicyCache(ctx)
			for k := range rep {
				other += b2i(!strings.Contains(k, fmt.Sprintf(":role.v%d_", v)))
			}
			if other > 0 || len(rep) != 2*size {
				r.Violate(i, "mixed report", "%d roles of each version and domain: after the update to version %d, %d roles are reported, %d of them not of it", size, v, len(rep), other)
				break
			}
			ag := NewRng(g.U64())
			for q := 0; q < 50; q++ {
				if !check(-1, ag, Pick(ag, doms)) {
					break
				}
			}
			r.Eval(true, "large", i, v)
		}
		close(stop)
		wg.Wait()
	})
	r.Need("decisions by large sets", 1000)

	// in virtual time: the background refresh together with refreshes on expiry, failures and latencies
	perturbYield(r)
	// a slow refresh on expiry is overtaken by a periodic one, and then the server fails
	r.Bubbles("overtaken", r.Tier(60, 1000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		period := g.Dur(20*time.Second, 5*time.Minute).Round(time.Second)
		pd := w.Policyd(doms, policy.WithRefreshPeriod(period.String()), policy.WithPurgePeriod("1s"), policy.WithRetryAttempts(g.Range(0, 2)), policy.WithRetryDelay("1s"), policy.WithExpiryMargin(Pick(g, []string{"1s", "3h"})))
		begin := time.Now()
		exp1 := begin.Add(g.Dur(3*time.Second, period-8*time.Second))
		arrive, back := begin.Add(period+g.Dur(2*time.Second, period/2)), begin.Add(g.Dur(3*period, 5*period))
		late := begin.Add(10 * period)
		w.ServePolicy(verDoc05(g, w, "dom.a", 1, exp1))
		w.ServePolicy(verDoc05(g, w, "dom.b", 1, late))
		if err := pd.Update(ctx); err != nil {
			panic(err)
		}
		drain(pd.Start(ctx))
		w.ServePolicy(verDoc05(g, w, "dom.a", 2, late))
		slow := 0
		w.Latency = func(path string) time.Duration {
			if n := time.Now(); n.After(exp1) && n.Before(begin.Add(period)) {
				slow++
				return arrive.Sub(n)
			}
			return 0
		}
		down := begin.Add(period + time.Second)
		w.SetFault(func(path string, _ *http.Request, _ *Req) (Resp, bool) {
			n := time.Now()
			return outage{way: g.N(outageWays - 1)}.resp(false), n.After(down) && n.Before(back)
		})
		time.Sleep(time.Until(begin.Add(period - time.Second)))
		w.ServePolicy(verDoc05(g, w, "dom.a", 3, late))
		best := 0
		for k := 0; time.Now().Before(back.Add(2 * period)); k++ {
			time.Sleep(g.Dur(100*time.Millisecond, period/5))
			got, err := pd.CheckPolicyRoles(ctx, "dom.a", roles05, "act", "res")
			v, bad := version05(got, err)
			if bad != "" {
				r.Violate(i, "torn", "the answer is not that of any version: %s", bad)
				return
			}
			if v < best {
				r.Violate(i, "older", "refresh period %v: a refresh on expiry at %v got version 2 at %v, the periodic one got version 3 at %v, the server failed from %v to %v: at %v the decision is by version %d after one by version %d", period, exp1.Sub(begin), arrive.Sub(begin), period, down.Sub(begin), back.Sub(begin), time.Since(begin), v, best)
				return
			}
			best = v
			r.Count("decisions after an overtaken refresh", 1)
		}
		if slow > 0 && best == 3 {
			r.Count("overtaken refreshes", 1)
		}
		r.Eval(slow > 0, "overtaken", period, exp1.Sub(begin), arrive.Sub(begin), back.Sub(begin))
	})
	r.Need("overtaken refreshes", 20)
	r.Bubbles("expiry", r.Tier(50, 2500), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		period, purge := Pick(g, []time.Duration{20 * time.Second, time.Minute, 5 * time.Minute}), Pick(g, []time.Duration{time.Second, 7 * time.Second, 20 * time.Second})
		att, rdelay := g.Range(1, 2), Pick(g, []time.Duration{time.Second, 5 * time.Second})
		maxLat := Pick(g, []time.Duration{0, 50 * time.Millisecond, 4 * time.Second})
		life, pause := 10*time.Minute, 3*time.Minute
		busy := g.P(50) // refreshes on expiry overlap the periodic ones, and each may get the older document
		if busy {
			period, purge, maxLat, life, pause = g.Dur(10*time.Second, 25*time.Second).Round(time.Second), time.Second, g.Dur(5*time.Second, 20*time.Second), 30*time.Second, 6*time.Second
		}
		lg := NewRng(g.U64())
		w.Latency = func(string) time.Duration { return lg.Dur(0, maxLat) }
		pd := w.Policyd(doms, policy.WithRefreshPeriod(period.String()), policy.WithPurgePeriod(purge.String()), policy.WithRetryAttempts(att), policy.WithRetryDelay(rdelay.String()), policy.WithExpiryMargin(Pick(g, []string{"1s", "30s", "3h"})))
		pct := Pick(g, []int{0, 10, 30})
		okTill := time.Now().Add(30 * time.Second)
		begin, overtake := time.Now(), busy && g.P(60) // the periodic refreshes overtake those on expiry, and some of them fail as a whole
		if overtake {
			life = 3 * period
		}
		tick := func() (int, time.Duration) {
			n := time.Since(begin)
			return int(n / period), n % period
		}
		w.SetFault(func(path string, _ *http.Request, _ *Req) (Resp, bool) {
			if k, _ := tick(); overtake && k > 1 {
				return outage{way: k % (outageWays - 1)}.resp(false), NewRng(i, "tick", k).P(40)
			}
			if time.Now().After(okTill) && lg.P(pct) {
				return outage{way: lg.N(outageWays - 1)}.resp(false), true
			}
			return Resp{}, false
		})
		exps := map[string]map[int]time.Time{"dom.a": {}, "dom.b": {}}
		vers := map[string]map[string]int{"dom.a": {}, "dom.b": {}} // by tag
		cur := map[string]int{}
		var mu sync.Mutex
		publish := func(d string) {
			mu.Lock()
			defer mu.Unlock()
			cur[d]++
			e := time.Now().Add(g.Dur(5*time.Second, Pick(g, []time.Duration{15 * time.Second, min(life, 2*time.Minute), life}))).Truncate(time.Millisecond)
			exps[d][cur[d]] = e
			w.ServePolicy(verDoc05(g, w, d, cur[d], e))
			vers[d][fmt.Sprint(w.Ver)] = cur[d]
		}
		for _, d := range doms {
			publish(d)
		}
		if busy {
			w.Latency = func(string) time.Duration {
				if _, n := tick(); overtake && n > 200*time.Millisecond {
					return lg.Dur(period/2, 3*period/2)
				}
				if lg.P(60) || overtake {
					return lg.Dur(0, 300*time.Millisecond)
				}
				return lg.Dur(0, maxLat)
			}
		}
		cfg := fmt.Sprintf("refresh period %v purge period %v attempts %d retry delay %v latency to %v faults %d%%", period, purge, att, rdelay, maxLat, pct)
		if err := pd.Update(ctx); err != nil {
			return // expired meanwhile
		}
		mu.Lock()
		begin = time.Now()
		mu.Unlock()
		drain(pd.Start(ctx))
		end := time.Now().Add(g.Dur(10*time.Minute, 30*time.Minute))
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			pg := NewRng(i, "publish")
			for time.Now().Before(end) {
				time.Sleep(pg.Dur(500*time.Millisecond, Pick(pg, []time.Duration{min(pause, 20*time.Second), pause})))
				d := Pick(pg, doms)
				mu.Lock()
				full := cur[d] >= 250
				mu.Unlock()
				if !full {
					publish(d)
				}
			}
		}()
		type vread struct {
			dom string
			v   int
			at  time.Time
			seq int64
		}
		var seq atomic.Int64
		reads := make([][]vread, 3)
		for k := range reads {
			rg := NewRng(i, "reader", k)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for time.Now().Before(end) {
					gap := rg.Dur(time.Millisecond, Pick(rg, []time.Duration{100 * time.Millisecond, 3 * time.Second, 20 * time.Second}))
					if rg.P(30) { // around an expiry or a refresh
						d := Pick(rg, doms)
						mu.Lock()
						e := exps[d][max(1, cur[d]-rg.N(3))]
						mu.Unlock()
						if x := time.Until(e); x > time.Millisecond {
							gap = x + Pick(rg, []time.Duration{-time.Millisecond, time.Millisecond, purge, purge + time.Microsecond, maxLat / 2})
						}
					}
					time.Sleep(max(gap, time.Microsecond) + 333*time.Nanosecond)
					for _, d := range doms {
						n := time.Now()
						got, err := pd.CheckPolicyRoles(ctx, d, roles05, "act", "res")
						v, bad := version05(got, err)
						if bad != "" {
							r.Violate(i, "torn", "%s: domain %s at %v: the answer is not that of any version: %s", cfg, d, n, bad)
							return
						}
						reads[k] = append(reads[k], vread{d, v, n, seq.Add(1)})
					}
				}
			}()
		}
		wg.Wait()
		if r.NViol() > 0 {
			return
		}
		type delivery struct {
			v  int
			at time.Time
		}
		del := map[string][]delivery{}
		for _, q := range w.Reqs() {
			for _, d := range doms {
				if strings.HasSuffix(q.URL, policyPath(d)) && q.Status == 200 && q.Err == nil && !q.Done.IsZero() && vers[d][q.Tag] > 0 && exps[d][vers[d][q.Tag]].After(q.Done) {
					del[d] = append(del[d], delivery{vers[d][q.Tag], q.Done})
				}
			}
		}
		for _, d := range doms {
			var all []vread
			for _, l := range reads {
				for _, q := range l {
					if q.dom == d {
						all = append(all, q)
					}
				}
			}
			sort.Slice(all, func(a, b int) bool {
				if !all[a].at.Equal(all[b].at) {
					return all[a].at.Before(all[b].at)
				}
				return all[a].seq < all[b].seq
			})
			best, bestAt := 0, time.Time{} // the newest version read at an earlier time
			pend, pendAt := 0, time.Time{}
			seen := map[int]bool{}
			for _, q := range all {
				if !q.at.Equal(pendAt) && pend > best {
					best, bestAt = pend, pendAt
				}
				desc := func() string {
					var near []string // what the server did shortly before
					for _, x := range w.Reqs() {
						if strings.HasSuffix(x.URL, policyPath(d)) && x.At.After(q.at.Add(-3*period-time.Minute)) && x.At.Before(q.at) {
							v := vers[d][x.Tag]
							near = append(near, fmt.Sprintf("%v-%v status %d error %v version %d expiry %v", x.At.Format("04:05.000"), x.Done.Format("04:05.000"), x.Status, x.Err, v, exps[d][v].Format("04:05.000")))
						}
					}
					return fmt.Sprintf("%s: domain %s at %v: version %d, before at %v version %d, recent fetches: %s", cfg, d, q.at.Format("04:05.000"), q.v, bestAt.Format("04:05.000"), best, strings.Join(near, "; "))
				}
				r.Count("decisions in virtual time", 1)
				if q.v == 0 {
					ok := false
					for _, x := range del[d] {
						if !x.at.After(q.at) && x.v >= best && !exps[d][x.v].After(q.at) {
							ok = true
						}
					}
					if !ok {
						r.Violate(i, "empty", "%s: nothing allowed though an unexpired version was in effect", desc())
						return
					}
					r.Count("decisions after expiry", 1)
					continue
				}
				known := false
				for _, x := range del[d] {
					known = known || x.v == q.v && !x.at.After(q.at)
				}
				if !known {
					r.Violate(i, "unknown version", "%s: was not delivered before", desc())
					return
				}
				if q.v < best {
					r.Violate(i, "older", "%s: went back to an older version", desc())
					return
				}
				if !seen[q.v] {
					seen[q.v] = true
					r.Count("versions seen in virtual time", 1)
				}
				if q.v > pend || !q.at.Equal(pendAt) {
					pend, pendAt = q.v, q.at
				}
				r.Eval(true, i, d, q.v, q.at.UnixNano())
			}
		}
	})
	r.Need("decisions", 20000)
	r.Need("decisions during updates", 5000)
	r.Need("updates failed", 50)
	r.Need("updates with fallback", 50)
	r.Need("decisions in virtual time", 15000)
	r.Need("decisions after expiry", 300)
	r.Need("versions seen in virtual time", 300)
}
