package vh

import (
	"bytes"
	"context"
	"encoding/pem"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"

	"verifharness/pt"
)

func init() { checks["C13"] = checkC13 }

var pubEnvs = []pubkey.AthenzEnv{pubkey.EnvZTS, pubkey.EnvZMS}

const pubProbe = "the text which is signed to recognize a key"

var (
	probeOnce sync.Once
	probeSigs map[*Key]string
)

// whichKey recognizes the key of a verifier, nil if it is none of them.
func whichKey(v zmssvctoken.Verifier, keys []*Key) *Key {
	probeOnce.Do(func() {
		pools()
		probeSigs = map[*Key]string{}
		for _, k := range append(append([]*Key{}, ecPool...), rsaPool...) {
			probeSigs[k] = k.Sign(pubProbe)
		}
	})
	for _, k := range keys {
		if v.Verify(pubProbe, probeSigs[k]) == nil {
			return k
		}
	}
	return nil
}

var pubIDs = []string{"0", "1", "2", "zts1", "zms1", "a.b_c-d", ""}

type pubDoc struct {
	keys map[string]*Key
	body []byte
	etag string
}

func keyNames(m map[string]*Key) string {
	var l []string
	for _, id := range sortedKeys(m) {
		if len(l) > 30 {
			return strings.Join(l, " ") + fmt.Sprintf(" and more, %d altogether", len(m))
		}
		l = append(l, fmt.Sprintf("%s=%s", id, m[id].name()))
	}
	return strings.Join(l, " ")
}

func (k *Key) name() string {
	if k == nil {
		return "none"
	}
	for i, o := range ecPool {
		if o == k {
			return fmt.Sprint("ec", i)
		}
	}
	for i, o := range rsaPool {
		if o == k {
			return fmt.Sprint("rsa", i)
		}
	}
	return "other"
}

// badKeyBody is a document with an entry which is no key.
func badKeyBody(g *Rng, env string, keys map[string]*Key) []byte {
	b := pubKeyDoc(env, keys)
	bad := Pick(g, []string{"", "!!!", "bm90IGEga2V5", "LS0t",
		new(zmssvctoken.YBase64).EncodeToString(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: []byte("junk")})),
		new(zmssvctoken.YBase64).EncodeToString([]byte("-----BEGIN PUBLIC KEY-----\nMFkw"))})
	entry := []byte(fmt.Sprintf(`{"id":"%s","key":"%s"}`, Pick(g, []string{"bad", "0", "zzz"}), bad))
	i := bytes.Index(b, []byte(`"publicKeys":[`)) + len(`"publicKeys":[`)
	if g.P(50) && len(keys) > 0 {
		i = bytes.LastIndexByte(b, ']')
		return append(append(append([]byte{}, b[:i]...), append([]byte(","), entry...)...), b[i:]...)
	}
	if len(keys) > 0 {
		entry = append(entry, ',')
	}
	return append(append(append([]byte{}, b[:i]...), entry...), b[i:]...)
}

func checkC13(r *Run) {
	pools()
	RSA(0)
	whichKey(must(zmssvctoken.NewVerifier(EC(0).PubPEM)), []*Key{EC(0)})
	perturbYield(r)
	allKeys := append(append([]*Key{}, ecPool...), rsaPool[:2]...)
	randKeys := func(g *Rng, old map[string]*Key) map[string]*Key {
		m := map[string]*Key{}
		for _, id := range pubIDs {
			switch k, ok := old[id]; {
			case ok && g.P(60):
				m[id] = k
			case g.P(30):
				m[id] = Pick(g, allKeys)
			}
		}
		return m
	}
	keyDoc := func(g *Rng, env string, keys map[string]*Key) []byte {
		if !g.P(3) {
			return pubKeyDoc(env, keys)
		}
		m := map[string]*Key{} // a large document
		for id, k := range keys {
			m[id] = k
		}
		for n := g.Range(200, 700); n > 0; n-- {
			m[fmt.Sprint(Pick(g, []string{"fill", "-"}), n)] = Pick(g, allKeys)
		}
		r.Count("large documents", 1)
		return pubKeyDoc(env, m)
	}
	newDaemon := func(a *Athenz, opts ...pubkey.Option) pubkey.Daemon {
		return must(pubkey.New(append([]pubkey.Option{pubkey.WithAthenzURL("https://" + a.Base), pubkey.WithHTTPClient(a.Client(0))}, opts...)...))
	}
	snapshot := func(p pubkey.Provider, env pubkey.AthenzEnv) (map[string]*Key, []string) {
		m := map[string]*Key{}
		var odd []string
		for _, id := range append([]string{"bad", "zzz", "nokey"}, pubIDs...) {
			v := p(env, id)
			if v == nil {
				continue
			}
			k := whichKey(v, allKeys)
			if k == nil {
				odd = append(odd, id)
			}
			m[id] = k
		}
		return m, odd
	}
	r.Bubbles("histories", r.Tier(500, 6000), func(t *testing.T, i int, g *Rng) {
		a := NewAthenz(stdBase)
		if g.P(30) {
			a.Sys = "custom.auth"
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		opts := []pubkey.Option{pubkey.WithSysAuthDomain(a.Sys)}
		etags := g.P(80)
		if g.P(40) {
			opts = append(opts, pubkey.WithETagExpiry("1m"), pubkey.WithETagPurgePeriod("20s"))
		}
		d := newDaemon(a, opts...)
		prov := d.GetProvider()
		cur := map[pubkey.AthenzEnv]map[string]*Key{}
		good := map[pubkey.AthenzEnv]map[string]*Key{pubkey.EnvZTS: {}, pubkey.EnvZMS: {}}
		ever := map[pubkey.AthenzEnv]map[string]map[*Key]bool{pubkey.EnvZTS: {}, pubkey.EnvZMS: {}}
		ver := 0
		vers := map[pubkey.AthenzEnv]int{}
		sameTags := g.P(50)
		a.Uncond = g.P(20) // then even the same one for all documents
		docs := map[pubkey.AthenzEnv][]pubDoc{}
		publish := func(env pubkey.AthenzEnv) {
			if o := docs[env]; len(o) > 1 && g.P(25) { // an earlier document again, with the ETag it had
				d := o[max(0, len(o)-g.Range(1, 3))]
				cur[env] = d.keys
				a.Set(a.keyPath(string(env)), d.body, d.etag, ver)
				docs[env] = append(o, d)
				r.Count("earlier documents published again", 1)
				return
			}
			ver++
			vers[env]++
			cur[env] = randKeys(g, cur[env])
			tag := ""
			if etags && g.P(75) {
				tag = fmt.Sprintf(`"%s-%d"`, env, ver)
				if sameTags { // counted by environment, so that both have the same ones
					tag = fmt.Sprintf(`"%d"`, vers[env])
					if a.Uncond {
						tag = `"1"`
					}
				}
			}
			for id, k := range cur[env] {
				if ever[env][id] == nil {
					ever[env][id] = map[*Key]bool{}
				}
				ever[env][id][k] = true
			}
			body := keyDoc(g, string(env), cur[env])
			a.Set(a.keyPath(string(env)), body, tag, ver)
			docs[env] = append(docs[env], pubDoc{cur[env], body, tag})
		}
		for _, e := range pubEnvs {
			publish(e)
		}
		hist := ""
		badPub := map[pubkey.AthenzEnv]bool{}
		for step := 0; step < 14; step++ {
			faulty := map[pubkey.AthenzEnv]string{}
			faults := map[string]func(*http.Request) Resp{}
			for _, e := range pubEnvs {
				if badPub[e] {
					faulty[e] = "bad document"
				}
				if g.P(7) { // stays, and is not modified
					ver++
					tag := ""
					if g.P(80) {
						tag = fmt.Sprintf(`"baddoc-%d"`, ver)
					}
					a.Set(a.keyPath(string(e)), badKeyBody(g, string(e), randKeys(g, cur[e])), tag, ver)
					badPub[e], faulty[e] = true, "bad document"
					hist += fmt.Sprintf("; %s publishes a bad key", e)
				} else if g.P(55) {
					publish(e)
					delete(badPub, e)
					delete(faulty, e)
					hist += fmt.Sprintf("; %s publishes %s", e, keyNames(cur[e]))
				}
				if !g.P(35) {
					continue
				}
				what := Pick(g, []string{"transport", "status", "unsolicited 304", "json", "truncated", "body error", "bad key", "bad key", "empty"})
				body := pubKeyDoc(string(e), cur[e])
				bad := badKeyBody(g, string(e), randKeys(g, cur[e]))
				tag := map[string]string{"ETag": Pick(g, []string{fmt.Sprintf(`"fault-%d"`, ver), fmt.Sprintf(`"%s-%d"`, e, ver), ""})}
				if what == "bad key" {
					switch g.N(3) {
					case 0:
						tag["ETag"] = fmt.Sprintf(`"bad-%d-%d"`, i, step)
					case 1: // of the document which is served afterwards
						tag["ETag"] = docs[e][len(docs[e])-1].etag
					case 2:
						delete(tag, "ETag")
					}
				}
				st := Pick(g, []int{500, 503, 404, 403, 204, 302, 401, 201, 202, 203, 206})
				cut := g.Range(1, len(body)-2)
				js := Pick(g, []string{"[]", "<html>", `{"publicKeys":5}`, `{"publicKeys":[{"id":1,"key":2}]}`, `"x"`, "{"})
				faulty[e] = what
				faults[a.keyPath(string(e))] = func(q *http.Request) Resp {
					switch what {
					case "transport":
						return Resp{Err: &netErr{true}}
					case "status":
						return Resp{Status: st, Body: body, Header: tag}
					case "unsolicited 304":
						if q.Header.Get("If-None-Match") != "" {
							return Resp{Status: 500}
						}
						return Resp{Status: 304, Header: tag}
					case "json":
						return Resp{Status: 200, Body: []byte(js), Header: tag}
					case "truncated":
						return Resp{Status: 200, Body: body[:cut], Header: tag}
					case "body error":
						return Resp{Status: 200, Body: body[:cut], BodyErr: errors.New("verif: connection reset"), Header: tag}
					case "bad key":
						return Resp{Status: 200, Body: bad, Header: tag}
					}
					return Resp{Status: 200, Header: tag}
				}
				hist += fmt.Sprintf("; %s fails by %s", e, what)
			}
			a.SetFault(func(path string, q *http.Request, _ *Req) (Resp, bool) {
				if f := faults[path]; f != nil {
					return f(q), true
				}
				return Resp{}, false
			})
			uctx := ctx
			cancelled := g.P(4)
			if cancelled {
				c, cc := context.WithCancel(ctx)
				cc()
				uctx = c
				hist += "; cancelled"
			}
			err := d.Update(uctx)
			hist += fmt.Sprintf("; update: %v", err != nil)
			r.Count(map[bool]string{true: "failed updates", false: "successful updates"}[err != nil], 1)
			r.Eval(true, i, step, hist)
			if want := len(faulty) > 0 || cancelled; want != (err != nil) {
				r.Violate(i, "error", "update reports %v, expected failed %v: %s", err, want, hist)
				return
			}
			for _, e := range pubEnvs {
				got, odd := snapshot(prov, e)
				if len(odd) > 0 {
					r.Violate(i, "keys", "%s: unknown keys under %v: %s", e, odd, hist)
					return
				}
				if err == nil || (faulty[e] == "" && !cancelled) {
					if keyNames(got) != keyNames(cur[e]) {
						r.Violate(i, "keys", "%s: keys %s, expected %s after update with error %v: %s", e, keyNames(got), keyNames(cur[e]), err, hist)
						return
					}
					good[e] = cur[e]
					continue
				}
				for id, k := range good[e] {
					if got[id] != k {
						r.Violate(i, "keys taken away", "%s: failed update (%s) replaced key %s %s by %s: %s", e, faulty[e], id, k.name(), got[id].name(), hist)
						return
					}
				}
				for id, k := range got {
					if !ever[e][id][k] {
						r.Violate(i, "foreign key", "%s: key %s %s was never published: %s", e, id, k.name(), hist)
						return
					}
				}
				r.Count("fault: "+faulty[e], 1)
			}
			time.Sleep(g.Dur(0, 50*time.Second))
		}
	})
	pt.Disable()
	r.casesOn("lookups", r.Tier(60, 600), 2, func(t *testing.T, i int, g *Rng) {
		a := NewAthenz(stdBase)
		d := newDaemon(a)
		prov := d.GetProvider()
		type trans struct {
			old, new map[pubkey.AthenzEnv]map[string]*Key
		}
		var now atomic.Pointer[trans]
		cur := map[pubkey.AthenzEnv]map[string]*Key{pubkey.EnvZTS: {}, pubkey.EnvZMS: {}}
		now.Store(&trans{cur, cur})
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for j := 0; j < 4; j++ {
			lg := NewRng(g.U64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					e, id := Pick(lg, pubEnvs), Pick(lg, pubIDs)
					before := now.Load()
					v := prov(e, id)
					if now.Load() != before {
						continue
					}
					var k *Key
					if v != nil {
						k = whichKey(v, []*Key{before.old[e][id], before.new[e][id]}[:2])
					}
					r.Count("concurrent lookups", 1)
					o, n := before.old[e][id], before.new[e][id]
					if v == nil && o != nil && n != nil {
						r.Violate(i, "key missing during the refresh", "%s key %s is in the old and in the new document, but was not found", e, id)
						return
					}
					if v != nil && k == nil {
						r.Violate(i, "foreign key", "%s key %s: neither the old one (%s) nor the new one (%s)", e, id, o.name(), n.name())
						return
					}
				}
			}()
		}
		perturbOn(g)
		for step := 0; step < 25; step++ {
			next := map[pubkey.AthenzEnv]map[string]*Key{}
			for _, e := range pubEnvs {
				next[e] = randKeys(g, cur[e])
				a.Set(a.keyPath(string(e)), pubKeyDoc(string(e), next[e]), "", step)
			}
			now.Store(&trans{cur, next})
			if err := d.Update(context.Background()); err != nil {
				r.Violate(i, "error", "update failed: %v", err)
				break
			}
			now.Store(&trans{next, next})
			cur = next
			r.Eval(true, "lookups", i, step, keyNames(cur[pubkey.EnvZTS]), keyNames(cur[pubkey.EnvZMS]))
		}
		close(stop)
		wg.Wait()
	})
	ptReport(r)
	r.Need("successful updates", 1000)
	r.Need("failed updates", 1000)
	r.Need("large documents", 30)
	r.Need("concurrent lookups", 5000)
	r.Need("fault: bad key", 200)
	r.Need("fault: bad document", 100)
	r.Need("fault: transport", 100)
}
