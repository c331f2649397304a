package vh

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"testing"
	"time"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

func init() { checks["C03"] = checkC03 }

func cloneDoc(d *util.DomainSignedPolicyData) *util.DomainSignedPolicyData {
	o := new(util.DomainSignedPolicyData)
	if err := json.Unmarshal(must(json.Marshal(d)), o); err != nil {
		panic(err)
	}
	return o
}

// flipSig changes a character in the middle of a signature, so that it decodes to something else.
func flipSig(g *Rng, s string) string {
	b := []byte(s)
	i := g.Range(4, len(b)-8)
	old := b[i]
	for b[i] == old {
		b[i] = Pick(g, []byte("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"))
	}
	return string(b)
}

type tamperKit struct {
	g    *Rng
	w    *World
	spec *DocSpec                     // a good document
	good *util.DomainSignedPolicyData // its signed form
	prev *util.DomainSignedPolicyData // an earlier good one, or nil

	retiredZTS, retiredZMS map[string]*Key // keys which were in use before, by ID
}

// mutate changes the content of the signed data.
func (k *tamperKit) mutate(d *util.DomainSignedPolicyData) string {
	g := k.g
	pd := d.SignedPolicyData.PolicyData
	type op struct {
		name string
		f    func()
	}
	p := Pick(g, pd.Policies)
	ops := []op{
		{"domain", func() { pd.Domain += "x" }},
		{"add assertion", func() {
			p.Assertions = append(p.Assertions, &util.Assertion{Role: pd.Domain + ":role.evil", Action: "*", Resource: pd.Domain + ":*", Effect: "ALLOW"})
		}},
		{"add policy", func() {
			pd.Policies = append(pd.Policies, &util.Policy{Name: "evil", Assertions: []*util.Assertion{{Role: pd.Domain + ":role.evil", Action: "*", Resource: pd.Domain + ":*", Effect: "ALLOW"}}})
		}},
		{"policy name", func() { p.Name += "x" }},
		{"drop policy", func() { pd.Policies = pd.Policies[1:] }},
		{"modified of policy", func() { p.Modified = ts(p.Modified.Add(time.Second)) }},
	}
	if len(p.Assertions) > 0 {
		a := Pick(g, p.Assertions)
		ops = append(ops,
			op{"effect", func() {
				if isDeny(a.Effect) {
					a.Effect = "ALLOW"
				} else {
					a.Effect = "DENY"
				}
			}},
			op{"role", func() { a.Role = pd.Domain + ":role.evil" }},
			op{"action", func() { a.Action += "*" }},
			op{"resource", func() { a.Resource += "*" }},
			op{"id", func() { a.Id += 7 }},
			op{"drop assertion", func() { p.Assertions = p.Assertions[1:] }})
	}
	o := Pick(g, ops)
	o.f()
	return o.name
}

// outer and inner sign again with the keys named in the document, or the ones given.
func (k *tamperKit) outer(d *util.DomainSignedPolicyData, key *Key) {
	d.Signature = key.Sign(string(must(json.Marshal(d.SignedPolicyData))))
}
func (k *tamperKit) inner(d *util.DomainSignedPolicyData, key *Key) {
	d.SignedPolicyData.ZmsSignature = key.Sign(string(must(json.Marshal(d.SignedPolicyData.PolicyData))))
}

// tampered returns a document that is not authentic or not in time.
func (k *tamperKit) tampered() (body []byte, what string) {
	g, w := k.g, k.w
	d := cloneDoc(k.good)
	zts, zms := k.spec.ZTS, k.spec.ZMS
	now := time.Now()
	ops := []struct {
		name string
		f    func() []byte
	}{
		{"signature flipped", func() []byte { d.Signature = flipSig(g, d.Signature); return nil }},
		{"signature empty", func() []byte { d.Signature = ""; return nil }},
		{"signature truncated", func() []byte { d.Signature = d.Signature[:len(d.Signature)/2/4*4]; return nil }},
		{"zms signature flipped, outer stale", func() []byte {
			d.SignedPolicyData.ZmsSignature = flipSig(g, d.SignedPolicyData.ZmsSignature)
			return nil
		}},
		{"zms signature flipped, outer signed", func() []byte {
			d.SignedPolicyData.ZmsSignature = flipSig(g, d.SignedPolicyData.ZmsSignature)
			k.outer(d, zts)
			return nil
		}},
		{"zms signature empty, outer signed", func() []byte { d.SignedPolicyData.ZmsSignature = ""; k.outer(d, zts); return nil }},
		{"signatures swapped", func() []byte {
			d.Signature, d.SignedPolicyData.ZmsSignature = d.SignedPolicyData.ZmsSignature, d.Signature
			return nil
		}},
		{"unknown zts key id", func() []byte { d.KeyId = "nokey"; return nil }},
		{"empty zts key id", func() []byte { d.KeyId = ""; return nil }},
		{"other zts key id", func() []byte {
			if d.KeyId == "0" {
				d.KeyId = "zts1"
			} else {
				d.KeyId = "0"
			}
			return nil
		}},
		{"unknown zms key id", func() []byte { d.SignedPolicyData.ZmsKeyId = "nokey"; k.outer(d, zts); return nil }},
		{"other zms key id", func() []byte {
			if d.SignedPolicyData.ZmsKeyId == "0" {
				d.SignedPolicyData.ZmsKeyId = "zms1"
			} else {
				d.SignedPolicyData.ZmsKeyId = "0"
			}
			k.outer(d, zts)
			return nil
		}},
		{"outer signed by zms key under its id", func() []byte { d.KeyId = "zms1"; k.outer(d, w.ZMSKeys["zms1"]); return nil }},
		{"outer signed by zms key under a shared id", func() []byte { d.KeyId = "0"; k.outer(d, w.ZMSKeys["0"]); return nil }},
		{"inner signed by zts key under its id", func() []byte {
			d.SignedPolicyData.ZmsKeyId = "zts1"
			k.inner(d, w.ZTSKeys["zts1"])
			k.outer(d, zts)
			return nil
		}},
		{"inner signed by zts key under a shared id", func() []byte {
			d.SignedPolicyData.ZmsKeyId = "0"
			k.inner(d, w.ZTSKeys["0"])
			k.outer(d, zts)
			return nil
		}},
		{"both signed with unknown keys", func() []byte { k.inner(d, EC(18)); k.outer(d, EC(19)); return nil }},
		{"outer signed with unknown key", func() []byte { k.outer(d, EC(19)); return nil }},
		{"inner signed with unknown key", func() []byte { k.inner(d, EC(18)); k.outer(d, zts); return nil }},
		{"both signed by zts", func() []byte { k.inner(d, zts); k.outer(d, zts); return nil }},
		{"content", func() []byte { what = k.mutate(d); return nil }},
		{"content, outer signed", func() []byte { what = k.mutate(d); k.outer(d, zts); return nil }},
		{"content, inner signed", func() []byte { what = k.mutate(d); k.inner(d, zms); return nil }},
		{"modified", func() []byte {
			d.SignedPolicyData.Modified = ts(d.SignedPolicyData.Modified.Add(time.Hour))
			return nil
		}},
		{"expiry prolonged", func() []byte { d.SignedPolicyData.Expires = ts(d.SignedPolicyData.Expires.Add(time.Hour)); return nil }},
		{"expired", func() []byte {
			d.SignedPolicyData.Expires = ts(now.Add(-Pick(g, []time.Duration{300 * time.Millisecond, 700 * time.Millisecond, 2 * time.Second, time.Minute, time.Hour, 9000 * time.Hour})))
			k.outer(d, zts)
			return nil
		}},
		{"expiry null", func() []byte { d.SignedPolicyData.Expires = nil; k.outer(d, zts); return nil }},
		{"expiry zero", func() []byte { d.SignedPolicyData.Expires = &rdl.Timestamp{}; k.outer(d, zts); return nil }},
		{"expiry invalid", func() []byte {
			d.SignedPolicyData.Expires = &rdl.Timestamp{}
			k.outer(d, zts)
			return bytes.Replace(must(json.Marshal(d)), []byte(`"expires":""`), []byte(`"expires":"next year"`), 1)
		}},
		{"no signed policy data", func() []byte { d.SignedPolicyData = nil; return nil }},
		{"no policies, zms signature flipped", func() []byte {
			d.SignedPolicyData.PolicyData.Policies = Pick(g, [][]*util.Policy{nil, {}, {{Name: "dom:policy.p"}}})
			k.inner(d, zms)
			d.SignedPolicyData.ZmsSignature = flipSig(g, d.SignedPolicyData.ZmsSignature)
			k.outer(d, zts)
			return nil
		}},
		{"no policies, old zms signature", func() []byte {
			d.SignedPolicyData.PolicyData.Policies = Pick(g, [][]*util.Policy{nil, {}, {{Name: "dom:policy.p"}}})
			k.outer(d, zts)
			return nil
		}},
		{"no policies, signature flipped", func() []byte {
			d.SignedPolicyData.PolicyData.Policies = Pick(g, [][]*util.Policy{nil, {}, {{Name: "dom:policy.p"}}})
			k.inner(d, zms)
			k.outer(d, zts)
			d.Signature = flipSig(g, d.Signature)
			return nil
		}},
		{"stale expired original", func() []byte {
			d.SignedPolicyData.Expires = ts(now.Add(-time.Hour))
			k.outer(d, zts)
			return nil
		}},
	}
	if k.prev != nil {
		ops = append(ops, ops[0])
		ops[len(ops)-1].name = "signatures of an earlier document"
		ops[len(ops)-1].f = func() []byte {
			d.Signature = k.prev.Signature
			if g.P(50) {
				d.SignedPolicyData.ZmsSignature = k.prev.SignedPolicyData.ZmsSignature
			}
			return nil
		}
	}
	o := Pick(g, ops)
	if ids := sortedKeys(k.retiredZTS); len(ids) > 0 && g.P(30) {
		o.name, o.f = "signed by a retired zts key", func() []byte { d.KeyId = Pick(g, ids); k.outer(d, k.retiredZTS[d.KeyId]); return nil }
	}
	if ids := sortedKeys(k.retiredZMS); len(ids) > 0 && g.P(30) {
		o.name, o.f = "signed by a retired zms key", func() []byte {
			d.SignedPolicyData.ZmsKeyId = Pick(g, ids)
			k.inner(d, k.retiredZMS[d.SignedPolicyData.ZmsKeyId])
			k.outer(d, zts)
			return nil
		}
	}
	b := o.f()
	if b == nil {
		b = must(json.Marshal(d))
	}
	return b, o.name + " " + what
}

func checkC03(r *Run) {
	pools()
	RSA(0)
	r.Bubbles("tamper", r.Tier(900, 12000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		if g.P(15) {
			w.ZTSKeys["zts1"] = RSA(0)
		}
		if g.P(15) {
			w.ZMSKeys["0"] = RSA(1)
		}
		w.ZTSKeys["old"], w.ZMSKeys["old"] = EC(20), EC(21)
		w.ServeKeys()
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		const dom = "dom"
		useAz := g.P(45)
		var update func() error
		var granted func(role string) bool
		var report func() map[string]any
		if useAz {
			az := w.Authz([]string{dom}, authorizerd.WithDisableJwkd(), authorizerd.WithCacheExp(time.Millisecond))
			update = func() error { return az.Init(ctx) }
			n := 0
			granted = func(role string) bool {
				n++
				return az.VerifyRoleToken(ctx, w.RoleToken(dom, []string{role}, "user.a"), fmt.Sprintf("act%d", n), "res") == nil
			}
			report = func() map[string]any { return az.GetPolicyCache(ctx) }
		} else {
			pd := w.Policyd([]string{dom})
			update = func() error { return pd.Update(ctx) }
			granted = func(role string) bool { return pd.CheckPolicy(ctx, dom, []string{role}, "act", "res") == nil }
			report = func() map[string]any { return pd.GetPolicyCache(ctx) }
		}
		effective := -1 // version of the last authentic document
		var prev *util.DomainSignedPolicyData
		var hist []string
		etag := ""
		retiredZTS, retiredZMS := map[string]*Key{}, map[string]*Key{}
		for v := 0; v < 6; v++ {
			if useAz && v > 0 && g.P(30) { // keys are removed or replaced
				retire := func(keys, retired map[string]*Key, n int) {
					if _, ok := keys["old"]; ok && g.P(60) {
						retired["old"] = keys["old"]
						delete(keys, "old")
					} else if retired["0"] == nil && g.P(60) {
						retired["0"] = keys["0"]
						keys["0"] = EC(n)
					}
				}
				if g.P(60) {
					retire(w.ZTSKeys, retiredZTS, 15)
				}
				if g.P(60) {
					retire(w.ZMSKeys, retiredZMS, 16)
				}
				w.ServeKeys()
			}
			spec := w.Doc(dom, time.Now().Add(g.Dur(100*time.Hour, 4000*time.Hour)).Truncate(time.Millisecond), []Ass{
				{fmt.Sprintf("dom:role.v%d", v), "*", "dom:*", "allow"}, {"dom:role.all", "rea<d>&é", "dom:*", "allow"}},
				[]Ass{{"dom:role.x", Pick(g, []string{"a", "b*", `q"\`}), "dom:x", Pick(g, []string{"allow", "deny"})}})
			if g.P(50) {
				spec.ZTS, spec.ZTSID = w.ZTSKeys["0"], "0"
			}
			if g.P(50) {
				spec.ZMS, spec.ZMSID = w.ZMSKeys["0"], "0"
			}
			if k := w.ZTSKeys["old"]; k != nil && g.P(40) {
				spec.ZTS, spec.ZTSID = k, "old"
			}
			if k := w.ZMSKeys["old"]; k != nil && g.P(40) {
				spec.ZMS, spec.ZMSID = k, "old"
			}
			good := spec.Signed()
			w.Ver++
			bad := g.P(65)
			again := false // an altered document in the name of the one before
			switch {
			case g.P(15):
				etag = ""
			case bad && g.P(25):
				again = true
			default:
				etag = fmt.Sprintf(`"pol-%d"`, w.Ver)
			}
			what := "good"
			var body []byte
			if bad {
				body, what = (&tamperKit{g, w, spec, good, prev, retiredZTS, retiredZMS}).tampered()
			} else {
				body = must(json.Marshal(good))
				if g.P(25) {
					var b bytes.Buffer
					json.Indent(&b, body, " ", "\t")
					body = b.Bytes()
				} else if g.P(25) {
					body = append([]byte(`{"unknown":{"a":[1]},`), body[1:]...)
				}
			}
			w.Set(policyPath(dom), body, etag, w.Ver)
			w.SetFault(nil)
			if again { // answered 200, with the ETag of the document before
				h := map[string]string{"ETag": etag}
				w.SetFault(func(path string, q *http.Request, rec *Req) (Resp, bool) {
					return Resp{Status: 200, Header: h, Body: body}, path == policyPath(dom)
				})
				r.Count("tampered documents with the ETag of the one before", 1)
				what += ", same ETag"
			}
			err := update()
			hist = append(hist, fmt.Sprintf("v%d %s: err=%v", v, what, err != nil))
			r.Eval(true, i, hist)
			if bad {
				r.Count("tampered: "+what, 1)
				r.Count("tampered documents", 1)
				if err == nil && effective < 0 {
					r.Violate(i, "accepted", "update succeeded with a tampered document and none to fall back to: %v\n%s", hist, body)
				}
			} else {
				r.Count("good documents", 1)
				effective = v
				prev = good
				if err != nil {
					r.Violate(i, "rejected", "authentic document rejected: %v, %v\n%s", hist, err, body)
				}
			}
			for q := 0; q <= v; q++ {
				if got := granted(fmt.Sprintf("v%d", q)); got != (q == effective) {
					r.Violate(i, "effect", "version %d granted: %v, but the last authentic document is version %d: %v\n%s", q, got, effective, hist, body)
				}
			}
			if granted("evil") {
				r.Violate(i, "effect", "forged role granted: %v\n%s", hist, body)
			}
			rep := report()
			for q := 0; q <= v; q++ {
				if _, ok := rep[fmt.Sprintf("dom:role.v%d", q)]; ok != (q == effective) {
					r.Violate(i, "report", "version %d reported: %v, but the last authentic document is version %d: %v", q, ok, effective, hist)
				}
			}
			if g.P(30) {
				time.Sleep(g.Dur(time.Second, 10*time.Minute))
			}
		}
	})
	r.Need("tampered documents", 1000)
	r.Need("tampered documents with the ETag of the one before", 100)
	r.Need("good documents", 500)
	r.Need("tampered: no policies, zms signature flipped ", 10)
	r.Need("tampered: signed by a retired zts key ", 20)
	r.Need("tampered: signed by a retired zms key ", 20)
}
