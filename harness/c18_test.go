package vh

import (
	"bytes"
	"compress/gzip"
	"context"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/golang-jwt/jwt/v4"
	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

func init() { checks["C18"] = checkC18 }

// weird values for any place of a JSON document
func weirdValue(g *Rng, depth int) any {
	switch g.N(17) {
	case 0, 1:
		return nil
	case 2:
		return ""
	case 3:
		return "x"
	case 4:
		return 0
	case 5:
		return json.Number(Pick(g, []string{"-1", "1e400", "1e10", "99999999999999999999999", "1.5", "-9223372036854775808"}))
	case 6:
		return true
	case 7:
		return []any{}
	case 8:
		return map[string]any{}
	case 9:
		return []any{nil}
	case 10:
		return []any{map[string]any{}, nil, "x", 1}
	case 11:
		return strings.Repeat(Pick(g, []string{"a", "*", ":", "é", "\x00", "%s%n", "\\", "("}), Pick(g, []int{1, 17, 300, 4000}))
	case 12:
		return "\xff\xfe\x00"
	case 13:
		return Pick(g, []string{"2006-01-02T15:04:05Z", "9999-99-99T00:00:00Z", "0000-00-00T00:00:00.000Z", "292277026596-12-04T15:30:07Z", "+0000", "-"})
	case 14:
		return map[string]any{"": nil, "a": []any{1, 2}}
	case 15:
		if depth < 3 {
			return []any{weirdValue(g, depth+1), weirdValue(g, depth+1)}
		}
		return 1
	}
	return Pick(g, []string{":role.", "dom:role.r", "dom", "allow", "ALLOW", ":", "a:b:c", "dom:", ".", "..", "=", "====", "_", "-----BEGIN PUBLIC KEY-----", "LS0tLS1CRUdJTg--"})
}

// mutateJSON changes a JSON document at some places and returns the result, which still is JSON.
func mutateJSON(g *Rng, doc []byte, n int) any {
	var v any
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	for ; n > 0; n-- {
		type place struct {
			set func(any)
			del func()
			get any
		}
		var ps []place
		root := &v
		ps = append(ps, place{func(x any) { *root = x }, func() { *root = nil }, v})
		var walk func(x any)
		walk = func(x any) {
			switch t := x.(type) {
			case map[string]any:
				for _, k := range sortedKeys(t) {
					ps = append(ps, place{func(x any) { t[k] = x }, func() { delete(t, k) }, t[k]})
					walk(t[k])
				}
			case []any:
				for i := range t {
					ps = append(ps, place{func(x any) { t[i] = x }, func() { t[i] = nil }, t[i]})
					walk(t[i])
				}
			}
		}
		walk(v)
		i := g.N(len(ps))
		if i == 0 && g.P(85) {
			i = g.N(len(ps))
		}
		p := ps[i]
		switch g.N(5) {
		case 0:
			p.del()
		case 1:
			if l, ok := p.get.([]any); ok && len(l) > 0 {
				p.set(append(append([]any{}, l...), nil, l[0], weirdValue(g, 0)))
				break
			}
			fallthrough
		case 2:
			if s, ok := p.get.(string); ok && len(s) > 0 {
				j := g.N(len(s))
				p.set(Pick(g, []string{s[:j], s[j:], s[:j] + "x" + s[j:], s + s, strings.ToUpper(s), strings.Replace(s, ":", "", 1)}))
				break
			}
			fallthrough
		default:
			p.set(weirdValue(g, 0))
		}
	}
	return v
}

func marshalAny(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil { // a number which cannot be written
		return []byte(fmt.Sprint(v))
	}
	return b
}

// mutateBytes changes the bytes of a document.
func mutateBytes(g *Rng, b []byte) []byte {
	b = append([]byte{}, b...)
	switch g.N(9) {
	case 0:
		return b[:g.N(len(b)+1)]
	case 1:
		for n := g.Range(1, 5); n > 0 && len(b) > 0; n-- {
			b[g.N(len(b))] = byte(g.U64())
		}
		return b
	case 2:
		return append(b, b...)
	case 3:
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		_, _ = w.Write(b)
		_ = w.Close()
		return z.Bytes()
	case 4:
		return []byte(strings.Repeat(Pick(g, []string{"[", `{"a":`, "{", "\""}), Pick(g, []int{1, 100, 20000})))
	case 5:
		return append([]byte{0xef, 0xbb, 0xbf}, b...)
	case 6:
		return []byte(Pick(g, []string{"", " ", "\n", "null", "0", "[]", "{}", `""`, "true", "nul", `{"keys":null}`, `{"keys":[null]}`, `{"publicKeys":null}`, `{"publicKeys":[null]}`, "\x00", "<html></html>"}))
	case 7:
		return bytes.ReplaceAll(b, []byte(`":"`), []byte(`":`))
	}
	return bytes.Repeat([]byte(" "), 1<<16)
}

// hostileDoc is a policy document which is signed as it has to be, if it can be signed, but is weird.
func hostileDoc(g *Rng, w *World, d *DocSpec) []byte {
	var doc util.DomainSignedPolicyData
	v := mutateJSON(g, d.JSON(), g.Range(1, 4))
	if json.Unmarshal(marshalAny(v), &doc) != nil {
		return marshalAny(v)
	}
	zts, zms := w.ZTSKeys["zts1"], w.ZMSKeys["zms1"]
	if s := doc.SignedPolicyData; s != nil {
		if g.P(85) {
			if b, err := json.Marshal(s.PolicyData); err == nil {
				s.ZmsSignature, s.ZmsKeyId = zms.Sign(string(b)), "zms1"
			}
		}
		if g.P(85) {
			if b, err := json.Marshal(s); err == nil {
				doc.Signature, doc.KeyId = zts.Sign(string(b)), "zts1"
			}
		}
	} else if g.P(50) {
		doc.Signature, doc.KeyId = zts.Sign("null"), "zts1"
	}
	b, err := json.Marshal(doc)
	if err != nil {
		return marshalAny(v)
	}
	return b
}

func hostileKeys(g *Rng, env string) []byte {
	k := EC(g.N(10))
	var l []any
	pm := func(typ string, der []byte) string {
		return new(zmssvctoken.YBase64).EncodeToString(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}))
	}
	seed := make([]byte, ed25519.SeedSize)
	for n := g.N(6); n >= 0; n-- {
		var key any
		switch g.N(12) {
		case 0:
			key = k.Y64
		case 1:
			key = pm("PUBLIC KEY", must(x509.MarshalPKIXPublicKey(ed25519.NewKeyFromSeed(seed).Public())))
		case 2:
			key = pm("CERTIFICATE", CertSpec{CN: "x", NotBefore: time.Now()}.Make().Raw)
		case 3:
			key = pm("EC PRIVATE KEY", must(x509.MarshalECPrivateKey(k.Priv.(*ecdsa.PrivateKey))))
		case 4:
			key = pm("PUBLIC KEY", derOf(k.Priv.Public())[:g.N(60)])
		case 5:
			key = pm(Pick(g, []string{"", "X", "RSA PUBLIC KEY", "EC PUBLIC KEY"}), derOf(k.Priv.Public()))
		case 6:
			key = new(zmssvctoken.YBase64).EncodeToString([]byte("not PEM"))
		case 7:
			key = RSA(0).Y64
		case 8:
			key = k.Y64[:g.N(len(k.Y64))]
		default:
			key = weirdValue(g, 0)
		}
		l = append(l, map[string]any{"id": Pick(g, []any{"0", "zts1", "zms1", "weird", "", nil, 1}), "key": key})
	}
	return marshalAny(map[string]any{"modified": "2000-01-01T00:00:00.000Z", "name": "sys.auth." + env, "publicKeys": l})
}

func hostileJWKs(g *Rng) []byte {
	var l []any
	for n := g.N(5); n >= 0; n-- {
		m := map[string]any{"kid": Pick(g, []any{"0", "at1", "weird", "", 5, nil, []any{"at1"}}), "kty": Pick(g, []any{"RSA", "EC", "oct", "OKP", "", "XX", nil, 1})}
		for _, f := range []string{"n", "e", "x", "y", "k", "d", "p", "q", "dp", "dq", "qi"} {
			if g.P(60) {
				m[f] = Pick(g, []any{"", "AA", "AQAB", "AQ", b64(EC(1).Priv.Public().(*ecdsa.PublicKey).X.Bytes()), strings.Repeat("A", 86), strings.Repeat("_", 400), nil, 3, "!!"})
			}
		}
		if g.P(60) {
			m["crv"] = Pick(g, []any{"P-256", "P-384", "P-521", "Ed25519", "X25519", "secp256k1", "", nil, 1})
		}
		if g.P(60) {
			m["alg"] = Pick(g, []any{"RS256", "ES256", "HS256", "none", "", nil, 1, "EdDSA"})
		}
		for _, f := range []string{"use", "key_ops", "x5c", "x5t", "x5u"} {
			if g.P(15) {
				m[f] = weirdValue(g, 1)
			}
		}
		var v any = m
		if g.P(10) {
			v = weirdValue(g, 0)
		}
		l = append(l, v)
	}
	for _, kid := range []string{"0", "at1"} { // nearly complete keys of every kind
		if !g.P(25) {
			continue
		}
		half := func() string { return b64(make([]byte, Pick(g, []int{0, 1, 31, 32, 33, 56, 57, 64, 66, 128, 256}))) }
		m := map[string]any{"kid": kid, "kty": "OKP", "crv": Pick(g, []string{"Ed25519", "X25519", "Ed448"}), "x": half(), "d": half()}
		switch g.N(5) {
		case 0:
			m = map[string]any{"kid": kid, "kty": "EC", "crv": Pick(g, []string{"P-256", "P-384", "P-521"}), "x": half(), "y": half(), "d": half()}
		case 1:
			m = map[string]any{"kid": kid, "kty": "RSA", "n": half(), "e": Pick(g, []string{"AQAB", half()}), "d": half(), "p": half(), "q": half(), "dp": half(), "dq": half(), "qi": half()}
		case 2:
			m = map[string]any{"kid": kid, "kty": "oct", "k": half()}
		}
		for _, f := range sortedKeys(m) {
			if f != "kid" && f != "kty" && g.P(8) {
				delete(m, f)
			}
		}
		l = append(l, m)
	}
	if g.P(10) {
		return marshalAny(map[string]any{"kid": "at1", "kty": "RSA"})
	}
	return marshalAny(map[string]any{"keys": l})
}

func pageKind(path string) string {
	switch {
	case strings.Contains(path, "/service/"):
		return "keys"
	case strings.Contains(path, "signed_policy_data"):
		return "policy"
	}
	return "jwks"
}

// hostileResp is an answer of a server.
func hostileResp(g *Rng, w *World, path string, good []byte, d *DocSpec) (Resp, string) {
	h := map[string]string{}
	if g.P(50) {
		h["ETag"] = Pick(g, []string{"", `"x"`, "W/\"y\"", strings.Repeat("e", 3000), "\"a\nb\"", `"pol-1"`, fmt.Sprint(g.N(5))})
	}
	if g.P(20) {
		h["Content-Type"] = Pick(g, []string{"", "text/html", "application/json; charset=utf-16", ";;"})
	}
	if g.P(10) {
		h["Content-Encoding"] = "gzip"
	}
	if g.P(10) {
		h["Retry-After"] = Pick(g, []string{"-1", "99999999999", "x"})
	}
	var err error
	if g.P(8) {
		err = errors.New("verif: connection reset")
	}
	switch g.N(10) {
	case 0: // status
		return Resp{Status: Pick(g, []int{0, -1, 100, 101, 199, 201, 202, 204, 206, 300, 304, 304, 304, 305, 400, 401, 403, 404, 418, 429, 499, 500, 501, 502, 503, 504, 599, 600, 999, 1 << 30}), Header: h, Body: good, BodyErr: err}, "status"
	case 1:
		return Resp{Status: 200, Header: h, Body: mutateBytes(g, good), BodyErr: err}, "bytes"
	case 2:
		return Resp{Status: 200, Header: h, Body: marshalAny(weirdValue(g, 0)), BodyErr: err}, "value"
	case 3, 4:
		return Resp{Status: 200, Header: h, Body: marshalAny(mutateJSON(g, good, g.Range(1, 3))), BodyErr: err}, "structure"
	case 5:
		return Resp{Err: Pick(g, []error{&netErr{true}, &netErr{false}, context.Canceled, context.DeadlineExceeded, errors.New("")})}, "error"
	}
	switch pageKind(path) {
	case "policy":
		return Resp{Status: 200, Header: h, Body: hostileDoc(g, w, d), BodyErr: err}, "signed policy"
	case "keys":
		return Resp{Status: 200, Header: h, Body: hostileKeys(g, path[strings.LastIndex(path, "/")+1:]), BodyErr: err}, "public keys"
	}
	return Resp{Status: 200, Header: h, Body: hostileJWKs(g), BodyErr: err}, "JSON web keys"
}

func hostileText(g *Rng) string {
	return Pick(g, []string{"", " ", ".", "..", "...", ";", ";s=", "=", ";=;", ":", "::", "*", "?", "\\", "\x00", "\xff\xfe", "(((", "[", "%", "%s%d%!", "é\u202e", "{{a}}", "Bearer ", "null", "\n", "\r\nX: y",
		strings.Repeat("a", g.N(3000)), strings.Repeat("*", g.N(200)), strings.Repeat(";", g.N(300)), strings.Repeat(".", g.N(300)), strings.Repeat("=", g.N(300)), fmt.Sprint(g.U64())})
}

func mutateText(g *Rng, s string) string {
	for n := g.Range(1, 3); n > 0; n-- {
		i, j := g.N(len(s)+1), g.N(len(s)+1)
		if i > j {
			i, j = j, i
		}
		switch g.N(6) {
		case 0:
			s = s[:i]
		case 1:
			s = s[i:]
		case 2:
			s = s[:i] + s[j:]
		case 3:
			s = s[:i] + hostileText(g) + s[i:]
		case 4:
			s = s[:j] + s[i:]
		case 5:
			if i < len(s) {
				s = s[:i] + string([]byte{byte(g.U64())}) + s[i+1:]
			}
		}
	}
	return s
}

// hostileRT is a role token, often with a good signature.
func hostileRT(g *Rng, w *World, dom string) string {
	id := Pick(g, []string{"zts1", "zts1", "0", "weird"})
	k := w.ZTSKeys[id]
	if k == nil {
		k = EC(g.N(10))
	}
	now := time.Now().Unix()
	f := []string{"v=Z1", "d=" + dom, "r=r1", "p=u", "h=h", "a=1", fmt.Sprint("t=", now), fmt.Sprint("e=", now+1000), "k=" + id}
	for n := g.Range(1, 3); n > 0; n-- {
		i := g.N(len(f))
		switch g.N(5) {
		case 0:
			f[i] = f[i][:g.N(len(f[i])+1)]
		case 1:
			f[i] = f[i][:min(2, len(f[i]))] + hostileText(g)
		case 2:
			f = append(f, f[i])
		case 3:
			f[i] = f[i][:min(2, len(f[i]))] + Pick(g, []string{"9223372036854775807", "-9223372036854775808", "9223372036854775808", "1e9", "0", "-1", ",", ",,", "a,,b"})
		case 4:
			f[i] = hostileText(g)
		}
	}
	u := strings.Join(f, ";")
	t := u + ";s=" + k.Sign(u)
	if g.P(30) {
		t = mutateText(g, t)
	}
	return t
}

// hostileAT is an access token, often with a good signature.
func hostileAT(g *Rng, w *World, dom string) string {
	id := Pick(g, []string{"at1", "at1", "0", "weird"})
	k := w.JWKeys[id]
	if k == nil {
		k = Pick(g, []*Key{EC(g.N(10)), RSA(0), P384()})
	}
	now := time.Now().Unix()
	h := map[string]any{"alg": k.Alg, "typ": "at+jwt", "kid": id}
	cl := ATClaims(dom, []string{"r1"}, "u", "c", now-5, now+1000)
	if g.P(40) {
		cl["cnf"] = map[string]any{"x5t#S256": "x", "proxy-principals#spiffe": []any{"spiffe://a/b"}}
		switch g.N(4) {
		case 0:
			cl["cnf"] = map[string]any{"x5t#S256": weirdValue(g, 1), "proxy-principals#spiffe": []any{"spiffe://a/b", weirdValue(g, 1)}}
		case 1:
			cl["cnf"] = map[string]any{Pick(g, []string{"x5t#S256", "proxy-principals#spiffe", "jkt"}): weirdValue(g, 0), "proxy-principals#spiffe": Shuffle(g, []any{"spiffe://a/b", 1, nil, []any{}, map[string]any{}, true})[:g.Range(1, 5)]}
		}
	}
	hb, cb := marshalAny(h), marshalAny(cl)
	if g.P(60) {
		cb = marshalAny(mutateJSON(g, cb, g.Range(1, 3)))
	}
	if g.P(40) {
		hb = marshalAny(mutateJSON(g, hb, g.Range(1, 2)))
	}
	if g.P(15) {
		h["jku"] = Pick(g, []any{"", "https://other.test/keys", "x", 1, nil, []any{}, "https://" + stdBase + "/oauth2/keys?rfc=true", "://", "file:///etc/passwd"})
		hb = marshalAny(h)
	}
	if g.P(20) { // registered names with any value
		for n := g.Range(1, 3); n > 0; n-- {
			h[Pick(g, []string{"crit", "crit", "b64", "zip", "enc", "typ", "cty", "alg", "jwk", "x5c", "x5t", "x5t#S256", "x5u", "jku", "nonce", "url", "kid", "iss", "sub", "aud", "p2c", "p2s", "epk", "apu"})] = weirdValue(g, g.N(3))
		}
		hb = marshalAny(h)
	}
	if g.P(15) {
		for n := g.Range(1, 3); n > 0; n-- {
			cl[Pick(g, []string{"iss", "sub", "aud", "exp", "nbf", "iat", "jti", "scp", "scope", "client_id", "cnf", "auth_time", "uid", "proxy", "authorization_details", "ver", "azp", "act", "may_act"})] = weirdValue(g, g.N(3))
		}
		cb = marshalAny(cl)
	}
	if g.P(10) {
		cb = mutateBytes(g, cb)
	}
	if g.P(10) {
		hb = mutateBytes(g, hb)
	}
	p := b64(hb) + "." + b64(cb)
	t := p + "." + must(signMethod(k.Alg).Sign(p, k.Priv))
	switch g.N(12) {
	case 0:
		t = mutateText(g, t)
	case 1:
		t = p + "."
	case 2:
		t = p
	case 3:
		t = p + "." + must(jwt.SigningMethodHS256.Sign(p, []byte("x")))
	case 4:
		t = p + "." + b64(bytes.Repeat([]byte{byte(g.N(2) * 255)}, Pick(g, []int{0, 1, 63, 64, 65, 256})))
	}
	return t
}

// hostileCert is a certificate, parsed or made by hand as in tests of users.
func hostileCert(g *Rng) *x509.Certificate {
	switch g.N(6) {
	case 0:
		return nil
	case 1:
		return &x509.Certificate{}
	case 2:
		return &x509.Certificate{Subject: pkix.Name{CommonName: hostileText(g)}, Issuer: pkix.Name{CommonName: hostileText(g)}, URIs: []*url.URL{{}, {Opaque: "x"}, {Scheme: "spiffe"}, {Path: "//"}}}
	case 3:
		return &x509.Certificate{Raw: []byte{}, SerialNumber: big.NewInt(-1), NotBefore: Pick(g, []time.Time{{}, time.Unix(1<<40, 0), time.Unix(-1<<40, 0)}), NotAfter: time.Time{}, Subject: pkix.Name{CommonName: "c"}}
	}
	return CertSpec{CN: Pick(g, []string{"", "c", ":role.", "dom:role.", "dom:role.r1", ":role.:role.", "dom:role.r1:role.r2", "*"}), Issuer: Pick(g, []string{"", "ca", ":"}), NotBefore: time.Now().Add(-g.Dur(0, 1000*time.Hour)),
		URIs: Shuffle(g, []string{"athenz://role/", "athenz://role/dom", "athenz://role/dom/", "athenz://role//r1", "athenz://role/dom/r1/x", "spiffe://a/b", "x:opaque", "athenz:", "athenz://role/dom/r1?x#y", "athenz://role/%2e/%2F"})[:g.N(6)]}.Make()
}

func hostileReq(g *Rng, ctx context.Context, rt, at string, cert *x509.Certificate) *http.Request {
	q := httptest.NewRequest("GET", "https://server.test/p", nil).WithContext(ctx)
	if g.P(40) {
		q.URL.RawQuery = Pick(g, []string{"a=b", "%zz", ";", "a=b;c=d", "&&&", "=", strings.Repeat("a=b&", 500), "a=%00", hostileText(g)})
	}
	if g.P(5) {
		q.URL = &url.URL{}
	}
	switch g.N(7) {
	case 0:
	case 1:
		q.Header["Authorization"] = []string{}
	case 2:
		q.Header["Authorization"] = nil
	case 3:
		q.Header["Authorization"] = []string{Pick(g, []string{"", " ", "Bearer", "Bearer ", "bearer", "bEaReR  ", "Bearer\t", "B", "Bearer Bearer ", "Basic eDp5", hostileText(g)})}
	case 4:
		q.Header["Authorization"] = []string{"", "Bearer " + at}
	default:
		q.Header.Set("Authorization", Pick(g, []string{"Bearer ", "bearer ", "Bearer  ", "", "BEARER "})+at)
	}
	switch g.N(5) {
	case 0:
	case 1:
		q.Header["Athenz-Role-Auth"] = []string{}
	default:
		q.Header["Athenz-Role-Auth"] = []string{rt}
	}
	switch g.N(5) {
	case 0:
		q.TLS = nil
	case 1:
		q.TLS = &tls.ConnectionState{}
	case 2:
		q.TLS = &tls.ConnectionState{PeerCertificates: []*x509.Certificate{}}
	default:
		q.TLS = &tls.ConnectionState{}
		for n := g.Range(1, 3); n > 0; n-- {
			c := cert
			if c == nil || n > 1 {
				if c = hostileCert(g); c == nil {
					c = &x509.Certificate{}
				}
			}
			q.TLS.PeerCertificates = append(q.TLS.PeerCertificates, c)
		}
	}
	return q
}

// guard makes a call which must return, without a panic.
func (r *Run) guard(i int, what func() string, f func()) bool {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- fmt.Sprintf("%v\n%s", p, debug.Stack())
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case s := <-done:
		if s != "" {
			r.Violate(i, "panic", "%s: panic: %s", what(), s)
			return false
		}
		return true
	case <-time.After(100 * time.Hour):
		r.Violate(i, "hang", "%s: the call did not return", what())
		return false
	}
}

func checkC18(r *Run) {
	pools()
	RSA(0)
	const dom = "dom"
	// the configurations which can be constructed
	configure := func(g *Rng, w *World, extra []string) (opts []authorizerd.Option, desc string, on [3]bool) {
		opts = append(opts, authorizerd.WithCacheExp(time.Hour), authorizerd.WithHTTPClient(w.Client(20*time.Second)), authorizerd.WithJwkURLs(extra),
			authorizerd.WithPubkeyRefreshPeriod("10m"), authorizerd.WithPolicyRefreshPeriod("9m"), authorizerd.WithJwkRefreshPeriod("8m"),
			authorizerd.WithPubkeyRetryDelay("20s"), authorizerd.WithPolicyRetryDelay("20s"), authorizerd.WithJwkRetryDelay("20s"))
		for n, o := range []authorizerd.Option{authorizerd.WithDisablePubkeyd(), authorizerd.WithDisablePolicyd(), authorizerd.WithDisableJwkd()} {
			on[n] = !g.P(20)
			if !on[n] {
				opts = append(opts, o)
			}
		}
		rt, at, rc := !g.P(15), !g.P(15), g.P(30)
		bind, cid := g.P(40), g.P(30)
		if rt {
			opts = append(opts, authorizerd.WithEnableRoleToken())
		} else {
			opts = append(opts, authorizerd.WithDisableRoleToken())
		}
		ids := Pick(g, []map[string][]string{nil, {}, {"c": nil}, {"c": {"c", ""}}, {"": {""}}})
		opts = append(opts, authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(at, bind, Pick(g, []string{"", "0", "1h"}), Pick(g, []string{"", "0", "1h"}), cid, ids)))
		if rc {
			opts = append(opts, authorizerd.WithEnableRoleCert(), authorizerd.WithRoleCertURIPrefix(Pick(g, []string{"athenz://role/", "", "/", "x"})))
		} else if g.P(80) {
			opts = append(opts, authorizerd.WithDisableRoleCert())
		}
		if g.P(20) {
			opts = append(opts, authorizerd.WithRoleAuthHeader(Pick(g, []string{"Athenz-Role-Auth", "athenz-role-auth", "X Y", ""})))
		}
		tr := g.P(30)
		if tr {
			opts = append(opts, authorizerd.WithTranslator(Pick(g, []authorizerd.Translator{queryTranslator{}, must(authorizerd.NewMappingRules(map[string][]authorizerd.Rule{
				dom: {{Method: "get", Path: "/p/{a}?q={b}", Action: "act", Resource: "{a}.{b}"}, {Method: "act", Path: "/res", Action: "act", Resource: "res"}}}))})))
		}
		if g.P(20) {
			opts = append(opts, authorizerd.WithResourcePrefix(Pick(g, []string{"", "/", "\x00"})))
		}
		desc = fmt.Sprintf("pubkeyd policyd jwkd %v, role token %v, access token %v, role certificate %v, binding %v, client ids %v %v, translator %v", on, rt, at, rc, bind, cid, ids, tr)
		if !rt && !at && !rc {
			opts = append(opts, authorizerd.WithEnableRoleToken())
		}
		return
	}
	good := func(w *World, exp time.Duration) *DocSpec {
		return w.Doc(dom, time.Now().Add(exp), []Ass{{"dom:role.r1", "act", "dom:res", "allow"}, {"dom:role.r2", "*", "dom:*", "deny"}, {"dom:role.r3", "*", "dom:x*y?z", "allow"}})
	}

	// sane is whether the valid requests are decided correctly, in a configuration with everything
	sane := func(i int, az authorizerd.Authorizerd, w *World, when func() string, nonce *int) bool {
		ctx := context.Background()
		for _, q := range []struct {
			roles []string
			act   string
			want  Decision
		}{{[]string{"r1"}, "act", Allow}, {[]string{"r1", "r2"}, "act", Deny}, {[]string{"r1"}, "other", NoMatch}} {
			*nonce++
			sub := fmt.Sprint("sane", *nonce)
			rt, at := w.RoleToken(dom, q.roles, sub), w.AccessToken(dom, q.roles, sub, "c")
			var e1, e2, e3 error
			var p authorizerd.Principal
			if !r.guard(i, when, func() {
				e1 = second(az.AuthorizeRoleToken(ctx, rt, q.act, "res"))
				e2 = second(az.AuthorizeAccessToken(ctx, at, q.act, "res", nil))
				req := httptest.NewRequest("GET", "https://server.test/", nil)
				req.Header.Set("Authorization", "Bearer "+at)
				p, e3 = az.Authorize(req, q.act, "res")
			}) {
				return false
			}
			for _, e := range []error{e1, e2} {
				if d, ok := decisionOf(e); !ok || d != q.want {
					r.Violate(i, "decision", "%s: a valid token of roles %v was not decided as %v afterwards: %v", when(), q.roles, q.want, e)
					return false
				}
			}
			if (e3 == nil) != (q.want == Allow) || e3 == nil && p.Name() != sub {
				r.Violate(i, "decision", "%s: a valid request of roles %v was answered %v, want %v", when(), q.roles, e3, q.want)
				return false
			}
			r.Count("valid requests decided", 3)
		}
		return true
	}

	r.Bubbles("clients", r.Tier(250, 4000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		w.ZTSKeys["weird"], w.JWKeys["weird"] = Pick(g, []*Key{EC(7), RSA(0)}), Pick(g, []*Key{EC(8), RSA(1), P384()})
		w.ServeKeys()
		base, fin := context.WithCancel(context.Background())
		defer settle(fin)
		w.ServePolicy(good(w, 4000*time.Hour))
		extra := []string{"https://other.test/keys"}[:g.N(2)]
		for _, u := range extra {
			w.SetExtra(u, jwksDoc(map[string]*Key{"x": EC(9)}), 1)
		}
		full := g.P(40)
		opts, desc, on := configure(g, w, extra)
		if full {
			opts, desc, on = []authorizerd.Option{authorizerd.WithEnableRoleToken(), authorizerd.WithCacheExp(time.Hour), authorizerd.WithJwkURLs(extra)}, "everything", [3]bool{true, true, true}
		}
		az, err := authorizerd.New(w.Options([]string{dom}, opts...)...)
		if err != nil {
			r.Violate(i, "construct", "%s: %v", desc, err)
			return
		}
		stage := "not initialized"
		what := ""
		say := func() string { return desc + ", " + stage + ": " + what }
		if full || g.P(70) {
			stage = "initialized"
			if !r.guard(i, func() string { return "initialization, " + desc }, func() { err = az.Init(base) }) {
				return
			}
			// policies cannot be verified without public keys
			if bad := on[1] && !on[0]; (err != nil) != bad {
				r.Violate(i, "init", "%s: initialization returned %v", desc, err)
				return
			}
		}
		if g.P(40) {
			stage += ", started"
			if !r.guard(i, func() string { return "start, " + desc }, func() { drain(az.Start(base)) }) {
				return
			}
			if g.P(30) {
				time.Sleep(g.Dur(time.Second, time.Hour))
			}
		}
		nonce := 0
		for k := 0; k < 40; k++ {
			ctx := base
			if g.P(5) {
				c, cancel := context.WithCancel(base)
				cancel()
				ctx = c
			}
			rt, at := hostileRT(g, w, dom), hostileAT(g, w, dom)
			switch g.N(8) {
			case 0:
				rt, at = at, rt
			case 1:
				rt, at = hostileText(g), hostileText(g)
			case 2:
				c := genRT(g, w, dom, []string{"r1"})
				rt = c.tok
			}
			act, res := Pick(g, []string{"act", "", "x", hostileText(g)}), Pick(g, []string{"res", "", "/p/x?q=y", hostileText(g), strings.Repeat("x", 3000) + "y"})
			cert := hostileCert(g)
			var peers []*x509.Certificate
			for n := g.N(4); n > 0; n-- {
				if c := hostileCert(g); c != nil {
					peers = append(peers, c)
				}
			}
			q := hostileReq(g, ctx, rt, at, cert)
			what = fmt.Sprintf("role token %q access token %q action %.300q resource %.300q certificate %v request %+v", rt, at, act, res, cert != nil, q)
			ok := 0
			see := func(err error) { ok += b2i(err == nil) }
			if !r.guard(i, say, func() {
				see(az.VerifyRoleToken(ctx, rt, act, res))
				see(second(az.AuthorizeRoleToken(ctx, rt, act, res)))
				see(az.VerifyAccessToken(ctx, at, act, res, cert))
				see(second(az.AuthorizeAccessToken(ctx, at, act, res, cert)))
				see(az.VerifyRoleCert(ctx, peers, act, res))
				see(second(az.AuthorizeRoleCert(ctx, peers, act, res)))
				see(az.Verify(q, act, res))
				p, err := az.Authorize(q, act, res)
				see(err)
				if err == nil {
					_ = fmt.Sprint(p.Name(), p.Roles(), p.Domain(), p.IssueTime(), p.ExpiryTime(), p.AuthorizedRoles())
				}
				az.GetPolicyCache(ctx)
			}) {
				return
			}
			r.Count("hostile calls", 9)
			r.Count("hostile calls granted", ok)
			r.Eval(true, rt, at, act, res)
			if full && k%20 == 19 && !sane(i, az, w, say, &nonce) {
				return
			}
		}
	})

	r.Bubbles("servers", r.Tier(350, 5000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		base, fin := context.WithCancel(context.Background())
		defer settle(fin)
		extra := []string{"https://other.test/keys"}[:g.N(2)]
		for _, u := range extra {
			w.SetExtra(u, jwksDoc(map[string]*Key{"x": EC(9)}), 1)
		}
		d := good(w, 4000*time.Hour)
		w.ServePolicy(d)
		full := g.P(70)
		opts, desc, _ := configure(g, w, extra)
		if full {
			opts, desc = append(opts[:9:9], authorizerd.WithEnableRoleToken()), "everything"
		}
		az, err := authorizerd.New(w.Options([]string{dom}, opts...)...)
		if err != nil {
			r.Violate(i, "construct", "%s: %v", desc, err)
			return
		}
		hg := NewRng(g.U64())
		pct := map[string]int{}
		for _, k := range []string{"policy", "keys", "jwks"} {
			pct[k] = Pick(g, []int{100, 60, 30, 0})
		}
		pct[Pick(g, []string{"policy", "keys", "jwks"})] = Pick(g, []int{100, 60})
		last := ""
		from := g.N(6) // good answers first
		w.SetFault(func(path string, q *http.Request, rec *Req) (Resp, bool) {
			if from > 0 {
				from--
				return Resp{}, false
			}
			if !hg.P(pct[pageKind(path)]) {
				return Resp{}, false
			}
			body := []byte("{}")
			if pg := w.pages[path]; pg != nil {
				body = pg.Body
			} else if pg := w.extra[path]; pg != nil {
				body = pg.Body
			}
			rs, what := hostileResp(hg, w, path, body, d)
			last = fmt.Sprintf("%s %s %d %v %.1500q", what, path, rs.Status, rs.Header, rs.Body)
			r.Count("hostile responses: "+what, 1)
			r.Count("hostile responses", 1)
			return rs, true
		})
		say := func() string {
			w.mu2.Lock()
			defer w.mu2.Unlock()
			return desc + ", last hostile response: " + last
		}
		inits := 0
		for n := g.Range(1, 3); n > 0; n-- {
			if !r.guard(i, say, func() { err = az.Init(base) }) {
				return
			}
			inits += b2i(err == nil)
		}
		r.Count("initializations", inits)
		ech := az.Start(base)
		el := newErrLog(ech)
		end := time.Now().Add(g.Dur(10*time.Minute, 3*time.Hour))
		for time.Now().Before(end) {
			time.Sleep(g.Dur(time.Second, 15*time.Minute))
			rt, at := hostileRT(g, w, dom), hostileAT(g, w, dom)
			if g.P(60) {
				kid := Pick(g, []string{"0", "at1", "weird", "", "5"})
				k := Pick(g, []*Key{EC(1), EC(6), RSA(0), P384()})
				h := map[string]any{"kid": kid, "alg": Pick(g, []string{"RS256", "ES256", "HS256", "EdDSA", "PS256", "RS512", "none"})}
				if g.P(30) {
					h["jku"] = "https://other.test/keys"
				}
				now := time.Now().Unix()
				p := b64(marshalAny(h)) + "." + b64(marshalAny(ATClaims(dom, []string{"r1"}, "u", "c", now-1, now+1000)))
				at = p + "." + must(signMethod(k.Alg).Sign(p, k.Priv))
			}
			cert := hostileCert(g)
			if !r.guard(i, say, func() {
				_ = az.VerifyRoleToken(base, rt, "act", "res")
				_ = az.VerifyAccessToken(base, at, "act", "res", cert)
				_ = az.VerifyRoleToken(base, w.RoleToken(dom, []string{"r1", "r3"}, fmt.Sprint(g.U64())), "act", "res")
				_ = az.VerifyAccessToken(base, w.AccessToken(dom, []string{"r1", "r3"}, fmt.Sprint(g.U64()), "c"), "act", "xay", cert)
				_ = az.VerifyRoleCert(base, []*x509.Certificate{CertSpec{CN: "dom:role.r1", NotBefore: time.Now(), URIs: []string{"athenz://role/dom/r3"}}.Make()}, "act", "res")
				for _, v := range az.GetPolicyCache(base) {
					_ = fmt.Sprint(v)
				}
			}) {
				return
			}
			r.Count("calls meanwhile", 6)
			r.Eval(true, say())
		}
		// the servers recover, with new documents
		w.SetFault(nil)
		w.ServeKeys()
		w.ServePolicy(good(w, 4000*time.Hour))
		time.Sleep(30 * time.Minute)
		if full {
			nonce := 0
			if !sane(i, az, w, say, &nonce) {
				return
			}
			r.Count("recoveries", 1)
		}
		fin()
		select {
		case <-el.done:
		case <-time.After(time.Hour):
			r.Violate(i, "hang", "%s: the error channel is not closed an hour after the context was cancelled", say())
		}
	})
	// every configuration which can be constructed runs, whatever its durations
	r.Bubbles("durations", r.Tier(200, 2000), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		w.Latency = func(string) time.Duration { return 10 * time.Millisecond }
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		w.ServePolicy(w.Doc("dom", time.Now().Add(4000*time.Hour), []Ass{{"dom:role.r", "act", "dom:res", "allow"}}))
		var opts []authorizerd.Option
		cfg := ""
		dur := func(name string, f func(string) authorizerd.Option) {
			if g.P(30) {
				v := Pick(g, []string{"0s", "-1ns", "-1h", "1ms", "1s", "2562047h", "0", ""})
				if v == "2562047h" && strings.HasSuffix(name, "retry") {
					v = "1h" // a running retry ends before a shutdown does
				}
				opts = append(opts, f(v))
				cfg += fmt.Sprintf(" %s=%q", name, v)
			}
		}
		dur("pubkey refresh", authorizerd.WithPubkeyRefreshPeriod)
		dur("pubkey retry", authorizerd.WithPubkeyRetryDelay)
		dur("pubkey etag", authorizerd.WithPubkeyETagExpiry)
		dur("pubkey purge", authorizerd.WithPubkeyETagPurgePeriod)
		dur("policy refresh", authorizerd.WithPolicyRefreshPeriod)
		dur("policy retry", authorizerd.WithPolicyRetryDelay)
		dur("policy purge", authorizerd.WithPolicyPurgePeriod)
		dur("policy margin", authorizerd.WithPolicyExpiryMargin)
		dur("jwk refresh", authorizerd.WithJwkRefreshPeriod)
		dur("jwk retry", authorizerd.WithJwkRetryDelay)
		if g.P(30) {
			v := Pick(g, []time.Duration{0, 1, -1, -time.Hour, time.Millisecond, time.Second, 1<<63 - 1, -1 << 63})
			opts = append(opts, authorizerd.WithCacheExp(v))
			cfg += fmt.Sprintf(" cache=%v", v)
		}
		if g.P(30) {
			v := Pick(g, []int{0, -1, -1 << 31, 3})
			opts = append(opts, authorizerd.WithPolicyRetryAttempts(v))
			cfg += fmt.Sprintf(" attempts=%v", v)
		}
		r.Eval(true, cfg)
		az, err := authorizerd.New(w.Options([]string{"dom"}, opts...)...)
		if err != nil {
			r.Count("odd durations refused", 1)
			return
		}
		r.Count("odd durations accepted", 1)
		_ = az.Init(ctx)
		el := newErrLog(az.Start(ctx))
		for k := 0; k < 4; k++ {
			if g.P(30) {
				w.SetFault(func(string, *http.Request, *Req) (Resp, bool) {
					return Resp{Status: 500, Delay: 10 * time.Millisecond}, true
				})
			} else {
				w.SetFault(nil)
			}
			time.Sleep(g.Dur(0, 3*time.Second))
			for _, role := range []string{"r", "s"} {
				_ = az.VerifyRoleToken(ctx, w.RoleToken("dom", []string{role}, "p"), "act", "res")
				_ = az.VerifyAccessToken(ctx, w.AccessToken("dom", []string{role}, "p", "c"), "act", "res", nil)
			}
		}
		cancel()
		select {
		case <-el.done:
		case <-time.After(time.Hour):
			r.Violate(i, "hang", "%s: the error channel is not closed an hour after the context was cancelled", cfg)
		}
	})
	// however many roles expire together, no call waits for ever
	r.Bubbles("many roles", r.Tier(6, 60), func(t *testing.T, i int, g *Rng) {
		w := NewWorld()
		w.Latency = func(string) time.Duration { return 10 * time.Millisecond }
		ctx, cancel := context.WithCancel(context.Background())
		defer settle(cancel)
		n := Pick(g, []int{300, 5200, 7000, 11000})
		var as []Ass
		for k := 0; k < n; k++ {
			as = append(as, Ass{fmt.Sprintf("dom:role.r%d", k), "*", "dom:*", "allow"})
		}
		purge := Pick(g, []time.Duration{10 * time.Second, time.Minute, 5 * time.Minute})
		life := Pick(g, []time.Duration{time.Minute, 10 * time.Minute})
		w.ServePolicy(w.Doc("dom", time.Now().Add(life), as))
		az := w.Authz([]string{"dom"}, authorizerd.WithPolicyPurgePeriod(purge.String()), authorizerd.WithPolicyRefreshPeriod("25m"), authorizerd.WithCacheExp(time.Minute))
		cfg := fmt.Sprintf("%d roles expiring together after %v, purge period %v", n, life, purge)
		if err := az.Init(ctx); err != nil {
			panic(err)
		}
		if g.P(50) {
			if err := az.Init(ctx); err != nil { // its answer is the same document
				panic(err)
			}
		}
		el := newErrLog(az.Start(ctx))
		end := time.Now().Add(40 * time.Minute)
		kept := g.P(50) // the same again, or another one
		for time.Now().Before(end) {
			if left := time.Until(end); !kept && left < 35*time.Minute && left > 34*time.Minute {
				w.ServePolicy(w.Doc("dom", time.Now().Add(life), as[:n-5]))
			}
			time.Sleep(Pick(g, []time.Duration{time.Second, purge / 3, time.Minute}))
			done := make(chan error, 2)
			tok := w.RoleToken("dom", []string{fmt.Sprint("r", g.N(n)), fmt.Sprint("r", g.N(n))}, "p")
			go func() {
				done <- az.VerifyRoleToken(ctx, tok, "act", "res")
				done <- nil
				az.GetPolicyCache(ctx)
			}()
			select {
			case <-done:
				<-done
				r.Count("calls while many roles expire", 1)
			case <-time.After(10 * time.Second):
				r.Violate(i, "hang", "%s: a call does not return", cfg)
				return
			}
			r.Eval(true, cfg, tok)
		}
		cancel()
		select {
		case <-el.done:
		case <-time.After(time.Hour):
			r.Violate(i, "hang", "%s: the error channel is not closed an hour after the context was cancelled", cfg)
		}
	})
	r.Need("calls while many roles expire", 100)
	r.Need("odd durations refused", 30)
	r.Need("odd durations accepted", 30)
	r.Need("hostile calls", 50000)
	r.Need("hostile calls granted", 500)
	r.Need("valid requests decided", 1500)
	r.Need("hostile responses", 10000)
	r.Need("recoveries", 100)
}
