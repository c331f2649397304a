From 64408d5c88d65c1e22e13ef99eabed51146b7657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:33 +0000
Subject: [PATCH 01/28] fix: escape the components of the success cache key

The token, action, resource and query are joined by an unescaped ':', so two
different requests could share a key, and one be granted on the other's result.
---
 authorizerd.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 954c4ac..a7919fd 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -124,6 +124,13 @@ const (
 	accessToken
 )
 
+// cacheKeyEscaper escapes the delimiter in the components of the cache key, so that different requests never share the same key
+var cacheKeyEscaper = strings.NewReplacer(`\`, `\\`, `:`, `\:`)
+
+func escapeCacheKey(s string) string {
+	return cacheKeyEscaper.Replace(s)
+}
+
 // New creates the Authorizerd object with the options
 func New(opts ...Option) (Authorizerd, error) {
 	var (
@@ -366,13 +373,14 @@ func (a *authority) AuthorizeAccessToken(ctx context.Context, tok, act, res stri
 
 func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query string, cert *x509.Certificate) (Principal, error) {
 	var key strings.Builder
-	key.WriteString(tok)
+	escapedTok := escapeCacheKey(tok)
+	key.WriteString(escapedTok)
 
 	if cert != nil {
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Issuer.CommonName)
+		key.WriteString(escapeCacheKey(cert.Issuer.CommonName))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Subject.CommonName)
+		key.WriteString(escapeCacheKey(cert.Subject.CommonName))
 	}
 
 	if !a.disablePolicyd {
@@ -380,12 +388,12 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 			return nil, errors.Wrap(ErrInvalidParameters, "empty action / resource")
 		}
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(act)
+		key.WriteString(escapeCacheKey(act))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(res)
+		key.WriteString(escapeCacheKey(res))
 		if query != "" && a.translator != nil {
 			key.WriteRune(cacheKeyDelimiter)
-			key.WriteString(query)
+			key.WriteString(escapeCacheKey(query))
 		}
 	}
 
@@ -393,7 +401,7 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	cached, ok := a.cache.Get(key.String())
 	if ok {
 		glg.DebugFunc(func() string {
-			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), tok))
+			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), escapedTok))
 		})
 		return cached.(Principal), nil
 	}
@@ -466,7 +474,7 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	}
 
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), tok), act, res)
+		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), escapedTok), act, res)
 	})
 	a.cache.SetWithExpire(key.String(), p, a.cacheExp)
 	return p, nil
-- 
2.43.0


From eff259e2499c90c7503d653ef41741170643d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 02/28] fix: identify the client certificate in the success
 cache key

The key held only the common names of the certificate, so a token bound to one
certificate was accepted with any other having the same names while cached.
---
 authorizerd.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index a7919fd..c77c156 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -18,7 +18,9 @@ package authorizerd
 
 import (
 	"context"
+	"crypto/sha256"
 	"crypto/x509"
+	"encoding/hex"
 	"fmt"
 	"net/http"
 	"strings"
@@ -118,9 +120,10 @@ type authority struct {
 type mode uint8
 
 const (
-	cacheKeyDelimiter      = ':'
-	roleInCNDelimiter      = ":role."
-	roleToken         mode = iota
+	cacheKeyDelimiter       = ':'
+	roleInCNDelimiter       = ":role."
+	cacheKeyCertMarker      = `\#` // never appears in an escaped component
+	roleToken          mode = iota
 	accessToken
 )
 
@@ -381,6 +384,12 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 		key.WriteString(escapeCacheKey(cert.Issuer.CommonName))
 		key.WriteRune(cacheKeyDelimiter)
 		key.WriteString(escapeCacheKey(cert.Subject.CommonName))
+		if len(cert.Raw) != 0 {
+			// common names do not identify a certificate, the access token may be bound to another one having the same names
+			key.WriteString(cacheKeyCertMarker)
+			sum := sha256.Sum256(cert.Raw)
+			key.WriteString(hex.EncodeToString(sum[:]))
+		}
 	}
 
 	if !a.disablePolicyd {
-- 
2.43.0


From 1f43a13764790f4cf0ea15ecdbaac1df89cd5f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:28 +0000
Subject: [PATCH 03/28] fix: do not reuse the cached result of an access token
 for a role token

Both kinds of credential share the success cache; an access token presented
where a role token is required was accepted while its own result was cached.
---
 authorizerd.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/authorizerd.go b/authorizerd.go
index c77c156..a0a9087 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -408,7 +408,7 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 
 	// check if exists in verification success cache
 	cached, ok := a.cache.Get(key.String())
-	if ok {
+	if ok && isPrincipalOf(m, cached) {
 		glg.DebugFunc(func() string {
 			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), escapedTok))
 		})
@@ -489,6 +489,18 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	return p, nil
 }
 
+// isPrincipalOf returns if the cached result was created from the kind of token of the mode.
+func isPrincipalOf(m mode, cached interface{}) bool {
+	switch cached.(type) {
+	case *oAuthAccessToken:
+		return m == accessToken
+	case *principal:
+		return m == roleToken
+	default:
+		return false
+	}
+}
+
 // Verify returns error of verification. Returns nil if ANY authorizer succeeds (OR logic).
 func (a *authority) Verify(r *http.Request, act, res string) error {
 	for _, verifier := range a.authorizers {
-- 
2.43.0


From d692befed4a319a657b95987eb7a0940ff8c9986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:42 +0000
Subject: [PATCH 04/28] fix: do not drop a role of the role certificate
 colliding with another

The duplicate check concatenated domain and role, so role "bc" of domain "a"
hid role "c" of domain "ab", including its deny policies.
---
 authorizerd.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index a0a9087..f606ea7 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -533,7 +533,7 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		return nil
 	}
 
-	drcheck := make(map[string]struct{})
+	drcheck := make(map[[2]string]struct{})
 	domainRoles := make(map[string][]string)
 	addDomainRoles := func(dr []string) {
 		if len(dr) != 2 {
@@ -541,9 +541,10 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		}
 		domain, roleName := dr[0], dr[1]
 		// duplicated role check
-		if _, ok := drcheck[domain+roleName]; !ok {
+		domainRole := [2]string{domain, roleName}
+		if _, ok := drcheck[domainRole]; !ok {
 			domainRoles[domain] = append(domainRoles[domain], roleName)
-			drcheck[domain+roleName] = struct{}{}
+			drcheck[domainRole] = struct{}{}
 		}
 	}
 
-- 
2.43.0


From 04b1ed0e2566eac094afe571cf238baa9ec380e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 05/28] fix: reject instead of panic when the processor or key
 provider is disabled

With the role token, the access token, pubkeyd or jwkd disabled, verifying a
credential that needs it dereferenced nil.
---
 access/processor.go     | 4 ++++
 authorizerd.go          | 6 ++++++
 policy/signed_policy.go | 3 +++
 role/processor.go       | 3 +++
 4 files changed, 16 insertions(+)

diff --git a/access/processor.go b/access/processor.go
index 3008aa4..ed4609f 100644
--- a/access/processor.go
+++ b/access/processor.go
@@ -203,6 +203,10 @@ func (a *atp) keyFunc(token *jwt.Token) (interface{}, error) {
 		return nil, errors.New(err.Error() + ":" + jws.JWKSetURLKey)
 	}
 
+	if a.jwkp == nil {
+		return nil, errors.New("no jwk provider")
+	}
+
 	key := a.jwkp(keyID, jwkSetURL)
 
 	if key == nil {
diff --git a/authorizerd.go b/authorizerd.go
index f606ea7..9084f73 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -423,6 +423,9 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 
 	switch m {
 	case roleToken:
+		if a.roleProcessor == nil {
+			return nil, errors.Wrap(ErrInvalidCredentials, "role token is disabled")
+		}
 		rt, err := a.roleProcessor.ParseAndValidateRoleToken(tok)
 		if err != nil {
 			glg.Infof("error parse and validate role token, err: %v", err)
@@ -438,6 +441,9 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 			expiryTime: rt.ExpiryTime.Unix(),
 		}
 	case accessToken:
+		if a.accessProcessor == nil {
+			return nil, errors.Wrap(ErrInvalidCredentials, "access token is disabled")
+		}
 		ac, err := a.accessProcessor.ParseAndValidateOAuth2AccessToken(tok, cert)
 		if err != nil {
 			glg.Infof("error parse and validate access token, err: %v", err)
diff --git a/policy/signed_policy.go b/policy/signed_policy.go
index 73b9690..d52271c 100644
--- a/policy/signed_policy.go
+++ b/policy/signed_policy.go
@@ -49,6 +49,9 @@ func (s *SignedPolicy) Verify(pkp pubkey.Provider) error {
 	}
 
 	// verify signed policy data
+	if pkp == nil {
+		return errors.New("no public key provider")
+	}
 	ver := pkp(pubkey.EnvZTS, s.KeyId)
 	if ver == nil {
 		return errors.New("zts key not found")
diff --git a/role/processor.go b/role/processor.go
index 6aeb539..a67dda7 100644
--- a/role/processor.go
+++ b/role/processor.go
@@ -84,6 +84,9 @@ func (r *rtp) validate(rt *Token) error {
 	if rt.Expired() {
 		return errors.Wrapf(ErrRoleTokenExpired, "token expired. principal %s", rt.Principal)
 	}
+	if r.pkp == nil {
+		return errors.Wrapf(ErrRoleTokenInvalid, "no public key provider. principal %s", rt.Principal)
+	}
 	ver := r.pkp(pubkey.EnvZTS, rt.KeyID)
 	if ver == nil {
 		return errors.Wrapf(ErrRoleTokenInvalid, "invalid role token key ID %s. principal %s", rt.KeyID, rt.Principal)
-- 
2.43.0


From 1d1d1fc7f4e27efd3296467d6dd8e29599a8b5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:35 +0000
Subject: [PATCH 06/28] fix: data race between clearing the success cache and
 in-flight requests

gache.Clear replaces the shards without synchronization.
---
 authorizerd.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/authorizerd.go b/authorizerd.go
index 9084f73..77cf628 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -330,7 +330,11 @@ func (a *authority) Start(ctx context.Context) <-chan error {
 			select {
 			case <-ctx.Done():
 				g.Stop()
-				g.Clear()
+				// not Clear(), it is not safe with the requests still being processed
+				g.Foreach(context.Background(), func(key string, _ interface{}, _ int64) bool {
+					g.Delete(key)
+					return true
+				})
 				ech <- ctx.Err()
 				return
 			case err := <-cech:
-- 
2.43.0


From 5d254cd069a258c7fd2008465cdd3f0833369c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:49 +0000
Subject: [PATCH 07/28] fix: a deny assertion may be lost when simplifying
 policies

The policies of a domain are processed concurrently: an allow assertion could
overwrite the deny of another policy between Load and Store. The comma joined
key also mixed up assertions whose role, action or resource has a comma.
---
 policy/daemon.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index a64979e..af6dd5a 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -333,14 +333,12 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 				case <-ctx.Done():
 					return ctx.Err()
 				default:
-					km := fmt.Sprintf("%s,%s,%s", ass.Role, ass.Action, ass.Resource)
-					if _, ok := assm.Load(km); !ok {
+					km := [3]string{ass.Role, ass.Action, ass.Resource}
+					// deny policy will override allow policy, and also remove duplication
+					if strings.EqualFold("deny", ass.Effect) {
 						assm.Store(km, ass)
 					} else {
-						// deny policy will override allow policy, and also remove duplication
-						if strings.EqualFold("deny", ass.Effect) {
-							assm.Store(km, ass)
-						}
+						assm.LoadOrStore(km, ass)
 					}
 				}
 			}
-- 
2.43.0


From bb3aa397a46cde847971ef6a225cb17c8034f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:13 +0000
Subject: [PATCH 08/28] fix: an expired policy was cached forever

Without a newer policy the fetcher falls back to its cached one. Once that has
expired its remaining time is negative, which gache treats as no expiration,
so the expired policy granted access for as long as the outage lasted.
The remaining time is taken when the entry is set, not before the work.
---
 policy/daemon.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index af6dd5a..f99cb2b 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -353,7 +353,6 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 
 	// cache
 	var retErr error
-	now := fastime.Now()
 	assm.Range(func(k interface{}, val interface{}) bool {
 		ass := val.(*util.Assertion)
 		a, err := NewAssertion(ass.Action, ass.Resource, ass.Effect)
@@ -374,7 +373,14 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 		} else {
 			asss = []*Assertion{a}
 		}
-		rp.SetWithExpire(ass.Role, asss, sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now))
+
+		// non-positive duration means no expiration in gache, never cache an expired policy
+		exp := sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(fastime.Now())
+		if exp <= 0 {
+			glg.Errorf("policy expired, role: %s", ass.Role)
+			return false
+		}
+		rp.SetWithExpire(ass.Role, asss, exp)
 
 		glg.Debugf("added assertion to the tmp cache: %+v", ass)
 		return true
-- 
2.43.0


From 585efc453775e37b339ff25ae4919effd4674052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 09/28] fix: data race between the expiry daemon of the policy
 cache and its hook

StartExpired starts a goroutine which reads the hook set afterwards.
---
 policy/daemon.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index f99cb2b..0c30ef8 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -184,12 +184,13 @@ func (p *policyd) Update(ctx context.Context) error {
 		return err
 	}
 
-	rp.StartExpired(ctx, p.purgePeriod).
-		EnableExpiredHook().
+	// the daemon reads the hook without synchronization, so it should be started after setting the hook
+	rp.EnableExpiredHook().
 		SetExpiredHook(func(ctx context.Context, key string) {
 			// key = <domain>:role.<role>
 			fetchAndCachePolicy(ctx, *(p.rolePolicies), p.fetchers[strings.Split(key, ":role.")[0]])
-		})
+		}).
+		StartExpired(ctx, p.purgePeriod)
 
 	// swap pointer
 	glg.DebugFunc(func() string {
-- 
2.43.0


From 025d370c007a53f9305ce28806207b5cee890c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 10/28] fix: refreshing an expired policy corrupted the
 effective policies

The expired hook merged the fetched policy, once per expired role concurrently,
into the cache being read: assertions including deny ones were lost or
duplicated, half merged policies were visible, and an expired role of a domain
that is not configured dereferenced a nil fetcher.
Swap in a cache having the whole policy instead, once per domain, unless the
policies were updated in the meantime.
---
 policy/daemon.go | 81 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 72 insertions(+), 9 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 0c30ef8..ec68fb7 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -34,6 +34,7 @@ import (
 	"github.com/pkg/errors"
 	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
 	"golang.org/x/sync/errgroup"
+	"golang.org/x/sync/singleflight"
 )
 
 // Daemon represents the daemon to retrieve policy data from Athenz.
@@ -70,6 +71,10 @@ type policyd struct {
 	client   *http.Client
 	pkp      pubkey.Provider
 	fetchers map[string]Fetcher // used for concurrent read, should never be updated
+
+	// number of updates, used by the refresh of expired policies not to overwrite a newer policy
+	updateStarted  uint32
+	updateFinished uint32
 }
 
 // New represent the constructor of Policyd
@@ -154,6 +159,9 @@ func (p *policyd) Start(ctx context.Context) <-chan error {
 
 // Update updates and cache policy data
 func (p *policyd) Update(ctx context.Context) error {
+	atomic.AddUint32(&p.updateStarted, 1)
+	defer atomic.AddUint32(&p.updateFinished, 1)
+
 	glg.Get().DisableColor()
 	jobID := fastime.Now().Unix()
 	glg.Infof("[%d] will update policy", jobID)
@@ -185,22 +193,19 @@ func (p *policyd) Update(ctx context.Context) error {
 	}
 
 	// the daemon reads the hook without synchronization, so it should be started after setting the hook
-	rp.EnableExpiredHook().
-		SetExpiredHook(func(ctx context.Context, key string) {
-			// key = <domain>:role.<role>
-			fetchAndCachePolicy(ctx, *(p.rolePolicies), p.fetchers[strings.Split(key, ":role.")[0]])
-		}).
-		StartExpired(ctx, p.purgePeriod)
+	p.setExpiredHook(ctx, rp).StartExpired(ctx, p.purgePeriod)
 
 	// swap pointer
+	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("cache before swap, old: %p %v; new: %p %v", *p.rolePolicies, (*p.rolePolicies).Len(), rp, rp.Len())
+		curRp := *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))
+		return fmt.Sprintf("cache before swap, old: %p %v; new: %p %v", curRp, curRp.Len(), rp, rp.Len())
 	})
-	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
 	oldRpPtr := (*gache.Gache)(atomic.SwapPointer(curRpPtrPtr, unsafe.Pointer(&rp)))
 	glg.Debugf("tmp cache becomes effective")
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("cache after swap, old: %p %v; new: %p %v", *p.rolePolicies, (*p.rolePolicies).Len(), *oldRpPtr, (*oldRpPtr).Len())
+		curRp := *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))
+		return fmt.Sprintf("cache after swap, old: %p %v; new: %p %v", curRp, curRp.Len(), *oldRpPtr, (*oldRpPtr).Len())
 	})
 	(*oldRpPtr).Stop()
 
@@ -211,6 +216,64 @@ func (p *policyd) Update(ctx context.Context) error {
 	return nil
 }
 
+func (p *policyd) setExpiredHook(ctx context.Context, rp gache.Gache) gache.Gache {
+	group := new(singleflight.Group) // every role of a domain expires at the same time
+	return rp.EnableExpiredHook().
+		SetExpiredHook(func(_ context.Context, key string) {
+			// key = <domain>:role.<role>
+			domain := strings.Split(key, ":role.")[0]
+			group.Do(domain, func() (interface{}, error) {
+				// the context of the hook is canceled when the cache is swapped, so it is not used here
+				p.refreshExpired(ctx, domain, key)
+				return nil, nil
+			})
+		})
+}
+
+// refreshExpired fetches the policy of the domain having an expired role. The fetched policy takes effect as a whole, by
+// swapping in a cache having it and the effective policies of the other domains.
+func (p *policyd) refreshExpired(ctx context.Context, domain, key string) {
+	f, ok := p.fetchers[domain]
+	if !ok {
+		glg.Warnf("policy of not configured domain expired: %s", key)
+		return
+	}
+
+	started := atomic.LoadUint32(&p.updateStarted)
+	if started != atomic.LoadUint32(&p.updateFinished) {
+		return // being updated
+	}
+
+	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
+	for {
+		curRpPtr := (*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))
+		if _, ok := (*curRpPtr).Get(key); ok {
+			return // refreshed already
+		}
+
+		rp := gache.New()
+		if err := fetchAndCachePolicy(ctx, rp, f); err != nil {
+			return
+		}
+		(*curRpPtr).Foreach(context.Background(), func(k string, v interface{}, exp int64) bool {
+			if d := time.Duration(exp - fastime.UnixNanoNow()); d > 0 && strings.Split(k, ":role.")[0] != domain {
+				rp.SetWithExpire(k, v, d)
+			}
+			return true
+		})
+		p.setExpiredHook(ctx, rp)
+
+		if started != atomic.LoadUint32(&p.updateStarted) {
+			return // updated while fetching, do not go back to an older policy
+		}
+		if atomic.CompareAndSwapPointer(curRpPtrPtr, unsafe.Pointer(curRpPtr), unsafe.Pointer(&rp)) {
+			rp.StartExpired(ctx, p.purgePeriod)
+			(*curRpPtr).Stop()
+			return
+		}
+	}
+}
+
 // CheckPolicy checks the specified request has privilege to access the resources or not.
 // If return is nil then the request is allowed, otherwise the request is rejected.
 // Only action and resource is supporting wildcard, domain and role is not supporting wildcard.
-- 
2.43.0


From 9a8a23fcc57a442928243cd33cf72fe6f8b0d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:05 +0000
Subject: [PATCH 11/28] fix: data race on the policy cache of the fetcher

The pointer is stored atomically, but was compared with nil by a plain read.
---
 policy/fetcher.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 49c363d..c676cc7 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -87,9 +87,8 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 	}
 
 	// ETag header
-	var tp *taggedPolicy
-	if f.policyCache != nil {
-		tp = (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
+	tp := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
+	if tp != nil {
 		if tp.eTag != "" && tp.eTagExpiry.After(fastime.Now()) {
 			glg.Debugf("request on domain: %s, with ETag: %s", f.domain, tp.eTag)
 			req.Header.Set("If-None-Match", tp.eTag)
@@ -168,10 +167,11 @@ func (f *fetcher) FetchWithRetry(ctx context.Context) (*SignedPolicy, error) {
 	if lastErr == nil {
 		lastErr = fmt.Errorf("retryAttempts %v", f.retryAttempts)
 	}
-	if f.policyCache == nil {
+	tp := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
+	if tp == nil {
 		return nil, errors.Wrap(errors.Wrap(lastErr, errMsg), "no policy cache")
 	}
-	return (*taggedPolicy)(atomic.LoadPointer(&f.policyCache)).sp, errors.Wrap(lastErr, errMsg)
+	return tp.sp, errors.Wrap(lastErr, errMsg)
 }
 
 func (t *taggedPolicy) String() string {
-- 
2.43.0


From f0a42fc3e56446961762e820d54ec19fbf501db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:45 +0000
Subject: [PATCH 12/28] fix: close the policy response body when flushing it
 fails

The connection leaked when reading the rest of the body returned an error.
---
 policy/fetcher.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index c676cc7..a72a463 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -188,11 +188,11 @@ func flushAndClose(rc io.ReadCloser) error {
 	if rc != nil {
 		// flush
 		_, err := io.Copy(ioutil.Discard, rc)
-		if err != nil {
-			return err
-		}
 		// close
-		return rc.Close()
+		if cerr := rc.Close(); err == nil {
+			err = cerr
+		}
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From d85c436a1e09400d4a4f33c30aa8aae9f27a97a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:27 +0000
Subject: [PATCH 13/28] fix: malformed policy responses dereferenced nil

An unsolicited 304, a null document, and null policy data, policies or
assertions crashed the process from a background goroutine.
---
 policy/daemon.go  | 10 ++++++++++
 policy/fetcher.go |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index ec68fb7..646e377 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -388,15 +388,25 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 	eg := errgroup.Group{}
 	assm := new(sync.Map) // assertion map
 
+	if sp.DomainSignedPolicyData.SignedPolicyData.PolicyData == nil {
+		return errors.New("no policy data")
+	}
+
 	// simplify signed policy cache
 	for _, policy := range sp.DomainSignedPolicyData.SignedPolicyData.PolicyData.Policies {
 		pol := policy
+		if pol == nil {
+			continue
+		}
 		eg.Go(func() error {
 			for _, ass := range pol.Assertions {
 				select {
 				case <-ctx.Done():
 					return ctx.Err()
 				default:
+					if ass == nil {
+						continue
+					}
 					km := [3]string{ass.Role, ass.Action, ass.Resource}
 					// deny policy will override allow policy, and also remove duplication
 					if strings.EqualFold("deny", ass.Effect) {
diff --git a/policy/fetcher.go b/policy/fetcher.go
index a72a463..42d2d6d 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -108,7 +108,7 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 	}()
 
 	// if server responses NotModified, return policy from cache
-	if res.StatusCode == http.StatusNotModified {
+	if res.StatusCode == http.StatusNotModified && tp != nil {
 		glg.Debugf("policy = 304 not modified, use cache for domain: %s, ETag: %v", f.domain, tp.eTag)
 		return tp.sp, nil
 	}
@@ -121,7 +121,7 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 
 	// read and decode
 	sp := new(SignedPolicy)
-	if err = json.NewDecoder(res.Body).Decode(&sp); err != nil {
+	if err = json.NewDecoder(res.Body).Decode(sp); err != nil {
 		errMsg := "policy decode fail"
 		glg.Errorf("%s, domain: %s, error: %v", errMsg, f.domain, err)
 		return nil, errors.Wrap(err, errMsg)
-- 
2.43.0


From e300f4cc002c4599a50c8752b9daa9ea5f7c7fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:41 +0000
Subject: [PATCH 14/28] fix: malformed public key responses dereferenced nil

An unsolicited 304, a null document and a null key crashed the process from a
background goroutine.
---
 pubkey/daemon.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 7be03ca..7a8a775 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -169,6 +169,9 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 		}
 
 		for _, key := range pubKeys.PublicKeys {
+			if key == nil {
+				continue
+			}
 			glg.Debugf("Decoding key, env: %v, keyID: %v", env, key.ID)
 			decKey, err := dec.DecodeString(key.Key)
 			if err != nil {
@@ -255,7 +258,7 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	}
 
 	// if server return NotModified, return policy from cache
-	if r.StatusCode == http.StatusNotModified {
+	if r.StatusCode == http.StatusNotModified && ok {
 		cache := t.(*confCache)
 		glg.Debugf("Server return not modified, ETag: %s", cache.eTag)
 		return cache.sac, false, nil
@@ -268,7 +271,7 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	}
 
 	sac := new(SysAuthConfig)
-	if err = json.NewDecoder(r.Body).Decode(&sac); err != nil {
+	if err = json.NewDecoder(r.Body).Decode(sac); err != nil {
 		glg.Errorf("Error decoding public key entries, err: %v", err)
 		return nil, false, errors.Wrap(err, "json format not correct")
 	}
-- 
2.43.0


From 5eb743e69edc84d2e9ccd7260ad45465968e75a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:10 +0000
Subject: [PATCH 15/28] fix: close the public key response body in every case

The connection leaked on 304, on any error status and on a malformed document.
---
 pubkey/daemon.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 7a8a775..c83dff5 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -257,6 +257,15 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		return nil, false, errors.Wrap(err, "error make http request")
 	}
 
+	defer func() {
+		if _, err := io.Copy(ioutil.Discard, r.Body); err != nil {
+			glg.Warn(errors.Wrap(err, "error io.copy"))
+		}
+		if err := r.Body.Close(); err != nil {
+			glg.Warn(errors.Wrap(err, "error body.close"))
+		}
+	}()
+
 	// if server return NotModified, return policy from cache
 	if r.StatusCode == http.StatusNotModified && ok {
 		cache := t.(*confCache)
@@ -276,13 +285,6 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		return nil, false, errors.Wrap(err, "json format not correct")
 	}
 
-	if _, err = io.Copy(ioutil.Discard, r.Body); err != nil {
-		glg.Warn(errors.Wrap(err, "error io.copy"))
-	}
-	if err = r.Body.Close(); err != nil {
-		glg.Warn(errors.Wrap(err, "error body.close"))
-	}
-
 	// set eTag cache
 	eTag := r.Header.Get("ETag")
 	if eTag != "" {
-- 
2.43.0


From 574bd152e267238a7fd38debd3f1cbff4b5b7c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:41 +0000
Subject: [PATCH 16/28] fix: a public key document failing to decode was taken
 as up to date

Its ETag was cached before its keys were decoded, so the next refresh got 304
and reported success with the new keys never in use.
---
 pubkey/daemon.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index c83dff5..e66a7de 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -155,7 +155,7 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 	eg := errgroup.Group{}
 
 	// this function decode and create verifier obj and store to corresponding cache map
-	updConf := func(env AthenzEnv, cache *sync.Map) error {
+	updConf := func(env AthenzEnv, cache *sync.Map) (err error) {
 		cm := new(sync.Map)
 		dec := new(authcore.YBase64)
 		pubKeys, upded, err := p.fetchPubKeyEntries(ctx, env)
@@ -168,6 +168,13 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 			return nil
 		}
 
+		defer func() {
+			if err != nil {
+				// the keys are not in use, fetch them again even if they are not modified
+				p.eTagCache.Delete(string(env))
+			}
+		}()
+
 		for _, key := range pubKeys.PublicKeys {
 			if key == nil {
 				continue
-- 
2.43.0


From 72ec1727137a9618c168e099366f7e0feac7701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:54 +0000
Subject: [PATCH 17/28] fix: translated resource depended on map order and on
 placeholders in the request

Placeholders were replaced one after another in random order, so a request
value holding another placeholder of the rule was sometimes expanded again.
---
 translator.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/translator.go b/translator.go
index 65813d8..b9529f1 100644
--- a/translator.go
+++ b/translator.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"sort"
 	"strings"
 )
 
@@ -177,11 +178,18 @@ OUTER:
 				}
 			}
 
-			replacedRes := rule.Resource
-			for placeholder, v := range placeholderMap {
-				replacedRes = strings.ReplaceAll(replacedRes, placeholder, v)
+			placeholders := make([]string, 0, len(placeholderMap))
+			for placeholder := range placeholderMap {
+				placeholders = append(placeholders, placeholder)
 			}
-			return rule.Action, replacedRes, nil
+			sort.Sort(sort.Reverse(sort.StringSlice(placeholders)))
+
+			// replace at once, the replaced values should not be replaced again
+			oldnew := make([]string, 0, len(placeholders)*2)
+			for _, placeholder := range placeholders {
+				oldnew = append(oldnew, placeholder, placeholderMap[placeholder])
+			}
+			return rule.Action, strings.NewReplacer(oldnew...).Replace(rule.Resource), nil
 		}
 	}
 	return method, path, nil
-- 
2.43.0


From aebca3d2ef19553b75981bc9deec4c9559bbe931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 18/28] fix: the retrying transport returned a drained and
 closed response

Every successful response had its body discarded before returning, and the
responses given up for a retry were never closed.
---
 client/exp_rt.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/exp_rt.go b/client/exp_rt.go
index 0eba7db..ba09a1e 100644
--- a/client/exp_rt.go
+++ b/client/exp_rt.go
@@ -77,13 +77,13 @@ func (p *ExponentialRoundTripper) RoundTrip(req *http.Request) (*http.Response,
 			continue
 		}
 
-		if responseRetriable(resp) {
+		// the response to return should not be closed, the body is read and closed by the caller
+		if responseRetriable(resp) && cnt+1 < p.maxRetryCount {
+			io.Copy(ioutil.Discard, resp.Body)
+			resp.Body.Close()
 			continue
 		}
 
-		// response success
-		io.Copy(ioutil.Discard, resp.Body)
-		resp.Body.Close()
 		return resp, nil
 	}
 
-- 
2.43.0


From 7602dc59baeef4cbc2fc1712ee3010bec973846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:32 +0000
Subject: [PATCH 19/28] fix: the retrying transport returned neither response
 nor error without retries

With a max retry count of 0 the request was not sent at all.
---
 client/exp_rt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/exp_rt.go b/client/exp_rt.go
index ba09a1e..9d041cf 100644
--- a/client/exp_rt.go
+++ b/client/exp_rt.go
@@ -60,7 +60,7 @@ func (p *ExponentialRoundTripper) RoundTrip(req *http.Request) (*http.Response,
 	var resp *http.Response
 	var err error
 
-	for cnt := 0; cnt < p.maxRetryCount; cnt++ {
+	for cnt := 0; cnt == 0 || cnt < p.maxRetryCount; cnt++ {
 		resp, err = p.transport.RoundTrip(req)
 		dur := p.calNextWaitDur(cnt)
 
-- 
2.43.0


From a7ab08761d19c87e3903c5009fa7d31378b2c0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:36 +0000
Subject: [PATCH 20/28] fix: data race between the policy updater and every log
 output

The updater changed the global logger on every refresh, while requests log.
---
 policy/daemon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 646e377..be009a7 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -79,6 +79,7 @@ type policyd struct {
 
 // New represent the constructor of Policyd
 func New(opts ...Option) (Daemon, error) {
+	glg.Get().DisableColor() // not in the updater, it is not safe with the requests being logged
 	g := gache.New()
 	p := &policyd{
 		rolePolicies: &g,
@@ -162,7 +163,6 @@ func (p *policyd) Update(ctx context.Context) error {
 	atomic.AddUint32(&p.updateStarted, 1)
 	defer atomic.AddUint32(&p.updateFinished, 1)
 
-	glg.Get().DisableColor()
 	jobID := fastime.Now().Unix()
 	glg.Infof("[%d] will update policy", jobID)
 	eg := errgroup.Group{}
-- 
2.43.0


From fb6e830dfdc69181c0da691bd079c2548abd4e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 21/28] fix: close the JWK set response body in every case, and
 leave no goroutine behind

---
 jwk/daemon.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/jwk/daemon.go b/jwk/daemon.go
index 8436e82..0e4e47b 100644
--- a/jwk/daemon.go
+++ b/jwk/daemon.go
@@ -130,7 +130,7 @@ func (j *jwkd) Update(ctx context.Context) (err error) {
 	var failedTargets []string
 	for _, target := range targets {
 		glg.Debugf("Fetching JWK Set from %s", target)
-		keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(j.client))
+		keys, err := j.fetch(ctx, target)
 		if err != nil {
 			glg.Errorf("Fetch JWK Set error: %v", err)
 			failedTargets = append(failedTargets, target)
@@ -148,6 +148,26 @@ func (j *jwkd) Update(ctx context.Context) (err error) {
 	return nil
 }
 
+// fetch is used instead of jwk.Fetch, which never closes the body of a response other than 200 OK,
+// and leaves a goroutine behind when the context is done.
+func (j *jwkd) fetch(ctx context.Context, target string) (jwk.Set, error) {
+	req, err := http.NewRequest(http.MethodGet, target, nil)
+	if err != nil {
+		return nil, errors.Wrap(err, "create fetch JWK Set request fail")
+	}
+
+	res, err := j.client.Do(req.WithContext(ctx))
+	if err != nil {
+		return nil, errors.Wrap(err, "fetch JWK Set HTTP request fail")
+	}
+	defer res.Body.Close()
+
+	if res.StatusCode != http.StatusOK {
+		return nil, errors.Errorf("fetch JWK Set HTTP response != 200 OK, status: %d", res.StatusCode)
+	}
+	return jwk.ParseReader(res.Body)
+}
+
 func (j *jwkd) GetProvider() Provider {
 	return j.getKey
 }
-- 
2.43.0


From f43da5a643ba93acad2c47fb517ba259906e31a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 22/28] fix: a malformed private key in a JWK set panicked the
 requests naming it

---
 jwk/daemon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jwk/daemon.go b/jwk/daemon.go
index 0e4e47b..8cb1509 100644
--- a/jwk/daemon.go
+++ b/jwk/daemon.go
@@ -192,6 +192,12 @@ func (j *jwkd) getKey(keyID string, jwkSetURL string) interface{} {
 
 	key, found := keys.(jwk.Set).LookupKeyID(keyID)
 	if found {
+		if _, ok := key.(jwk.OKPPrivateKey); ok {
+			// cannot verify a token, and Raw() panics when it is malformed
+			glg.Warnf("jwkd.getKey: private key in the JWK Set, kid: %s", keyID)
+			return nil
+		}
+
 		var raw interface{}
 		if err := key.Raw(&raw); err != nil {
 			glg.Warnf("jwkd.getKey: %s", err.Error())
-- 
2.43.0


From 96cfcb2aef2907739bb813f70639aeb20082cc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:50 +0000
Subject: [PATCH 23/28] fix: a policy fetch overtaken by a later one brought
 back an older policy

The refresh of an expired policy may be overtaken by the periodic update. The
late response replaced the newer policy kept as fallback, so the next update
went back to the older policy when the server failed.
---
 policy/fetcher.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 42d2d6d..fbda32b 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -58,6 +58,7 @@ type fetcher struct {
 
 	client      *http.Client
 	policyCache unsafe.Pointer
+	fetchCount  uint32 // number of fetches started
 }
 
 type taggedPolicy struct {
@@ -65,6 +66,7 @@ type taggedPolicy struct {
 	eTagExpiry time.Time
 	sp         *SignedPolicy
 	ctime      time.Time
+	fetchID    uint32 // the later the fetch started, the larger
 }
 
 // Domain returns the fetcher domain
@@ -72,7 +74,7 @@ func (f *fetcher) Domain() string {
 	return f.domain
 }
 
-// Fetch fetches the policy. When calling concurrently, it is not guarantee that the cache will always have the latest version.
+// Fetch fetches the policy. When calling concurrently, the cache will have the policy of the successful fetch which started last.
 func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 	glg.Infof("will fetch policy for domain: %s", f.domain)
 	// https://{athenz.io/zts/v1}/domain/{athenz domain}/signed_policy_data
@@ -86,6 +88,8 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 		return nil, errors.Wrap(err, errMsg)
 	}
 
+	fetchID := atomic.AddUint32(&f.fetchCount, 1)
+
 	// ETag header
 	tp := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
 	if tp != nil {
@@ -142,9 +146,19 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 		eTagExpiry: eTagExpiry,
 		sp:         sp,
 		ctime:      fastime.Now(),
+		fetchID:    fetchID,
+	}
+	for {
+		cur := atomic.LoadPointer(&f.policyCache)
+		if cur != nil && int32((*taggedPolicy)(cur).fetchID-fetchID) > 0 {
+			glg.Debugf("policy cache already set by a later fetch for domain: %s, policy: %s", f.domain, newTp)
+			break
+		}
+		glg.Debugf("set policy cache for domain: %s, policy: %s", f.domain, newTp)
+		if atomic.CompareAndSwapPointer(&f.policyCache, cur, unsafe.Pointer(newTp)) {
+			break
+		}
 	}
-	glg.Debugf("set policy cache for domain: %s, policy: %s", f.domain, newTp)
-	atomic.StorePointer(&f.policyCache, unsafe.Pointer(newTp))
 
 	return sp, nil
 }
-- 
2.43.0


From b67755431cdfb979d59b2e172b9e478c975c55b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:37 +0000
Subject: [PATCH 24/28] fix: policies expiring while another domain was
 refreshed were not refreshed

The refresh of an expired policy swaps the cache and stops the old one. The
expired hooks of other domains queued in the old one at that time were lost,
so that their requests were rejected until the next periodic update.
---
 policy/daemon.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index be009a7..8b6c385 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -251,13 +251,23 @@ func (p *policyd) refreshExpired(ctx context.Context, domain, key string) {
 			return // refreshed already
 		}
 
+		// the domains expiring during the fetch, their hook may be lost when the cache is swapped
+		expired := new(sync.Map)
+		(*curRpPtr).Foreach(context.Background(), func(k string, _ interface{}, _ int64) bool {
+			expired.Store(strings.Split(k, ":role.")[0], k)
+			return true
+		})
+
 		rp := gache.New()
 		if err := fetchAndCachePolicy(ctx, rp, f); err != nil {
 			return
 		}
+		expired.Delete(domain)
 		(*curRpPtr).Foreach(context.Background(), func(k string, v interface{}, exp int64) bool {
-			if d := time.Duration(exp - fastime.UnixNanoNow()); d > 0 && strings.Split(k, ":role.")[0] != domain {
+			d := time.Duration(exp - fastime.UnixNanoNow())
+			if dom := strings.Split(k, ":role.")[0]; d > 0 && dom != domain {
 				rp.SetWithExpire(k, v, d)
+				expired.Delete(dom)
 			}
 			return true
 		})
@@ -269,6 +279,10 @@ func (p *policyd) refreshExpired(ctx context.Context, domain, key string) {
 		if atomic.CompareAndSwapPointer(curRpPtrPtr, unsafe.Pointer(curRpPtr), unsafe.Pointer(&rp)) {
 			rp.StartExpired(ctx, p.purgePeriod)
 			(*curRpPtr).Stop()
+			expired.Range(func(d, k interface{}) bool {
+				go p.refreshExpired(ctx, d.(string), k.(string))
+				return true
+			})
 			return
 		}
 	}
-- 
2.43.0


From e726322ab6a484e5c99e63a9374d0bfbb5337669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:04 +0000
Subject: [PATCH 25/28] fix: a public key document without ETag left the ETag
 of an older one in use

---
 pubkey/daemon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index e66a7de..9536777 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -297,6 +297,9 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	if eTag != "" {
 		glg.Debugf("Setting ETag %v", eTag)
 		p.eTagCache.SetWithExpire(string(env), &confCache{eTag, sac}, p.eTagExpiry)
+	} else {
+		// the cached ETag is not the one of these keys
+		p.eTagCache.Delete(string(env))
 	}
 
 	glg.Info("Fetch public key entries success")
-- 
2.43.0


From 4616a51aba1586ddc3e3b348a6435201b3949d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:33 +0000
Subject: [PATCH 26/28] fix: non-positive periods panicked the daemons at their
 start

---
 jwk/option.go    | 3 +++
 option.go        | 4 ++++
 policy/option.go | 6 ++++++
 pubkey/option.go | 6 ++++++
 4 files changed, 19 insertions(+)

diff --git a/jwk/option.go b/jwk/option.go
index b272e0c..6baf4d6 100644
--- a/jwk/option.go
+++ b/jwk/option.go
@@ -62,6 +62,9 @@ func WithRefreshPeriod(t string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid refresh period")
 		}
+		if rd <= 0 {
+			return errors.Errorf("non-positive refresh period: %s", rd)
+		}
 		j.refreshPeriod = rd
 		return nil
 	}
diff --git a/option.go b/option.go
index 6cbb141..7351fb8 100644
--- a/option.go
+++ b/option.go
@@ -20,6 +20,7 @@ import (
 	"net/http"
 	"time"
 
+	"github.com/pkg/errors"
 	urlutil "github.com/yahoojapan/athenz-authorizer/v5/internal/url"
 )
 
@@ -92,6 +93,9 @@ func WithHTTPClient(c *http.Client) Option {
 // WithCacheExp returns a CacheExp functional option
 func WithCacheExp(exp time.Duration) Option {
 	return func(authz *authority) error {
+		if exp/2 <= 0 {
+			return errors.Errorf("too short cache expiry: %s", exp) // the purge period is the half of it
+		}
 		authz.cache.SetDefaultExpire(exp)
 		authz.cacheExp = exp
 		return nil
diff --git a/policy/option.go b/policy/option.go
index 683e094..4aeb7d5 100644
--- a/policy/option.go
+++ b/policy/option.go
@@ -97,6 +97,9 @@ func WithRefreshPeriod(d string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid refresh period")
 		}
+		if rp <= 0 {
+			return errors.Errorf("non-positive refresh period: %s", rp)
+		}
 		pol.refreshPeriod = rp
 		return nil
 	}
@@ -112,6 +115,9 @@ func WithPurgePeriod(d string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid purge period")
 		}
+		if pp <= 0 {
+			return errors.Errorf("non-positive purge period: %s", pp)
+		}
 		pol.purgePeriod = pp
 		return nil
 	}
diff --git a/pubkey/option.go b/pubkey/option.go
index 21fcba7..fc88abf 100644
--- a/pubkey/option.go
+++ b/pubkey/option.go
@@ -72,6 +72,9 @@ func WithRefreshPeriod(t string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid refresh period")
 		}
+		if rd <= 0 {
+			return errors.Errorf("non-positive refresh period: %s", rd)
+		}
 		p.refreshPeriod = rd
 		return nil
 	}
@@ -120,6 +123,9 @@ func WithETagPurgePeriod(d string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid ETag purge period")
 		}
+		if epp <= 0 {
+			return errors.Errorf("non-positive ETag purge period: %s", epp)
+		}
 		p.eTagPurgePeriod = epp
 		return nil
 	}
-- 
2.43.0


From 6356aead7f050488e41d6d90c07a0538ac030efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:20 +0000
Subject: [PATCH 27/28] fix: policies loaded by Init were not refreshed on
 expiry, many roles expiring together blocked the requests

The hook of gache ran with the context of the update, which is over when Init returns, and its queue of expired keys
was filled by the very goroutine reading it.
---
 policy/daemon.go | 173 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 130 insertions(+), 43 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 8b6c385..fdfa333 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -34,7 +34,6 @@ import (
 	"github.com/pkg/errors"
 	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
 	"golang.org/x/sync/errgroup"
-	"golang.org/x/sync/singleflight"
 )
 
 // Daemon represents the daemon to retrieve policy data from Athenz.
@@ -117,6 +116,7 @@ func (p *policyd) Start(ctx context.Context) <-chan error {
 	ech := make(chan error, 100)
 	fch := make(chan struct{}, 1)
 
+	go p.watchExpired(ctx)
 	go func() {
 		defer close(fch)
 		defer close(ech)
@@ -166,7 +166,7 @@ func (p *policyd) Update(ctx context.Context) error {
 	jobID := fastime.Now().Unix()
 	glg.Infof("[%d] will update policy", jobID)
 	eg := errgroup.Group{}
-	rp := gache.New()
+	var rp gache.Gache = newPolicyCache()
 
 	for _, fetcher := range p.fetchers {
 		f := fetcher // for closure
@@ -192,9 +192,6 @@ func (p *policyd) Update(ctx context.Context) error {
 		return err
 	}
 
-	// the daemon reads the hook without synchronization, so it should be started after setting the hook
-	p.setExpiredHook(ctx, rp).StartExpired(ctx, p.purgePeriod)
-
 	// swap pointer
 	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
 	glg.DebugFunc(func() string {
@@ -207,7 +204,9 @@ func (p *policyd) Update(ctx context.Context) error {
 		curRp := *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))
 		return fmt.Sprintf("cache after swap, old: %p %v; new: %p %v", curRp, curRp.Len(), *oldRpPtr, (*oldRpPtr).Len())
 	})
-	(*oldRpPtr).Stop()
+	if old, ok := (*oldRpPtr).(*policyCache); ok {
+		old.wakeWatcher() // to watch the new one
+	}
 
 	// prevent old cache cleanup, old pointer may be cached in other policy checking goroutine, leave clear up to GC
 	// (*oldRpPtr).Clear()
@@ -216,26 +215,121 @@ func (p *policyd) Update(ctx context.Context) error {
 	return nil
 }
 
-func (p *policyd) setExpiredHook(ctx context.Context, rp gache.Gache) gache.Gache {
-	group := new(singleflight.Group) // every role of a domain expires at the same time
-	return rp.EnableExpiredHook().
-		SetExpiredHook(func(_ context.Context, key string) {
-			// key = <domain>:role.<role>
-			domain := strings.Split(key, ":role.")[0]
-			group.Do(domain, func() (interface{}, error) {
-				// the context of the hook is canceled when the cache is swapped, so it is not used here
-				p.refreshExpired(ctx, domain, key)
-				return nil, nil
-			})
-		})
+// policyCache represents the cache of the role policies, it also keeps when the policy of each domain expires.
+// The hook of gache is not used, it runs only as long as the context of the update, and blocks when too many roles expire together.
+type policyCache struct {
+	gache.Gache
+	mu      sync.RWMutex
+	expires map[string]int64 // map[<domain>]<UNIX time in nanoseconds>
+	wake    chan struct{}    // wakes the watcher of the expiry
+}
+
+func newPolicyCache() *policyCache {
+	return &policyCache{Gache: gache.New(), expires: make(map[string]int64), wake: make(chan struct{}, 1)}
+}
+
+// domainOf returns the domain of the key <domain>:role.<role>
+func domainOf(key string) string {
+	return strings.Split(key, ":role.")[0]
+}
+
+func (c *policyCache) SetWithExpire(key string, val interface{}, d time.Duration) {
+	c.Gache.SetWithExpire(key, val, d)
+	c.setExpire(domainOf(key), fastime.UnixNanoNow()+int64(d))
+}
+
+// setExpire keeps the earliest expiry of the domain
+func (c *policyCache) setExpire(domain string, exp int64) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	if cur, ok := c.expires[domain]; !ok || exp < cur {
+		c.expires[domain] = exp
+	}
+}
+
+// expired returns the expired domains, and when they expired
+func (c *policyCache) expired() map[string]int64 {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+	m := make(map[string]int64)
+	for domain, exp := range c.expires {
+		if exp <= fastime.UnixNanoNow() {
+			m[domain] = exp
+		}
+	}
+	return m
+}
+
+func (c *policyCache) Get(key string) (interface{}, bool) {
+	val, ok := c.Gache.Get(key)
+	if !ok && c.isExpired(domainOf(key)) {
+		c.wakeWatcher()
+	}
+	return val, ok
+}
+
+func (c *policyCache) wakeWatcher() {
+	select {
+	case c.wake <- struct{}{}:
+	default: // woken already
+	}
+}
+
+func (c *policyCache) isExpired(domain string) bool {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+	exp, ok := c.expires[domain]
+	return ok && exp <= fastime.UnixNanoNow()
 }
 
-// refreshExpired fetches the policy of the domain having an expired role. The fetched policy takes effect as a whole, by
-// swapping in a cache having it and the effective policies of the other domains.
-func (p *policyd) refreshExpired(ctx context.Context, domain, key string) {
+// watchExpired refreshes the expired policies, when they are requested and every purge period.
+func (p *policyd) watchExpired(ctx context.Context) {
+	ticker := time.NewTicker(p.purgePeriod)
+	defer ticker.Stop()
+
+	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
+	current := func() *policyCache {
+		rp, _ := (*(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))).(*policyCache)
+		return rp
+	}
+	refreshed := make(map[string]int64) // a policy is refreshed once when it expires
+	for {
+		var wake <-chan struct{}
+		if rp := current(); rp != nil {
+			wake = rp.wake
+		}
+
+		purge := false
+		select {
+		case <-ctx.Done():
+			return
+		case <-ticker.C:
+			purge = true
+		case <-wake:
+		}
+
+		rp := current()
+		if rp == nil {
+			continue
+		}
+		if purge {
+			rp.DeleteExpired(ctx)
+		}
+		for domain, exp := range rp.expired() {
+			if refreshed[domain] != exp {
+				refreshed[domain] = exp
+				go p.refreshExpired(ctx, domain)
+			}
+		}
+	}
+}
+
+// refreshExpired fetches the expired policy of the domain. The fetched policy takes effect as a whole, by swapping in a cache
+// having it and the effective policies of the other domains.
+func (p *policyd) refreshExpired(ctx context.Context, domain string) {
 	f, ok := p.fetchers[domain]
 	if !ok {
-		glg.Warnf("policy of not configured domain expired: %s", key)
+		glg.Warnf("policy of not configured domain expired: %s", domain)
 		return
 	}
 
@@ -247,42 +341,35 @@ func (p *policyd) refreshExpired(ctx context.Context, domain, key string) {
 	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
 	for {
 		curRpPtr := (*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))
-		if _, ok := (*curRpPtr).Get(key); ok {
+		cur, ok := (*curRpPtr).(*policyCache)
+		if !ok || !cur.isExpired(domain) {
 			return // refreshed already
 		}
 
-		// the domains expiring during the fetch, their hook may be lost when the cache is swapped
-		expired := new(sync.Map)
-		(*curRpPtr).Foreach(context.Background(), func(k string, _ interface{}, _ int64) bool {
-			expired.Store(strings.Split(k, ":role.")[0], k)
-			return true
-		})
-
-		rp := gache.New()
+		rp := newPolicyCache()
 		if err := fetchAndCachePolicy(ctx, rp, f); err != nil {
 			return
 		}
-		expired.Delete(domain)
-		(*curRpPtr).Foreach(context.Background(), func(k string, v interface{}, exp int64) bool {
+		cur.Foreach(context.Background(), func(k string, v interface{}, exp int64) bool {
 			d := time.Duration(exp - fastime.UnixNanoNow())
-			if dom := strings.Split(k, ":role.")[0]; d > 0 && dom != domain {
+			if d > 0 && domainOf(k) != domain {
 				rp.SetWithExpire(k, v, d)
-				expired.Delete(dom)
 			}
 			return true
 		})
-		p.setExpiredHook(ctx, rp)
+		// the domains expiring during the fetch are still to be refreshed
+		for d, exp := range cur.expired() {
+			if d != domain {
+				rp.setExpire(d, exp)
+			}
+		}
 
 		if started != atomic.LoadUint32(&p.updateStarted) {
 			return // updated while fetching, do not go back to an older policy
 		}
-		if atomic.CompareAndSwapPointer(curRpPtrPtr, unsafe.Pointer(curRpPtr), unsafe.Pointer(&rp)) {
-			rp.StartExpired(ctx, p.purgePeriod)
-			(*curRpPtr).Stop()
-			expired.Range(func(d, k interface{}) bool {
-				go p.refreshExpired(ctx, d.(string), k.(string))
-				return true
-			})
+		next := gache.Gache(rp)
+		if atomic.CompareAndSwapPointer(curRpPtrPtr, unsafe.Pointer(curRpPtr), unsafe.Pointer(&next)) {
+			cur.wakeWatcher() // to watch the new one
 			return
 		}
 	}
-- 
2.43.0


From d8b24343bf03831fa172a5c829aa34859ff26e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:02 +0000
Subject: [PATCH 28/28] fix: data race between constructing an authorizer and
 the logs of others

The constructor of the policy daemon changed the process-wide logger. Two
authorizers constructed at the same time, or one being constructed while another
is processing requests, raced.
---
 policy/daemon.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index fdfa333..ee10d01 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -76,9 +76,13 @@ type policyd struct {
 	updateFinished uint32
 }
 
+func init() {
+	// neither in the constructor nor in the updater, it is not safe with other authorizers logging
+	glg.Get().DisableColor()
+}
+
 // New represent the constructor of Policyd
 func New(opts ...Option) (Daemon, error) {
-	glg.Get().DisableColor() // not in the updater, it is not safe with the requests being logged
 	g := gache.New()
 	p := &policyd{
 		rolePolicies: &g,
-- 
2.43.0

