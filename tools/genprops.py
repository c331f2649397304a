#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the list here and run again."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m} for n, m in state],
                          "observe_at": [observe], "hook_needed": None}})

p("C01", "Policy decisions follow the assertions exactly, and deny always wins",
  "A request for a domain, a set of roles, an action and a resource is denied if any assertion with effect deny of any requested role matches; otherwise it is allowed if an allow assertion of a requested role matches, and the reported authorized roles are exactly the requested roles having a matching allow assertion; otherwise it is rejected as not matched. Deny, no match and allow are distinguishable by the returned error. The decision does not depend on how assertions are ordered, duplicated or split over policies, on letter case of the effect, nor on scheduling.",
  ["inputs", "schedules"], "every set of assertions over every splitting into policies (documents having assertions on the roles of their own domain), every request (domain, roles, action, resource), and every scheduling of the concurrent build and check",
  "Tests fix a few policy sets and requests; the cache is built and checked by concurrent goroutines, and an assertion lost in one interleaving, order or splitting is not sampled.",
  ["policy/daemon.go", "policy/assertion.go"],
  [("decision", "policy/daemon.go:CheckPolicyRoles"), ("building the role to assertions cache", "policy/daemon.go:simplifyAndCachePolicy"), ("assertion", "policy/assertion.go:NewAssertion")],
  "policy daemon and authorizer API: result, error and authorized roles of each check after an update",
  [("role policies", "role to assertions, deny first")])

p("C02", "Assertion patterns match as anchored, case-insensitive globs and nothing else",
  "An assertion matches an action and a resource exactly when its action pattern and the part of its resource pattern after the first colon match the whole action and the whole resource, ignoring case, where '*' matches any sequence of characters including none, '?' matches exactly one character (whether they match line ends is left open), and every other character, including those special in regular expressions, matches only itself. The part of the assertion's resource before the first colon must equal the domain of the request, ignoring case. A policy with a resource pattern lacking the colon is not accepted.",
  ["inputs"], "every pattern and every action and resource of printable text without newlines",
  "Tests check a list of patterns; a wrongly escaped or unanchored character only shows for inputs nobody listed.",
  ["policy/assertion.go", "policy/daemon.go"],
  [("glob to pattern", "policy/assertion.go:patternFromGlob"), ("matching", "policy/daemon.go:CheckPolicyRoles")],
  "decision of a check against a single assertion")

p("C03", "Only policy documents signed by ZTS and ZMS and not expired take effect",
  "A fetched policy document takes effect only if it is unexpired and carries an expiry, its policy data as a whole is signed by the ZTS key it names, and its inner policy data is signed by the ZMS key it names, with ZTS keys never accepted for ZMS signatures nor the reverse. Any other document is rejected, leaving decisions as they were, and fails the update when there is no accepted document to fall back to. Every authentic, unexpired document of the configured domain is accepted.",
  ["inputs", "fault_sequences"], "every tampering with any field, signature, key ID, key environment or expiry of a document, alone and in sequences with good documents",
  "Tests use a mocked verifier and a couple of bad documents; tampering is combinatorial and must fail for each field.",
  ["policy/signed_policy.go", "policy/fetcher.go"],
  [("verification", "policy/signed_policy.go:Verify"), ("fetch", "policy/fetcher.go:Fetch")],
  "result of updates, and the decisions and reported policies afterwards")

p("C04", "No access is granted from a policy after it expired, yet it serves until then",
  "Once the expiry time of a domain's newest authentic policy document has passed, no request on that domain is granted from it, however long the policy server fails, answers with invalid or not-modified responses, or the authorizer keeps refreshing. Until that time a failing policy server does not cause requests granted by that policy to be rejected. After the server recovers, requests are granted again within a bounded number of refresh and retry periods, independently of other domains failing; a policy which expires between two periodic refreshes is fetched again within the purge period. (The reuse of earlier answers for the configured cache time, C10, is not meant here.)",
  ["histories", "fault_sequences"], "every sequence of fault periods, refreshes and requests over days of simulated time",
  "Tests never run past an expiry; the expiry paths involve timers, hooks and fallbacks over hours.",
  ["policy/daemon.go", "policy/fetcher.go"],
  [("time to live of cached policies", "policy/daemon.go:simplifyAndCachePolicy"), ("fallback to the cached policy", "policy/fetcher.go:FetchWithRetry"), ("refresh on expiry", "policy/daemon.go:Update")],
  "decisions at sampled virtual times during outages")

p("C05", "Policy refresh is atomic: decisions use one complete policy set, never older",
  "While policies are refreshed concurrently with requests, each decision equals the decision under one complete set of policy documents that the server served, never a mixture, a partially built or an empty set. When an update returns success, every decision started afterwards uses that set or a later one, and decisions never return to an older set. An update that fails leaves the effective set unchanged.",
  ["schedules", "histories"], "every interleaving of updates (successful, failing, overlapping expiry) with concurrent decisions",
  "Tests update once and then check; a torn read needs a decision during the swap.",
  ["policy/daemon.go", "policy/fetcher.go"],
  [("build and swap", "policy/daemon.go:Update"), ("read of the current set", "policy/daemon.go:CheckPolicyRoles")],
  "history of decisions and updates with versions encoded in the policies",
  [("role policies pointer", "the effective set")])

p("C06", "A role token is accepted exactly when authentic, well-formed and unexpired",
  "A role token is accepted as a credential only if it has a signature by the ZTS public key it names over exactly the text before the signature, all its fields are well-formed key=value pairs with numeric times, and its expiry has not passed; every such token is accepted. The principal reported carries exactly the name, domain, roles, issue and expiry time of the token. ZMS keys, unknown keys and modified tokens are rejected with an error.",
  ["inputs"], "every token text, including every modification of a valid token, and every set of keys",
  "Tests mock the verifier or use a few strings.",
  ["role/processor.go", "role/token.go", "authorizerd.go"],
  [("parse", "role/processor.go:parseToken"), ("validate", "role/processor.go:validate"), ("fields", "role/token.go:SetParams")],
  "authorizer API for role tokens with real keys")

p("C07", "An access token is accepted exactly when signed by a configured key and in time",
  "An access token is accepted as a credential only if its header names, as a string, a key ID present in the key set of the Athenz server, or of the key set URL given in the header provided that URL is configured, its signature by that key is valid with a matching algorithm, it has an expiry not passed, and its issued-at and not-before times, when present, are not in the future; every such token is accepted when no further binding is required. The principal reported carries the subject, audience, scope, client ID, issue and expiry time of the token. Unsigned tokens, tokens signed with the public key as an HMAC secret, or with a key of another key set are rejected.",
  ["inputs"], "every token, header, claim set, key set configuration and every modification of a valid token",
  "Tests use fixed tokens and keys; forgery and time combinations are not explored.",
  ["access/processor.go", "access/claim.go", "jwk/daemon.go"],
  [("key selection", "access/processor.go:keyFunc"), ("validity", "access/claim.go:Valid"), ("key lookup", "jwk/daemon.go:getKey")],
  "authorizer API for access tokens with real keys")

p("C08", "Certificate binding and client IDs of access tokens hold on every request",
  "With certificate binding enabled an access token is accepted only with a client certificate which has the thumbprint the token is bound to, or is a refreshed certificate of the same principal (common name equals the token's client ID, neither empty) whose issue time corrected by the configured backdate is not before the token's issue time and at most the configured offset after it (an offset of zero disables this), for tokens bound to some thumbprint, or has one of the SPIFFE URIs the token lists as proxy principals. With client ID verification enabled it is accepted only with a certificate whose common name is configured with the token's client ID. Every token satisfying the enabled checks is accepted, and binding holds on every request, whatever was accepted before.",
  ["inputs", "configurations", "histories"], "every combination of configuration, token claims and certificates, and every order of requests",
  "Tests list combinations for the parser alone, without the caching in front of it.",
  ["access/processor.go", "authorizerd.go"],
  [("certificate binding", "access/processor.go:validateCertificateBoundAccessToken"), ("refreshed certificate", "access/processor.go:validateCertPrincipal"), ("client ID", "access/processor.go:validateClientID")],
  "authorizer API for access tokens with certificates")

p("C09", "Reusing a cached success never changes an answer",
  "Within an unchanged set of policies and keys and before any expiry, the answer to a request, including the principal and its authorized roles, is the answer it would get if it were the first request, whatever requests were made before by anyone and concurrently. In particular a success is reused only for the same kind of credential, the same credential, certificate, action, resource and query, and failures are never reused.",
  ["histories", "inputs", "schedules"], "every sequence and interleaving of requests, with components chosen to collide when joined",
  "Tests look at single keys; a collision needs a pair of requests.",
  ["authorizerd.go"],
  [("success cache", "authorizerd.go:authorize")],
  "answers of a long-lived authorizer compared with those of a fresh one")

p("C10", "A success is never reused longer than the configured cache time",
  "A grant is reused for at most the configured cache time after the full verification that produced it, and reuse does not prolong it. Hence a policy change, an expired token or a removed key is reflected in every answer at most that time after it takes effect, while verification failures take effect and stop to take effect at once.",
  ["histories", "configurations"], "every history of requests and changes in simulated time, every cache time",
  "Tests look at the expiry of one entry.",
  ["authorizerd.go", "option.go"],
  [("success cache", "authorizerd.go:authorize"), ("expiry", "option.go:WithCacheExp")],
  "answers at virtual times around each change")

p("C11", "A request is granted exactly when one of the enabled credentials grants it",
  "A request is granted if and only if its access token (bearer token of the Authorization header together with the peer's leaf certificate) or its role token (configured header) is of an enabled kind and grants the action and resource on its own; the principal returned is that of the first granting kind in the order access token, role token. Otherwise the result is the invalid credentials error, and an authorizer with nothing enabled cannot be constructed. The methods for a single kind of credential answer the same for that kind, rejecting it when disabled. With policy checking disabled a valid credential suffices, otherwise an empty action or resource is rejected.",
  ["inputs", "configurations"], "every combination of enabled kinds, headers, credentials (absent, malformed, forged, valid) and certificates",
  "Tests use mocked processors and a few combinations.",
  ["authorizerd.go", "option.go"],
  [("credential order", "authorizerd.go:initAuthorizers"), ("any of", "authorizerd.go:Authorize")],
  "request API, compared with the single credential APIs")

p("C12", "Request to action/resource translation is deterministic, first match, literal",
  "A request is translated by the first rule of the token's domain whose method (ignoring case), path segments, and set of query parameters match, a placeholder matching any one segment or value; each placeholder in the rule's resource is replaced by the text it matched, once, and text taken from the request is never interpreted as a placeholder. Without a matching rule the method and path pass through unchanged, and a malformed query is an error only when a rule has to look at it. The configured resource prefix is put before the resource, and the decision uses the translated action and resource.",
  ["inputs", "configurations"], "every rule set and every request, including requests containing placeholder syntax",
  "Tests have fixed rules; order dependence on random map iteration shows only in repetition.",
  ["translator.go", "authorizerd.go"],
  [("matching and replacement", "translator.go:Translate"), ("rule validation", "translator.go:validate"), ("prefix", "authorizerd.go:authorize")],
  "translator API and decisions")

p("C13", "Public keys follow the last successfully fetched documents, per environment",
  "After a refresh that succeeded, the keys available for ZTS and for ZMS are exactly those of the server's current documents for that environment, with no key of one environment usable for the other. A refresh that fails reports an error and takes no key away that the last good document had; a later refresh after recovery brings the current keys into use, whatever responses were seen in between. A key contained in both the old and the new document is available at every moment of the refresh.",
  ["histories", "fault_sequences", "schedules"], "every sequence of key rotations, faults, not-modified and malformed responses, and concurrent lookups",
  "Tests do single updates from a fixed server.",
  ["pubkey/daemon.go"],
  [("update", "pubkey/daemon.go:Update"), ("ETag", "pubkey/daemon.go:fetchPubKeyEntries"), ("lookup", "pubkey/daemon.go:getPubKey")],
  "public key provider after and during updates")

p("C14", "JSON web keys are isolated per key set URL and follow the last good fetch",
  "A key is found only in the key set of the URL asked for, the Athenz server's when none is given, and never for a URL that is not configured or an empty key ID. After an update each URL that could be fetched serves exactly its current key set, and each that failed keeps its last good one; the update reports an error if and only if some URL failed. All configured URLs are fetched at every update even when some fail.",
  ["histories", "fault_sequences", "configurations"], "every configuration of URLs with overlapping key IDs and every sequence of rotations and faults",
  "Tests use one update against a fixed server.",
  ["jwk/daemon.go", "jwk/option.go"],
  [("update", "jwk/daemon.go:Update"), ("lookup", "jwk/daemon.go:getKey")],
  "key provider after updates")

p("C15", "Policy fetching uses conditional requests, retries and fallback correctly",
  "A policy is requested conditionally, with the ETag of the last accepted document, exactly when such an ETag exists and that document is further from its expiry than the configured margin; a not-modified answer reuses that document. A failing fetch is retried at the configured delay for exactly the configured number of attempts, stopping at the first success; if all fail the last accepted document stays in use if there is one and otherwise the update fails. A document failing verification never replaces the last accepted one nor its ETag.",
  ["histories", "fault_sequences", "configurations"], "every sequence of responses and faults, and every setting of margin, attempts and delay",
  "Tests fix one or two responses.",
  ["policy/fetcher.go"],
  [("fetch", "policy/fetcher.go:Fetch"), ("retry", "policy/fetcher.go:FetchWithRetry")],
  "requests the server receives, with their virtual times, and the decisions")

p("C16", "Background refresh keeps going through faults and stops when cancelled",
  "After start, public keys, policies and JSON web keys are each refreshed every configured refresh period; after a failed refresh an error is reported on the error channel (which the user has to read) and the refresh is repeated every configured retry delay until it succeeds, for any number and kind of failures. Changes on the server are in effect at the latest one refresh period, plus the retry delays of running attempts, after the server is reachable. When the context is cancelled, all background work stops, the error channel delivers the context's error and is closed, within a bounded time.",
  ["fault_sequences", "histories", "configurations"], "every sequence of outages of the three endpoints in simulated time, and cancellation at any point",
  "Tests wait for one or two ticks; liveness over long fault sequences is out of their reach.",
  ["authorizerd.go", "policy/daemon.go", "pubkey/daemon.go", "jwk/daemon.go"],
  [("start", "authorizerd.go:Start"), ("policy loop", "policy/daemon.go:Start"), ("public key loop", "pubkey/daemon.go:Start"), ("jwk loop", "jwk/daemon.go:Start")],
  "requests the server receives, error channel, goroutines left")

p("C17", "Successful initialization means everything needed was fetched, in usable order",
  "Initialization returns success exactly when all enabled parts (public keys of both environments, every configured domain's policy, every key set) were fetched and accepted, and the policies were verified with the public keys fetched by the same initialization; afterwards every valid credential is decided correctly without further fetching. If any enabled part fails or the context is cancelled it returns an error. Disabled parts are never fetched.",
  ["configurations", "fault_sequences", "schedules"], "every combination of enabled parts and failing endpoints, and every completion order of the fetches",
  "Tests use mocked parts.",
  ["authorizerd.go"],
  [("init", "authorizerd.go:Init")],
  "result of initialization, requests received by the server, and decisions afterwards")

p("C18", "No input from the network or a client crashes or hangs the authorizer",
  "Whatever credentials, certificates, headers, actions, resources and queries are presented, and whatever status, headers and body the servers answer with, every call returns, with an error for anything invalid, and no goroutine panics. This holds in every configuration that can be constructed, including those with parts disabled. Afterwards valid requests are still decided correctly.",
  ["inputs", "configurations", "fault_sequences"], "every byte sequence as credential and as response body, alone and in sequences",
  "Tests sample a few malformed inputs.",
  ["authorizerd.go", "role/processor.go", "access/processor.go", "policy/fetcher.go", "policy/daemon.go", "pubkey/daemon.go", "jwk/daemon.go", "translator.go"],
  [("credential parsing", "role/processor.go:parseToken"), ("response parsing", "policy/fetcher.go:Fetch"), ("response parsing", "pubkey/daemon.go:fetchPubKeyEntries")],
  "process exit, panics, and answers after hostile input")

p("C19", "No data race between requests, background refresh, expiry and shutdown",
  "All methods of the authorizer may be called concurrently with each other, with the background refresh of keys and policies, with expiry of cached results and policies, and with start and shutdown, without a data race.",
  ["schedules"], "every interleaving of the public methods and the background work",
  "The tests run without the race detector and hardly concurrently.",
  ["authorizerd.go", "policy/daemon.go", "policy/fetcher.go", "pubkey/daemon.go", "jwk/daemon.go"],
  [("atomic swap", "policy/daemon.go:Update"), ("caches", "authorizerd.go:authorize")],
  "race detector reports over a stress workload")

p("C20", "Role certificates are judged by the roles in their names and URIs, per domain",
  "A chain of peer certificates is authorized exactly when, for some domain, the policy allows the action and resource to the set of that domain's roles which the certificates carry, as domain:role.name in the subject common name or as domain/name after the configured prefix in a URI, with a deny for any of that domain's roles winning for that domain. Certificates carrying no role are rejected. The order of certificates and names and repeated roles do not matter.",
  ["inputs", "configurations"], "every chain of certificates, set of policies, prefix, action and resource",
  "Tests use a few certificates and a mocked policy daemon.",
  ["authorizerd.go"],
  [("role extraction", "authorizerd.go:VerifyRoleCert")],
  "role certificate API with real certificates")

p("C21", "Signatures of credentials never reach the log",
  "Whatever role tokens and access tokens are presented, valid, invalid or malformed, by any method and at any log level, the signature part of the token is never written to the log.",
  ["inputs", "configurations"], "every token of the usual form, granted, rejected and served from cache, at debug level",
  "Tests check the masking function alone, not what is logged.",
  ["mask.go", "authorizerd.go"],
  [("masking", "mask.go:maskToken"), ("masking", "mask.go:maskCacheKey")],
  "everything written to the logger")

p("C22", "The retrying HTTP transport retries within limits and keeps responses intact",
  "The retrying transport sends a request at most the configured number of times (at least once), again only after a temporary error or a retryable status (429, 500, 503, 504), and stops once the next wait would pass the configured time limit after an error. It returns the last response, with status, headers and complete unread body, or the last error, never neither. Bodies of responses it gives up are closed, and waits between attempts after errors grow as configured.",
  ["inputs", "fault_sequences", "configurations"], "every sequence of responses and errors and every setting of the limits",
  "There are no tests of this package.",
  ["client/exp_rt.go"],
  [("retry loop", "client/exp_rt.go:RoundTrip")],
  "requests received, virtual times, and the response returned")

p("C23", "Fetches go only to the configured Athenz endpoints over https and leak nothing",
  "Every request the authorizer makes (redirections are followed by the HTTP client as configured, and not meant here) is a GET by https to the configured Athenz host and base path, at the documented path for the configured domains, system domain and key sets, or to a configured extra key set URL exactly as configured; text from credentials never causes a request. Every response body received is closed, whatever its status and content. A URL with a scheme other than http or https is rejected at construction.",
  ["inputs", "configurations", "fault_sequences"], "every configuration of URLs and domains, every response, and hostile credentials",
  "Tests use test servers which do not look at leaked bodies or unexpected requests.",
  ["policy/fetcher.go", "pubkey/daemon.go", "jwk/daemon.go", "jwk/option.go", "internal/url/util.go", "option.go"],
  [("policy request", "policy/fetcher.go:Fetch"), ("public key request", "pubkey/daemon.go:fetchPubKeyEntries"), ("scheme", "internal/url/util.go:TrimHTTPScheme")],
  "requests and response bodies seen by the transport")

p("C24", "The reported policy cache is exactly the policies in effect",
  "The policy cache report contains, for each role having assertions in the unexpired policies in effect, exactly those assertions (resource domain, action, resource and effect, duplicates removed, an identical allow being superseded by a deny), and nothing for other roles, expired policies, or when policy checking is disabled. Reading the report never disturbs decisions or refreshes.",
  ["histories", "inputs"], "every set of policies, at any time before, during and after refreshes and expiry",
  "Tests compare one fixed cache.",
  ["policy/daemon.go", "authorizerd.go"],
  [("report", "policy/daemon.go:GetPolicyCache")],
  "report compared with the documents served")

p("C25", "Each option has its documented effect, and what is not set its documented default",
  "In every combination and order of options, the running authorizer behaves by the value given last for an option, and by the default documented in README.md where it was not given, or given as empty: the periods of refresh of public keys, policies and JSON web keys, the delays and number of retries, how long the ETag of a public key document is used, the margin before the expiry of a policy from which it is fetched unconditionally, the purge period of policies, the system domain, the HTTP client and its timeout (30 s), the cache time, the enabled parts and credentials, the header of role tokens, the URI prefix of role certificates and the certificate binding of access tokens. No option affects another part.",
  ["inputs", "histories"], "every subset, order and value of the options, each over days of operation",
  "Tests check that an option sets a field; not that the field governs the behaviour over days, nor the defaults of the whole.",
  ["option.go", "authorizerd.go", "policy/option.go", "pubkey/option.go", "jwk/option.go", "access/option.go"],
  [("options", "option.go:WithPolicyRefreshPeriod"), ("forwarding to the parts", "authorizerd.go:New")],
  "times, headers and number of requests at the transport; answers to requests")

p("C26", "Invalid settings are rejected at construction, valid ones are accepted",
  "Mapping rules are rejected with an error if there are none at all, a domain is empty or has nil rules, or any rule has an empty method, action or resource, a non-empty path not starting with a slash, a malformed query, a repeated query parameter, an empty placeholder, or the same placeholder twice; all others are accepted. Constructing an authorizer, or one of its parts, fails if a duration of an enabled part is not empty and not a duration, a refresh or purge period is not positive, the Athenz URL has a scheme other than http or https, an additional key set URL is not absolute with the scheme http or https, or no credential is enabled; it succeeds for settings with none of these. An error comes with no usable object.",
  ["inputs", "configurations"], "every rule set and every configuration, with an invalid value at any place",
  "Tests give a few invalid values one at a time; not each kind at each place of large settings, nor in every order.",
  ["translator.go", "option.go", "authorizerd.go", "policy/option.go", "pubkey/option.go", "jwk/option.go", "access/option.go"],
  [("validation of rules", "translator.go:validate"), ("validation of URLs and durations", "jwk/option.go:WithURLs")],
  "errors of the constructors")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
