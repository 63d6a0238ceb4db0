#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, where=w) for n, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "SNI/ALPN routing reaches exactly the configured backend, or is refused",
 "A TLS connection is only ever served by a backend that the active configuration lists for the connection's server name (the configured default name when the client sends none), choosing the backend whose ALPN set contains the protocol negotiated and never one that is configured for another name or another protocol. A connection whose server name is not configured is refused with a TLS unrecognized-name alert and no backend receives a byte. Server names may be configured in their Unicode or ASCII spelling with the same effect.",
 ["configurations","inputs"], "all configurations of up to three backends over a small alphabet of names/ALPN sets/modes, times every (server name, ALPN list) a client can offer from that alphabet, including none",
 "TestProxyBackends connects to a handful of fixed backends; the cross product of configuration shape (same name in several backends, passthrough next to terminating, default name) and hello is never enumerated.",
 ["proxy/proxy.go","proxy/config.go"],
 [("backend lookup by (name, proto)","proxy/proxy.go:1408"),("GetConfigForClient","proxy/proxy.go:281"),("passthrough/ALPN pre-routing","proxy/proxy.go:1120")],
 [("backends map","proxy/proxy.go Proxy.backends"),("defServerName","proxy/proxy.go Proxy.defServerName")],
 ["which upstream listener received the connection","TLS alert seen by the client"])

prop("C02", "ClientHello inspection agrees with TLS, loses no byte, never crashes",
 "For every byte stream a client can send, cut into segments in any way, the server name and protocols used for routing before the handshake are the ones a conforming TLS server would extract from the same bytes, or the connection is refused. In passthrough the chosen server receives exactly the bytes the client sent, from the first one. Malformed, truncated or oversized hello messages are answered with an alert or a close and never take the proxy down.",
 ["inputs","schedules"], "all hello shapes from a grammar of record/extension layouts and mutations (truncation at every byte, every length field perturbed, duplicated extensions), each under every 1- and 2-cut segmentation of the stream",
 "No test feeds the hello parser a fragmented or malformed hello; the tests use the standard client, which sends one record in one segment.",
 ["proxy/hello.go","proxy/internal/netw/netw.go","proxy/proxy.go"],
 [("hello parser","proxy/hello.go:43"),("peek buffer","proxy/internal/netw/netw.go:183")],
 [("peekBuf","proxy/internal/netw/netw.go Conn")],
 ["bytes received by the passthrough upstream","SNI chosen for routing vs crypto/tls' ClientHelloInfo"])

prop("C03", "IP allow and deny lists decide every connection",
 "A client whose address matches a deny rule of the backend it asks for never gets service, a client that matches no allow rule never gets service when an allow list exists, and every other client is not refused on account of its address. The decision depends only on the address and the rules: not on the textual form of the address (IPv4 or IPv4-mapped IPv6), the mode of the backend or the order of the rules. The refused client reaches neither the backend nor any of the proxy's own endpoints.",
 ["configurations","inputs"], "all subsets of a small universe of CIDRs as allow/deny lists (including absent and empty) times boundary addresses of each CIDR in v4, v6 and mapped form, times backend mode",
 "TestCheckIP samples a few pairs; rule precedence, empty-but-present lists, mapped addresses and every mode are not covered.",
 ["proxy/backend.go","proxy/proxy.go","proxy/quic.go"],
 [("checkIP","proxy/backend.go:243"),("connection gate","proxy/proxy.go:1220")], (), ["service or refusal seen by the client"])

prop("C04", "Client certificates: only authenticated, authorized, unrevoked peers served",
 "When a backend requires client certificates, no request or byte reaches the backend (or a local endpoint) unless the peer proved possession of a certificate that chains to the roots configured for that backend, is within its validity, matches one of the configured access rules (subject, DNS, e-mail or URI) exactly when rules exist, and is not revoked by a configured local authority. A configured but empty rule list admits nobody. A peer that satisfies all of that is served, and the rule applies equally to resumed sessions.",
 ["configurations","inputs","histories"], "all (roots, ACL form, certificate identity, chain, validity, revocation) combinations from a small universe, times backend mode, fresh and resumed sessions",
 "TestAuthnAuthz checks a few positive and negative clients in one configuration; combinations, near-miss identities and revocation between resumptions are not tested.",
 ["proxy/backend.go","proxy/proxy.go","proxy/internal/pki/pki.go"],
 [("authorize","proxy/backend.go:218"),("authorizeTLSConnection","proxy/proxy.go:1243"),("VerifyConnection","proxy/proxy.go:281")],
 [("aclMatcher","proxy/config.go")], ["handshake/alert result at the client, bytes at the upstream"])

prop("C05", "Reconfiguration re-judges live connections and never crashes the proxy",
 "After a configuration change takes effect, every open connection that the new configuration would not admit - its name is gone, its address is now denied, its certificate is no longer authorized or is now required - is closed, and connections the new configuration still admits keep working. This holds for every interleaving of the change with connections that are opening, handshaking, proxying or closing. No such interleaving terminates the process.",
 ["schedules","configurations","histories"], "all pairs (old, new) of backend policies from a small universe times connection phase (accepted, hello partially sent, handshaking, proxying, closing) times the interleavings of the re-authorization with the connection's own goroutine",
 "The tests never reconfigure with live connections; the failing cases need a connection to be in a specific phase when the configuration changes.",
 ["proxy/proxy.go","proxy/backend.go","proxy/conntracker.go"],
 [("reAuthorize","proxy/proxy.go:865"),("Reconfigure","proxy/proxy.go:281")],
 [("inConns","proxy/conntracker.go"),("annotations","proxy/internal/netw/netw.go")], ["whether each connection is still usable; process liveness"])

prop("C06", "SSO policy is enforced for every spelling of a protected path",
 "A request whose path lies under a protected prefix of a backend that requires login is never forwarded to the backend, answered from its files or local endpoints, unless it carries a currently valid session for an identity that the access list admits. This holds for every spelling of the path that the backend would treat as the protected one (dot segments, doubled or encoded slashes, case-preserving escapes). The only requests exempt are those to the proxy's own login endpoints and explicitly configured exceptions.",
 ["inputs","configurations"], "all paths up to four tokens from an alphabet of segments, separators and escapes, times methods, SSO path configurations, ACLs (absent, empty, user, domain) and session states (none, valid, other user, expired, other provider, tampered)",
 "TestEnforceSSOPolicy samples a few paths; the space of path spellings and ACL/session combinations is where bypasses live.",
 ["proxy/backend-sso.go","proxy/backend-http.go"],
 [("enforceSSOPolicy","proxy/backend-sso.go:270"),("pathMatches","proxy/backend-sso.go:347"),("authenticateUser","proxy/backend-sso.go:89")],
 (), ["requests observed at the upstream","status and body at the client"])

prop("C07", "A token is honoured only for the purpose, host and time it was issued for",
 "Every credential the proxy issues (login session, identity token, bearer token, login-flow token, OpenID code or access token) is accepted only where that kind of credential is expected, only for the issuer, provider and audience it was minted for, only before its expiry and only if its signature was made by a current key of this proxy under that key's own algorithm. A token of another kind, another host, another provider, an altered or unsigned token is never accepted as a session. A freshly issued, unmodified token is accepted at its own host.",
 ["inputs","histories"], "the full cross product of issued token kinds x acceptance points x hosts x providers x mutations (each header/claim field altered, alg none, alg swapped, key swapped, truncated) x time offsets",
 "TestCookies round-trips one token; no test presents one kind of token at another kind's door.",
 ["proxy/internal/tokenmanager/tokenmanager.go","proxy/internal/tokenmanager/urltoken.go","proxy/internal/cookiemanager/cookiemanager.go"],
 [("ValidateToken","proxy/internal/tokenmanager/tokenmanager.go:429"),("ValidateAuthTokenCookie","proxy/internal/cookiemanager/cookiemanager.go:193"),("ValidateAuthorizationHeader","proxy/internal/cookiemanager/cookiemanager.go:233")],
 (), ["acceptance result of each validator"])

prop("C08", "Signing-key rotation never invalidates a live token or forgets a key",
 "Across any sequence of time passing, key rotations, restarts and failed writes, a token the proxy issued keeps verifying until its own expiry, and every key that can verify such a token is published in the key set in a form a standards-conforming verifier can use. New tokens are always signed by a key that will still be published for the token's whole lifetime. Keys older than their retention period eventually stop being published.",
 ["histories","crash_points","schedules"], "all sequences up to depth 6-8 of {advance clock by minutes/hours/days, rotate, restart, issue, validate, storage failure} under a virtual clock, and concurrent issue/rotate/publish interleavings",
 "TestTokenManager rotates once with a fabricated key age; multi-step time/rotation/restart/outage histories are not reachable in a unit test's wall time.",
 ["proxy/internal/tokenmanager/tokenmanager.go"],
 [("rotateKeys","proxy/internal/tokenmanager/tokenmanager.go:130"),("CreateToken","proxy/internal/tokenmanager/tokenmanager.go:331"),("ServeJWKS","proxy/internal/tokenmanager/tokenmanager.go:453")],
 [("keys","proxy/internal/tokenmanager/tokenmanager.go TokenManager")], ["ValidateToken results, JWKS document"])

prop("C09", "Clients cannot forge or strip the identity headers the proxy adds",
 "The user-identity, forwarded-for and client-certificate headers that a backend receives are exactly those the proxy derived from the authenticated session, the connection's address and the verified certificate, whatever headers, cookies or connection options the client sent. The proxy's own session credentials are never forwarded to a backend, and every other client header, cookie, query and body byte is. Headers configured to be added are delivered with the documented substitutions.",
 ["inputs","configurations"], "all combinations of up to three client-sent headers from an alphabet of spoofed identity headers (case variants, duplicates, hop-by-hop nominations), cookies in every position, times session/no session, certificate/no certificate and backend header configuration",
 "TestBackendHTTPHeaders checks one benign request; hop-by-hop and duplicate-header interactions need adversarial combinations.",
 ["proxy/backend-http.go","proxy/backend-sso.go","proxy/xfcc.go","proxy/internal/cookiemanager/cookiemanager.go"],
 [("reverseProxy director","proxy/backend-http.go:194"),("FilterOutAuthTokenCookie","proxy/internal/cookiemanager/cookiemanager.go:248"),("addXFCCHeader","proxy/xfcc.go:38")],
 (), ["the request as received by the upstream"])

prop("C10", "OpenID login: callback accepted once, by the same browser, for its request",
 "As an OpenID client, the proxy only creates a session from a callback that presents a state it issued, not yet used, to the same browser, within its validity, and whose identity token carries the nonce of that request and a verified e-mail address of an allowed domain. Each state yields at most one session even when callbacks race. Any failure leaves the browser without a new session, and success returns the user to the URL that was originally requested.",
 ["histories","schedules","inputs"], "all sequences up to depth 5 over two browsers and two logins of {request, callback with own/other/replayed/forged state, wait past expiry} times provider answers {good, wrong nonce, unverified, wrong domain, error}, plus two racing callbacks under all interleavings up to 2 preemptions",
 "TestSSOEnforceOIDC performs one happy login; replay, cross-browser, expiry and race histories are untested.",
 ["proxy/internal/oidc/client.go"],
 [("RequestLogin","proxy/internal/oidc/client.go:149"),("HandleCallback","proxy/internal/oidc/client.go:204")],
 [("states map","proxy/internal/oidc/client.go")], ["Set-Cookie and redirect of the callback response"])

prop("C11", "OpenID server: codes and access tokens are single-use, bound and short-lived",
 "The built-in OpenID server redirects only to a redirect address registered for the client, issues a code only for a logged-in user, and redeems each code at most once, within two minutes, only for the client it was issued to presenting the right secret and a registered redirect address. The identity token carries the issuing server as issuer, the client as audience, the nonce of the request and the user's own identity; an access token returns only that user's claims. Two racing redemptions of one code never both succeed.",
 ["histories","schedules","inputs"], "all sequences up to depth 5 over two clients and two users of {authorize, redeem with right/wrong client/secret/redirect/grant, userinfo, wait} and racing redemptions under all interleavings up to 2 preemptions",
 "server_test.go tests only claim rewriting; no test touches code reuse, binding or expiry.",
 ["proxy/internal/oidc/server.go"],
 [("ServeAuthorization","proxy/internal/oidc/server.go:225"),("ServeToken","proxy/internal/oidc/server.go:338"),("ServeUserInfo","proxy/internal/oidc/server.go:402")],
 [("codes/tokens maps","proxy/internal/oidc/server.go")], ["HTTP responses and JWT claims"])

prop("C12", "Passkey logins need a fresh challenge signed by a key that user registered",
 "A passkey login succeeds only for an assertion over an unused, unexpired challenge issued by this proxy, signed with user verification by a registered key that belongs to the user being logged in, for the right site. A key can be registered only by its authenticated owner, or as the first one by a user the access list admits, over a challenge issued for registration, and can be deleted only by its owner. A key whose deletion was confirmed never logs in again, also across restarts. With a refresh interval, a user who has not signed in with the other identity provider for that long gets no session until they do, and nobody else's sign-in counts for them.",
 ["histories","inputs","schedules"], "all sequences up to depth 5 over two users and two authenticators of {options, register, login, delete, restart, wait} with assertions drawn from {good, replayed, other user's, wrong challenge kind, wrong origin, wrong signature, flags missing}",
 "TestWithFakeAuthenticator runs two linear happy flows.",
 ["proxy/internal/passkeys/manager.go","proxy/internal/passkeys/webauthn.go"],
 [("processAssertion","proxy/internal/passkeys/manager.go:956"),("processAttestation","proxy/internal/passkeys/manager.go:828"),("deleteKey","proxy/internal/passkeys/manager.go:718")],
 [("challenges, db","proxy/internal/passkeys/manager.go Manager")], ["HTTP responses, Set-Cookie"])

prop("C13", "Revoked certificates are revoked everywhere, at once and forever",
 "Once revoking a certificate of the built-in authority has succeeded, every later answer - handshake decision, revocation list, OCSP response, certificate list - from this proxy reports it revoked, in whatever order and however quickly the questions follow, also after a restart or reload and while other certificates are issued or revoked concurrently. A certificate that was not revoked is never reported revoked, unknown serial numbers are never reported good, serial numbers are unique, and revocation lists and OCSP answers served are within their validity period and verify against the authority.",
 ["histories","schedules"], "all sequences up to depth 6 over two certificates of {issue, revoke, CRL, OCSP, isRevoked, restart, wait 0/1s/minutes/hours/days} under a virtual clock, and 2-thread interleavings of issue/revoke/CRL/OCSP",
 "TestIssueRevoke revokes one certificate once and reads one CRL; ordering, caching and clock effects are not sampled.",
 ["proxy/internal/pki/pki.go","proxy/internal/pki/http.go"],
 [("RevokeCertificate","proxy/internal/pki/pki.go:680"),("RevocationList","proxy/internal/pki/pki.go:476"),("OCSPResponse","proxy/internal/pki/pki.go:583"),("IsRevoked","proxy/internal/pki/pki.go:572")],
 [("db","proxy/internal/pki/pki.go PKIManager")], ["CRL/OCSP bytes, IsRevoked"])

prop("C14", "PKI self-service: users act only on their own certificates",
 "Through the certificate web interface a signed-in user can obtain only certificates that carry that user's own identity (with any other requested names removed or refused as documented), and can revoke only certificates issued to that user; administrators can revoke any. Requests without a session, with a forged cross-site origin, an unsupported method or malformed input change nothing. Issued certificates are never certificate authorities and verify against the authority.",
 ["inputs","histories"], "all requests over {user, admin, none} x {request, revoke, download, list} x certificate owner x CSR contents (subject/SAN combinations, CA flag, bad signature) x CSRF header presence x method",
 "TestIssueRevoke drives the manager API, not the web authorization layer.",
 ["proxy/internal/pki/http.go","proxy/internal/pki/pki.go"],
 [("ServeCertificateManagement","proxy/internal/pki/http.go:187"),("handleRequestCert","proxy/internal/pki/http.go:344"),("handleRevokeCert","proxy/internal/pki/http.go:411")],
 (), ["HTTP status, issued certificate contents, revocation state"])

prop("C15", "SSH CA certifies only the signed-in user, as a user, for a short time",
 "A certificate from the SSH authority is always a user certificate for the key that was submitted, with the signed-in user's e-mail as its only principal and key id, with a validity window that contains the present and is no longer than configured, and verifies under the published authority key. Nobody without a session, and no cross-site request, obtains one. The authority's key survives restarts unchanged. Whatever one client submits, or does not submit, others are still served.",
 ["inputs","histories"], "all requests over {session identity, none} x method x content type x CSRF header x key material (each key type, certificate, malformed, empty, multiple, oversized) x configured lifetime x clock/restart",
 "TestCertificate issues one certificate for one key with one identity.",
 ["proxy/internal/sshca/sshca.go"],
 [("ServeCertificate","proxy/internal/sshca/sshca.go:258"),("initCA","proxy/internal/sshca/sshca.go:133")],
 (), ["HTTP response, parsed ssh.Certificate"])

prop("C16", "SAML login accepts only the provider's fresh, signed answer to our request",
 "A SAML callback creates a session only if its assertion is covered by a signature of the configured provider, answers a request this proxy sent to the same browser and that was not answered before, is addressed to this service and is within its time window, and the session carries the signed identity. Altered, unsigned, wrapped, replayed, misaddressed, expired or status-failed responses leave the browser without a session. Success returns the user to the URL originally requested.",
 ["inputs","histories","schedules"], "all responses built from a grammar (each signed element present/absent/moved/duplicated, each attribute right/wrong, clock before/inside/after window) times {own, other, replayed, expired} relay state, plus racing callbacks",
 "There is no test for the SAML provider at all.",
 ["proxy/internal/saml/saml.go"],
 [("HandleCallback","proxy/internal/saml/saml.go:151"),("RequestLogin","proxy/internal/saml/saml.go:108")],
 [("states","proxy/internal/saml/saml.go Provider")], ["Set-Cookie and redirect of the callback response"])

prop("C17", "OCSP verdicts come only from valid, matching, current responses",
 "A peer certificate is refused as revoked exactly when a currently valid OCSP response for that very certificate, signed for its issuer, says so (or none can be obtained where one is required), and a response for another certificate, from another signer, or outside its validity is never used as a verdict, neither stapled nor fetched nor cached. The cache never serves a response past its validity and refreshes it in time. No response, error or absence of a responder address crashes or wedges the proxy.",
 ["inputs","histories","fault_sequences"], "all responder behaviours {good, revoked, unknown, other serial, other signer, expired, not yet valid, garbage, HTTP error, none} x stapled/fetched/cached x chain shapes x sequences of {verify, wait, restart, flush} under a virtual clock",
 "The OCSP cache has no test.",
 ["proxy/internal/ocspcache/ocsp.go"],
 [("VerifyChains","proxy/internal/ocspcache/ocsp.go:134"),("Response","proxy/internal/ocspcache/ocsp.go:194"),("fetchOneOCSP","proxy/internal/ocspcache/ocsp.go:225")],
 [("cache","proxy/internal/ocspcache/ocsp.go OCSPCache")], ["verdict returned, requests sent to the responder"])

prop("C18", "Proxied streams are byte-exact in both directions with correct half-close",
 "In every stream-forwarding mode each side receives exactly the bytes the other side sent, in order and without loss, duplication or corruption, whatever the segmentation and interleaving of the two directions. When one side finishes sending, the other sees end-of-stream only after the last byte, and can keep sending as long as the configured half-close policy and timeout allow. When either side fails, both connections end and no resource stays behind.",
 ["schedules","inputs","fault_sequences"], "all event orders up to depth 6-7 of {client writes, server writes, client half-closes, server half-closes, reset, wait past the half-close timeout} for each combination of the half-close options and mode, under a virtual network and clock",
 "TestProxyBackends sends one line each way; half-close orders and timeouts are not enumerated.",
 ["proxy/backend.go","proxy/internal/netw/netw.go","proxy/proxy.go"],
 [("bridgeConns","proxy/backend.go:271"),("forward","proxy/backend.go:298")],
 (), ["bytes and EOF/reset observed at both ends"])

prop("C19", "Connection accounting is exact and the open-connection limit holds",
 "At every quiescent moment the proxy's record of open client connections, of outgoing connections and of each backend's in-flight work equals the connections that are actually open, for every order in which connections open, fail at any stage, are refused or close. The number of clients being served never exceeds the configured maximum, and refused or failed connections free their place at once. No interleaving loses, duplicates or leaks an entry.",
 ["schedules","histories","fault_sequences"], "all event sequences up to depth 6 over three clients of {connect, hello, handshake, request, close, reset, backend refuses} with limit 1..3, and all interleavings up to 2 preemptions of concurrent add/remove",
 "No test sets the limit or inspects the record after failures at each stage.",
 ["proxy/conntracker.go","proxy/proxy.go","proxy/backend.go"],
 [("connTracker","proxy/conntracker.go:31"),("incInFlight","proxy/backend.go:44")],
 [("inConns/outConns","proxy/proxy.go Proxy"),("inFlight","proxy/backend.go")], ["status page / tracker contents vs harness ground truth"])

prop("C20", "Reload and shutdown drain: nothing served is dropped, nothing leaks or hangs",
 "When the configuration is replaced or the proxy is shut down gracefully, requests already being served run to completion within the grace period, a reload leaves established streams of backends it still admits alone, new connections are handled by the new configuration (or refused after shutdown), and when the last request or the grace period ends everything is closed and shutdown returns. A connection that is being set up during the change is either served or closed: no interleaving of connection set-up with the change panics, hangs, leaves a client waiting forever or leaks a connection. Repeated or concurrent stop requests are harmless.",
 ["schedules","histories"], "all orders of {accept, hello, handshake, hand-over to the HTTP server, request, response, close} of up to two connections with {reconfigure, graceful shutdown, forced stop, grace expiry}, and all interleavings up to 2 preemptions of the hand-over with the close",
 "Tests stop the proxy only when idle.",
 ["proxy/proxy.go","proxy/backend.go","proxy/http.go"],
 [("Backend.close","proxy/backend.go:55"),("Shutdown","proxy/proxy.go:997"),("proxyListener","proxy/http.go:73")],
 [("httpConnChan","proxy/backend.go"),("state.shutdown/inFlight","proxy/backend.go")], ["client-visible results; open connections and goroutines afterwards"])

prop("C21", "Round robin is fair and a dial fails only if every address fails",
 "Consecutive connections to a backend with several addresses use them in rotation, each address once per round when all are healthy, separately for each path override. A connection attempt fails only after every address of the backend was tried and failed, and each address is tried at most once per attempt, also when many attempts run at the same time and addresses fail or recover in between. A failed address never prevents later attempts from trying it again.",
 ["schedules","fault_sequences","configurations"], "all health vectors over up to three addresses, all sequences of up to five dials with health changes in between, and all interleavings up to 2-3 preemptions of two concurrent dials",
 "No test has an unhealthy address or concurrent dials.",
 ["proxy/backend.go","proxy/quic.go"],
 [("dial","proxy/backend.go:83")], [("state.next/oNext","proxy/backend.go")], ["sequence of dialled addresses, dial result"])

prop("C22", "PROXY protocol: believed only from trusted sources, emitted faithfully",
 "A PROXY header on an incoming connection is honoured exactly when the connecting address is inside the configured trusted ranges; from any other address it is never interpreted, so no client can choose the address used for access rules, logs or forwarded headers. Towards a backend configured for it, every connection starts with exactly one well-formed header of the configured version carrying that client's own addresses, and connections of different clients never share a backend connection. A malformed, truncated or split header never yields a forged address.",
 ["inputs","configurations","schedules"], "all (trusted set, source address, header version/shape/truncation/segmentation) combinations, each outgoing version x mode x path override, and two clients interleaved over HTTP keep-alive",
 "TestIncomingProxyProto/TestProxyProtoIsolation use one shape each.",
 ["proxy/proxy.go","proxy/backend.go","proxy/backend-http.go","proxy/util.go"],
 [("acceptProxyHeader","proxy/proxy.go:1105"),("writeProxyHeader","proxy/backend.go:193"),("transport isolation","proxy/backend-http.go:472")],
 (), ["address seen by IP rules and backend; header bytes at the upstream"])

prop("C23", "Static file serving stays inside the document root and serves true files",
 "Whatever the request path, method, escapes or headers, a response from a document root only ever contains the bytes of the regular file below that root that the cleaned path names (or its directory's index page), and redirects issued on the way stay on the same host. Path components that start with a dot or contain a backslash are never served. A GET for an existing visible file returns exactly that file, and methods other than GET and HEAD are refused.",
 ["inputs","configurations"], "all paths up to four-five tokens from an alphabet of names, dots, separators, escapes and NULs over a small file tree, times methods, and the same tree mounted under path-override prefixes",
 "TestStaticFiles samples a dozen paths.",
 ["proxy/backend-http.go"],
 [("serveStaticFiles","proxy/backend-http.go:122"),("pathClean","proxy/backend-http.go:108")], (), ["response status/body/Location vs the tree"])

prop("C24", "Inside a backend, host and path select the right handler and upstream",
 "On an HTTP or HTTPS backend a request on a connection for one server name is only forwarded or answered from files if its Host belongs to the same backend; otherwise it is refused as misdirected and reaches nothing. Among path overrides the one with the matching configured prefix handles the request and no other upstream sees it; all other requests go to the backend's own addresses, and the proxy's local endpoints answer only at their own host and path. The upstream receives the same path, query and method (with path cleaning exactly when configured).",
 ["inputs","configurations"], "all (SNI, Host, path, override set, sanitize option) combinations from a small alphabet including nested and overlapping prefixes and ports in Host",
 "TestProxyBackends covers two overrides with plain paths.",
 ["proxy/backend-http.go","proxy/proxy.go"],
 [("reverseProxy","proxy/backend-http.go:194"),("handleLocalEndpointsAndAuthorize","proxy/backend-http.go:419")], (), ["which upstream received which request line"])

prop("C25", "Forwarding loops are cut after a bounded number of hops",
 "A request that comes back to the proxy through its own upstreams is stopped after at most a fixed number of hops, for every loop topology of backends and overrides and every protocol version on the hops, and the client receives an error rather than a hang. A request that passes through several distinct proxies without looping is not stopped. Clients cannot hide a loop by sending their own hop headers.",
 ["configurations","inputs"], "all loop topologies over up to three backends (self loop, two- and three-cycles, via path override, http and https hops) times client-supplied hop headers, and loop-free chains",
 "No test forwards the proxy to itself.",
 ["proxy/backend-http.go"],
 [("Via-based loop detection","proxy/backend-http.go:194")], (), ["number of hops, status at the client"])

prop("C26", "Client-certificate header encodes the identity unambiguously",
 "The client-certificate header the backend receives is a well-formed element whose fields parse back, under the documented quoting rules, to exactly the hash, certificate, chain, subject, URI and DNS values of the verified certificate, for every subject and name a certificate can contain. No value inside a certificate can inject another field, another element or another header. Only the configured fields are present.",
 ["inputs","configurations"], "all subjects/SANs up to four tokens from an alphabet of delimiters, quotes, backslashes, control, non-ASCII and plain characters, times all field subsets",
 "xfcc_test.go encodes a few fixed strings.",
 ["proxy/xfcc.go"],
 [("encodeXFCC","proxy/xfcc.go:99"),("encodeXFCCSubject","proxy/xfcc.go:78"),("addXFCCHeader","proxy/xfcc.go:38")], (), ["header at the upstream, parsed by an independent parser"])

prop("C27", "Bandwidth limits bound throughput and byte counters are exact",
 "Over any interval the bytes moved in one direction by all connections of the backends that share a named bandwidth limit never exceed that limit times the interval plus one burst (and, for bytes received, one read buffer per connection, which is paid for in advance), connections of other backends are unaffected, and every transfer eventually completes. The totals reported for a server name equal the bytes that actually crossed its connections, and a reported rate over a period is the bytes of that period divided by it, for every order and timing of reads and writes. Names of limits are matched the same way wherever they are used.",
 ["histories","schedules","configurations"], "all read/write/wait sequences up to depth 6 over two connections under a virtual clock with limits shared or separate, counter sequences over window boundaries, and concurrent increments under all interleavings up to 2 preemptions",
 "TestCounter checks one sequence; no test checks a limit.",
 ["proxy/internal/netw/netw.go","proxy/internal/counter/counter.go","proxy/proxy.go"],
 [("limiters","proxy/internal/netw/netw.go:143"),("Counter","proxy/internal/counter/counter.go:44"),("bwLimits","proxy/proxy.go:281")],
 (), ["virtual time at which bytes arrive; status page counters"])

prop("C28", "Configuration is checked before use and replaced atomically",
 "A configuration that names an undefined identity provider, bandwidth limit, certificate authority or management backend, that contradicts itself or is outside the documented values is rejected with an error, and a rejected replacement leaves the running proxy serving exactly as before, also while it is being evaluated. Every accepted configuration can be put into service, checking it twice or re-reading its serialized form gives the same configuration, and no configuration text crashes the proxy. Reloading an equal configuration changes nothing.",
 ["configurations","histories"], "all single and paired field mutations of a set of base configurations (each field absent, empty, minimal, invalid, dangling reference, wrong case), and all sequences up to length 4 of good/bad reconfigurations with probes of service in between",
 "TestReadConfig parses one good file.",
 ["proxy/config.go","proxy/proxy.go"],
 [("Check","proxy/config.go:780"),("Reconfigure","proxy/proxy.go:281"),("ReadConfig","proxy/config.go:1191")], (), ["error/no error; behaviour of the running proxy"])

prop("C29", "Backend TLS connections verify the server as configured",
 "When the proxy connects to a backend over TLS it sends no application data unless the server proved the configured name with an unexpired, unrevoked certificate that chains to the configured roots (system roots when none), except where verification was explicitly turned off, and then only for that backend or path override. A path override uses its own roots, name and verification switch, never its parent's or a sibling's. Certificates revoked by a configured local authority are refused.",
 ["configurations","inputs"], "all (configured name/roots/skip, server certificate name/issuer/validity/revocation, mode, override) combinations from a small universe, also in sequence so that pooled connections of one policy could be reused by another",
 "Tests always use a matching root and name.",
 ["proxy/backend.go","proxy/backend-http.go","proxy/quic.go"],
 [("dial tls.Config","proxy/backend.go:83")], (), ["whether the upstream saw application bytes; client status"])

prop("C30", "ACME revocation touches only certificates no longer configured",
 "When revoking unused certificates, the proxy revokes and forgets exactly the cached certificates whose name is no longer served by the configuration, in every spelling of the name, and never one that is still in use; when asked to revoke all, it revokes every cached certificate and forgets each one only after the authority confirmed. A failure for one certificate does not lose another, and repeating the operation completes it.",
 ["configurations","fault_sequences","histories"], "all (cached names, configured names, mode, feature switch) subsets of a small universe times all authority answers {ok, already revoked, error, unreachable} per certificate, and re-runs",
 "There is no test of revocation.",
 ["proxy/revoke.go"],
 [("revokeUnusedCertificates","proxy/revoke.go:105"),("RevokeAllCertificates","proxy/revoke.go:46")], (), ["revocation requests at a fake authority, cache contents"])

prop("C31", "Sessions end when they should: expiry, forced re-login, logout",
 "A session is refused from the moment it expires, is older than the re-login interval of the requested backend, or belongs to another provider, and after logout the browser no longer holds it; until then it keeps being accepted on every host the session covers. A re-login sends the user back to the page requested and replaces the old session. Time spent or requests made in between do not extend a session.",
 ["histories","configurations"], "all sequences up to depth 5 over {login, request, logout, wait d} with d around the expiry and the forced re-login interval, times cookie domain and host combinations, under a virtual clock",
 "Tests never let a session age.",
 ["proxy/backend-sso.go","proxy/internal/cookiemanager/cookiemanager.go"],
 [("enforceSSOPolicy","proxy/backend-sso.go:270"),("SetAuthTokenCookie","proxy/internal/cookiemanager/cookiemanager.go:64"),("serveLogout","proxy/backend-sso.go:222")], (), ["status/redirect/cookies per request"])

prop("C32", "WebSocket bridging is byte-exact, authorized and leak-free",
 "A WebSocket endpoint streams every binary message byte to its configured TCP server and every server byte back in order, whatever the fragmentation, and when either side closes the other is closed too with all bytes already sent delivered first. Only requests that pass the same login policy as other requests can use it, and nothing stays open afterwards. Non-WebSocket requests to it do not reach the TCP server.",
 ["schedules","inputs"], "all event sequences up to depth 5 of {client message (sizes 0/1/many, text/binary/ping), server bytes, client close, server close, reset} and policy states",
 "No test exercises the WebSocket handler.",
 ["proxy/websocket.go"],
 [("webSocketHandler","proxy/websocket.go:44")], (), ["bytes at both ends, close frames, open connections"])

prop("C33", "QUIC connections get the same routing, access control and stream fidelity",
 "A QUIC connection is admitted, routed and refused by the same rules as a TLS connection with the same name, protocol, address and certificate. Each stream is carried to the backend byte-exactly with its own direction and end-of-stream, independent of the other streams, and every stream and connection is released when it ends.",
 ["configurations","schedules","inputs"], "all (name, ALPN, IP rule, certificate, mode) combinations of C01/C03/C04 over QUIC, and all event orders up to depth 4 over two streams of {write, fin, peer write, peer fin}",
 "The QUIC tests use one allowed client and complete streams.",
 ["proxy/quic.go","proxy/internal/netw/quic.go"],
 [("handleQUICConnection","proxy/quic.go:118"),("handleQUICQUICStream","proxy/quic.go:420")], (), ["upstream bytes per stream; client error codes"])

prop("C34", "Durable state survives a crash at any point",
 "If the process or machine stops at any instant while the proxy updates its stored state (signing keys, passkeys, certificate authority, SSH authority, OCSP cache, master key), the next start succeeds and finds each item either as it was before the update or as it was after it, and every update that was acknowledged is still there. No crash makes the proxy lose previously stored keys, revocations or registrations, or refuse to start. A wrong passphrase is refused and changes nothing.",
 ["crash_points","histories"], "for each short history of updates of each store: every prefix of the file-system operation log, with the last write torn at every block and unsynced effects dropped, followed by a real restart",
 "No test restarts after an interrupted write.",
 ["proxy/internal/tokenmanager/tokenmanager.go","proxy/internal/passkeys/manager.go","proxy/internal/pki/pki.go","proxy/internal/sshca/sshca.go","proxy/proxy.go"],
 [("OpenForUpdate/commit users","proxy/internal/tokenmanager/tokenmanager.go:130"),("New","proxy/proxy.go:171")], (), ["state observable after restart"])

prop("C35", "Login flows never redirect to, or accept state for, an unrelated site",
 "The destination a login, re-login, logout or permission-denied page sends the user to is always the address that this browser originally asked this proxy for, carried in a token that cannot be altered, moved to another browser session or replaced by a client-chosen address. Missing, altered, foreign or malformed tokens produce an error or a redirect inside the proxy's own hosts. Generated pages never contain client-controlled text unescaped.",
 ["inputs","histories"], "all (endpoint, token origin, browser, mutation, query/host spelling) combinations from a small alphabet of hostile URLs",
 "TestURLToken round-trips one URL.",
 ["proxy/internal/tokenmanager/urltoken.go","proxy/backend-sso.go"],
 [("URLToken","proxy/internal/tokenmanager/urltoken.go:65"),("serveLogin","proxy/backend-sso.go:203"),("servePermissionDenied","proxy/backend-sso.go:239")], (), ["Location header and body"])

prop("C36", "HTTP relaying is faithful and a cut-off response never looks complete",
 "A request forwarded to an HTTP backend arrives with the method, path, query, end-to-end headers and body the client sent, and the client receives the status, headers, trailers and body that the backend produced, for every combination of HTTP versions on the two sides and every body framing. If the backend fails or closes before its response is complete, the client can always tell that the response is incomplete. Concurrent or pipelined exchanges never mix their bytes.",
 ["inputs","fault_sequences","schedules"], "all (client protocol, backend protocol, method, body framing/size, status, response framing) combinations, with the backend failing at every point of its response, and two exchanges interleaved in every order",
 "TestReverseProxyGetPost checks complete small exchanges only; failures in mid-response are never produced.",
 ["proxy/backend-http.go","proxy/http.go"],
 [("reverseProxy","proxy/backend-http.go:194"),("panic/abort handling","proxy/backend-http.go:68")], (), ["request at the upstream, response and error at the client"])

prop("C37", "The status page shows true totals and never exposes secrets",
 "The status page and the configuration it displays never contain the client secret of an identity provider or of a local OpenID Connect client, nor a session token, for every configuration and every way those fields can be populated; looking at the page changes neither the configuration nor the secrets in use; and it is served only at the endpoints and behind the access policy configured. The numbers shown agree with what happened. Client-controlled text is always escaped.",
 ["configurations","inputs"], "all placements of marker secrets over the configuration's secret-bearing fields, and hostile names in every client-controlled field",
 "TestProxyBackends never looks at the page.",
 ["proxy/metrics.go","proxy/config.go"],
 [("metricsHandler","proxy/metrics.go:93"),("redaction","proxy/metrics.go:560")], (), ["page bytes"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
