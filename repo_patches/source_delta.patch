From 81388e635d485106da9e42f35597641cac56a87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 01/66] fix: forward path overrides of backends that have no
 addresses of their own

---
 proxy/backend-http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 2c136c7..083614a 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -285,7 +285,7 @@ func (be *Backend) reverseProxy() http.Handler {
 				break L
 			}
 		}
-		if len(be.Addresses) == 0 {
+		if override == "" && len(be.Addresses) == 0 {
 			be.serveStaticFiles(w, req, be.DocumentRoot, "")
 			return
 		}
-- 
2.43.0


From 8c20a0f8a360b4122305f10d2506ff7eb2e34a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 02/66] fix: send the server name as Host when the request has
 none

---
 proxy/backend-http.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 083614a..52917fc 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -220,6 +220,7 @@ func (be *Backend) reverseProxy() http.Handler {
 		host := req.Host
 		if host == "" {
 			host = serverName
+			req.Host = host
 		}
 		req.URL.Host = host
 		req.Header.Set(hostHeader, host)
-- 
2.43.0


From 2a41d0bfda5f2d6d1d48a488557eaa1552f4a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 03/66] fix: don't let clients strip the headers added by the
 proxy with Connection

---
 proxy/backend-http.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 52917fc..63bf309 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -299,6 +299,8 @@ func (be *Backend) reverseProxy() http.Handler {
 		h := sha256.Sum256(hostKey.Bytes())
 		req.URL.Host = hex.EncodeToString(h[:])
 
+		removeHopByHopHeaders(req.Header)
+
 		// Detect forwarding loops using the via headers.
 		me := localNetConn(req.Context().Value(connCtxKey).(anyConn)).LocalAddr().String()
 		var hops []string
@@ -355,6 +357,32 @@ func (be *Backend) reverseProxy() http.Handler {
 	})
 }
 
+// removeHopByHopHeaders removes the headers that the client listed in the
+// Connection header. The headers that are set by the proxy must not be listed
+// there anymore when the request is forwarded, otherwise they would be removed
+// too.
+func removeHopByHopHeaders(header http.Header) {
+	var upgrade bool
+	for _, f := range header["Connection"] {
+		for _, name := range strings.Split(f, ",") {
+			name = http.CanonicalHeaderKey(strings.TrimSpace(name))
+			switch name {
+			case "Upgrade":
+				upgrade = true
+			case "Te", viaHeader, http.CanonicalHeaderKey(xTLSProxyUserIDHeader):
+				// Te has its own rules. The others are not the
+				// client's to remove.
+			default:
+				header.Del(name)
+			}
+		}
+	}
+	header.Del("Connection")
+	if upgrade {
+		header.Set("Connection", "upgrade")
+	}
+}
+
 func addr2ip(addr net.Addr) string {
 	switch a := addr.(type) {
 	case *net.TCPAddr:
-- 
2.43.0


From cd072b163be1862a19058dcdecba1e7d89cfa385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 04/66] fix: don't forward the auth cookie when SSO isn't
 enforced

---
 proxy/backend-http.go                         | 1 +
 proxy/backend-sso.go                          | 9 +++++++++
 proxy/internal/cookiemanager/cookiemanager.go | 9 +++++++++
 3 files changed, 19 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 63bf309..d060f03 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -300,6 +300,7 @@ func (be *Backend) reverseProxy() http.Handler {
 		req.URL.Host = hex.EncodeToString(h[:])
 
 		removeHopByHopHeaders(req.Header)
+		be.filterOutSessionCookie(req)
 
 		// Detect forwarding loops using the via headers.
 		me := localNetConn(req.Context().Value(connCtxKey).(anyConn)).LocalAddr().String()
diff --git a/proxy/backend-sso.go b/proxy/backend-sso.go
index 644f33c..fd6dad9 100644
--- a/proxy/backend-sso.go
+++ b/proxy/backend-sso.go
@@ -344,6 +344,15 @@ func (be *Backend) enforceSSOPolicy(w http.ResponseWriter, req *http.Request) bo
 	return true
 }
 
+// filterOutSessionCookie removes the tlsproxy auth cookie from requests that
+// are about to be forwarded. The cookie is valid for the whole cookie domain.
+// So, it can be received on paths and by backends where SSO isn't enforced.
+func (be *Backend) filterOutSessionCookie(req *http.Request) {
+	if cookiemanager.HasAuthTokenCookie(req, be.tm) {
+		cookiemanager.FilterOutAuthTokenCookie(req)
+	}
+}
+
 func pathMatches(prefixes []string, path string) bool {
 	if len(prefixes) == 0 {
 		return true
diff --git a/proxy/internal/cookiemanager/cookiemanager.go b/proxy/internal/cookiemanager/cookiemanager.go
index f989cbc..08be29f 100644
--- a/proxy/internal/cookiemanager/cookiemanager.go
+++ b/proxy/internal/cookiemanager/cookiemanager.go
@@ -245,6 +245,15 @@ func (cm *CookieManager) ValidateAuthorizationHeader(req *http.Request) (*jwt.To
 	return tok, nil
 }
 
+// HasAuthTokenCookie returns whether the request has an auth cookie with a token
+// that was issued by the token manager.
+func HasAuthTokenCookie(req *http.Request, tm *tokenmanager.TokenManager) bool {
+	return slices.ContainsFunc(req.CookiesNamed(tlsProxyAuthCookie), func(c *http.Cookie) bool {
+		_, err := tm.ValidateToken(c.Value)
+		return err == nil
+	})
+}
+
 func FilterOutAuthTokenCookie(req *http.Request, names ...string) {
 	cookies := req.Cookies()
 	req.Header.Del("Cookie")
-- 
2.43.0


From 8da71160f51e256a41f99cc99a852923ba714e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 05/66] fix: let the http server abort responses that are cut
 off by the backend

---
 proxy/backend-http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index d060f03..c7c1e7f 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -202,6 +202,10 @@ func (be *Backend) reverseProxy() http.Handler {
 		defer func() {
 			if r := recover(); r != nil {
 				be.logPanic(req, r)
+				if r == http.ErrAbortHandler {
+					// Let the server abort the response.
+					panic(r)
+				}
 			}
 		}()
 		if !be.authenticateUser(w, &req) {
-- 
2.43.0


From 61832ec4dbbd2551dcdcf9d45187b614d37e8e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 06/66] fix: abort HTTP/3 responses that are cut off by the
 backend

---
 proxy/quic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index f05fe8e..e18063e 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -599,6 +599,9 @@ func http3Server(handler http.Handler) *http3.Server {
 			if _, ok := c.(*netw.QUICConn); !ok {
 				panic(fmt.Sprintf("http3.Server.ConnContext called with: %#v", c))
 			}
+			// httputil.ReverseProxy aborts a response that was cut off
+			// by the backend only when this key is set.
+			ctx = context.WithValue(ctx, http.ServerContextKey, &http.Server{})
 			return context.WithValue(ctx, connCtxKey, c)
 		},
 		EnableDatagrams: false,
-- 
2.43.0


From 3f8cba1ab16c774061bd8fce918b3d911e1e040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 07/66] fix: forward request bodies of unknown length whatever
 the method

---
 proxy/backend-http.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index c7c1e7f..e50a206 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -24,12 +24,14 @@
 package proxy
 
 import (
+	"bufio"
 	"bytes"
 	"context"
 	"crypto/sha256"
 	"crypto/tls"
 	"encoding/hex"
 	"fmt"
+	"io"
 	"net"
 	"net/http"
 	"net/http/httputil"
@@ -351,10 +353,19 @@ func (be *Backend) reverseProxy() http.Handler {
 		// To improve compatibility, we explicitly set the value to 0
 		// the HTTP methods don't expect a body and the client didn't
 		// provide a content length.
-		if req.ContentLength < 0 && req.Method != http.MethodPost && req.Method != http.MethodPut && req.Method != http.MethodPatch {
-			req.ContentLength = 0
+		if req.ContentLength < 0 && len(req.Trailer) == 0 && req.Method != http.MethodPost && req.Method != http.MethodPut && req.Method != http.MethodPatch {
+			// There may still be a body.
+			body := bufio.NewReader(req.Body)
+			if _, err := body.Peek(1); err == io.EOF {
+				req.ContentLength = 0
+			} else {
+				req.Body = struct {
+					io.Reader
+					io.Closer
+				}{body, req.Body}
+			}
 		}
-		if req.ContentLength == 0 && req.Body != nil {
+		if req.ContentLength == 0 && req.Body != nil && len(req.Trailer) == 0 {
 			req.Body.Close()
 			req.Body = nil
 		}
-- 
2.43.0


From 76fd87647434de3fe79c11a25ee169a4438436f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 08/66] fix: escape slashes in the subject of the XFCC header

---
 proxy/xfcc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/xfcc.go b/proxy/xfcc.go
index 39b63e5..8372f7c 100644
--- a/proxy/xfcc.go
+++ b/proxy/xfcc.go
@@ -86,6 +86,10 @@ func encodeXFCCSubject(input string) string {
 			esc = false
 			continue
 		}
+		if r == '/' {
+			// The RDNs are separated by slashes.
+			s.WriteByte('\\')
+		}
 
 		esc = !esc && r == '\\'
 		s.WriteRune(r)
-- 
2.43.0


From bb569bee275f0bded9bc6ecc2f168bf69e4f6cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 09/66] fix: don't crash when the configuration changes while
 connections are open

reAuthorize used a nil backend when the name of a connection is no longer
configured, or when the connection didn't have a backend yet.
---
 proxy/proxy.go | 33 +++++++++++++++++++++++++++------
 proxy/quic.go  |  6 ++----
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index fd4c9bc..4f41bd0 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -864,7 +864,10 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 
 func (p *Proxy) reAuthorize() {
 	for _, conn := range p.inConns.slice() {
-		if !connServerNameIsSet(conn) {
+		oldBE := connBackend(conn)
+		if oldBE == nil {
+			// The connection doesn't have a backend yet. It will get one
+			// from the new configuration.
 			continue
 		}
 		serverName := connServerName(conn)
@@ -872,11 +875,11 @@ func (p *Proxy) reAuthorize() {
 		be, err := p.backend(serverName, proto)
 		if err != nil {
 			p.recordEvent(err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
+			p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
 			conn.Close()
 			continue
 		}
-		if oldBE := connBackend(conn); be.Mode != oldBE.Mode {
+		if be.Mode != oldBE.Mode {
 			be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
 			conn.Close()
 			continue
@@ -1172,15 +1175,13 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 	}
 	conn.SetAnnotation(serverNameKey, serverName)
 
-	be, err := p.backend(serverName, hello.ALPNProtos...)
+	be, err := p.attachBackend(conn, serverName, hello.ALPNProtos...)
 	if err != nil {
 		p.recordEvent(err.Error())
 		p.logErrorF("BAD [-] %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
 		sendUnrecognizedName(conn)
 		return
 	}
-	conn.SetAnnotation(backendKey, be)
-	be.incInFlight(1)
 	p.setCounters(conn, serverName)
 	if l := be.bwLimit; l != nil {
 		conn.SetLimiters(l.ingress, l.egress)
@@ -1405,9 +1406,29 @@ func (p *Proxy) defaultServerName() string {
 	return p.defServerName
 }
 
+// attachBackend finds the backend of a new connection and attaches it to the
+// connection. The configuration can't change in between. So, either the
+// connection gets its backend from the new configuration, or reAuthorize sees
+// the connection's backend.
+func (p *Proxy) attachBackend(conn annotatedConnection, serverName string, protos ...string) (*Backend, error) {
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+	be, err := p.backendLocked(serverName, protos...)
+	if err != nil {
+		return nil, err
+	}
+	conn.SetAnnotation(backendKey, be)
+	be.incInFlight(1)
+	return be, nil
+}
+
 func (p *Proxy) backend(serverName string, protos ...string) (*Backend, error) {
 	p.mu.RLock()
 	defer p.mu.RUnlock()
+	return p.backendLocked(serverName, protos...)
+}
+
+func (p *Proxy) backendLocked(serverName string, protos ...string) (*Backend, error) {
 	var be *Backend
 	var ok bool
 	for _, proto := range protos {
diff --git a/proxy/quic.go b/proxy/quic.go
index e18063e..c605528 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -155,15 +155,13 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		sum = "-"
 	}
 
-	be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
+	be, err := p.attachBackend(qc, cs.ServerName, cs.NegotiatedProtocol)
 	if err != nil {
 		p.recordEvent(err.Error())
-		be.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
+		p.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
 		qc.CloseWithError(quicUnrecognizedName, "unrecognized name")
 		return
 	}
-	be.incInFlight(1)
-	qc.SetAnnotation(backendKey, be)
 	p.setCounters(qc, cs.ServerName)
 
 	if numOpen >= p.cfg.MaxOpen {
-- 
2.43.0


From c5e6574c6696c4ecd373764dd2df7e1e8942f4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 10/66] fix: re-authorize connections with the backend that was
 selected for them

Before a protocol is negotiated, or when none is, reAuthorize looked up the
backend without any protocol. When several backends share the server name, it
could find another backend with another mode and close a valid connection.
---
 proxy/proxy.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 4f41bd0..9f46c92 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -86,6 +86,7 @@ const (
 	internalConnKey  = "ic"
 	reportEndKey     = "re"
 	backendKey       = "be"
+	helloProtosKey   = "hp"
 	modeKey          = "m"
 	requestFlagKey   = "rf"
 	proxyProtoKey    = "pp"
@@ -871,8 +872,13 @@ func (p *Proxy) reAuthorize() {
 			continue
 		}
 		serverName := connServerName(conn)
-		proto := connProto(conn)
-		be, err := p.backend(serverName, proto)
+		// Until a protocol is negotiated, the backend is the one selected
+		// with the protocols offered by the client.
+		protos, _ := conn.Annotation(helloProtosKey, []string(nil)).([]string)
+		if proto := connProto(conn); proto != "" {
+			protos = []string{proto}
+		}
+		be, err := p.backend(serverName, protos...)
 		if err != nil {
 			p.recordEvent(err.Error())
 			p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
@@ -1174,6 +1180,7 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 		serverName = p.defaultServerName()
 	}
 	conn.SetAnnotation(serverNameKey, serverName)
+	conn.SetAnnotation(helloProtosKey, hello.ALPNProtos)
 
 	be, err := p.attachBackend(conn, serverName, hello.ALPNProtos...)
 	if err != nil {
-- 
2.43.0


From 9017df6ca0920a68b389bca4427489e1c8613206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 11/66] fix: close the connections that reach a backend after
 it was replaced

Their clients waited forever.
---
 proxy/http.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proxy/http.go b/proxy/http.go
index f511d55..cf226b4 100644
--- a/proxy/http.go
+++ b/proxy/http.go
@@ -90,7 +90,9 @@ func (l *proxyListener) Close() error {
 		l.closed = true
 		close(l.closedCh)
 		go func() {
-			for range l.ch {
+			// The connections that arrive too late can't be served.
+			for c := range l.ch {
+				c.Close()
 			}
 		}()
 	}
-- 
2.43.0


From 09572b59f2471b9343be352fb7ddb0bca9a5d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 12/66] fix: don't hand connections over to an http server that
 is closed

Sending on the closed channel panicked.
---
 proxy/backend.go | 51 ++++++++++++++++++++++++++++++++----------------
 proxy/proxy.go   |  4 +++-
 proxy/quic.go    |  3 +--
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index 4187ce7..00acbdb 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -45,11 +45,40 @@ func (be *Backend) incInFlight(delta int) int {
 	be.state.mu.Lock()
 	defer be.state.mu.Unlock()
 	be.state.inFlight += delta
+	be.closeConnChanLocked()
+	return be.state.inFlight
+}
+
+// closeConnChanLocked closes the channel of the http server when the backend is
+// shut down and nothing can use the channel anymore.
+func (be *Backend) closeConnChanLocked() {
 	if be.state.inFlight == 0 && be.state.shutdown && be.httpServer != nil {
 		close(be.httpConnChan)
 		be.httpServer = nil
+		be.closeHTTP3Locked()
 	}
-	return be.state.inFlight
+}
+
+func (be *Backend) closeHTTP3Locked() {
+	if h3 := be.http3Server; h3 != nil {
+		be.http3Server = nil
+		go h3.Close()
+	}
+}
+
+// handOver gives conn to the http server. It returns false when the server is
+// already closed.
+func (be *Backend) handOver(conn net.Conn) bool {
+	be.state.mu.Lock()
+	if be.httpServer == nil {
+		be.state.mu.Unlock()
+		return false
+	}
+	be.state.inFlight++
+	be.state.mu.Unlock()
+	defer be.incInFlight(-1)
+	be.httpConnChan <- conn
+	return true
 }
 
 func (be *Backend) close(ctx context.Context) {
@@ -59,25 +88,13 @@ func (be *Backend) close(ctx context.Context) {
 		return
 	}
 	if ctx == nil {
-		close(be.httpConnChan)
 		go be.httpServer.Close()
-		be.httpServer = nil
-		if h3 := be.http3Server; h3 != nil {
-			be.http3Server = nil
-			go h3.Close()
-		}
-		return
+		be.closeHTTP3Locked()
+	} else {
+		go be.httpServer.Shutdown(ctx)
 	}
-	go be.httpServer.Shutdown(ctx)
 	be.state.shutdown = true
-	if be.state.inFlight == 0 {
-		close(be.httpConnChan)
-		be.httpServer = nil
-		if h3 := be.http3Server; h3 != nil {
-			be.http3Server = nil
-			go h3.Close()
-		}
-	}
+	be.closeConnChanLocked()
 }
 
 func (be *Backend) dial(ctx context.Context, protos ...string) (net.Conn, error) {
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 9f46c92..5fcb3ac 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -1321,7 +1321,9 @@ func (p *Proxy) handleHTTPConnection(conn *tls.Conn) {
 	}
 	annotatedConn(conn).SetAnnotation(reportEndKey, true)
 	be.logConnF("CON %s", formatConnDesc(conn.NetConn().(*netw.Conn)))
-	be.httpConnChan <- conn
+	if !be.handOver(conn) {
+		conn.Close()
+	}
 }
 
 func (p *Proxy) handleTLSConnection(extConn *tls.Conn) {
diff --git a/proxy/quic.go b/proxy/quic.go
index c605528..691d461 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -368,8 +368,7 @@ func (p *Proxy) handleQUICTCPStream(ctx context.Context, be *Backend, conn *netw
 	switch be.Mode {
 	case ModeConsole, ModeLocal, ModeHTTP, ModeHTTPS:
 		be.logConnF("STR %s", formatConnDesc(conn))
-		closeConnNeeded = false
-		be.httpConnChan <- conn
+		closeConnNeeded = !be.handOver(conn)
 
 	case ModeTCP, ModeTLS:
 		intConn, err := be.dial(ctx, connProto(conn))
-- 
2.43.0


From c71c6cbdc91fb367cf8e4f81afa853137f378076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:30 +0000
Subject: [PATCH 13/66] fix: don't count connections that were closed before
 they had a backend

The count never went back to zero, and the backend's server was never
released.
---
 proxy/backend.go | 21 +++++++++++++++++++++
 proxy/proxy.go   | 13 ++++++++++---
 proxy/quic.go    |  3 ++-
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index 00acbdb..a68d1e7 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -49,6 +49,27 @@ func (be *Backend) incInFlight(delta int) int {
 	return be.state.inFlight
 }
 
+// attach makes be the backend of conn.
+func (be *Backend) attach(conn annotatedConnection) {
+	be.state.mu.Lock()
+	defer be.state.mu.Unlock()
+	conn.SetAnnotation(backendKey, be)
+	conn.SetAnnotation(inFlightKey, true)
+	be.state.inFlight++
+}
+
+// detach is called when conn is closed.
+func (be *Backend) detach(conn annotatedConnection) {
+	be.state.mu.Lock()
+	defer be.state.mu.Unlock()
+	if !conn.Annotation(inFlightKey, false).(bool) {
+		return
+	}
+	conn.SetAnnotation(inFlightKey, false)
+	be.state.inFlight--
+	be.closeConnChanLocked()
+}
+
 // closeConnChanLocked closes the channel of the http server when the backend is
 // shut down and nothing can use the channel anymore.
 func (be *Backend) closeConnChanLocked() {
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 5fcb3ac..eacbdc5 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -87,6 +87,8 @@ const (
 	reportEndKey     = "re"
 	backendKey       = "be"
 	helloProtosKey   = "hp"
+	inFlightKey      = "if"
+	closedKey        = "cl"
 	modeKey          = "m"
 	requestFlagKey   = "rf"
 	proxyProtoKey    = "pp"
@@ -1149,8 +1151,9 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 	numOpen := p.inConns.add(conn)
 	conn.OnClose(func() {
 		p.inConns.remove(conn)
+		conn.SetAnnotation(closedKey, true)
 		if be := connBackend(conn); be != nil {
-			be.incInFlight(-1)
+			be.detach(conn)
 			if conn.Annotation(reportEndKey, false).(bool) {
 				startTime := conn.Annotation(startTimeKey, time.Time{}).(time.Time)
 				be.logConnF("END %s; Dur:%s Recv:%d Sent:%d",
@@ -1426,8 +1429,12 @@ func (p *Proxy) attachBackend(conn annotatedConnection, serverName string, proto
 	if err != nil {
 		return nil, err
 	}
-	conn.SetAnnotation(backendKey, be)
-	be.incInFlight(1)
+	be.attach(conn)
+	if conn.Annotation(closedKey, false).(bool) {
+		// The connection was closed before it had a backend.
+		be.detach(conn)
+		return nil, net.ErrClosed
+	}
 	return be, nil
 }
 
diff --git a/proxy/quic.go b/proxy/quic.go
index 691d461..24febb3 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -129,8 +129,9 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	numOpen := p.inConns.add(qc)
 	qc.OnClose(func() {
 		p.inConns.remove(qc)
+		qc.SetAnnotation(closedKey, true)
 		if be := connBackend(qc); be != nil {
-			be.incInFlight(-1)
+			be.detach(qc)
 			startTime := qc.Annotation(startTimeKey, time.Time{}).(time.Time)
 			be.logConnF("END %s; Dur:%s Recv:%d Sent:%d",
 				formatConnDesc(qc), time.Since(startTime).Truncate(time.Millisecond),
-- 
2.43.0


From fb31bdac41dfe9bea02b58ec96d092ff60ce212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:56 +0000
Subject: [PATCH 14/66] fix: verify client certificates again when the
 configuration changes

Connections without a certificate that is now required crashed the proxy
or stayed open. Connections were judged with the wrong certificate pool
and, during the handshake, with the backend of another protocol.
---
 proxy/proxy.go | 192 +++++++++++++++++++++++++++++++------------------
 proxy/quic.go  |   8 +++
 2 files changed, 129 insertions(+), 71 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index eacbdc5..8be5ab1 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -89,6 +89,7 @@ const (
 	helloProtosKey   = "hp"
 	inFlightKey      = "if"
 	closedKey        = "cl"
+	connStateKey     = "cs"
 	modeKey          = "m"
 	requestFlagKey   = "rf"
 	proxyProtoKey    = "pp"
@@ -588,41 +589,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 				}
 			}
 			tc.VerifyConnection = func(cs tls.ConnectionState) error {
-				be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
-				if err != nil {
-					return tlsUnrecognizedName
-				}
-				if be.ClientAuth == nil {
-					return nil
-				}
-				if len(cs.PeerCertificates) == 0 || len(cs.VerifiedChains) == 0 {
-					p.recordEvent(fmt.Sprintf("deny no cert to %s", idnaToUnicode(cs.ServerName)))
-					if cs.Version == tls.VersionTLS12 {
-						return tlsBadCertificate
-					}
-					return tlsCertificateRequired
-				}
-				cert := cs.PeerCertificates[0]
-				sum := certSummary(cert)
-				if m, ok := be.pkiMap[hex.EncodeToString(cert.AuthorityKeyId)]; ok {
-					if m.IsRevoked(cert.SerialNumber) {
-						p.recordEvent(fmt.Sprintf("deny X509 [%s] to %s (revoked)", sum, idnaToUnicode(cs.ServerName)))
-						return tlsCertificateRevoked
-					}
-				} else if len(cert.OCSPServer) > 0 {
-					if err := p.ocspCache.VerifyChains(cs.VerifiedChains, cs.OCSPResponse); err != nil {
-						p.recordEvent(fmt.Sprintf("deny X509 [%s] to %s (OCSP:%v)", sum, idnaToUnicode(cs.ServerName), err))
-						return tlsCertificateRevoked
-					}
-				}
-				if err := be.authorize(cert); err != nil {
-					p.recordEvent(fmt.Sprintf("deny X509 [%s] to %s", sum, idnaToUnicode(cs.ServerName)))
-					return tlsAccessDenied
-				}
-				if sum != "" {
-					p.recordEvent(fmt.Sprintf("allow X509 [%s] to %s", sum, idnaToUnicode(cs.ServerName)))
-				}
-				return nil
+				return p.verifyClientCert(be, cs)
 			}
 		}
 		if be.ALPNProtos != nil {
@@ -865,52 +832,125 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 	return nil
 }
 
-func (p *Proxy) reAuthorize() {
-	for _, conn := range p.inConns.slice() {
-		oldBE := connBackend(conn)
-		if oldBE == nil {
-			// The connection doesn't have a backend yet. It will get one
-			// from the new configuration.
-			continue
+// verifyClientCert checks the revocation status of the client's certificate and
+// the backend's ACL. The certificate chain is already verified.
+func (p *Proxy) verifyClientCert(be *Backend, cs tls.ConnectionState) error {
+	if be.ClientAuth == nil {
+		return nil
+	}
+	if len(cs.PeerCertificates) == 0 || len(cs.VerifiedChains) == 0 {
+		p.recordEvent(fmt.Sprintf("deny no cert to %s", idnaToUnicode(cs.ServerName)))
+		if cs.Version == tls.VersionTLS12 {
+			return tlsBadCertificate
 		}
-		serverName := connServerName(conn)
-		// Until a protocol is negotiated, the backend is the one selected
-		// with the protocols offered by the client.
-		protos, _ := conn.Annotation(helloProtosKey, []string(nil)).([]string)
-		if proto := connProto(conn); proto != "" {
-			protos = []string{proto}
+		return tlsCertificateRequired
+	}
+	cert := cs.PeerCertificates[0]
+	sum := certSummary(cert)
+	if m, ok := be.pkiMap[hex.EncodeToString(cert.AuthorityKeyId)]; ok {
+		if m.IsRevoked(cert.SerialNumber) {
+			p.recordEvent(fmt.Sprintf("deny X509 [%s] to %s (revoked)", sum, idnaToUnicode(cs.ServerName)))
+			return tlsCertificateRevoked
 		}
-		be, err := p.backend(serverName, protos...)
-		if err != nil {
-			p.recordEvent(err.Error())
-			p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
-			conn.Close()
-			continue
+	} else if len(cert.OCSPServer) > 0 {
+		if err := p.ocspCache.VerifyChains(cs.VerifiedChains, cs.OCSPResponse); err != nil {
+			p.recordEvent(fmt.Sprintf("deny X509 [%s] to %s (OCSP:%v)", sum, idnaToUnicode(cs.ServerName), err))
+			return tlsCertificateRevoked
 		}
-		if be.Mode != oldBE.Mode {
-			be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
-			conn.Close()
-			continue
+	}
+	if err := be.authorize(cert); err != nil {
+		p.recordEvent(fmt.Sprintf("deny X509 [%s] to %s", sum, idnaToUnicode(cs.ServerName)))
+		return tlsAccessDenied
+	}
+	if sum != "" {
+		p.recordEvent(fmt.Sprintf("allow X509 [%s] to %s", sum, idnaToUnicode(cs.ServerName)))
+	}
+	return nil
+}
+
+// reVerifyClientCert is used when the TLS handshake was done with another
+// configuration. The client's certificate has to be verified again.
+func (p *Proxy) reVerifyClientCert(be *Backend, cs tls.ConnectionState) error {
+	if be.ClientAuth == nil {
+		return nil
+	}
+	cs.VerifiedChains = nil
+	if len(cs.PeerCertificates) > 0 {
+		opts := x509.VerifyOptions{
+			Roots:         be.tlsConfig.ClientCAs,
+			Intermediates: x509.NewCertPool(),
+			KeyUsages:     []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth},
 		}
-		if err := be.checkIP(conn.RemoteAddr()); err != nil {
-			p.recordEvent(serverName + " CheckIP " + err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q CheckIP: %v", conn.RemoteAddr(), idnaToUnicode(serverName), err)
-			conn.Close()
-			continue
+		for _, cert := range cs.PeerCertificates[1:] {
+			opts.Intermediates.AddCert(cert)
 		}
-		if be.ClientAuth == nil {
-			continue
+		chains, err := cs.PeerCertificates[0].Verify(opts)
+		if err != nil {
+			p.recordEvent(fmt.Sprintf("deny X509 [%s] to %s (%v)", certSummary(cs.PeerCertificates[0]), idnaToUnicode(cs.ServerName), err))
+			return tlsBadCertificate
 		}
-		clientCert := connClientCert(conn)
-		if err := be.authorize(clientCert); err != nil {
-			p.recordEvent(err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
+		cs.VerifiedChains = chains
+	}
+	return p.verifyClientCert(be, cs)
+}
+
+func (p *Proxy) reAuthorize() {
+	for _, conn := range p.inConns.slice() {
+		if !p.reAuthorizeConn(conn) {
 			conn.Close()
-			continue
 		}
 	}
 }
 
+// reAuthorizeConn checks whether the current configuration still admits a
+// connection that was opened with an earlier one.
+func (p *Proxy) reAuthorizeConn(conn annotatedConnection) bool {
+	oldBE := connBackend(conn)
+	if oldBE == nil {
+		// The connection doesn't have a backend yet. It will get one
+		// from the new configuration.
+		return true
+	}
+	serverName := connServerName(conn)
+	// The backend is selected with the protocols offered by the client.
+	// With QUIC, it is selected with the negotiated protocol.
+	protos, ok := conn.Annotation(helloProtosKey, nil).([]string)
+	if !ok {
+		protos = []string{connProto(conn)}
+	}
+	be, err := p.backend(serverName, protos...)
+	if err != nil {
+		p.recordEvent(err.Error())
+		p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
+		return false
+	}
+	if be == oldBE {
+		return true
+	}
+	if be.Mode != oldBE.Mode {
+		be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
+		return false
+	}
+	if err := be.checkIP(conn.RemoteAddr()); err != nil {
+		p.recordEvent(serverName + " CheckIP " + err.Error())
+		be.logErrorF("BAD [-] ReAuth %s ➔ %q CheckIP: %v", conn.RemoteAddr(), idnaToUnicode(serverName), err)
+		return false
+	}
+	cs, ok := conn.Annotation(connStateKey, nil).(tls.ConnectionState)
+	if !ok {
+		// When the TLS handshake is in progress, the client is not
+		// authenticated yet. The connection will be checked again.
+		return true
+	}
+	if err := p.reVerifyClientCert(be, cs); err != nil {
+		clientCert := connClientCert(conn)
+		p.recordEvent(err.Error())
+		be.logErrorF("BAD [-] ReAuth %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
+		return false
+	}
+	return true
+}
+
 // Start starts a TLS proxy with the given configuration. The proxy runs
 // in background until the context is canceled.
 func (p *Proxy) Start(ctx context.Context) error {
@@ -1285,6 +1325,7 @@ func (p *Proxy) authorizeTLSConnection(conn *tls.Conn) bool {
 	}
 	annotatedConn(conn).SetAnnotation(protoKey, proto)
 	annotatedConn(conn).SetAnnotation(clientCertKey, clientCert)
+	annotatedConn(conn).SetAnnotation(connStateKey, cs)
 
 	// The check below is also done in VerifyConnection.
 	if be.ClientAuth != nil && be.ClientAuth.ACL != nil {
@@ -1294,7 +1335,16 @@ func (p *Proxy) authorizeTLSConnection(conn *tls.Conn) bool {
 			return false
 		}
 	}
-	return true
+	// The check below is also done in VerifyConnection.
+	if be.ClientAuth != nil && be.ClientAuth.ACL != nil {
+		if err := be.authorize(clientCert); err != nil {
+			p.recordEvent(err.Error())
+			be.logErrorF("BAD [-] %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
+			return false
+		}
+	}
+	// The configuration may have changed during the handshake.
+	return p.reAuthorizeConn(annotatedConn(conn))
 }
 
 func (p *Proxy) handleHTTPConnection(conn *tls.Conn) {
diff --git a/proxy/quic.go b/proxy/quic.go
index 24febb3..9c2eba1 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -165,6 +165,14 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	}
 	p.setCounters(qc, cs.ServerName)
 
+	// The configuration may have changed since the TLS handshake.
+	qc.SetAnnotation(connStateKey, cs)
+	if err := p.reVerifyClientCert(be, cs); err != nil {
+		be.logErrorF("BAD [%s] %s:%s ➔ %q Authorize: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), err)
+		qc.CloseWithError(quicAccessDenied, "access denied")
+		return
+	}
+
 	if numOpen >= p.cfg.MaxOpen {
 		p.recordEvent("too many open connections")
 		be.logErrorF("ERR [%s] %s:%s: too many open connections: %d >= %d", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), numOpen, p.cfg.MaxOpen)
-- 
2.43.0


From 95084c44dc0af8ffa657a329042bfa68acda5547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 15/66] fix: try each backend address once per dial when dials
 are concurrent

---
 proxy/backend.go | 19 +++++++++++++------
 proxy/quic.go    | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index a68d1e7..01183af 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -168,15 +168,22 @@ func (be *Backend) dial(ctx context.Context, protos ...string) (net.Conn, error)
 			return nil
 		},
 	}
-	var max int
+	sz := len(addresses)
+	max := sz
+	idx := -1
 	for {
+		// Each attempt tries each address at most once, starting with
+		// the next one, even when other attempts are in progress.
 		be.state.mu.Lock()
-		sz := len(addresses)
-		if max == 0 {
-			max = sz
+		if idx < 0 {
+			idx = *next
+		} else {
+			idx = (idx + 1) % sz
+		}
+		if *next == idx {
+			*next = (idx + 1) % sz
 		}
-		addr := addresses[*next]
-		*next = (*next + 1) % sz
+		addr := addresses[idx]
 		be.state.mu.Unlock()
 
 		var c net.Conn
diff --git a/proxy/quic.go b/proxy/quic.go
index 9c2eba1..e403820 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -549,15 +549,22 @@ func (be *Backend) dialQUICBackend(ctx context.Context, proto string) (*netw.QUI
 		},
 	}
 
-	var max int
+	sz := len(addresses)
+	max := sz
+	idx := -1
 	for {
+		// Each attempt tries each address at most once, starting with
+		// the next one, even when other attempts are in progress.
 		be.state.mu.Lock()
-		sz := len(addresses)
-		if max == 0 {
-			max = sz
+		if idx < 0 {
+			idx = *next
+		} else {
+			idx = (idx + 1) % sz
 		}
-		addr := addresses[*next]
-		*next = (*next + 1) % sz
+		if *next == idx {
+			*next = (idx + 1) % sz
+		}
+		addr := addresses[idx]
 		be.state.mu.Unlock()
 
 		ctx, cancel := context.WithTimeout(ctx, timeout)
-- 
2.43.0


From 7c008de1aa68e1dda5c483467545615cd903ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 16/66] fix: match the names of bandwidth limits exactly
 wherever they are used

---
 proxy/proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 8be5ab1..1c6d72b 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -417,7 +417,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 
 	for _, bwl := range cfg.BWLimits {
 		const minBurst = 1 << 17 // 128 KB
-		name := strings.ToLower(bwl.Name)
+		name := bwl.Name
 		if l, ok := p.bwLimits[name]; ok {
 			l.ingress.SetLimit(rate.Limit(bwl.Ingress))
 			l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
-- 
2.43.0


From 45df078197a1f080721c3eb64e3c3156eedc2ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 17/66] fix: don't parse a ClientHello beyond the end of its
 handshake message

---
 proxy/hello.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/proxy/hello.go b/proxy/hello.go
index 0ba263a..af672ae 100644
--- a/proxy/hello.go
+++ b/proxy/hello.go
@@ -73,11 +73,17 @@ func peekClientHello(c peeker) (hello clientHello, err error) {
 	//          ...
 	//      };
 	// } Handshake;
-	if buf[0] != 0x01 { // ClientHello
-		return hello, fmt.Errorf("msg_type 0x%x != 0x01", buf[0])
-	}
 	s = cryptobyte.String(buf)
-	if !s.Skip(4) { // msg_type(1), length(3)
+	var msgType uint8
+	if !s.ReadUint8(&msgType) {
+		return hello, errors.New("invalid format")
+	}
+	if msgType != 0x01 { // ClientHello
+		return hello, fmt.Errorf("msg_type 0x%x != 0x01", msgType)
+	}
+	// The ClientHello ends where the message ends. Whatever follows it in the
+	// same record is not part of it.
+	if !s.ReadUint24LengthPrefixed(&s) {
 		return hello, errors.New("invalid format")
 	}
 
-- 
2.43.0


From bdfbd5e5340d249103245a63a71548caa50ccb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 18/66] fix: half-close connections that use the proxy protocol

---
 proxy/backend.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index 01183af..128d439 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -373,8 +373,11 @@ func closeWrite(c net.Conn) error {
 	if cc, ok := c.(closeWriter); ok {
 		return cc.CloseWrite()
 	}
-	if cc, ok := c.(*netw.Conn); ok {
+	switch cc := c.(type) {
+	case *netw.Conn:
 		return closeWrite(cc.Conn)
+	case *proxyproto.Conn:
+		return closeWrite(cc.Raw())
 	}
 	return fmt.Errorf("unexpected type: %T", c)
 }
@@ -386,8 +389,11 @@ func closeRead(c net.Conn) error {
 	if cc, ok := c.(closeReader); ok {
 		return cc.CloseRead()
 	}
-	if cc, ok := c.(*netw.Conn); ok {
+	switch cc := c.(type) {
+	case *netw.Conn:
 		return closeRead(cc.Conn)
+	case *proxyproto.Conn:
+		return closeRead(cc.Raw())
 	}
 	return nil
 }
-- 
2.43.0


From 353911b835fd560f7f4af542b3034c94c85c1a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 19/66] fix: don't wait for the proxy protocol header of
 connections over the limit

---
 proxy/proxy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 1c6d72b..ee4a54c 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -1205,7 +1205,9 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 	})
 	if numOpen >= p.cfg.MaxOpen {
 		p.recordEvent("too many open connections")
-		p.logErrorF("ERR [-] %s: too many open connections: %d >= %d", conn.RemoteAddr(), numOpen, p.cfg.MaxOpen)
+		// With the proxy protocol, conn.RemoteAddr() would wait for the
+		// header.
+		p.logErrorF("ERR [-] %s: too many open connections: %d >= %d", localNetConn(conn).RemoteAddr(), numOpen, p.cfg.MaxOpen)
 		sendCloseNotify(conn)
 		return
 	}
-- 
2.43.0


From d48bc333c15ccda2bdfad72e011609d8ecb78206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 20/66] fix: look at all the Via headers, however they are
 formatted, to detect loops

---
 proxy/backend-http.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index e50a206..d042b42 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -311,15 +311,15 @@ func (be *Backend) reverseProxy() http.Handler {
 		// Detect forwarding loops using the via headers.
 		me := localNetConn(req.Context().Value(connCtxKey).(anyConn)).LocalAddr().String()
 		var hops []string
-		if h := req.Header.Get(viaHeader); h != "" {
+		if h := strings.Join(req.Header.Values(viaHeader), ", "); h != "" {
 			hops = commaRE.Split(h, -1)
 		}
 		for _, via := range hops {
-			if _, via, _ = strings.Cut(via, " "); via == me {
+			if f := strings.Fields(via); len(f) > 1 && f[1] == me {
 				if req.Body != nil {
 					req.Body.Close()
 				}
-				http.Error(w, req.Header.Get(viaHeader), http.StatusLoopDetected)
+				http.Error(w, strings.Join(hops, ", "), http.StatusLoopDetected)
 				return
 			}
 		}
-- 
2.43.0


From d2fb50cc5934c0a8bcf8e80157c532789aed5579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 21/66] fix: close idle http/2 connections to the backends

---
 proxy/backend-http.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index d042b42..ffd3188 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -532,6 +532,7 @@ func (be *Backend) reverseProxyTransport() http.RoundTripper {
 		},
 		DisableCompression: true,
 		AllowHTTP:          true,
+		IdleConnTimeout:    10 * time.Second,
 		ReadIdleTimeout:    10 * time.Second,
 		WriteByteTimeout:   30 * time.Second,
 		CountError: func(errType string) {
-- 
2.43.0


From 113b68e94dba30b834b935fceb724edc39d79ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 22/66] fix: oidc: require the ID token's nonce to be the one
 of the request

A token with the nonce of any other login in progress was accepted, in the
name of that other login.
---
 proxy/internal/oidc/client.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/proxy/internal/oidc/client.go b/proxy/internal/oidc/client.go
index 872b074..d8e545d 100644
--- a/proxy/internal/oidc/client.go
+++ b/proxy/internal/oidc/client.go
@@ -300,12 +300,18 @@ func (p *ProviderClient) HandleCallback(w http.ResponseWriter, req *http.Request
 		http.Error(w, "no user info", http.StatusInternalServerError)
 		return
 	}
-	if claims.Nonce == "" {
+	if data.IDToken == "" {
+		// The nonce is only included in the ID token.
 		claims.Nonce = nonce
 	}
+	if claims.Nonce != nonce {
+		p.er.Record("invalid nonce")
+		http.Error(w, "invalid nonce", http.StatusForbidden)
+		return
+	}
 	p.mu.Lock()
-	state, ok = p.states[claims.Nonce]
-	delete(p.states, claims.Nonce)
+	state, ok = p.states[nonce]
+	delete(p.states, nonce)
 	p.mu.Unlock()
 	if !ok {
 		p.er.Record("invalid nonce")
-- 
2.43.0


From fc69b49d11d2c3df024c3dbd2274ab55ac42e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 23/66] fix: tokenmanager: don't remove keys that signed tokens
 that are still valid

After some downtime, or when new keys couldn't be saved, the oldest keys were
removed as soon as newer ones were added, and even used to sign new tokens until
then.
---
 proxy/internal/tokenmanager/tokenmanager.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index 7178468..fabf284 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -156,7 +156,7 @@ func (tm *TokenManager) rotateKeys() (retErr error) {
 		keys.Keys = append(keys.Keys, tk...)
 		changed = true
 	}
-	if keys.Keys[0].CreationTime.Add(7 * 24 * time.Hour).Before(now) {
+	if canRemoveOldest(keys.Keys, now) {
 		keys.Keys = keys.Keys[1:]
 		changed = true
 	}
@@ -190,6 +190,16 @@ func (tm *TokenManager) rotateKeys() (retErr error) {
 	return commit(true, nil)
 }
 
+// canRemoveOldest returns whether the oldest key can be removed, i.e. it is old
+// enough, and it was replaced by newer keys long enough ago that all the tokens
+// signed with it have expired.
+func canRemoveOldest(keys []*tokenKey, now time.Time) bool {
+	oldest := keys[0].CreationTime
+	return oldest.Add(7*24*time.Hour).Before(now) && slices.ContainsFunc(keys, func(k *tokenKey) bool {
+		return k.CreationTime.After(oldest.Add(time.Hour)) && k.CreationTime.Add(2*time.Hour+24*time.Hour).Before(now)
+	})
+}
+
 func (tm *TokenManager) createNewTokenKeys() ([]*tokenKey, error) {
 	if tm.tpm != nil {
 		ecKey, err := tm.createNewTPMECDSATokenKey()
-- 
2.43.0


From 1a4feeb92be14b9045e40c306d522edb93b464db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 24/66] fix: tokenmanager: publish EC coordinates with their
 full size

RFC 7518 requires the leading zeros.
---
 proxy/internal/tokenmanager/tokenmanager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index fabf284..9bbcc23 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -472,8 +472,8 @@ func (tm *TokenManager) ServeJWKS(w http.ResponseWriter, req *http.Request) {
 				ID:    key.ID,
 				Alg:   "ES256",
 				Curve: "P-256",
-				X:     base64.RawURLEncoding.EncodeToString(pub.X.Bytes()),
-				Y:     base64.RawURLEncoding.EncodeToString(pub.Y.Bytes()),
+				X:     base64.RawURLEncoding.EncodeToString(pub.X.FillBytes(make([]byte, 32))),
+				Y:     base64.RawURLEncoding.EncodeToString(pub.Y.FillBytes(make([]byte, 32))),
 			})
 		case ed25519.PublicKey:
 			out.Keys = append(out.Keys, jwk{
-- 
2.43.0


From 4eee2df64dfcb1539abc25ff250562df967a62e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 25/66] fix: tokenmanager: only use keys that are saved

When the keys can't be saved, and then not read, tokens were signed with keys
that didn't survive.
---
 proxy/internal/tokenmanager/tokenmanager.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index 9bbcc23..52bf7b5 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -160,7 +160,8 @@ func (tm *TokenManager) rotateKeys() (retErr error) {
 		keys.Keys = keys.Keys[1:]
 		changed = true
 	}
-	if !changed && len(tm.keys.Keys) > 0 {
+	sameID := func(a, b *tokenKey) bool { return a.ID == b.ID }
+	if !changed && slices.EqualFunc(keys.Keys, tm.keys.Keys, sameID) {
 		return nil
 	}
 
@@ -184,10 +185,13 @@ func (tm *TokenManager) rotateKeys() (retErr error) {
 	keys.Keys = slices.DeleteFunc(keys.Keys, func(k *tokenKey) bool {
 		return k.privKey == nil
 	})
+	if err := commit(true, nil); err != nil {
+		return err
+	}
 	tm.mu.Lock()
 	tm.keys = keys
 	tm.mu.Unlock()
-	return commit(true, nil)
+	return nil
 }
 
 // canRemoveOldest returns whether the oldest key can be removed, i.e. it is old
-- 
2.43.0


From 9c8d26fb036156411677387f93a2bc643229a2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:59 +0000
Subject: [PATCH 26/66] fix: create data files and the master key atomically

A crash while these files were created for the first time could leave an
incomplete file behind, with which the proxy would never start again.
---
 proxy/internal/datafile/datafile.go         | 64 +++++++++++++++++++++
 proxy/internal/passkeys/manager.go          |  5 +-
 proxy/internal/pki/pki.go                   |  5 +-
 proxy/internal/sshca/sshca.go               |  5 +-
 proxy/internal/tokenmanager/tokenmanager.go |  6 +-
 proxy/proxy.go                              |  9 ++-
 6 files changed, 88 insertions(+), 6 deletions(-)
 create mode 100644 proxy/internal/datafile/datafile.go

diff --git a/proxy/internal/datafile/datafile.go b/proxy/internal/datafile/datafile.go
new file mode 100644
index 0000000..4fc23bb
--- /dev/null
+++ b/proxy/internal/datafile/datafile.go
@@ -0,0 +1,64 @@
+// MIT License
+//
+// Copyright (c) 2024 TTBT Enterprises LLC
+// Copyright (c) 2024 Robin Thellend <rthellend@rthellend.com>
+//
+// Permission is hereby granted, free of charge, to any person obtaining a copy
+// of this software and associated documentation files (the "Software"), to deal
+// in the Software without restriction, including without limitation the rights
+// to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the Software is
+// furnished to do so, subject to the following conditions:
+//
+// The above copyright notice and this permission notice shall be included in all
+// copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+// IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+// FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+// AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+// LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+// OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
+// SOFTWARE.
+
+// Package datafile has functions that create files in such a way that they are
+// never seen half-written, even if the system stops at the wrong time.
+package datafile
+
+import (
+	"errors"
+	"os"
+	"path/filepath"
+
+	"github.com/c2FmZQ/storage"
+)
+
+// CreateIfNotExist creates a data file containing obj, unless a file with that
+// name exists already.
+func CreateIfNotExist(store *storage.Storage, filename string, obj any) error {
+	if _, err := os.Stat(filepath.Join(store.Dir(), filename)); !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	return store.SaveDataFile(filename, obj)
+}
+
+// Write calls save to create the content of a temporary file, and then
+// atomically renames it to filename.
+func Write(filename string, save func(tmp string) error) error {
+	tmp := filename + ".tmp"
+	if err := save(tmp); err != nil {
+		return err
+	}
+	f, err := os.OpenFile(tmp, os.O_RDWR, 0)
+	if err != nil {
+		return err
+	}
+	if err := f.Sync(); err != nil {
+		f.Close()
+		return err
+	}
+	if err := f.Close(); err != nil {
+		return err
+	}
+	return os.Rename(tmp, filename)
+}
diff --git a/proxy/internal/passkeys/manager.go b/proxy/internal/passkeys/manager.go
index dba74a4..cc9de13 100644
--- a/proxy/internal/passkeys/manager.go
+++ b/proxy/internal/passkeys/manager.go
@@ -52,6 +52,7 @@ import (
 	jwt "github.com/golang-jwt/jwt/v5"
 
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/idp"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
 )
@@ -129,7 +130,9 @@ func NewManager(cfg Config) (*Manager, error) {
 	}
 	m.db.Handles = make(map[string]*user)
 	m.db.Subjects = make(map[string]string)
-	m.cfg.Store.CreateEmptyFile(passkeyFile, &m.db)
+	if err := datafile.CreateIfNotExist(m.cfg.Store, passkeyFile, &m.db); err != nil {
+		return nil, err
+	}
 	if err := m.cfg.Store.ReadDataFile(passkeyFile, &m.db); err != nil {
 		return nil, err
 	}
diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index c2111f9..6acd9a0 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -52,6 +52,7 @@ import (
 	jwt "github.com/golang-jwt/jwt/v5"
 	"golang.org/x/crypto/ocsp"
 
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki/keys"
 )
 
@@ -136,7 +137,9 @@ func New(opts Options) (*PKIManager, error) {
 	if m.opts.KeyType == "" {
 		m.opts.KeyType = "ecdsa-p256"
 	}
-	m.opts.Store.CreateEmptyFile(m.pkiFile, &certificateAuthority{})
+	if err := datafile.CreateIfNotExist(m.opts.Store, m.pkiFile, &certificateAuthority{}); err != nil {
+		return nil, err
+	}
 	if err := m.initCA(); err != nil {
 		return nil, err
 	}
diff --git a/proxy/internal/sshca/sshca.go b/proxy/internal/sshca/sshca.go
index d3e4efa..d00f663 100644
--- a/proxy/internal/sshca/sshca.go
+++ b/proxy/internal/sshca/sshca.go
@@ -45,6 +45,7 @@ import (
 	jwt "github.com/golang-jwt/jwt/v5"
 	"golang.org/x/crypto/ssh"
 
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/pki/keys"
 )
 
@@ -101,7 +102,9 @@ func New(opts Options) (*SSHCA, error) {
 	if ca.opts.ClaimsFromCtx == nil {
 		return nil, errors.New("ClaimsFromCtx must be set")
 	}
-	ca.opts.Store.CreateEmptyFile(ca.caFile, &certificateAuthority{})
+	if err := datafile.CreateIfNotExist(ca.opts.Store, ca.caFile, &certificateAuthority{}); err != nil {
+		return nil, err
+	}
 	if err := ca.initCA(); err != nil {
 		return nil, err
 	}
diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index 52bf7b5..c6431d4 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -52,6 +52,8 @@ import (
 	"github.com/c2FmZQ/storage"
 	"github.com/c2FmZQ/tpm"
 	jwt "github.com/golang-jwt/jwt/v5"
+
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 )
 
 const (
@@ -106,7 +108,9 @@ func New(store *storage.Storage, tpm *tpm.TPM, logger logger) (*TokenManager, er
 		tpm:    tpm,
 		logger: logger,
 	}
-	store.CreateEmptyFile(tokenKeyFile, &tm.keys)
+	if err := datafile.CreateIfNotExist(store, tokenKeyFile, &tm.keys); err != nil {
+		return nil, err
+	}
 	if err := tm.rotateKeys(); err != nil {
 		return nil, err
 	}
diff --git a/proxy/proxy.go b/proxy/proxy.go
index ee4a54c..722361b 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -65,6 +65,7 @@ import (
 	"github.com/c2FmZQ/tlsproxy/certmanager"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/counter"
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/datafile"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/idp"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/netw"
 	"github.com/c2FmZQ/tlsproxy/proxy/internal/ocspcache"
@@ -194,7 +195,7 @@ func New(cfg *Config, passphrase []byte) (*Proxy, error) {
 		if mk, err = crypto.CreateMasterKey(opts...); err != nil {
 			return nil, errors.New("failed to create master key")
 		}
-		err = mk.Save(passphrase, mkFile)
+		err = datafile.Write(mkFile, func(tmp string) error { return mk.Save(passphrase, tmp) })
 	}
 	if err != nil {
 		return nil, fmt.Errorf("%s: %w", mkFile, err)
@@ -205,6 +206,10 @@ func New(cfg *Config, passphrase []byte) (*Proxy, error) {
 		return nil, err
 	}
 
+	// The content of this file is managed by autocertcache.
+	if err := datafile.CreateIfNotExist(store, "autocert", &struct{ Entries map[string]string }{}); err != nil {
+		return nil, err
+	}
 	p.certManager = &autocert.Manager{
 		Prompt: func(string) bool {
 			p.logError("AcceptTOS must be set in the config")
@@ -253,7 +258,7 @@ func NewTestProxy(cfg *Config) (*Proxy, error) {
 		if mk, err = crypto.CreateMasterKey(opts...); err != nil {
 			return nil, errors.New("failed to create master key")
 		}
-		err = mk.Save(passphrase, mkFile)
+		err = datafile.Write(mkFile, func(tmp string) error { return mk.Save(passphrase, tmp) })
 	}
 	if err != nil {
 		return nil, fmt.Errorf("masterkey: %w", err)
-- 
2.43.0


From 5b65076a96d3b5604241086821555f32fae09bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:26 +0000
Subject: [PATCH 27/66] fix: pki managers share their state across
 configuration changes

A request in progress during a configuration change works with the previous
PKI manager. What it changed, e.g. a revocation, wasn't seen by the new one
until it next opened the file. Also, decoding the file into the existing
state kept changes that had failed to be saved, and the delegate certificate
was examined without the lock.
---
 proxy/internal/pki/pki.go | 55 +++++++++++++++++++++++++++++++--------
 proxy/proxy.go            |  1 +
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index 6acd9a0..07312be 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -122,6 +122,10 @@ type Options struct {
 	}
 	// ClaimsFromCtx returns jwt claims for the current user.
 	ClaimsFromCtx func(context.Context) jwt.MapClaims
+	// Previous is the PKI manager that the new one replaces, if any. They
+	// share their state so that requests in progress with the previous one
+	// and requests with the new one see each other's changes.
+	Previous *PKIManager
 }
 
 // New returns a new initialized PKI manager. The Certificate Authority's key
@@ -133,6 +137,13 @@ func New(opts Options) (*PKIManager, error) {
 	m := &PKIManager{
 		opts:    opts,
 		pkiFile: "pki-" + url.PathEscape(opts.Name),
+		state:   &state{},
+	}
+	if prev := opts.Previous; prev != nil {
+		m.opts.Previous = nil
+		if prev.opts.Store == opts.Store && prev.pkiFile == m.pkiFile {
+			m.state = prev.state
+		}
 	}
 	if m.opts.KeyType == "" {
 		m.opts.KeyType = "ecdsa-p256"
@@ -151,8 +162,12 @@ func New(opts Options) (*PKIManager, error) {
 type PKIManager struct {
 	opts    Options
 	pkiFile string
-	mu      sync.Mutex
-	db      *certificateAuthority
+	*state
+}
+
+type state struct {
+	mu sync.Mutex
+	db *certificateAuthority
 }
 
 type certificateAuthority struct {
@@ -213,13 +228,25 @@ type revocationList struct {
 }
 
 func (m *PKIManager) open() (func(commit bool, errp *error) error, error) {
+	// Decoding into the existing value would keep what isn't in the file.
+	prev := m.db
+	m.db = nil
 	commit, err := m.opts.Store.OpenForUpdate(m.pkiFile, &m.db)
 	if err != nil {
+		m.db = prev
 		return nil, err
 	}
+	var done bool
 	return func(doCommit bool, errp *error) error {
 		err := commit(doCommit, errp)
-		wipe(m.db.PrivateKey)
+		if m.db != nil {
+			wipe(m.db.PrivateKey)
+		}
+		if !done && err != nil && prev != nil {
+			// The changes, if any, were not saved.
+			m.db = prev
+		}
+		done = true
 		return err
 	}, nil
 }
@@ -387,13 +414,13 @@ func (m *PKIManager) parseKeyBytes(b []byte) (any, error) {
 	return x509.ParsePKCS8PrivateKey(b)
 }
 
-func (m *PKIManager) maybeRotateDelegateCert() error {
+func (m *PKIManager) needDelegateCert(now time.Time) (caCert *x509.Certificate, needUpdate bool, err error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	if m.db == nil {
-		return errors.New("no ca")
+		return nil, false, errors.New("no ca")
 	}
-	now := time.Now().UTC()
-
-	var needUpdate bool
 	if len(m.db.DelegateCerts) == 0 {
 		needUpdate = true
 	} else {
@@ -403,11 +430,17 @@ func (m *PKIManager) maybeRotateDelegateCert() error {
 		}
 	}
 	if !needUpdate {
-		return nil
+		return nil, false, nil
 	}
+	caCert, err = m.db.CACert.parse()
+	return caCert, true, err
+}
 
-	caCert, err := m.db.CACert.parse()
-	if err != nil {
+func (m *PKIManager) maybeRotateDelegateCert() error {
+	now := time.Now().UTC()
+
+	caCert, needUpdate, err := m.needDelegateCert(now)
+	if err != nil || !needUpdate {
 		return err
 	}
 
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 722361b..96d3cdd 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -412,6 +412,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 			Store:                 p.store,
 			EventRecorder:         er,
 			ClaimsFromCtx:         claimsFromCtx,
+			Previous:              p.pkis[pp.Name],
 		}
 		m, err := pki.New(opts)
 		if err != nil {
-- 
2.43.0


From 4d0820b4b428cf1b8404a95d9401592f9aab32d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 28/66] fix: don't serve stale revocation lists

A revocation in the same second as the last revocation list, but after it,
was missing from the list until the next revocation or expiration. And the
list was still served for 30 minutes after its expiration, instead of being
refreshed 30 minutes before.
---
 proxy/internal/pki/pki.go | 51 +++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index 07312be..be020f6 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -533,19 +533,37 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 	}
 	now := time.Now().UTC()
 
-	if len(m.db.RevocationLists) > 0 {
-		var lastRevocation time.Time
-		for _, c := range m.db.IssuedCerts {
-			if c.Revocation != nil && c.Revocation.Time.After(lastRevocation) {
-				lastRevocation = c.Revocation.Time
-			}
+	var entries []x509.RevocationListEntry
+	for _, c := range m.db.IssuedCerts {
+		if c.Revocation == nil {
+			continue
 		}
+		cert, err := c.parse()
+		if err != nil {
+			return nil, nil, err
+		}
+		if now.After(cert.NotAfter) {
+			continue
+		}
+		entries = append(entries, x509.RevocationListEntry{
+			SerialNumber:   cert.SerialNumber,
+			RevocationTime: c.Revocation.Time,
+			ReasonCode:     c.Revocation.ReasonCode,
+		})
+	}
+
+	if len(m.db.RevocationLists) > 0 {
 		last := m.db.RevocationLists[len(m.db.RevocationLists)-1]
 		rl, err := x509.ParseRevocationList(last.RawCRL)
 		if err != nil {
 			return nil, nil, err
 		}
-		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(crlRefreshPeriod/2).After(now) {
+		// The list can still be used if it has the same certificates and
+		// if it doesn't expire soon.
+		same := slices.EqualFunc(rl.RevokedCertificateEntries, entries, func(a, b x509.RevocationListEntry) bool {
+			return a.SerialNumber.Cmp(b.SerialNumber) == 0 && a.RevocationTime.Equal(b.RevocationTime) && a.ReasonCode == b.ReasonCode
+		})
+		if same && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
 			return last.RawCert, rl.Raw, nil
 		}
 	}
@@ -560,23 +578,8 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 		Number:     big.NewInt(m.db.CRLNumber),
 		ThisUpdate: now,
 		NextUpdate: now.Add(crlRefreshPeriod),
-	}
-	for _, c := range m.db.IssuedCerts {
-		if c.Revocation == nil {
-			continue
-		}
-		cert, err := c.parse()
-		if err != nil {
-			return nil, nil, err
-		}
-		if now.After(cert.NotAfter) {
-			continue
-		}
-		rl.RevokedCertificateEntries = append(rl.RevokedCertificateEntries, x509.RevocationListEntry{
-			SerialNumber:   cert.SerialNumber,
-			RevocationTime: c.Revocation.Time,
-			ReasonCode:     c.Revocation.ReasonCode,
-		})
+
+		RevokedCertificateEntries: entries,
 	}
 
 	key, err := m.parseKeyBytes(m.db.DelegateKey)
-- 
2.43.0


From a05e89d631e3fbfafd33701b5b29a5f625f1b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 29/66] fix: OCSP requests by GET with escaped slashes

The request in the URL is base64 encoded, then URL encoded. Most of them have
slashes, and were truncated, or redirected when there were two in a row.
---
 proxy/backend-http.go      | 2 +-
 proxy/internal/pki/http.go | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index ffd3188..346ba8a 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -474,7 +474,7 @@ func (be *Backend) handleLocalEndpointsAndAuthorize(w http.ResponseWriter, req *
 		if !be.localHandlers[hi].ssoBypass && !be.enforceSSOPolicy(w, req) {
 			return false
 		}
-		if cleanPath != req.URL.Path {
+		if h := be.localHandlers[hi]; cleanPath != req.URL.Path && !(h.matchPrefix && strings.HasPrefix(req.URL.Path, h.path+"/")) {
 			be.redirectPermanently(w, req, cleanPath)
 			return false
 		}
diff --git a/proxy/internal/pki/http.go b/proxy/internal/pki/http.go
index dadb055..b26a0fb 100644
--- a/proxy/internal/pki/http.go
+++ b/proxy/internal/pki/http.go
@@ -128,12 +128,14 @@ func (m *PKIManager) ServeOCSP(w http.ResponseWriter, req *http.Request) {
 	switch req.Method {
 	case http.MethodGet:
 		// https://www.rfc-editor.org/rfc/rfc6960.html#page-30
-		off := strings.LastIndex(req.URL.Path, "/")
+		// The base64 encoded request can have (escaped) slashes.
+		p := req.URL.EscapedPath()
+		off := strings.LastIndex(p, "/")
 		if off < 0 {
 			http.Error(w, "invalid request", http.StatusBadRequest)
 			return
 		}
-		data, err := url.PathUnescape(req.URL.Path[off+1:])
+		data, err := url.PathUnescape(p[off+1:])
 		if err != nil {
 			m.opts.Logger.Errorf("ERR url.PathUnescape: %v", err)
 			http.Error(w, "invalid request", http.StatusBadRequest)
-- 
2.43.0


From 6ade31547e6fe97422c5e16f7795931ce4f75412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 30/66] fix: refuse to certify a SSH certificate

When the body of a certificate request was itself a SSH certificate,
marshaling the new certificate panicked.
---
 proxy/internal/sshca/sshca.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proxy/internal/sshca/sshca.go b/proxy/internal/sshca/sshca.go
index d00f663..438eaf1 100644
--- a/proxy/internal/sshca/sshca.go
+++ b/proxy/internal/sshca/sshca.go
@@ -304,6 +304,12 @@ func (ca *SSHCA) ServeCertificate(w http.ResponseWriter, req *http.Request) {
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return
 	}
+	if _, ok := pub.(*ssh.Certificate); ok {
+		// ssh.Certificate.Type() panics with a nested certificate.
+		ca.opts.Logger.Errorf("ERR body: %s is not a public key", pub.Type())
+		http.Error(w, "invalid request", http.StatusBadRequest)
+		return
+	}
 	rnd := make([]byte, 8)
 	if _, err := io.ReadFull(rand.Reader, rnd); err != nil {
 		ca.opts.Logger.Errorf("ERR rand: %v", err)
-- 
2.43.0


From ae9845c5ba5f74ab5df0dca3d4c597cbce99d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 31/66] fix: don't hold the SSH CA's lock while reading a
 request

A client that didn't send the body of its request prevented everyone else
from getting a certificate, or the CA's public key.
---
 proxy/internal/sshca/sshca.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/proxy/internal/sshca/sshca.go b/proxy/internal/sshca/sshca.go
index 438eaf1..a0e7905 100644
--- a/proxy/internal/sshca/sshca.go
+++ b/proxy/internal/sshca/sshca.go
@@ -259,9 +259,11 @@ func (ca *SSHCA) ServePublicKey(w http.ResponseWriter, req *http.Request) {
 }
 
 func (ca *SSHCA) ServeCertificate(w http.ResponseWriter, req *http.Request) {
+	// Don't hold the lock while reading the request.
 	ca.mu.Lock()
-	defer ca.mu.Unlock()
-	if ca.signer == nil {
+	signer := ca.signer
+	ca.mu.Unlock()
+	if signer == nil {
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return
 	}
@@ -335,7 +337,7 @@ func (ca *SSHCA) ServeCertificate(w http.ResponseWriter, req *http.Request) {
 			},
 		},
 	}
-	if err := cert.SignCert(rand.Reader, ca.signer); err != nil {
+	if err := cert.SignCert(rand.Reader, signer); err != nil {
 		ca.opts.Logger.Errorf("ERR SignCert: %v", err)
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return
-- 
2.43.0


From 662c4176348c10c2686e62966cc61953f5029092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 32/66] fix: accept tokens only for their own purpose

* Bearer tokens were accepted from any provider with the same issuer, e.g.
  after the provider of a backend changed.
* A session token was accepted as ID token on the callback host.
* A session token with a url claim, e.g. from a SAML attribute, was accepted
  as URL token.
---
 proxy/internal/cookiemanager/cookiemanager.go | 6 +++---
 proxy/internal/tokenmanager/urltoken.go       | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/proxy/internal/cookiemanager/cookiemanager.go b/proxy/internal/cookiemanager/cookiemanager.go
index 08be29f..07f8deb 100644
--- a/proxy/internal/cookiemanager/cookiemanager.go
+++ b/proxy/internal/cookiemanager/cookiemanager.go
@@ -223,7 +223,7 @@ func (cm *CookieManager) ValidateIDTokenCookie(req *http.Request, authToken *jwt
 	if err != nil {
 		return err
 	}
-	if c2, ok := tok.Claims.(jwt.MapClaims); !ok || c2["sub"] != c["sub"] || c2["sid"] != c["sid"] {
+	if c2, ok := tok.Claims.(jwt.MapClaims); !ok || c2["proxyauth"] != nil || c2["sub"] != c["sub"] || c2["sid"] != c["sid"] {
 		return errors.New("sid mismatch")
 	}
 	// Token is already set, and is valid.
@@ -239,8 +239,8 @@ func (cm *CookieManager) ValidateAuthorizationHeader(req *http.Request) (*jwt.To
 	if err != nil {
 		return nil, err
 	}
-	if c, ok := tok.Claims.(jwt.MapClaims); !ok || c["proxyauth"] != nil {
-		return nil, errors.New("invalid proxyauth")
+	if c, ok := tok.Claims.(jwt.MapClaims); !ok || c["proxyauth"] != nil || c["provider"] != cm.provider {
+		return nil, errors.New("invalid proxyauth or provider")
 	}
 	return tok, nil
 }
diff --git a/proxy/internal/tokenmanager/urltoken.go b/proxy/internal/tokenmanager/urltoken.go
index 861af41..16286e1 100644
--- a/proxy/internal/tokenmanager/urltoken.go
+++ b/proxy/internal/tokenmanager/urltoken.go
@@ -91,6 +91,10 @@ func (tm *TokenManager) ValidateURLToken(w http.ResponseWriter, req *http.Reques
 	if !ok {
 		return nil, nil, errors.New("invalid token")
 	}
+	if _, exists := c["iss"]; exists {
+		// This is some other type of token.
+		return nil, nil, errors.New("invalid token")
+	}
 	if sid := sessionID(w, req); sid != c["sid"] {
 		tm.logger.Errorf("ERR session ID mismatch %q != %q", sid, c["sid"])
 		return nil, nil, errors.New("invalid token")
-- 
2.43.0


From 5a7cdd9d95676896e2771a780a169c0be9bd239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 33/66] fix: find the session cookie when there are cookies of
 providers with other domains

A browser sends the cookies of every matching domain with the same name. Only
the first one was considered. So, a session with a provider whose domain is
a parent of another one's made logins with the other provider impossible.
---
 proxy/internal/cookiemanager/cookiemanager.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/proxy/internal/cookiemanager/cookiemanager.go b/proxy/internal/cookiemanager/cookiemanager.go
index 07f8deb..819a4b3 100644
--- a/proxy/internal/cookiemanager/cookiemanager.go
+++ b/proxy/internal/cookiemanager/cookiemanager.go
@@ -191,11 +191,19 @@ func (cm *CookieManager) ClearCookies(w http.ResponseWriter) error {
 }
 
 func (cm *CookieManager) ValidateAuthTokenCookie(req *http.Request) (*jwt.Token, error) {
-	cookie, err := req.Cookie(tlsProxyAuthCookie)
-	if err != nil {
-		return nil, err
+	// There can be cookies from providers with other domains.
+	err := http.ErrNoCookie
+	for _, cookie := range req.CookiesNamed(tlsProxyAuthCookie) {
+		var tok *jwt.Token
+		if tok, err = cm.validateAuthToken(cookie.Value); err == nil {
+			return tok, nil
+		}
 	}
-	tok, err := cm.tm.ValidateToken(cookie.Value, jwt.WithIssuer(cm.issuer), jwt.WithAudience(cm.issuer))
+	return nil, err
+}
+
+func (cm *CookieManager) validateAuthToken(token string) (*jwt.Token, error) {
+	tok, err := cm.tm.ValidateToken(token, jwt.WithIssuer(cm.issuer), jwt.WithAudience(cm.issuer))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5f8a08ec404be507526b37ab4ab1207d9cc9d620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:15 +0000
Subject: [PATCH 34/66] fix: give the nonce cookies of each provider their own
 name

The domains of providers can overlap. An abandoned login with one provider left
a cookie that made logins with another provider fail.
---
 proxy/internal/cookiemanager/cookiemanager.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/proxy/internal/cookiemanager/cookiemanager.go b/proxy/internal/cookiemanager/cookiemanager.go
index 819a4b3..7316827 100644
--- a/proxy/internal/cookiemanager/cookiemanager.go
+++ b/proxy/internal/cookiemanager/cookiemanager.go
@@ -142,9 +142,16 @@ func (cm *CookieManager) SetIDTokenCookie(w http.ResponseWriter, req *http.Reque
 	return nil
 }
 
+// nonceName returns the name of the nonce cookie. It is different for each
+// provider, because their domains can overlap.
+func (cm *CookieManager) nonceName() string {
+	h := sha256.Sum256([]byte(cm.provider))
+	return tlsProxyNonce + "_" + hex.EncodeToString(h[:8])
+}
+
 func (cm *CookieManager) SetNonce(w http.ResponseWriter, nonce string) {
 	http.SetCookie(w, &http.Cookie{
-		Name:     tlsProxyNonce,
+		Name:     cm.nonceName(),
 		Value:    nonce,
 		Domain:   cm.domain,
 		Path:     "/",
@@ -156,14 +163,14 @@ func (cm *CookieManager) SetNonce(w http.ResponseWriter, nonce string) {
 
 func (cm *CookieManager) Nonce(w http.ResponseWriter, req *http.Request) string {
 	http.SetCookie(w, &http.Cookie{
-		Name:     tlsProxyNonce,
+		Name:     cm.nonceName(),
 		Domain:   cm.domain,
 		Path:     "/",
 		MaxAge:   -1,
 		Secure:   true,
 		HttpOnly: true,
 	})
-	if c, err := req.Cookie(tlsProxyNonce); err == nil {
+	if c, err := req.Cookie(cm.nonceName()); err == nil {
 		return c.Value
 	}
 	return ""
-- 
2.43.0


From 7250db3c437fc383b5adcc663154df3184b6d5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 35/66] fix: redirect to the same host after setting the ID
 token

A path like //evil.example/ was used as the Location as is, i.e. browsers went
to another site.
---
 proxy/backend-sso.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/proxy/backend-sso.go b/proxy/backend-sso.go
index fd6dad9..b7bdad8 100644
--- a/proxy/backend-sso.go
+++ b/proxy/backend-sso.go
@@ -128,7 +128,10 @@ func (be *Backend) checkCookies(w http.ResponseWriter, req *http.Request) (jwt.M
 		return authClaims, true
 	}
 
-	if !slices.Contains(be.ServerNames, hostFromReq(req)) {
+	u := *req.URL
+	u.Scheme = "https"
+	u.Host = req.Host
+	if !slices.Contains(be.ServerNames, u.Hostname()) {
 		return authClaims, true
 	}
 
@@ -140,7 +143,7 @@ func (be *Backend) checkCookies(w http.ResponseWriter, req *http.Request) (jwt.M
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return nil, false
 	}
-	http.Redirect(w, req, req.URL.String(), http.StatusFound)
+	http.Redirect(w, req, u.String(), http.StatusFound)
 	return nil, false
 }
 
-- 
2.43.0


From 5cfbdf9ccdfb7b4b0eb7e9447b5eecc1dd133512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:44 +0000
Subject: [PATCH 36/66] fix: don't create login tokens for hosts the backend
 doesn't serve

The host that the token sends the user to comes from the Host header. With
passkeys, it was possible to prepare a link to the proxy's own login page that
ended on another site.
---
 proxy/backend-sso.go | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/proxy/backend-sso.go b/proxy/backend-sso.go
index b7bdad8..f9b58a9 100644
--- a/proxy/backend-sso.go
+++ b/proxy/backend-sso.go
@@ -147,6 +147,24 @@ func (be *Backend) checkCookies(w http.ResponseWriter, req *http.Request) (jwt.M
 	return nil, false
 }
 
+// requestURLToken returns a signed token for the URL of the request, and the
+// URL. The users will be sent there after they log in. So, the host that the
+// client asked for must be one of this backend's server names.
+func (be *Backend) requestURLToken(w http.ResponseWriter, req *http.Request, extra map[string]any) (string, string, bool) {
+	req.URL.Scheme = "https"
+	req.URL.Host = req.Host
+	if !slices.Contains(be.ServerNames, req.URL.Hostname()) {
+		http.Error(w, "Misdirected Request", http.StatusMisdirectedRequest)
+		return "", "", false
+	}
+	token, url, err := be.tm.URLToken(w, req, req.URL, extra)
+	if err != nil {
+		http.Error(w, "internal error", http.StatusInternalServerError)
+		return "", "", false
+	}
+	return token, url, true
+}
+
 func (be *Backend) serveSSOStyle(w http.ResponseWriter, req *http.Request) {
 	sum := sha256.Sum256(styleEmbed)
 	etag := `"` + hex.EncodeToString(sum[:]) + `"`
@@ -191,11 +209,8 @@ func (be *Backend) serveSSOStatus(w http.ResponseWriter, req *http.Request) {
 		}
 		data.Claims = append(data.Claims, kv{k, fmt.Sprint(claims[k])})
 	}
-	req.URL.Scheme = "https"
-	req.URL.Host = req.Host
-	token, _, err := be.tm.URLToken(w, req, req.URL, nil)
-	if err != nil {
-		http.Error(w, "internal error", http.StatusInternalServerError)
+	token, _, ok := be.requestURLToken(w, req, nil)
+	if !ok {
 		return
 	}
 	data.Token = token
@@ -244,11 +259,8 @@ func (be *Backend) servePermissionDenied(w http.ResponseWriter, req *http.Reques
 	if claims := claimsFromCtx(req.Context()); claims != nil {
 		email, _ = claims["email"].(string)
 	}
-	req.URL.Scheme = "https"
-	req.URL.Host = req.Host
-	token, url, err := be.tm.URLToken(w, req, req.URL, nil)
-	if err != nil {
-		http.Error(w, "internal error", http.StatusInternalServerError)
+	token, url, ok := be.requestURLToken(w, req, nil)
+	if !ok {
 		return
 	}
 
@@ -292,8 +304,6 @@ func (be *Backend) enforceSSOPolicy(w http.ResponseWriter, req *http.Request) bo
 			http.Error(w, "authentication required", http.StatusForbidden)
 			return false
 		}
-		req.URL.Scheme = "https"
-		req.URL.Host = req.Host
 		var extra map[string]any
 		if claims != nil {
 			if email, ok := claims["email"].(string); ok {
@@ -302,9 +312,8 @@ func (be *Backend) enforceSSOPolicy(w http.ResponseWriter, req *http.Request) bo
 				}
 			}
 		}
-		token, url, err := be.tm.URLToken(w, req, req.URL, extra)
-		if err != nil {
-			http.Error(w, "internal error", http.StatusInternalServerError)
+		token, url, ok := be.requestURLToken(w, req, extra)
+		if !ok {
 			return false
 		}
 		if _, ok := be.SSO.p.(*passkeys.Manager); ok || req.Header.Get("x-skip-login-confirmation") != "" {
-- 
2.43.0


From 8dad0bc52219a775d301651549335fa9a9477926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 37/66] fix: websocket: don't close connections while the
 server accepts no data

The pongs aren't processed while data is being written to the TCP server. So,
when the server stopped reading for more than 30 seconds, the connection was
closed and the data was lost. The time of the last activity was also read and
written without synchronization.
---
 proxy/websocket.go | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/proxy/websocket.go b/proxy/websocket.go
index 0d24e8f..c56cb05 100644
--- a/proxy/websocket.go
+++ b/proxy/websocket.go
@@ -27,6 +27,7 @@ import (
 	"io"
 	"net"
 	"net/http"
+	"sync/atomic"
 	"time"
 
 	"github.com/gorilla/websocket"
@@ -76,9 +77,17 @@ func (p *Proxy) webSocketHandler(cfg WebSocketConfig) http.Handler {
 
 		done := make(chan bool, 1)
 
-		lastActive := time.Now()
+		// lastActive is when the client was last heard of. The pongs
+		// are only seen while the in -> out loop is reading, i.e. not
+		// while it is waiting for the server to accept data.
+		start := time.Now()
+		var lastActive atomic.Int64
+		var writing atomic.Bool
+		active := func() {
+			lastActive.Store(int64(time.Since(start)))
+		}
 		in.SetPongHandler(func(string) error {
-			lastActive = time.Now()
+			active()
 			return nil
 		})
 		go func() {
@@ -91,7 +100,7 @@ func (p *Proxy) webSocketHandler(cfg WebSocketConfig) http.Handler {
 					out.SetDeadline(time.Now())
 					return
 				case <-ticker.C:
-					if time.Since(lastActive) > 30*time.Second {
+					if !writing.Load() && time.Since(start)-time.Duration(lastActive.Load()) > 30*time.Second {
 						select {
 						case done <- true:
 						default:
@@ -114,16 +123,34 @@ func (p *Proxy) webSocketHandler(cfg WebSocketConfig) http.Handler {
 				}
 				return
 			}()
+			buf := make([]byte, 32*1024)
 			for {
 				messageType, r, err := in.NextReader()
 				if err != nil {
 					return
 				}
+				active()
 				if messageType != websocket.BinaryMessage {
 					continue
 				}
-				if _, err := io.Copy(out, r); err != nil {
-					return
+				for {
+					n, err := r.Read(buf)
+					active()
+					if n > 0 {
+						writing.Store(true)
+						_, err := out.Write(buf[:n])
+						active()
+						writing.Store(false)
+						if err != nil {
+							return
+						}
+					}
+					if err == io.EOF {
+						break
+					}
+					if err != nil {
+						return
+					}
 				}
 			}
 		}()
-- 
2.43.0


From 73aff09990c4626d577b9577f28b477f3091624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 38/66] fix: OCSP: don't return a nil response for certificates
 without OCSP server

The nil response was used to staple, and cached. The proxy panicked on the next
connection, and when the cache was saved.
---
 proxy/internal/ocspcache/ocsp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index be2bc54..f282303 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -49,6 +49,7 @@ var (
 	errOCSPUnknown  = errors.New("unknown cert")
 	errOCSPProtocol = errors.New("protocol error")
 	errOCSPInternal = errors.New("internal error")
+	errOCSPNoServer = errors.New("no OCSP server")
 )
 
 type logger interface {
@@ -204,6 +205,9 @@ func (c *OCSPCache) Response(cert, issuer *x509.Certificate, margin time.Duratio
 }
 
 func (c *OCSPCache) fetchOCSP(cert, issuer *x509.Certificate) (*ocsp.Response, error) {
+	if len(cert.OCSPServer) == 0 {
+		return nil, errOCSPNoServer
+	}
 	ocspReq, err := ocsp.CreateRequest(cert, issuer, nil)
 	if err != nil {
 		c.logger.Errorf("ERR ocsp.CreateRequest: %v", err)
-- 
2.43.0


From 8b63c4404284c78d27aadc0b9fb8c998cabb45f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 39/66] fix: OCSP: check that responses are for the
 certificate, current, and signed by a responder

Responses that were fetched were accepted for any serial number, and outside of
their validity. All responses were accepted when they were signed with any
certificate from the same issuer, e.g. the revoked certificate itself.
---
 proxy/internal/ocspcache/ocsp.go | 35 +++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index f282303..bdd7b5c 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -32,6 +32,7 @@ import (
 	"errors"
 	"io"
 	"net/http"
+	"slices"
 	"time"
 
 	"github.com/c2FmZQ/storage"
@@ -42,6 +43,7 @@ import (
 const (
 	ocspCacheSize = 200
 	ocspFile      = "ocsp-cache"
+	maxClockSkew  = 5 * time.Minute
 )
 
 var (
@@ -135,7 +137,7 @@ func (c *OCSPCache) flush() error {
 func (c *OCSPCache) VerifyChains(chains [][]*x509.Certificate, stapled []byte) error {
 	if stapled != nil && len(chains) > 0 && len(chains[0]) > 1 {
 		cert, issuer := chains[0][0], chains[0][1]
-		if resp, err := ocsp.ParseResponseForCert(stapled, cert, issuer); err == nil && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
+		if resp, err := parseResponse(stapled, cert, issuer); err == nil && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
 			hash := certHash(cert.Raw)
 			if resp, ok := c.cache.Get(hash); ok && resp.Status == ocsp.Revoked {
 				// Someone is playing tricks on us.
@@ -247,10 +249,37 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 		c.logger.Errorf("ERR body: %v", err)
 		return nil, errOCSPProtocol
 	}
-	ocspResp, err := ocsp.ParseResponse(body, issuer)
+	ocspResp, err := parseResponse(body, cert, issuer)
 	if err != nil {
-		c.logger.Errorf("ERR ocsp.ParseResponse for %s from %s: %v", cert.Subject, server, err)
+		c.logger.Errorf("ERR OCSP response for %s from %s: %v", cert.Subject, server, err)
 		return nil, errOCSPProtocol
 	}
 	return ocspResp, nil
 }
+
+// parseResponse returns the response for cert, if it is signed by the issuer or
+// its delegate, and current.
+func parseResponse(body []byte, cert, issuer *x509.Certificate) (*ocsp.Response, error) {
+	resp, err := ocsp.ParseResponseForCert(body, cert, issuer)
+	if err != nil {
+		return nil, err
+	}
+	now := time.Now()
+	if r := resp.Certificate; r != nil && !r.Equal(issuer) {
+		// Not every certificate from the same issuer can be used to
+		// sign OCSP responses.
+		if !slices.Contains(r.ExtKeyUsage, x509.ExtKeyUsageOCSPSigning) {
+			return nil, errors.New("the response is signed with a certificate that isn't for OCSP signing")
+		}
+		if now.Before(r.NotBefore) || now.After(r.NotAfter) {
+			return nil, errors.New("the certificate of the responder is expired or not valid yet")
+		}
+	}
+	if resp.ThisUpdate.After(now.Add(maxClockSkew)) {
+		return nil, errors.New("the response is not valid yet")
+	}
+	if !resp.NextUpdate.IsZero() && !now.Before(resp.NextUpdate) {
+		return nil, errors.New("the response is expired")
+	}
+	return resp, nil
+}
-- 
2.43.0


From 1d0dc1576bd600ff2b56c18afbde09d230eac482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 40/66] fix: OCSP: use stapled revocations, and accept any good
 chain

A stapled response that says that the certificate is revoked was ignored. A
good chain without OCSP servers was refused after a bad one.
---
 proxy/internal/ocspcache/ocsp.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index bdd7b5c..979f1d9 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -137,9 +137,15 @@ func (c *OCSPCache) flush() error {
 func (c *OCSPCache) VerifyChains(chains [][]*x509.Certificate, stapled []byte) error {
 	if stapled != nil && len(chains) > 0 && len(chains[0]) > 1 {
 		cert, issuer := chains[0][0], chains[0][1]
-		if resp, err := parseResponse(stapled, cert, issuer); err == nil && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
+		resp, err := parseResponse(stapled, cert, issuer)
+		switch {
+		case err != nil:
+		case resp.Status == ocsp.Revoked:
+			c.cache.Add(certHash(cert.Raw), resp)
+			return errOCSPRevoked
+		case resp.Status == ocsp.Good && time.Now().Before(resp.NextUpdate):
 			hash := certHash(cert.Raw)
-			if resp, ok := c.cache.Get(hash); ok && resp.Status == ocsp.Revoked {
+			if resp, ok := c.cache.Get(hash); ok && resp.Status == ocsp.Revoked && time.Now().Before(resp.NextUpdate) {
 				// Someone is playing tricks on us.
 				return errOCSPRevoked
 			}
@@ -184,7 +190,7 @@ nextChain:
 			}
 		}
 		// Every cert in the chain is good.
-		break
+		return nil
 	}
 	return lastError
 }
-- 
2.43.0


From eb79964d3cc705b6635850deea21daaa1c5ccde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:10 +0000
Subject: [PATCH 41/66] fix: SAML: accept an answer only from the browser that
 made the request

---
 proxy/internal/cookiemanager/cookiemanager.go | 12 +++++++++++-
 proxy/internal/saml/saml.go                   |  5 ++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/cookiemanager/cookiemanager.go b/proxy/internal/cookiemanager/cookiemanager.go
index 7316827..2d6fb26 100644
--- a/proxy/internal/cookiemanager/cookiemanager.go
+++ b/proxy/internal/cookiemanager/cookiemanager.go
@@ -150,12 +150,22 @@ func (cm *CookieManager) nonceName() string {
 }
 
 func (cm *CookieManager) SetNonce(w http.ResponseWriter, nonce string) {
+	cm.setNonce(w, nonce, http.SameSiteLaxMode)
+}
+
+// SetCrossSiteNonce is like SetNonce when the nonce is needed in a POST request
+// that comes from another site.
+func (cm *CookieManager) SetCrossSiteNonce(w http.ResponseWriter, nonce string) {
+	cm.setNonce(w, nonce, http.SameSiteNoneMode)
+}
+
+func (cm *CookieManager) setNonce(w http.ResponseWriter, nonce string, sameSite http.SameSite) {
 	http.SetCookie(w, &http.Cookie{
 		Name:     cm.nonceName(),
 		Value:    nonce,
 		Domain:   cm.domain,
 		Path:     "/",
-		SameSite: http.SameSiteLaxMode,
+		SameSite: sameSite,
 		Secure:   true,
 		HttpOnly: true,
 	})
diff --git a/proxy/internal/saml/saml.go b/proxy/internal/saml/saml.go
index c6fa425..7881fec 100644
--- a/proxy/internal/saml/saml.go
+++ b/proxy/internal/saml/saml.go
@@ -52,6 +52,8 @@ import (
 type CookieManager interface {
 	SetAuthTokenCookie(w http.ResponseWriter, userID, email, sessionID, host string, extraClaims map[string]any) error
 	ClearCookies(w http.ResponseWriter) error
+	SetCrossSiteNonce(w http.ResponseWriter, nonce string)
+	Nonce(w http.ResponseWriter, req *http.Request) string
 }
 
 type EventRecorder interface {
@@ -144,6 +146,7 @@ func (p *Provider) RequestLogin(w http.ResponseWriter, req *http.Request, origUR
 		http.Error(w, err.Error(), http.StatusInternalServerError)
 		return
 	}
+	p.cm.SetCrossSiteNonce(w, idStr)
 	http.Redirect(w, req, url, http.StatusFound)
 	p.er.Record("saml auth request")
 }
@@ -194,7 +197,7 @@ func (p *Provider) HandleCallback(w http.ResponseWriter, req *http.Request) {
 		}
 	}
 	state, ok := p.states[id]
-	if ok {
+	if ok = ok && id == p.cm.Nonce(w, req); ok {
 		delete(p.states, id)
 	}
 	p.mu.Unlock()
-- 
2.43.0


From ca128703a438236528148e27257a44ff16e1c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:13 +0000
Subject: [PATCH 42/66] fix: SAML: refuse responses whose status is not success

---
 proxy/internal/saml/saml.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proxy/internal/saml/saml.go b/proxy/internal/saml/saml.go
index 7881fec..9214ba4 100644
--- a/proxy/internal/saml/saml.go
+++ b/proxy/internal/saml/saml.go
@@ -49,6 +49,8 @@ import (
 
 // http://docs.oasis-open.org/security/saml/v2.0/saml-core-2.0-os.pdf
 
+const statusSuccess = "urn:oasis:names:tc:SAML:2.0:status:Success"
+
 type CookieManager interface {
 	SetAuthTokenCookie(w http.ResponseWriter, userID, email, sessionID, host string, extraClaims map[string]any) error
 	ClearCookies(w http.ResponseWriter) error
@@ -176,6 +178,11 @@ func (p *Provider) HandleCallback(w http.ResponseWriter, req *http.Request) {
 		http.Error(w, "invalid request", http.StatusForbidden)
 		return
 	}
+	if sc := root.FindElement("./Status/StatusCode"); sc != nil && sc.SelectAttrValue("Value", "") != statusSuccess {
+		p.er.Record("saml status failure")
+		http.Error(w, "login failed", http.StatusForbidden)
+		return
+	}
 	// Assertion is the only part that's signed. So, we ignore everything
 	// else.
 	assertion := root.FindElement("./Assertion")
-- 
2.43.0


From 9b75d7dd0c7fcf6caef20fc6d5f49e51b73f3e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:16 +0000
Subject: [PATCH 43/66] fix: SAML: an assertion isn't valid on NotOnOrAfter,
 nor past the one of its subject confirmation

---
 proxy/internal/saml/saml.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/saml/saml.go b/proxy/internal/saml/saml.go
index 9214ba4..b7bf350 100644
--- a/proxy/internal/saml/saml.go
+++ b/proxy/internal/saml/saml.go
@@ -238,10 +238,16 @@ func (p *Provider) HandleCallback(w http.ResponseWriter, req *http.Request) {
 		http.Error(w, "invalid saml response", http.StatusForbidden)
 		return
 	}
-	if t, err := time.Parse(time.RFC3339Nano, findElementAttr(v, "./Conditions", "NotOnOrAfter")); err != nil || t.Before(now) {
+	if t, err := time.Parse(time.RFC3339Nano, findElementAttr(v, "./Conditions", "NotOnOrAfter")); err != nil || !now.Before(t) {
 		http.Error(w, "invalid saml response", http.StatusForbidden)
 		return
 	}
+	if s := findElementAttr(v, "./Subject/SubjectConfirmation/SubjectConfirmationData", "NotOnOrAfter"); s != "" {
+		if t, err := time.Parse(time.RFC3339Nano, s); err != nil || !now.Before(t) {
+			http.Error(w, "invalid saml response", http.StatusForbidden)
+			return
+		}
+	}
 	sub := findElementText(v, "./Subject/NameID")
 	if sub == "" {
 		http.Error(w, "invalid saml response", http.StatusForbidden)
-- 
2.43.0


From 6910a53b191038fa629db2d1c7c696c87d8b021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 44/66] fix: passkeys: report when a key can't be deleted

---
 proxy/internal/passkeys/manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/internal/passkeys/manager.go b/proxy/internal/passkeys/manager.go
index cc9de13..412d3d8 100644
--- a/proxy/internal/passkeys/manager.go
+++ b/proxy/internal/passkeys/manager.go
@@ -630,6 +630,8 @@ func (m *Manager) ManageKeys(w http.ResponseWriter, req *http.Request) {
 		}
 		if err := m.deleteKey(email, id); err != nil {
 			m.cfg.Logger.Errorf("ERR deleteKey(%q, %v): %v", email, id, err)
+			http.Error(w, "internal error", http.StatusInternalServerError)
+			return
 		}
 		w.Header().Set("content-type", "application/json")
 		json.NewEncoder(w).Encode(map[string]string{
-- 
2.43.0


From e57e0191b21c934ca20dab1cba01fda893292f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:55 +0000
Subject: [PATCH 45/66] fix: revocation: a certificate that can't be revoked
 doesn't stop the others, nor keep those that were revoked

---
 proxy/revoke.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/proxy/revoke.go b/proxy/revoke.go
index ad7897c..748adeb 100644
--- a/proxy/revoke.go
+++ b/proxy/revoke.go
@@ -89,17 +89,23 @@ func (p *Proxy) RevokeAllCertificates(ctx context.Context, reason string) error
 	time.Sleep(10 * time.Second)
 
 	now := time.Now()
+	var toDelete []string
+	var errs []error
 	for _, key := range toRevoke {
 		if now.After(certs[key].Leaf.NotAfter) {
 			p.logErrorF("!!! Expired: %s", key)
+			toDelete = append(toDelete, key)
 			continue
 		}
 		if err := client.RevokeCert(ctx, certs[key].PrivateKey.(crypto.Signer), certs[key].Certificate[0], reasonCode); err != nil {
-			return err
+			errs = append(errs, fmt.Errorf("%s: %w", key, err))
+			continue
 		}
 		p.logErrorF("!!! Revoked: %s", key)
+		toDelete = append(toDelete, key)
 	}
-	return p.certManager.(*autocert.Manager).Cache.(*autocertcache.Cache).DeleteKeys(ctx, toRevoke)
+	errs = append(errs, p.certManager.(*autocert.Manager).Cache.(*autocertcache.Cache).DeleteKeys(ctx, toDelete))
+	return errors.Join(errs...)
 }
 
 func (p *Proxy) revokeUnusedCertificates(ctx context.Context) error {
@@ -150,17 +156,24 @@ L:
 		UserAgent:    "tlsproxy",
 	}
 	now := time.Now()
+	var toDelete []string
+	var errs []error
 	for _, key := range toRevoke {
 		if now.After(certs[key].Leaf.NotAfter) {
 			p.logErrorF("INF Expired certificate: %s", key)
+			toDelete = append(toDelete, key)
 			continue
 		}
 		if err := client.RevokeCert(ctx, certs[key].PrivateKey.(crypto.Signer), certs[key].Certificate[0], acme.CRLReasonUnspecified); err != nil {
-			return err
+			p.logErrorF("ERR Unused certificate not revoked: %s: %v", key, err)
+			errs = append(errs, fmt.Errorf("%s: %w", key, err))
+			continue
 		}
 		p.logErrorF("INF Revoked unused certificate: %s", key)
+		toDelete = append(toDelete, key)
 	}
-	return p.certManager.(*autocert.Manager).Cache.(*autocertcache.Cache).DeleteKeys(ctx, toRevoke)
+	errs = append(errs, p.certManager.(*autocert.Manager).Cache.(*autocertcache.Cache).DeleteKeys(ctx, toDelete))
+	return errors.Join(errs...)
 }
 
 func (p *Proxy) acmeAccountKey(ctx context.Context) (crypto.Signer, error) {
-- 
2.43.0


From 6cc45837f6cba6944b03c14ea3b7f13ad78ad762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:55 +0000
Subject: [PATCH 46/66] fix: revocation: don't ask the authority to revoke
 challenge certificates

---
 proxy/revoke.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/revoke.go b/proxy/revoke.go
index 748adeb..cc862f0 100644
--- a/proxy/revoke.go
+++ b/proxy/revoke.go
@@ -219,6 +219,10 @@ L:
 		if k == acmeAccountKey {
 			continue
 		}
+		// The self-signed certificates of unfinished challenges.
+		if strings.HasSuffix(k, "+token") {
+			continue
+		}
 		data, err := cache.Get(ctx, k)
 		if err != nil {
 			p.logErrorF("ERR %s: %v", k, err)
-- 
2.43.0


From d654bc91cc521bb7b45f57b66f87fa83428bc3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:51 +0000
Subject: [PATCH 47/66] fix: config: reject empty list elements

---
 proxy/config.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/proxy/config.go b/proxy/config.go
index d728f27..b4f4aa2 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -779,6 +779,9 @@ func (cfg *Config) clone() *Config {
 // initializes internal data structures.
 func (cfg *Config) Check() error {
 	cfg.Definitions = nil
+	if err := cfg.checkNil(); err != nil {
+		return err
+	}
 	if cfg.CacheDir == "" {
 		d, err := os.UserCacheDir()
 		if err != nil {
@@ -1173,6 +1176,45 @@ func (cfg *Config) Check() error {
 	return os.MkdirAll(cfg.CacheDir, 0o700)
 }
 
+// checkNil checks that the lists don't have empty elements.
+func (cfg *Config) checkNil() error {
+	if err := errors.Join(
+		noNil("oidc", cfg.OIDCProviders),
+		noNil("saml", cfg.SAMLProviders),
+		noNil("passkey", cfg.PasskeyProviders),
+		noNil("pki", cfg.PKI),
+		noNil("sshCertificateAuthorities", cfg.SSHCertificateAuthorities),
+		noNil("tlsCertificates", cfg.TLSCertificates),
+		noNil("bwLimits", cfg.BWLimits),
+		noNil("webSockets", cfg.WebSockets),
+		noNil("backends", cfg.Backends),
+	); err != nil {
+		return err
+	}
+	for i, be := range cfg.Backends {
+		if err := noNil(fmt.Sprintf("backend[%d].PathOverrides", i), be.PathOverrides); err != nil {
+			return err
+		}
+		if be.SSO == nil || be.SSO.LocalOIDCServer == nil {
+			continue
+		}
+		if err := errors.Join(
+			noNil(fmt.Sprintf("backend[%d].SSO.LocalOIDCServer.Clients", i), be.SSO.LocalOIDCServer.Clients),
+			noNil(fmt.Sprintf("backend[%d].SSO.LocalOIDCServer.RewriteRules", i), be.SSO.LocalOIDCServer.RewriteRules),
+		); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func noNil[T any](name string, list []*T) error {
+	if i := slices.Index(list, nil); i >= 0 {
+		return fmt.Errorf("%s[%d]: element is empty", name, i)
+	}
+	return nil
+}
+
 func validateProxyProtoVersion(s string) (byte, error) {
 	if s == "" {
 		return 0, nil
-- 
2.43.0


From 6b1ec180e97432e851fafa268e5ebbfee4cbb558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:53 +0000
Subject: [PATCH 48/66] fix: config: a provider's domain must be its endpoint's
 host name, or a parent domain of it

---
 proxy/config.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/proxy/config.go b/proxy/config.go
index b4f4aa2..08856c6 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -860,7 +860,7 @@ func (cfg *Config) Check() error {
 			if err != nil {
 				return fmt.Errorf("oidc[%d].RedirectURL %q: %v", i, oi.RedirectURL, err)
 			}
-			if !strings.HasSuffix(host, oi.Domain) {
+			if !inDomain(host, oi.Domain) {
 				return fmt.Errorf("oidc[%d].Domain %q must be part of RedirectURL (%s)", i, oi.Domain, host)
 			}
 		}
@@ -888,7 +888,7 @@ func (cfg *Config) Check() error {
 			if err != nil {
 				return fmt.Errorf("saml[%d].ACSURL %q: %v", i, s.ACSURL, err)
 			}
-			if !strings.HasSuffix(host, s.Domain) {
+			if !inDomain(host, s.Domain) {
 				return fmt.Errorf("saml[%d].Domain %q must be part of ACSURL (%s)", i, s.Domain, host)
 			}
 		}
@@ -913,7 +913,7 @@ func (cfg *Config) Check() error {
 			if err != nil {
 				return fmt.Errorf("passkey[%d].Endpoint %q: %v", i, pp.Endpoint, err)
 			}
-			if !strings.HasSuffix(host, pp.Domain) {
+			if !inDomain(host, pp.Domain) {
 				return fmt.Errorf("passkey[%d].Domain %q must be part of Endpoint (%s)", i, pp.Domain, host)
 			}
 		}
@@ -1176,6 +1176,12 @@ func (cfg *Config) Check() error {
 	return os.MkdirAll(cfg.CacheDir, 0o700)
 }
 
+// inDomain returns whether host is domain, or part of it.
+func inDomain(host, domain string) bool {
+	domain = strings.TrimPrefix(domain, ".")
+	return host == domain || strings.HasSuffix(host, "."+domain)
+}
+
 // checkNil checks that the lists don't have empty elements.
 func (cfg *Config) checkNil() error {
 	if err := errors.Join(
-- 
2.43.0


From f681c9378e27307ca5aa3445c958af6f8e85b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:55 +0000
Subject: [PATCH 49/66] fix: config: only v1 and v2 are valid proxy protocol
 versions

---
 proxy/config.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/proxy/config.go b/proxy/config.go
index 08856c6..6593821 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -38,7 +38,6 @@ import (
 	"path/filepath"
 	"regexp"
 	"slices"
-	"strconv"
 	"strings"
 	"sync"
 	"time"
@@ -1222,17 +1221,16 @@ func noNil[T any](name string, list []*T) error {
 }
 
 func validateProxyProtoVersion(s string) (byte, error) {
-	if s == "" {
+	switch s {
+	case "":
 		return 0, nil
-	}
-	if len(s) < 2 || s[0] != 'v' {
+	case "v1":
+		return 1, nil
+	case "v2":
+		return 2, nil
+	default:
 		return 0, fmt.Errorf("invalid value %q, expected v1 or v2", s)
 	}
-	v, err := strconv.ParseInt(s[1:], 10, 8)
-	if err != nil {
-		return 0, err
-	}
-	return byte(v), nil
 }
 
 // ReadConfig reads and validates a YAML config file.
-- 
2.43.0


From c0c446caafb5bc738e70e65c0f87a5eecddebd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:07 +0000
Subject: [PATCH 50/66] fix: saml: text that isn't a certificate is an error,
 not a crash

---
 proxy/internal/saml/saml.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proxy/internal/saml/saml.go b/proxy/internal/saml/saml.go
index b7bf350..b96e274 100644
--- a/proxy/internal/saml/saml.go
+++ b/proxy/internal/saml/saml.go
@@ -32,6 +32,7 @@ import (
 	"encoding/hex"
 	"encoding/pem"
 	"encoding/xml"
+	"errors"
 	"fmt"
 	"io"
 	"net"
@@ -289,6 +290,9 @@ func readCerts(s string) ([]*x509.Certificate, error) {
 	var certs []*x509.Certificate
 	for len(b) > 0 {
 		block, rest := pem.Decode(b)
+		if block == nil {
+			break
+		}
 		b = rest
 		if block.Type == "CERTIFICATE" {
 			cert, err := x509.ParseCertificate(block.Bytes)
@@ -298,6 +302,9 @@ func readCerts(s string) ([]*x509.Certificate, error) {
 			certs = append(certs, cert)
 		}
 	}
+	if len(certs) == 0 {
+		return nil, errors.New("no certificates")
+	}
 	return certs, nil
 }
 
-- 
2.43.0


From 40a8cbb63521545ed6e586f48a0731b0e31bc0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:09 +0000
Subject: [PATCH 51/66] fix: config: reject SSO on backends that can't enforce
 it

---
 proxy/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/config.go b/proxy/config.go
index 6593821..d6a6bb2 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -1057,6 +1057,9 @@ func (cfg *Config) Check() error {
 		}
 
 		if be.SSO != nil {
+			if be.Mode != ModeHTTP && be.Mode != ModeHTTPS && be.Mode != ModeLocal && be.Mode != ModeConsole {
+				return fmt.Errorf("backend[%d].SSO: field is not valid in mode %s", i, be.Mode)
+			}
 			if !identityProviders[be.SSO.Provider] {
 				return fmt.Errorf("backend[%d].SSO.Provider: unknown provider %q", i, be.SSO.Provider)
 			}
-- 
2.43.0


From 5705ba5e78ebcd2184ca70ccb2db87670a86a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:30 +0000
Subject: [PATCH 52/66] fix: reload: a rejected configuration has no effect,
 and evaluating one doesn't stall the proxy

---
 proxy/proxy.go | 67 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 96d3cdd..d5a11e7 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -126,6 +126,11 @@ type Proxy struct {
 	tokenManager  *tokenmanager.TokenManager
 	wsUpgrader    *websocket.Upgrader
 
+	// reconfigMu serializes the calls to Reconfigure. It can be held for a
+	// long time, e.g. when an identity provider is slow. It is acquired
+	// before mu.
+	reconfigMu sync.Mutex
+
 	mu            sync.RWMutex
 	connClosed    *sync.Cond
 	defServerName string
@@ -287,23 +292,29 @@ func NewTestProxy(cfg *Config) (*Proxy, error) {
 
 // Reconfigure updates the proxy's configuration. Some parameters cannot be
 // changed after Start has been called, e.g. HTTPAddr, TLSAddr, CacheDir.
-func (p *Proxy) Reconfigure(cfg *Config) error {
+//
+// The proxy keeps running with the current configuration until everything in
+// the new one is ready. If an error is returned, nothing has changed.
+func (p *Proxy) Reconfigure(cfg *Config) (err error) {
+	p.reconfigMu.Lock()
+	defer p.reconfigMu.Unlock()
 	p.mu.RLock()
 	curCfg := p.cfg
 	p.mu.RUnlock()
 	if cfg.equal(curCfg) {
 		return nil
 	}
-	p.mu.Lock()
-	defer p.mu.Unlock()
 	cfg = cfg.clone()
 	if err := cfg.Check(); err != nil {
 		return err
 	}
-	if p.cfg != nil {
-		p.logErrorF("INF Configuration changed")
-		p.recordEvent("config change")
-	}
+	defer func() {
+		if err != nil {
+			for _, be := range cfg.Backends {
+				be.close(nil)
+			}
+		}
+	}()
 
 	type idp struct {
 		name             string
@@ -421,27 +432,22 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 		pkis[pp.Name] = m
 	}
 
+	bwLimits := make(map[string]*bwLimit)
 	for _, bwl := range cfg.BWLimits {
-		const minBurst = 1 << 17 // 128 KB
-		name := bwl.Name
-		if l, ok := p.bwLimits[name]; ok {
-			l.ingress.SetLimit(rate.Limit(bwl.Ingress))
-			l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
-			l.egress.SetLimit(rate.Limit(bwl.Egress))
-			l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
-			continue
-		}
-		p.bwLimits[name] = &bwLimit{
-			ingress: rate.NewLimiter(rate.Limit(bwl.Ingress), int(max(bwl.Ingress, minBurst))),
-			egress:  rate.NewLimiter(rate.Limit(bwl.Egress), int(max(bwl.Egress, minBurst))),
+		l, ok := p.bwLimits[bwl.Name]
+		if !ok {
+			l = &bwLimit{
+				ingress: rate.NewLimiter(0, 0),
+				egress:  rate.NewLimiter(0, 0),
+			}
 		}
+		bwLimits[bwl.Name] = l
 	}
 
 	backends := make(map[beKey]*Backend, len(cfg.Backends))
 	for _, be := range cfg.Backends {
 		be.recordEvent = p.recordEvent
 		be.tm = p.tokenManager
-		be.quicTransport = p.quicTransport
 		be.ocspCache = p.ocspCache
 		be.defaultLogFilter = cfg.LogFilter
 
@@ -457,7 +463,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 				backends[beKey{serverName: sn, proto: proto}] = be
 			}
 		}
-		if l, ok := p.bwLimits[be.BWLimit]; ok {
+		if l, ok := bwLimits[be.BWLimit]; ok {
 			be.bwLimit = l
 		}
 		if be.SSO != nil {
@@ -825,6 +831,25 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 		})
 		be.outConns = p.outConns
 	}
+
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if p.cfg != nil {
+		p.logErrorF("INF Configuration changed")
+		p.recordEvent("config change")
+	}
+	for _, bwl := range cfg.BWLimits {
+		const minBurst = 1 << 17 // 128 KB
+		l := bwLimits[bwl.Name]
+		l.ingress.SetLimit(rate.Limit(bwl.Ingress))
+		l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
+		l.egress.SetLimit(rate.Limit(bwl.Egress))
+		l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
+		p.bwLimits[bwl.Name] = l
+	}
+	for _, be := range cfg.Backends {
+		be.quicTransport = p.quicTransport
+	}
 	if p.cfg != nil {
 		for _, be := range p.cfg.Backends {
 			be.close(p.ctx)
-- 
2.43.0


From 1e63ffae58ef6623abbda547fa32218b7b150351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:26 +0000
Subject: [PATCH 53/66] fix: QUIC: release both directions of a stream when it
 is closed

---
 proxy/internal/netw/netw.go | 5 +++++
 proxy/internal/netw/quic.go | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/proxy/internal/netw/netw.go b/proxy/internal/netw/netw.go
index 4aeefb7..7c18d52 100644
--- a/proxy/internal/netw/netw.go
+++ b/proxy/internal/netw/netw.go
@@ -238,6 +238,11 @@ func (c *Conn) Close() error {
 	if f != nil {
 		f()
 	}
+	if cc, ok := c.Conn.(interface {
+		closeStream() error
+	}); ok {
+		return cc.closeStream()
+	}
 	return c.Conn.Close()
 }
 
diff --git a/proxy/internal/netw/quic.go b/proxy/internal/netw/quic.go
index 4697599..0aca23d 100644
--- a/proxy/internal/netw/quic.go
+++ b/proxy/internal/netw/quic.go
@@ -593,6 +593,14 @@ func (s *QUICStream) Close() error {
 	return err
 }
 
+// closeStream closes both directions of the stream. Close only closes the
+// writing side.
+func (s *QUICStream) closeStream() error {
+	err := s.Close()
+	s.CancelRead(0)
+	return err
+}
+
 func (s *QUICStream) CancelRead(e quic.StreamErrorCode) {
 	s.Stream.CancelRead(e)
 	s.markReadDone()
-- 
2.43.0


From 0e09f8e40b5c125dfb9fa512db2a0b10e01ff362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:02 +0000
Subject: [PATCH 54/66] fix: QUIC: reset the streams that are cut off

---
 proxy/backend.go            | 27 +++++++++++++++++++++++++--
 proxy/internal/netw/netw.go | 15 +++++++++++++++
 proxy/internal/netw/quic.go | 23 +++++++++++++++++++++++
 3 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index 128d439..3c44010 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -34,6 +34,7 @@ import (
 	"net"
 	"slices"
 	"strings"
+	"syscall"
 	"time"
 
 	"github.com/pires/go-proxyproto"
@@ -341,10 +342,22 @@ func (be *Backend) bridgeConns(client, server net.Conn) error {
 }
 
 func forward(out net.Conn, in net.Conn, closeWhenDone bool, halfClosedTimeout time.Duration) error {
-	if _, err := io.Copy(out, in); err != nil || closeWhenDone {
+	if _, err := io.Copy(out, in); err != nil {
+		if errors.Is(err, syscall.ECONNRESET) || errors.Is(err, syscall.EPIPE) {
+			// A TCP connection was reset. It's reported as the end.
+			closeWrite(in)
+			out.Close()
+			in.Close()
+			return err
+		}
+		abort(out, err)
+		abort(in, err)
+		return err
+	}
+	if closeWhenDone {
 		out.Close()
 		in.Close()
-		return err
+		return nil
 	}
 	if err := closeWrite(out); err != nil {
 		out.Close()
@@ -366,6 +379,16 @@ func forward(out net.Conn, in net.Conn, closeWhenDone bool, halfClosedTimeout ti
 	return nil
 }
 
+// abort closes a connection because of an error.
+func abort(c net.Conn, err error) error {
+	if cc, ok := c.(interface {
+		Abort(error) error
+	}); ok {
+		return cc.Abort(err)
+	}
+	return c.Close()
+}
+
 func closeWrite(c net.Conn) error {
 	type closeWriter interface {
 		CloseWrite() error
diff --git a/proxy/internal/netw/netw.go b/proxy/internal/netw/netw.go
index 7c18d52..cf407a2 100644
--- a/proxy/internal/netw/netw.go
+++ b/proxy/internal/netw/netw.go
@@ -246,6 +246,21 @@ func (c *Conn) Close() error {
 	return c.Conn.Close()
 }
 
+// Abort closes the connection because of an error. With a QUIC stream, the peer
+// can tell that what it received is incomplete.
+func (c *Conn) Abort(err error) error {
+	c.abort(err)
+	return c.Close()
+}
+
+func (c *Conn) abort(err error) {
+	if cc, ok := c.Conn.(interface {
+		abort(error)
+	}); ok {
+		cc.abort(err)
+	}
+}
+
 func newCounter() *counter.Counter {
 	return counter.New(time.Minute, time.Second)
 }
diff --git a/proxy/internal/netw/quic.go b/proxy/internal/netw/quic.go
index 0aca23d..31e70bd 100644
--- a/proxy/internal/netw/quic.go
+++ b/proxy/internal/netw/quic.go
@@ -48,6 +48,10 @@ var quicConfig = &quic.Config{
 	EnableDatagrams: true,
 }
 
+// streamAborted is the code of streams that end because of an error that isn't
+// itself a stream error.
+const streamAborted = quic.StreamErrorCode(0x1004)
+
 // NewQUIC returns a wrapper around a quic.Transport to keep track of metrics
 // and annotations.
 func NewQUIC(addr string, statelessResetKey quic.StatelessResetKey) (*QUICTransport, error) {
@@ -601,6 +605,25 @@ func (s *QUICStream) closeStream() error {
 	return err
 }
 
+// abort cancels what isn't already closed, in both directions.
+func (s *QUICStream) abort(err error) {
+	code := streamAborted
+	var streamErr *quic.StreamError
+	var appErr *quic.ApplicationError
+	if errors.As(err, &streamErr) {
+		code = streamErr.ErrorCode
+	} else if errors.As(err, &appErr) {
+		code = quic.StreamErrorCode(appErr.ErrorCode)
+	}
+	s.mu.Lock()
+	writeDone := s.writeDone
+	s.mu.Unlock()
+	if !writeDone {
+		s.CancelWrite(code)
+	}
+	s.CancelRead(code)
+}
+
 func (s *QUICStream) CancelRead(e quic.StreamErrorCode) {
 	s.Stream.CancelRead(e)
 	s.markReadDone()
-- 
2.43.0


From f42fcd08fc2ca00488b8ccbab71bbf0181178c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:46 +0000
Subject: [PATCH 55/66] fix: QUIC: don't cut unidirectional streams after the
 half close timeout

---
 proxy/quic.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/proxy/quic.go b/proxy/quic.go
index e403820..a517471 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -422,7 +422,8 @@ func (be *Backend) handleQUICQUICStream(ctx context.Context, dest *netw.QUICConn
 		return
 	}
 	var intConn *netw.Conn
-	if _, ok := qs.Stream.(*netw.ReceiveOnlyStream); ok {
+	_, unidirectional := qs.Stream.(*netw.ReceiveOnlyStream)
+	if unidirectional {
 		sendStream, err := dest.OpenUniStreamSync(ctx)
 		if err != nil {
 			be.recordEvent("openstream error")
@@ -456,7 +457,14 @@ func (be *Backend) handleQUICQUICStream(ctx context.Context, dest *netw.QUICConn
 	desc := formatConnDesc(conn)
 	be.logConnF("STR %s", desc)
 
-	if err := be.bridgeConns(conn, intConn); err != nil {
+	var err error
+	if unidirectional {
+		// There is nothing to wait for in the other direction.
+		err = forward(intConn, conn, true, 0)
+	} else {
+		err = be.bridgeConns(conn, intConn)
+	}
+	if err != nil {
 		be.logErrorF("DBG %s %v", desc, err)
 	}
 
-- 
2.43.0


From bc52cb03050f89ccd2f45e252200dda12df496c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:20 +0000
Subject: [PATCH 56/66] fix: half-close TLS backend connections when the client
 sends no data

---
 proxy/backend.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proxy/backend.go b/proxy/backend.go
index 3c44010..2e4d304 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -393,6 +393,12 @@ func closeWrite(c net.Conn) error {
 	type closeWriter interface {
 		CloseWrite() error
 	}
+	if cc, ok := c.(*tls.Conn); ok {
+		// CloseWrite requires that the handshake is complete.
+		if err := cc.Handshake(); err != nil {
+			return err
+		}
+	}
 	if cc, ok := c.(closeWriter); ok {
 		return cc.CloseWrite()
 	}
-- 
2.43.0


From 4b13fc871db7e3f3b173142752165edd43fe0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:01 +0000
Subject: [PATCH 57/66] fix: QUIC: close the backend connection of a stream
 that ended

---
 proxy/quic.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/proxy/quic.go b/proxy/quic.go
index a517471..651c797 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -49,6 +49,10 @@ const (
 	quicIsEnabled         = true
 	statelessResetKeyFile = "quic-stateless-reset-key"
 
+	// quicLinger is how long a connection stays open when it isn't needed
+	// anymore, for the data that's in flight.
+	quicLinger = 10 * time.Second
+
 	quicUnrecognizedName = quic.ApplicationErrorCode(0x1001)
 	quicAccessDenied     = quic.ApplicationErrorCode(0x1002)
 	quicBadGateway       = quic.ApplicationErrorCode(0x1003)
@@ -504,9 +508,17 @@ func (be *Backend) dialQUICStream(ctx context.Context, addr string, tc *tls.Conf
 	}
 	s, err := conn.OpenStreamSync(ctx)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
-	return conn.WrapConn(s), nil
+	c := conn.WrapConn(s)
+	c.OnClose(func() {
+		// Let the backend receive everything that was sent first.
+		time.AfterFunc(quicLinger, func() {
+			conn.Close()
+		})
+	})
+	return c, nil
 }
 
 func (be *Backend) dialQUICBackend(ctx context.Context, proto string) (*netw.QUICConn, error) {
-- 
2.43.0


From aa17895936c2c7717a67b6a4103529e0e5b2c20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:19 +0000
Subject: [PATCH 58/66] fix: QUIC: reset the streams whose other direction
 can't be closed

---
 proxy/backend.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index 2e4d304..db4a3b2 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -360,13 +360,13 @@ func forward(out net.Conn, in net.Conn, closeWhenDone bool, halfClosedTimeout ti
 		return nil
 	}
 	if err := closeWrite(out); err != nil {
-		out.Close()
-		in.Close()
+		abort(out, err)
+		abort(in, err)
 		return nil
 	}
 	if err := closeRead(in); err != nil {
-		out.Close()
-		in.Close()
+		abort(out, err)
+		abort(in, err)
 		return nil
 	}
 	// At this point, the connection is either half closed, or fully closed.
-- 
2.43.0


From 2a2e55259a03e32de5dbb355237e86bd9ef0242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:50 +0000
Subject: [PATCH 59/66] fix: QUIC: apply the close policies to the right side
 of the streams opened by the backend

---
 proxy/quic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index 651c797..34ca961 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -465,6 +465,9 @@ func (be *Backend) handleQUICQUICStream(ctx context.Context, dest *netw.QUICConn
 	if unidirectional {
 		// There is nothing to wait for in the other direction.
 		err = forward(intConn, conn, true, 0)
+	} else if dest == ctx.Value(connCtxKey) {
+		// The backend opened the stream.
+		err = be.bridgeConns(intConn, conn)
 	} else {
 		err = be.bridgeConns(conn, intConn)
 	}
-- 
2.43.0


From b63256126d2216cc0cef1713388cdc0f7ee93875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:01 +0000
Subject: [PATCH 60/66] fix: QUIC: don't cut the streams of bandwidth limited
 connections that are half closed

---
 proxy/internal/netw/quic.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/netw/quic.go b/proxy/internal/netw/quic.go
index 31e70bd..b5528d7 100644
--- a/proxy/internal/netw/quic.go
+++ b/proxy/internal/netw/quic.go
@@ -563,7 +563,7 @@ func (s *QUICStream) markWriteDone() {
 
 func (s *QUICStream) Read(b []byte) (int, error) {
 	if l := s.qc.ingressLimiter; l != nil {
-		if err := l.WaitN(s.Context(), len(b)); err != nil {
+		if err := l.WaitN(s.qc.Context(), len(b)); err != nil {
 			return 0, err
 		}
 	}
@@ -578,7 +578,7 @@ func (s *QUICStream) Read(b []byte) (int, error) {
 
 func (s *QUICStream) Write(b []byte) (int, error) {
 	if l := s.qc.egressLimiter; l != nil {
-		if err := l.WaitN(s.Context(), len(b)); err != nil {
+		if err := l.WaitN(s.qc.Context(), len(b)); err != nil {
 			return 0, err
 		}
 	}
-- 
2.43.0


From a90da48108357702b0ec800a59ffeda92180c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:01 +0000
Subject: [PATCH 61/66] fix: QUIC: reset the streams whose backend can't be
 reached

---
 proxy/quic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index 34ca961..3e66500 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -388,6 +388,7 @@ func (p *Proxy) handleQUICTCPStream(ctx context.Context, be *Backend, conn *netw
 		if err != nil {
 			p.recordEvent("dial error")
 			be.logErrorF("ERR [-] %s:%s ➔  %q Dial: %v", conn.RemoteAddr().Network(), conn.RemoteAddr(), serverName, err)
+			conn.Abort(&quic.StreamError{ErrorCode: quic.StreamErrorCode(quicBadGateway)})
 			return
 		}
 		defer intConn.Close()
-- 
2.43.0


From 5b97832093db3de7a3f3c195d46ebbea9b20748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:32 +0000
Subject: [PATCH 62/66] fix: QUIC: close the connection of the client when the
 backend's is gone

---
 proxy/quic.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/proxy/quic.go b/proxy/quic.go
index 3e66500..5e58a40 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -234,6 +234,26 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		}
 		defer beConn.Close()
 
+		go func() {
+			select {
+			case <-ctx.Done():
+				return
+			case <-beConn.Context().Done():
+			}
+			// Let the client receive everything that was sent first.
+			select {
+			case <-ctx.Done():
+				return
+			case <-time.After(quicLinger):
+			}
+			var appErr *quic.ApplicationError
+			if errors.As(context.Cause(beConn.Context()), &appErr) {
+				qc.CloseWithError(appErr.ErrorCode, appErr.ErrorMessage)
+				return
+			}
+			qc.CloseWithError(quicBadGateway, "bad gateway")
+		}()
+
 		var wg sync.WaitGroup
 		wg.Add(1)
 		go func() {
@@ -433,10 +453,7 @@ func (be *Backend) handleQUICQUICStream(ctx context.Context, dest *netw.QUICConn
 		if err != nil {
 			be.recordEvent("openstream error")
 			be.logErrorF("ERR [-] %s:%s ➔  %q OpenUniStreamSync: %v", conn.RemoteAddr().Network(), conn.RemoteAddr(), serverName, err)
-			var appErr *quic.ApplicationError
-			if errors.As(err, &appErr) {
-				qs.CancelRead(quic.StreamErrorCode(appErr.ErrorCode))
-			}
+			conn.Abort(err)
 			return
 		}
 		intConn = dest.WrapConn(sendStream)
@@ -445,10 +462,7 @@ func (be *Backend) handleQUICQUICStream(ctx context.Context, dest *netw.QUICConn
 		if err != nil {
 			be.recordEvent("openstream error")
 			be.logErrorF("ERR [-] %s:%s ➔  %q OpenStreamSync: %v", conn.RemoteAddr().Network(), conn.RemoteAddr(), serverName, err)
-			var appErr *quic.ApplicationError
-			if errors.As(err, &appErr) {
-				qs.CancelRead(quic.StreamErrorCode(appErr.ErrorCode))
-			}
+			conn.Abort(err)
 			return
 		}
 		intConn = dest.WrapConn(stream)
-- 
2.43.0


From 61bf1f4c3b59ff42c9478ab7e381c8cf2e482171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:50 +0000
Subject: [PATCH 63/66] fix: QUIC: use the default server name

---
 proxy/quic.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/proxy/quic.go b/proxy/quic.go
index 5e58a40..c8ddc8e 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -76,14 +76,19 @@ func (p *Proxy) startQUIC(ctx context.Context) error {
 	tc := p.baseTLSConfig()
 	tc.MinVersion = tls.VersionTLS13
 	tc.GetConfigForClient = func(hello *tls.ClientHelloInfo) (*tls.Config, error) {
+		serverName := hello.ServerName
+		if serverName == "" {
+			p.recordEvent("no SNI")
+			serverName = p.defaultServerName()
+		}
 		p.mu.RLock()
 		defer p.mu.RUnlock()
 		for _, proto := range hello.SupportedProtos {
-			if be, ok := p.backends[beKey{serverName: hello.ServerName, proto: proto}]; ok && be.Mode != ModeTLSPassthrough {
+			if be, ok := p.backends[beKey{serverName: serverName, proto: proto}]; ok && be.Mode != ModeTLSPassthrough {
 				return be.tlsConfigQUIC, nil
 			}
 		}
-		p.logErrorF("ERR QUIC connection %s %s", hello.ServerName, hello.SupportedProtos)
+		p.logErrorF("ERR QUIC connection %s %s", serverName, hello.SupportedProtos)
 		return nil, tlsUnrecognizedName
 	}
 	qt, err := netw.NewQUIC(p.cfg.TLSAddr, statelessResetKey)
@@ -146,7 +151,11 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	qc.SetAnnotation(startTimeKey, time.Now())
 
 	cs := qc.TLSConnectionState()
-	qc.SetAnnotation(serverNameKey, cs.ServerName)
+	serverName := cs.ServerName
+	if serverName == "" {
+		serverName = p.defaultServerName()
+	}
+	qc.SetAnnotation(serverNameKey, serverName)
 	qc.SetAnnotation(protoKey, cs.NegotiatedProtocol)
 
 	var clientCert *x509.Certificate
@@ -160,19 +169,19 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		sum = "-"
 	}
 
-	be, err := p.attachBackend(qc, cs.ServerName, cs.NegotiatedProtocol)
+	be, err := p.attachBackend(qc, serverName, cs.NegotiatedProtocol)
 	if err != nil {
 		p.recordEvent(err.Error())
-		p.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
+		p.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), serverName, err)
 		qc.CloseWithError(quicUnrecognizedName, "unrecognized name")
 		return
 	}
-	p.setCounters(qc, cs.ServerName)
+	p.setCounters(qc, serverName)
 
 	// The configuration may have changed since the TLS handshake.
 	qc.SetAnnotation(connStateKey, cs)
 	if err := p.reVerifyClientCert(be, cs); err != nil {
-		be.logErrorF("BAD [%s] %s:%s ➔ %q Authorize: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), err)
+		be.logErrorF("BAD [%s] %s:%s ➔ %q Authorize: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(serverName), err)
 		qc.CloseWithError(quicAccessDenied, "access denied")
 		return
 	}
@@ -188,17 +197,17 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	}
 
 	if err := be.checkIP(qc.RemoteAddr()); err != nil {
-		p.recordEvent(idnaToUnicode(cs.ServerName) + " CheckIP " + err.Error())
-		be.logErrorF("BAD [%s] %s:%s ➔ %q CheckIP: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), err)
+		p.recordEvent(idnaToUnicode(serverName) + " CheckIP " + err.Error())
+		be.logErrorF("BAD [%s] %s:%s ➔ %q CheckIP: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(serverName), err)
 		qc.CloseWithError(quicAccessDenied, "access denied")
 		return
 	}
 
-	be.logConnF("QUC [%s] %s:%s ➔ %s|%s:%s", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), be.Mode, cs.NegotiatedProtocol)
+	be.logConnF("QUC [%s] %s:%s ➔ %s|%s:%s", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(serverName), be.Mode, cs.NegotiatedProtocol)
 	if err := be.connLimit.Wait(ctx); err != nil {
 		if !errors.Is(err, context.Canceled) {
 			p.recordEvent(err.Error())
-			be.logErrorF("ERR [%s] %s ➔  %q Wait: %v", sum, qc.RemoteAddr(), idnaToUnicode(cs.ServerName), err)
+			be.logErrorF("ERR [%s] %s ➔  %q Wait: %v", sum, qc.RemoteAddr(), idnaToUnicode(serverName), err)
 		}
 		return
 	}
@@ -215,7 +224,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		if errors.As(err, &idleTimeout) && idleTimeout.Timeout() {
 			return
 		}
-		be.logErrorF("ERR [%s] %s:%s ➔ %s|%s:%s %s: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), be.Mode, cs.NegotiatedProtocol, tag, err)
+		be.logErrorF("ERR [%s] %s:%s ➔ %s|%s:%s %s: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(serverName), be.Mode, cs.NegotiatedProtocol, tag, err)
 	}
 
 	if serv, ok := be.http3Server.(*http3.Server); ok && cs.NegotiatedProtocol == "h3" {
@@ -229,7 +238,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		beConn, err := be.dialQUICBackend(ctx, cs.NegotiatedProtocol)
 		if err != nil {
 			qc.CloseWithError(quicBadGateway, "bad gateway")
-			be.logErrorF("ERR [%s] %s:%s ➔ %s|%s:%s dialQUICBackend: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), be.Mode, cs.NegotiatedProtocol, err)
+			be.logErrorF("ERR [%s] %s:%s ➔ %s|%s:%s dialQUICBackend: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(serverName), be.Mode, cs.NegotiatedProtocol, err)
 			return
 		}
 		defer beConn.Close()
-- 
2.43.0


From a855f8f62f97bd978e99cbe82dfaac5e46951745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:32 +0000
Subject: [PATCH 64/66] fix: shutdown doesn't miss the end of the last
 connection

A connection that was closed between Shutdown's check and its wait
was not noticed, and Shutdown waited until the end of the grace period.
---
 proxy/proxy.go | 13 ++++++++++++-
 proxy/quic.go  |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index d5a11e7..2fe935f 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -1111,6 +1111,17 @@ func (p *Proxy) Shutdown(ctx context.Context) {
 	p.Stop()
 }
 
+// notifyConnClosed wakes up Shutdown. The lock makes sure that it doesn't happen
+// between Shutdown's check of the connections and its wait. The caller may hold
+// other locks.
+func (p *Proxy) notifyConnClosed() {
+	go func() {
+		p.mu.Lock()
+		defer p.mu.Unlock()
+		p.connClosed.Broadcast()
+	}()
+}
+
 func (p *Proxy) baseTLSConfig() *tls.Config {
 	tc := p.certManager.TLSConfig()
 	getCert := tc.GetCertificate
@@ -1232,7 +1243,7 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 					conn.BytesReceived(), conn.BytesSent())
 			}
 		}
-		p.connClosed.Broadcast()
+		p.notifyConnClosed()
 	})
 	if numOpen >= p.cfg.MaxOpen {
 		p.recordEvent("too many open connections")
diff --git a/proxy/quic.go b/proxy/quic.go
index c8ddc8e..f69d189 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -146,7 +146,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 				formatConnDesc(qc), time.Since(startTime).Truncate(time.Millisecond),
 				qc.BytesReceived(), qc.BytesSent())
 		}
-		p.connClosed.Broadcast()
+		p.notifyConnClosed()
 	})
 	qc.SetAnnotation(startTimeKey, time.Now())
 
-- 
2.43.0


From e2eb7594c1cd71cc0b16dd58331174af99a3eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:34 +0000
Subject: [PATCH 65/66] fix: a shutdown after a config change doesn't cut off
 requests

The connections are re-authorized in the background after a change. When
the proxy was being shut down by then, they were all closed.
---
 proxy/backend.go | 6 ++++++
 proxy/proxy.go   | 8 +++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index db4a3b2..7b5c1e9 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -103,6 +103,12 @@ func (be *Backend) handOver(conn net.Conn) bool {
 	return true
 }
 
+func (be *Backend) isShutdown() bool {
+	be.state.mu.Lock()
+	defer be.state.mu.Unlock()
+	return be.state.shutdown
+}
+
 func (be *Backend) close(ctx context.Context) {
 	be.state.mu.Lock()
 	defer be.state.mu.Unlock()
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 2fe935f..da44108 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -1523,6 +1523,9 @@ func (p *Proxy) attachBackend(conn annotatedConnection, serverName string, proto
 	if err != nil {
 		return nil, err
 	}
+	if be.isShutdown() {
+		return nil, errors.New("backend shutdown")
+	}
 	be.attach(conn)
 	if conn.Annotation(closedKey, false).(bool) {
 		// The connection was closed before it had a backend.
@@ -1552,11 +1555,6 @@ func (p *Proxy) backendLocked(serverName string, protos ...string) (*Backend, er
 	if !ok {
 		return nil, errors.New("unexpected SNI")
 	}
-	be.state.mu.Lock()
-	defer be.state.mu.Unlock()
-	if be.state.shutdown {
-		return nil, errors.New("backend shutdown")
-	}
 	return be, nil
 }
 
-- 
2.43.0


From a4af5d26999f6d89db0f5b5296b6bef7ce706a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:37 +0000
Subject: [PATCH 66/66] fix: graceful shutdown of HTTP/3 requests and backends

The QUIC transport was closed at the beginning of the shutdown, with the
requests in progress.
---
 proxy/internal/netw/noquic.go |  4 ++++
 proxy/internal/netw/quic.go   | 22 ++++++++++++++++++++++
 proxy/noquic.go               |  2 +-
 proxy/proxy.go                | 19 ++++++++++++++-----
 proxy/quic.go                 | 17 +++++++++++++++--
 5 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/proxy/internal/netw/noquic.go b/proxy/internal/netw/noquic.go
index 8ff7fb4..6ecfe0e 100644
--- a/proxy/internal/netw/noquic.go
+++ b/proxy/internal/netw/noquic.go
@@ -68,3 +68,7 @@ func (*QUICConn) ByteRateSent() float64 {
 func (*QUICConn) ByteRateReceived() float64 {
 	return 0
 }
+
+func (*QUICConn) Busy() bool {
+	return false
+}
diff --git a/proxy/internal/netw/quic.go b/proxy/internal/netw/quic.go
index b5528d7..3638340 100644
--- a/proxy/internal/netw/quic.go
+++ b/proxy/internal/netw/quic.go
@@ -158,6 +158,28 @@ type QUICConn struct {
 	upBytesSent     *counter.Counter
 	upBytesReceived *counter.Counter
 	streams         []*QUICStream
+	requests        int
+}
+
+// BeginRequest is called when the processing of a request begins.
+func (c *QUICConn) BeginRequest() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.requests++
+}
+
+// EndRequest is called when the processing of a request ends.
+func (c *QUICConn) EndRequest() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.requests--
+}
+
+// Busy says whether a request is being processed.
+func (c *QUICConn) Busy() bool {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.requests > 0
 }
 
 // SetAnnotation sets an annotation. The value can be any go value.
diff --git a/proxy/noquic.go b/proxy/noquic.go
index e112bf8..ffdc091 100644
--- a/proxy/noquic.go
+++ b/proxy/noquic.go
@@ -50,6 +50,6 @@ func (be *Backend) http3Transport() http.RoundTripper {
 	return nil
 }
 
-func http3Server(http.Handler) io.Closer {
+func http3Server(http.Handler, func()) io.Closer {
 	return nil
 }
diff --git a/proxy/proxy.go b/proxy/proxy.go
index da44108..4ddc2e3 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -120,6 +120,7 @@ type Proxy struct {
 	cancel        func()
 	listener      net.Listener
 	quicTransport io.Closer
+	quicListener  io.Closer
 	tpm           *tpm.TPM
 	mk            crypto.MasterKey
 	store         *storage.Storage
@@ -696,21 +697,21 @@ func (p *Proxy) Reconfigure(cfg *Config) (err error) {
 			be.httpConnChan = make(chan net.Conn)
 			be.httpServer = startInternalHTTPServer(be.localHandler(), be.httpConnChan)
 			if *cfg.EnableQUIC && be.ALPNProtos != nil && slices.Contains(*be.ALPNProtos, "h3") {
-				be.http3Server = http3Server(be.localHandler())
+				be.http3Server = http3Server(be.localHandler(), p.notifyConnClosed)
 			}
 
 		case ModeLocal:
 			be.httpConnChan = make(chan net.Conn)
 			be.httpServer = startInternalHTTPServer(be.localHandler(), be.httpConnChan)
 			if *cfg.EnableQUIC && be.ALPNProtos != nil && slices.Contains(*be.ALPNProtos, "h3") {
-				be.http3Server = http3Server(be.localHandler())
+				be.http3Server = http3Server(be.localHandler(), p.notifyConnClosed)
 			}
 
 		case ModeHTTPS, ModeHTTP:
 			be.httpConnChan = make(chan net.Conn)
 			be.httpServer = startInternalHTTPServer(be.reverseProxy(), be.httpConnChan)
 			if *cfg.EnableQUIC && be.ALPNProtos != nil && slices.Contains(*be.ALPNProtos, "h3") {
-				be.http3Server = http3Server(be.reverseProxy())
+				be.http3Server = http3Server(be.reverseProxy(), p.notifyConnClosed)
 			}
 		}
 	}
@@ -1079,8 +1080,9 @@ func (p *Proxy) Stop() {
 func (p *Proxy) Shutdown(ctx context.Context) {
 	p.mu.Lock()
 	p.listener.Close()
-	if p.quicTransport != nil {
-		p.quicTransport.Close()
+	// The transport is needed by the requests that are in progress.
+	if p.quicListener != nil {
+		p.quicListener.Close()
 	}
 	for _, be := range p.cfg.Backends {
 		be.close(ctx)
@@ -1091,6 +1093,13 @@ func (p *Proxy) Shutdown(ctx context.Context) {
 	go func() {
 		connLeft := func() bool {
 			for _, c := range p.inConns.slice() {
+				// HTTP/3 clients keep their connections open.
+				if qc, ok := c.(*netw.QUICConn); ok {
+					if qc.Busy() {
+						return true
+					}
+					continue
+				}
 				if mode := connMode(c); mode != ModeTCP && mode != ModeTLS && mode != ModeTLSPassthrough {
 					return true
 				}
diff --git a/proxy/quic.go b/proxy/quic.go
index f69d189..73371ef 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -100,6 +100,7 @@ func (p *Proxy) startQUIC(ctx context.Context) error {
 		return err
 	}
 	p.quicTransport = qt
+	p.quicListener = quicListener
 	for _, be := range p.cfg.Backends {
 		be.quicTransport = qt
 	}
@@ -652,9 +653,21 @@ func (be *Backend) http3Transport() http.RoundTripper {
 	}
 }
 
-func http3Server(handler http.Handler) *http3.Server {
+func http3Server(handler http.Handler, onRequestEnd func()) *http3.Server {
 	return &http3.Server{
-		Handler: handler,
+		Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
+			if qc, ok := req.Context().Value(connCtxKey).(*netw.QUICConn); ok {
+				qc.BeginRequest()
+				// Let the client receive the end of the response.
+				defer func() {
+					time.AfterFunc(quicLinger, func() {
+						qc.EndRequest()
+						onRequestEnd()
+					})
+				}()
+			}
+			handler.ServeHTTP(w, req)
+		}),
 		ConnContext: func(ctx context.Context, c quic.Connection) context.Context {
 			if _, ok := c.(*netw.QUICConn); !ok {
 				panic(fmt.Sprintf("http3.Server.ConnContext called with: %#v", c))
-- 
2.43.0

