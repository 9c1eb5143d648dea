From fbc8c9d7ecf72f4cd79f523100708c729e900e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:00 +0000
Subject: [PATCH 01/28] fix: KeySet.Upsert replaces the key of a known kid
 instead of a loop copy

---
 jwt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jwt.go b/jwt.go
index bbd7114..2f2b107 100644
--- a/jwt.go
+++ b/jwt.go
@@ -20,9 +20,9 @@ type KeySet []KidPair
 
 func (ks *KeySet) Upsert(kp KidPair) {
 	updated := false
-	for _, k := range *ks {
+	for i, k := range *ks {
 		if k.Kid == kp.Kid {
-			k.Key = kp.Key
+			(*ks)[i].Key = kp.Key
 			updated = true
 		}
 	}
-- 
2.43.0


From 1732af43c71550bdb8ee3f0dcf3e3da042980309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:02 +0000
Subject: [PATCH 02/28] fix: reject bearer tokens that do not parse instead of
 crashing the request

---
 proxy.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index c07c6ca..7bb8057 100644
--- a/proxy.go
+++ b/proxy.go
@@ -579,6 +579,9 @@ func (proxy *Proxy) verifySignature(token string, keySet KeySet, alg jwa.Signatu
 	var parsed jwt.Token
 
 	msg, err = jws.Parse(bytes.NewReader([]byte(token)))
+	if err != nil {
+		return nil, err
+	}
 	if len(msg.Signatures()) > 0 {
 		//first we try to validate by a key with the kid parameter to match.
 		kid := extractKid(token)
@@ -663,7 +666,10 @@ func logDateClaims(parsed jwt.Token, ev *zerolog.Event) {
 func verifyDateClaims(token string, skew int) error {
 	//arghh i need a deep copy of this token so i can modify it, but it's an interface wrapping a package private jwt.stdToken
 	//so i need to parse it again.
-	skewed, _ := jwt.Parse(bytes.NewReader([]byte(token)))
+	skewed, err := jwt.Parse(bytes.NewReader([]byte(token)))
+	if err != nil {
+		return err
+	}
 
 	if skewed.IssuedAt().Unix() > int64(skew*1000) {
 		skewed.Set("iat", skewed.IssuedAt().Add(-time.Second*time.Duration(skew)))
-- 
2.43.0


From 326cfccb792ae00aed63864dd42cb386aade60f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:03 +0000
Subject: [PATCH 03/28] fix: check that an ECDSA jwk decoded before looking at
 its curve

---
 jwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index 2f2b107..760b62e 100644
--- a/jwt.go
+++ b/jwt.go
@@ -224,7 +224,9 @@ func (jwt *Jwt) LoadJwks() error {
 							},
 						}
 						err = key.Raw(k.Key)
-						err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						if err == nil {
+							err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
+						}
 						if err == nil {
 							jwt.ECDSAPublic.Upsert(k)
 						}
-- 
2.43.0


From a4a2b5c05ef3ab80463959e37992fa5659c470ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:04 +0000
Subject: [PATCH 04/28] fix: report an undecodable jwt key certificate instead
 of crashing

---
 jwt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jwt.go b/jwt.go
index 760b62e..927050c 100644
--- a/jwt.go
+++ b/jwt.go
@@ -288,6 +288,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		case "CERTIFICATE":
 			var cert interface{}
 			cert, err = x509.ParseCertificate(p.Bytes)
+			if err != nil {
+				return errors.New(fmt.Sprintf(pemAsn1Bad, jwt.Name))
+			}
 			switch cert.(type) {
 			case *x509.Certificate:
 				key := cert.(*x509.Certificate).PublicKey
@@ -347,6 +350,9 @@ func (jwt *Jwt) parseKey(alg jwa.SignatureAlgorithm) error {
 		case "CERTIFICATE":
 			var cert interface{}
 			cert, err = x509.ParseCertificate(p.Bytes)
+			if err != nil {
+				return errors.New(fmt.Sprintf(pemAsn1Bad, jwt.Name))
+			}
 			switch cert.(type) {
 			case *x509.Certificate:
 				key := cert.(*x509.Certificate).PublicKey
-- 
2.43.0


From 729ae66ac5a38a8d77609094f3cc22ec2218ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:43 +0000
Subject: [PATCH 05/28] fix: reject request bodies over the limit also when
 their length was not declared

---
 proxy.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index 7bb8057..3b277b3 100644
--- a/proxy.go
+++ b/proxy.go
@@ -238,7 +238,7 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 	}
 
 	//only try to parse the request if supplied content-length is within limits
-	if request.ContentLength >= Runner.Connection.Downstream.MaxBodyBytes {
+	if request.ContentLength > Runner.Connection.Downstream.MaxBodyBytes {
 		proxy.Dwn.ReqTooLarge = true
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
@@ -249,9 +249,10 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 
 	//create buffered reader so we can fetch chunks of request as they come.
 	//No need to close request.Body of type io.ReadCloser, see: https://golang.org/pkg/net/http/#Request
+	//we read one byte past the limit so bodies that exceed it without announcing their length are detected.
 	bodyReader := bufio.NewReader(http.MaxBytesReader(proxy.Dwn.Resp.Writer,
 		request.Body,
-		Runner.Connection.Downstream.MaxBodyBytes))
+		Runner.Connection.Downstream.MaxBodyBytes+1))
 
 	var err error
 	var buf []byte
-- 
2.43.0


From 7aa5b6a46789e0b53c9aeb247e1a56650a20349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:44 +0000
Subject: [PATCH 06/28] fix: reject requests whose body broke off instead of
 forwarding them without a body

---
 proxy.go        | 3 +++
 proxyhandler.go | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index 3b277b3..05f945c 100644
--- a/proxy.go
+++ b/proxy.go
@@ -97,6 +97,8 @@ type Down struct {
 	Aborted     <-chan struct{}
 	AbortedFlag bool
 	ReqTooLarge bool
+	//ReqIncomplete is set if the request body was announced or begun but could not be read to its end.
+	ReqIncomplete bool
 	startDate   time.Time
 	HttpVer     string
 	TlsVer      string
@@ -268,6 +270,7 @@ func (proxy *Proxy) parseRequestBody(request *http.Request) {
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
 			Msgf("downstream request body too large. %d body bytes > server max %d", n, Runner.Connection.Downstream.MaxBodyBytes)
 	} else if err != nil && err != io.EOF {
+		proxy.Dwn.ReqIncomplete = n > 0 || request.ContentLength > 0
 		log.Trace().
 			Str(XRequestID, proxy.XRequestID).
 			Int64("dwnElapsedMicros", time.Since(proxy.Dwn.startDate).Microseconds()).
diff --git a/proxyhandler.go b/proxyhandler.go
index a32064b..77622d4 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -77,7 +77,8 @@ func proxyHandler(response http.ResponseWriter, request *http.Request) {
 
 func validate(proxy *Proxy) bool {
 	return proxy.hasLegalHTTPMethod() &&
-		!proxy.Dwn.ReqTooLarge
+		!proxy.Dwn.ReqTooLarge &&
+		!proxy.Dwn.ReqIncomplete
 }
 
 func handle(proxy *Proxy) {
-- 
2.43.0


From 18d234e93babeb0b756d1fdc340aa952c37c89c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:45 +0000
Subject: [PATCH 07/28] fix: label gzip compressed JSON status responses with
 their content encoding

---
 server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index ccb4004..566db85 100644
--- a/server.go
+++ b/server.go
@@ -214,7 +214,11 @@ func (runtime Runtime) tlsConfig() *tls.Config {
 func sendStatusCodeAsJSON(proxy *Proxy) {
 	proxy.writeStandardResponseHeaders()
 	proxy.Dwn.Resp.Writer.Header().Set("Content-Type", "application/json")
-	proxy.writeContentEncodingHeader()
+	if proxy.Dwn.Resp.SendGzip {
+		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, "gzip")
+	} else {
+		proxy.Dwn.Resp.Writer.Header().Set(contentEncoding, "identity")
+	}
 
 	proxy.Dwn.Resp.Writer.WriteHeader(proxy.Dwn.Resp.StatusCode)
 
-- 
2.43.0


From 70e5d8b36a365f6a208e9bb888cd93fdb352acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:47 +0000
Subject: [PATCH 08/28] fix: do not sort the shared policy while requests use
 it

---
 policy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/policy.go b/policy.go
index a2603e7..e224ea1 100644
--- a/policy.go
+++ b/policy.go
@@ -28,7 +28,9 @@ func (policy Policy) Less(i, j int) bool {
 //resolve a label inside a policy
 func (policy Policy) resolveLabel() string {
 	dice := rand.Float64()
-	sort.Sort(Policy(policy))
+	//sort a copy, the policy itself is shared by all requests
+	policy = append(Policy{}, policy...)
+	sort.Sort(policy)
 	var cw []float64
 	//add up cumulative weights 0 < w < 1
 	for i := 1; i <= len(policy); i++ {
-- 
2.43.0


From 0c2555fca89de7d68ebdb0dfd201cca8deb7b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:48 +0000
Subject: [PATCH 09/28] fix: compile the address patterns once instead of
 racing on first use

---
 iprex.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/iprex.go b/iprex.go
index 9ae2904..7219396 100644
--- a/iprex.go
+++ b/iprex.go
@@ -1,9 +1,15 @@
 package j8a
 
-import "regexp"
+import (
+	"regexp"
+	"sync"
+)
 
 //TODO: rather not use multiple regexes in a chain and replace this with a tested thirdparty framework.
 type iprex struct {
+	//compiles the expressions below on first use
+	compile sync.Once
+
 	//v6 hex with embedded v4 dec address
 	ipv64e *regexp.Regexp
 
@@ -19,22 +25,12 @@ type iprex struct {
 
 func (ipr *iprex) extractAddr(msg string) string {
 	addr := "not found"
-	if ipr.ipv6s == nil {
-		r2, _ := regexp.Compile("([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}")
-		ipr.ipv6s = r2
-	}
-	if ipr.ipv6 == nil {
-		r1, _ := regexp.Compile("(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))")
-		ipr.ipv6 = r1
-	}
-	if ipr.ipv64e == nil {
-		r, _ := regexp.Compile("(:{0,2})([0-9a-fA-F]{1,4}:){1,6}(:{0,1})((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])")
-		ipr.ipv64e = r
-	}
-	if ipr.ipv4 == nil {
-		r, _ := regexp.Compile("((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])")
-		ipr.ipv4 = r
-	}
+	ipr.compile.Do(func() {
+		ipr.ipv6s = regexp.MustCompile("([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}")
+		ipr.ipv6 = regexp.MustCompile("(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))")
+		ipr.ipv64e = regexp.MustCompile("(:{0,2})([0-9a-fA-F]{1,4}:){1,6}(:{0,1})((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])")
+		ipr.ipv4 = regexp.MustCompile("((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])")
+	})
 	match := ipr.ipv64e.FindStringSubmatch(msg)
 	if len(match) > 0 {
 		addr = match[0]
-- 
2.43.0


From 131f9ea06e1c7f8c312ce55f17df5d07f2fa5672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:49 +0000
Subject: [PATCH 10/28] fix: do not reseed the shared random source with every
 response

---
 responses.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/responses.go b/responses.go
index b983b15..c84c82a 100644
--- a/responses.go
+++ b/responses.go
@@ -146,8 +146,12 @@ func (statusCodeResponse StatusCodeResponse) AsString() string {
 	return strings.ToLower(string(statusCodeResponse.AsJSON()))
 }
 
+func init() {
+	//seed once. seeding for every response makes concurrent policy decisions repeat the same random number.
+	rand.Seed(time.Now().UnixNano())
+}
+
 func randomHuttese() string {
-	rand.Seed(time.Now().Unix())
 	return huttese[rand.Int()%len(huttese)]
 }
 
-- 
2.43.0


From 4d74c5ad8248d911c90be42ac209c20731935d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:32 +0000
Subject: [PATCH 11/28] fix: abandoned upstream attempts no longer write into
 the exchange that gave them up

---
 proxyhandler.go | 60 +++++++++++++++++--------------------------------
 1 file changed, 21 insertions(+), 39 deletions(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 77622d4..9a21ac3 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -3,6 +3,7 @@ package j8a
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"github.com/rs/zerolog"
 	"github.com/rs/zerolog/log"
@@ -30,6 +31,9 @@ var httpHeadersNoRewrite []string = []string{date, contentLength, transferEncodi
 //extract IPs for stdout. thread safe.
 var ipr iprex = iprex{}
 
+//errAttemptAborted is returned for upstream attempts that were given up before they completed.
+var errAttemptAborted = errors.New("upstream attempt aborted")
+
 func proxyHandler(response http.ResponseWriter, request *http.Request) {
 	matched := false
 
@@ -145,31 +149,17 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 }
 
 func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
-	//get a reference to this before any race conditions may occur
-	attemptIndex := proxy.Up.Count - 1
 	req := scaffoldUpstreamRequest(proxy)
 	var upstreamResponse *http.Response
 	var upstreamError error
 
+	//the goroutine may outlive this attempt, it must only touch its own result and signal it through this channel.
+	completeHeader := proxy.Up.Atmpt.CompleteHeader
+
 	go func() {
 		//this blocks until upstream headers come in
 		upstreamResponse, upstreamError = httpClient.Do(req)
-		proxy.Up.Atmpt.resp = upstreamResponse
-
-		defer func() {
-			if err := recover(); err != nil {
-				log.Trace().
-					Str("error", fmt.Sprintf("error: %v", err)).
-					Str(XRequestID, proxy.XRequestID).
-					Int64("upAtmptElapsedMicros", time.Since(proxy.Up.Atmpt.startDate).Microseconds()).
-					Str("upAtmpt", proxy.Up.Atmpt.print()).
-					Msgf("safe to ignore. recovered internally from closed header success channel after request already handled.")
-			}
-		}()
-
-		if proxy.Up.Atmpts[attemptIndex].CompleteHeader != nil && !proxy.Up.Atmpts[attemptIndex].AbortedFlag && !proxy.Dwn.AbortedFlag {
-			close(proxy.Up.Atmpts[attemptIndex].CompleteHeader)
-		}
+		close(completeHeader)
 	}()
 
 	//race for upstream headers complete, upstream timeout or downstream abort (timeout or cancellation)
@@ -186,39 +176,29 @@ func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
 		proxy.Dwn.AbortedFlag = true
 		scaffoldUpAttemptLog(proxy).
 			Msg("aborting upstream response header processing. downstream connection read timeout fired or user cancelled request")
-	case <-proxy.Up.Atmpt.CompleteHeader:
+	case <-completeHeader:
+		proxy.Up.Atmpt.resp = upstreamResponse
 		scaffoldUpAttemptLog(proxy).
 			Msg("upstream response headers processed")
+		return upstreamResponse, upstreamError
 	}
 
-	return upstreamResponse, upstreamError
+	return nil, errAttemptAborted
 }
 
 func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byte, error) {
 	var upstreamResponseBody []byte
 	var bodyError error
 
-	//get a reference to this before any race conditions may occur
-	attemptIndex := proxy.Up.Count - 1
+	proxy.Up.Atmpt.StatusCode = upstreamResponse.StatusCode
+
+	//the goroutine may outlive this attempt, it must only touch its own result and signal it through this channel.
+	completeBody := proxy.Up.Atmpt.CompleteBody
 
 	go func() {
-		proxy.Up.Atmpt.StatusCode = upstreamResponse.StatusCode
 		upstreamResponseBody, bodyError = ioutil.ReadAll(upstreamResponse.Body)
-		if c := bytes.Compare(upstreamResponseBody[0:2], gzipMagicBytes); c == 0 {
-			proxy.Up.Atmpt.isGzip = true
-		}
-
-		defer func() {
-			if err := recover(); err != nil {
-				scaffoldUpAttemptLog(proxy).
-					Msgf("safe to ignore. recovered internally from closed body success channel after request already handled.")
-			}
-		}()
-
 		//this is ok, see: https://stackoverflow.com/questions/8593645/is-it-ok-to-leave-a-channel-open#:~:text=5%20Answers&text=It's%20OK%20to%20leave%20a,it%20will%20be%20garbage%20collected.&text=Closing%20the%20channel%20is%20a,that%20no%20more%20data%20follows.
-		if proxy.Up.Atmpt.CompleteBody != nil && !proxy.Up.Atmpt.AbortedFlag && !proxy.Dwn.AbortedFlag {
-			close(proxy.Up.Atmpts[attemptIndex].CompleteBody)
-		}
+		close(completeBody)
 	}()
 
 	select {
@@ -232,12 +212,14 @@ func parseUpstreamResponse(upstreamResponse *http.Response, proxy *Proxy) ([]byt
 		proxy.Dwn.AbortedFlag = true
 		scaffoldUpAttemptLog(proxy).
 			Msg("aborting upstream response body processing. downstream connection read timeout fired or user cancelled request")
-	case <-proxy.Up.Atmpt.CompleteBody:
+	case <-completeBody:
+		proxy.Up.Atmpt.isGzip = bytes.HasPrefix(upstreamResponseBody, gzipMagicBytes)
 		scaffoldUpAttemptLog(proxy).
 			Msg("upstream response body processed")
+		return upstreamResponseBody, bodyError
 	}
 
-	return upstreamResponseBody, bodyError
+	return nil, errAttemptAborted
 }
 
 func processUpstreamResponse(proxy *Proxy, upstreamResponse *http.Response, upstreamError error) bool {
-- 
2.43.0


From a00b836b4efbc505eeaa4b57564d46813a7d58e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:34 +0000
Subject: [PATCH 12/28] fix: compile route paths after they received their
 leading slash

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 566db85..5cba3bd 100644
--- a/server.go
+++ b/server.go
@@ -64,9 +64,9 @@ func BootStrap() {
 		reApplyResourceSchemes().
 		reApplyResourceNames().
 		validateJwt().
+		validateRoutes().
 		compileRoutePaths().
 		compileRouteTransforms().
-		validateRoutes().
 		addDefaultPolicy().
 		setDefaultUpstreamParams().
 		setDefaultDownstreamParams()
-- 
2.43.0


From 768edd1eebd5b09b6d84808b0214a426eb0e146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:35 +0000
Subject: [PATCH 13/28] fix: anchor every alternative of a route path at the
 start of the request URI

---
 config.go | 2 +-
 route.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index 4ac0c52..6293343 100644
--- a/config.go
+++ b/config.go
@@ -125,7 +125,7 @@ func (config Config) validateRoutes() *Config {
 func (config Config) compileRoutePaths() *Config {
 	var err error
 	for i, route := range config.Routes {
-		config.Routes[i].PathRegex, err = regexp.Compile("^" + route.Path)
+		config.Routes[i].PathRegex, err = regexp.Compile("^(?:" + route.Path + ")")
 		if err != nil {
 			config.panic(fmt.Sprintf("config error, illegal route path %s", route.Path))
 		}
diff --git a/route.go b/route.go
index 7bcdbf1..21f5125 100644
--- a/route.go
+++ b/route.go
@@ -37,7 +37,7 @@ func (route Route) matchURI(request *http.Request) bool {
 	if route.PathRegex != nil {
 		matched = route.PathRegex.MatchString(request.RequestURI)
 	} else {
-		matched, _ = regexp.MatchString("^"+route.Path, request.RequestURI)
+		matched, _ = regexp.MatchString("^(?:"+route.Path+")", request.RequestURI)
 	}
 
 	return matched
-- 
2.43.0


From 6e0b56194d300a43dd871757f82494b0d88e068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:37 +0000
Subject: [PATCH 14/28] fix: answer 503 for resources without upstreams instead
 of crashing the request

---
 route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/route.go b/route.go
index 21f5125..0f7211a 100644
--- a/route.go
+++ b/route.go
@@ -53,7 +53,7 @@ func (route Route) mapURL(proxy *Proxy) (*URL, string, bool) {
 	}
 
 	resource := Runner.Resources[route.Resource]
-	if resource == nil {
+	if len(resource) == 0 {
 		return nil, "", false
 	}
 	//if a policy exists, we match resources with a label. TODO: this should be an interface
-- 
2.43.0


From 11198a3dbaa72bb7d8be22c9033c6dc1586330ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:38 +0000
Subject: [PATCH 15/28] fix: format certificate serial numbers of any odd
 length

---
 tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tls.go b/tls.go
index 1654702..eaaafb8 100644
--- a/tls.go
+++ b/tls.go
@@ -106,7 +106,7 @@ func verifyOptions(inter *x509.CertPool, root *x509.CertPool) x509.VerifyOptions
 
 func formatSerial(serial *big.Int) string {
 	hex := fmt.Sprintf("%X", serial)
-	if len(hex) == 1 || len(hex) == 31 {
+	if len(hex)%2 == 1 {
 		hex = "0" + hex
 	}
 	if len(hex) > 2 {
-- 
2.43.0


From 514c6feade70ad3b4c278a0b5f12cf72d8e08516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:39 +0000
Subject: [PATCH 16/28] fix: do not crash on undecodable certificates in the
 configured chain

---
 tls.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tls.go b/tls.go
index eaaafb8..2a1475a 100644
--- a/tls.go
+++ b/tls.go
@@ -78,7 +78,7 @@ func checkCertChain(chain tls.Certificate) ([]TlsLink, error) {
 	var err error
 	cert, e1 := x509.ParseCertificate(chain.Certificate[0])
 	if e1 != nil {
-		err = e1
+		return tlsLinks, e1
 	}
 	if cert.DNSNames == nil || len(cert.DNSNames) == 0 {
 		err = errors.New("no DNS name specified")
@@ -210,7 +210,11 @@ func splitCertPools(chain tls.Certificate) (*x509.CertPool, *x509.CertPool) {
 	root := x509.NewCertPool()
 	inter := x509.NewCertPool()
 	for _, c := range chain.Certificate {
-		c1, _ := x509.ParseCertificate(c)
+		c1, err := x509.ParseCertificate(c)
+		if err != nil {
+			//leave it out, the chain will not verify if it is needed.
+			continue
+		}
 		//for CA's we treat you as intermediate unless you signed yourself
 		if c1.IsCA {
 			//as above, you're intermediate in the last position unless you signed yourself, that makes you a root cert.
-- 
2.43.0


From 6be0e0f9df972a02e37e8d8aa692535658e3f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:18 +0000
Subject: [PATCH 17/28] fix: refuse to start with a configuration that cannot
 be read or decoded

---
 config.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/config.go b/config.go
index 6293343..7580c0d 100644
--- a/config.go
+++ b/config.go
@@ -1,7 +1,6 @@
 package j8a
 
 import (
-	"encoding/json"
 	"fmt"
 	"github.com/ghodss/yaml"
 	"io/ioutil"
@@ -85,13 +84,18 @@ func (config Config) readYmlFile(file string) *Config {
 		log.Fatal().Msg(msg)
 		panic(msg)
 	}
-	byteValue, _ := ioutil.ReadAll(f)
+	byteValue, err := ioutil.ReadAll(f)
+	if err != nil {
+		config.panic(fmt.Sprintf("unable to read config from %s, cause: %v", file, err))
+	}
 	return config.parse(byteValue)
 }
 
 func (config Config) parse(yml []byte) *Config {
-	jsn, _ := yaml.YAMLToJSON(yml)
-	json.Unmarshal(jsn, &config)
+	//converts scalars to the type of the setting, i.e. unquoted numbers for text settings.
+	if err := yaml.Unmarshal(yml, &config); err != nil {
+		config.panic(fmt.Sprintf("unable to decode config, cause: %v", err))
+	}
 	return &config
 }
 
-- 
2.43.0


From 2ba40fda7e9ba5239bd9c66b2c397c6b76392426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:19 +0000
Subject: [PATCH 18/28] fix: guard key sets that are refreshed while requests
 use them

---
 jwt.go   | 21 +++++++++++++++++++--
 proxy.go |  6 +++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/jwt.go b/jwt.go
index 927050c..0defebe 100644
--- a/jwt.go
+++ b/jwt.go
@@ -13,6 +13,7 @@ import (
 	"github.com/rs/zerolog/log"
 	"golang.org/x/sync/semaphore"
 	"strconv"
+	"sync"
 	"time"
 )
 
@@ -56,6 +57,8 @@ type Jwt struct {
 	ECDSAPublic           KeySet
 	Secret                KeySet
 	AcceptableSkewSeconds string
+	//keyLock guards the key sets above, which are refreshed while requests use them.
+	keyLock               sync.RWMutex
 	lock                  *semaphore.Weighted
 	updateCount           int
 }
@@ -110,6 +113,20 @@ func (jwt *Jwt) Init() {
 	jwt.lock = semaphore.NewWeighted(1)
 }
 
+//upsert changes one of the key sets of this jwt while requests may be using it.
+func (jwt *Jwt) upsert(ks *KeySet, kp KidPair) {
+	jwt.keyLock.Lock()
+	defer jwt.keyLock.Unlock()
+	ks.Upsert(kp)
+}
+
+//snapshot copies one of the key sets of this jwt, so a request can use it during a refresh.
+func (jwt *Jwt) snapshot(ks *KeySet) KeySet {
+	jwt.keyLock.RLock()
+	defer jwt.keyLock.RUnlock()
+	return append(KeySet{}, *ks...)
+}
+
 func (jwt *Jwt) Validate() error {
 	var err error
 	alg := *new(jwa.SignatureAlgorithm)
@@ -211,7 +228,7 @@ func (jwt *Jwt) LoadJwks() error {
 						}
 						err = key.Raw(k.Key)
 						if err == nil {
-							jwt.RSAPublic.Upsert(k)
+							jwt.upsert(&jwt.RSAPublic, k)
 						}
 					//Note, removed support for HS256, secret keys make no sense for JWKS even over TLS.
 					case jwa.ES256, jwa.ES384, jwa.ES512:
@@ -228,7 +245,7 @@ func (jwt *Jwt) LoadJwks() error {
 							err = jwt.checkECDSABitSize(alg, k.Key.(*ecdsa.PublicKey))
 						}
 						if err == nil {
-							jwt.ECDSAPublic.Upsert(k)
+							jwt.upsert(&jwt.ECDSAPublic, k)
 						}
 					default:
 						err = errors.New(fmt.Sprintf("unknown key type in Jwks %v", alg.String()))
diff --git a/proxy.go b/proxy.go
index 05f945c..9c58742 100644
--- a/proxy.go
+++ b/proxy.go
@@ -541,11 +541,11 @@ func (proxy *Proxy) validateJwt() bool {
 
 		switch alg {
 		case jwa.RS256, jwa.RS384, jwa.RS512, jwa.PS256, jwa.PS384, jwa.PS512:
-			parsed, err = proxy.verifySignature(token, routeSec.RSAPublic, alg, ev)
+			parsed, err = proxy.verifySignature(token, routeSec.snapshot(&routeSec.RSAPublic), alg, ev)
 		case jwa.ES256, jwa.ES384, jwa.ES512:
-			parsed, err = proxy.verifySignature(token, routeSec.ECDSAPublic, alg, ev)
+			parsed, err = proxy.verifySignature(token, routeSec.snapshot(&routeSec.ECDSAPublic), alg, ev)
 		case jwa.HS256, jwa.HS384, jwa.HS512:
-			parsed, err = proxy.verifySignature(token, routeSec.Secret, alg, ev)
+			parsed, err = proxy.verifySignature(token, routeSec.snapshot(&routeSec.Secret), alg, ev)
 		case jwa.NoSignature:
 			parsed, err = jwt.Parse(bytes.NewReader([]byte(token)))
 		default:
-- 
2.43.0


From abcb26ad2c31dbb964b21f5e64018c95beb9609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:20 +0000
Subject: [PATCH 19/28] fix: bound the time a key set fetch may take, a stalled
 one blocked all later refreshes

---
 jwt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jwt.go b/jwt.go
index 0defebe..a32d8a1 100644
--- a/jwt.go
+++ b/jwt.go
@@ -12,6 +12,7 @@ import (
 	"github.com/lestrrat-go/jwx/jwk"
 	"github.com/rs/zerolog/log"
 	"golang.org/x/sync/semaphore"
+	"net/http"
 	"strconv"
 	"sync"
 	"time"
@@ -83,6 +84,7 @@ const ecdsaKeySizeBad = "jwt [%s] invalid key size for alg [%s], parsed bitsize
 
 const defaultSkew = "120"
 const jwksRefreshSlowwait = time.Second * 10
+const jwksFetchTimeout = time.Second * 10
 
 func NewJwt(name string, alg string, key string, jwksUrl string, acceptableSkewSeconds string) *Jwt {
 	jwt := Jwt{
@@ -190,7 +192,7 @@ func (jwt *Jwt) LoadJwks() error {
 	//acquires the lock with true else skips
 	if jwt.lock.TryAcquire(1) {
 		var keyset *jwk.Set
-		keyset, err = jwk.Fetch(jwt.JwksUrl)
+		keyset, err = jwk.Fetch(jwt.JwksUrl, jwk.WithHTTPClient(&http.Client{Timeout: jwksFetchTimeout}))
 		if err == nil {
 			log.Debug().Msgf("jwt [%s] fetched %d jwk from jwks URL %s", jwt.Name, keyset.Len(), jwt.JwksUrl)
 		} else {
-- 
2.43.0


From 6fa5dc7cef7216a7b4f73d1070ca9cd87cc6b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:22 +0000
Subject: [PATCH 20/28] fix: upstream headers no longer duplicate the server's
 own identification headers

---
 proxyhandler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 9a21ac3..28a0577 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -235,8 +235,8 @@ func processUpstreamResponse(proxy *Proxy, upstreamResponse *http.Response, upst
 				proxy.copyUpstreamStatusCodeHeader()
 				sendStatusCodeAsJSON(proxy)
 			} else {
-				proxy.writeStandardResponseHeaders()
 				proxy.copyUpstreamResponseHeaders()
+				proxy.writeStandardResponseHeaders()
 				proxy.copyUpstreamStatusCodeHeader()
 				proxy.encodeUpstreamResponseBody()
 				proxy.setContentLengthHeader()
-- 
2.43.0


From 6d0dc194a720bfbcce1fef3fc8e4b1e1f0bbb9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:24 +0000
Subject: [PATCH 21/28] fix: relay bodies with foreign content codings
 unchanged instead of mislabelling them as gzip

---
 proxy.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/proxy.go b/proxy.go
index 9c58742..8509217 100644
--- a/proxy.go
+++ b/proxy.go
@@ -435,9 +435,22 @@ func (proxy *Proxy) encodeUpstreamResponseBody() {
 	}
 }
 
+//bodies with any content coding besides gzip are opaque to us, they are relayed as they are.
+func (proxy *Proxy) hasOpaqueUpstreamEncoding() bool {
+	if !proxy.hasMadeUpstreamAttempt() {
+		return false
+	}
+	for _, ce := range proxy.Up.Atmpt.resp.Header[contentEncoding] {
+		if !strings.EqualFold(ce, "gzip") && !strings.EqualFold(ce, "identity") {
+			return true
+		}
+	}
+	return false
+}
+
 func (proxy *Proxy) contentEncoding() string {
 	ce := "identity"
-	if proxy.Dwn.Resp.SendGzip {
+	if proxy.Dwn.Resp.SendGzip && !proxy.hasOpaqueUpstreamEncoding() {
 		ce = "gzip"
 	} else if proxy.hasMadeUpstreamAttempt() && !proxy.shouldGzipDecodeResponseBody() {
 		ceA := proxy.Up.Atmpt.resp.Header[contentEncoding]
@@ -511,11 +524,11 @@ func (proxy *Proxy) hasLegalHTTPMethod() bool {
 }
 
 func (proxy *Proxy) shouldGzipEncodeResponseBody() bool {
-	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip
+	return proxy.Dwn.Resp.SendGzip && !proxy.Up.Atmpt.isGzip && !proxy.hasOpaqueUpstreamEncoding()
 }
 
 func (proxy *Proxy) shouldGzipDecodeResponseBody() bool {
-	return !proxy.Dwn.Resp.SendGzip && proxy.Up.Atmpt.isGzip
+	return !proxy.Dwn.Resp.SendGzip && proxy.Up.Atmpt.isGzip && !proxy.hasOpaqueUpstreamEncoding()
 }
 
 //get bearer token from request. feed into lib. check signature. check expiry. return true || false.
-- 
2.43.0


From 5edbec62da0bc7336f320ba6ca87f7710d9fc2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:08 +0000
Subject: [PATCH 22/28] fix: mark the upstream attempts themselves as aborted
 instead of loop copies

---
 proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy.go b/proxy.go
index 8509217..7a63105 100644
--- a/proxy.go
+++ b/proxy.go
@@ -141,7 +141,8 @@ func (proxy *Proxy) resolveUpstreamURI() string {
 }
 
 func (proxy *Proxy) abortAllUpstreamAttempts() {
-	for _, atmpt := range proxy.Up.Atmpts {
+	for i := range proxy.Up.Atmpts {
+		atmpt := &proxy.Up.Atmpts[i]
 		atmpt.AbortedFlag = true
 		if atmpt.CancelFunc != nil {
 			atmpt.CancelFunc()
-- 
2.43.0


From 3fc4c628b78182aae8f65d4bf314358278cdf5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:10 +0000
Subject: [PATCH 23/28] fix: guard the process history that one goroutine
 extends while another reads it

---
 stats.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/stats.go b/stats.go
index a3056e7..cc7bcbb 100644
--- a/stats.go
+++ b/stats.go
@@ -36,6 +36,9 @@ const growthRateThreshold float64 = 2.0
 var procStatsLock sync.Mutex
 var procHistory samples
 
+//procHistoryLock guards the history, which one goroutine extends while another one reads it.
+var procHistoryLock sync.Mutex
+
 func (s sample) log() {
 	log.Debug().Int32("pid", s.pid).Str("cpuCore"+
 		"Pct", fmt.Sprintf("%.2f", s.cpuPc)).Str("memPct", fmt.Sprintf("%.2f", s.mPc)).
@@ -44,6 +47,9 @@ func (s sample) log() {
 }
 
 func (samples *samples) append(s sample) {
+	procHistoryLock.Lock()
+	defer procHistoryLock.Unlock()
+
 	l := len(*samples)
 	if l >= historyMaxSamples {
 		(*samples)[0] = *new(sample)
@@ -53,6 +59,9 @@ func (samples *samples) append(s sample) {
 }
 
 func (samples *samples) log() []growthRate {
+	procHistoryLock.Lock()
+	defer procHistoryLock.Unlock()
+
 	var growthRates = make([]growthRate, len(*samples))
 
 	for l := len(*samples) - 1; l >= 0; l-- {
@@ -112,11 +121,14 @@ func logProcStats(proc *process.Process) {
 	}()
 
 	go func() {
-		procHistory = make(samples, historyMaxSamples)
 		lazy := getSample(proc)
+		history := make(samples, historyMaxSamples)
 		for k := 0; k < historyMaxSamples; k++ {
-			procHistory[k] = lazy
+			history[k] = lazy
 		}
+		procHistoryLock.Lock()
+		procHistory = history
+		procHistoryLock.Unlock()
 		for {
 			procHistory.append(getSample(proc))
 			time.Sleep(time.Second * historySamplerSleepSeconds)
-- 
2.43.0


From 0934ebbe5d6b431b84ffeeb09554f3cfdf959541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:12 +0000
Subject: [PATCH 24/28] fix: do not crash the server where process stats are
 not available

---
 server.go | 8 ++++++--
 stats.go  | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 5cba3bd..514a497 100644
--- a/server.go
+++ b/server.go
@@ -154,8 +154,12 @@ func (runtime Runtime) initUserAgent() Runtime {
 }
 
 func (runtime Runtime) initStats() Runtime {
-	proc, _ := process.NewProcess(int32(os.Getpid()))
-	logProcStats(proc)
+	proc, err := process.NewProcess(int32(os.Getpid()))
+	if err == nil {
+		logProcStats(proc)
+	} else {
+		log.Warn().Msgf("process stats not available, cause: %v", err)
+	}
 	logUptime()
 	return runtime
 }
diff --git a/stats.go b/stats.go
index cc7bcbb..c69d630 100644
--- a/stats.go
+++ b/stats.go
@@ -100,6 +100,11 @@ func getSample(proc *process.Process) sample {
 	mInfo, _ := proc.MemoryInfo()
 
 	procStatsLock.Unlock()
+
+	//memory info is not always available, i.e. for a process of another user.
+	if mInfo == nil {
+		mInfo = &process.MemoryInfoStat{}
+	}
 	return sample{
 		pid:       proc.Pid,
 		cpuPc:     cpuPc,
-- 
2.43.0


From e68822ebc2c1d218782ac082b4b103513265ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:41 +0000
Subject: [PATCH 25/28] fix: relay bodies that do not decode as gzip unchanged
 instead of truncating them

---
 gzip.go  | 20 ++++++++++++++------
 proxy.go | 15 ++++++++++++---
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/gzip.go b/gzip.go
index b9f5533..2e05777 100644
--- a/gzip.go
+++ b/gzip.go
@@ -44,14 +44,22 @@ func Gzip(input []byte) *[]byte {
 
 // Gunzip a []byte
 func Gunzip(input []byte) *[]byte {
-	rd, _ := unzipPool.Get().(*gzip.Reader)
-	buf := bytes.NewBuffer(input)
-	_ = rd.Reset(buf)
+	dec, _ := gunzip(input)
+	return dec
+}
 
-	dec, _ := ioutil.ReadAll(rd)
-	_ = rd.Close()
+// gunzip a []byte, reports an error if the input is not a complete and valid gzip stream.
+func gunzip(input []byte) (*[]byte, error) {
+	rd, _ := unzipPool.Get().(*gzip.Reader)
 	defer unzipPool.Put(rd)
 
+	var dec []byte
+	err := rd.Reset(bytes.NewBuffer(input))
+	if err == nil {
+		dec, err = ioutil.ReadAll(rd)
+		_ = rd.Close()
+	}
+
 	log.Trace().Msgf("unzipped byte buffer size %d", len(dec))
-	return &dec
+	return &dec, err
 }
diff --git a/proxy.go b/proxy.go
index 7a63105..9e1cfc1 100644
--- a/proxy.go
+++ b/proxy.go
@@ -418,9 +418,18 @@ func (proxy *Proxy) encodeUpstreamResponseBody() {
 				Msg("copying upstream body with gzip re-encoding")
 		} else {
 			if proxy.shouldGzipDecodeResponseBody() {
-				proxy.Dwn.Resp.Body = Gunzip(*proxy.Up.Atmpt.respBody)
-				scaffoldUpAttemptLog(proxy).
-					Msg("copying upstream body with gzip re-decoding")
+				decoded, err := gunzip(*proxy.Up.Atmpt.respBody)
+				if err == nil {
+					proxy.Dwn.Resp.Body = decoded
+					scaffoldUpAttemptLog(proxy).
+						Msg("copying upstream body with gzip re-decoding")
+				} else {
+					//it only looked like gzip, we send what upstream sent us and label it the same way.
+					proxy.Up.Atmpt.isGzip = false
+					proxy.Dwn.Resp.Body = proxy.Up.Atmpt.respBody
+					scaffoldUpAttemptLog(proxy).
+						Msgf("copying upstream body as is, unable to gzip re-decode, cause: %v", err)
+				}
 			} else {
 				proxy.Dwn.Resp.Body = proxy.Up.Atmpt.respBody
 				scaffoldUpAttemptLog(proxy).
-- 
2.43.0


From a925a88745c8eb9c1f2f88177794fee22f2b0675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:43 +0000
Subject: [PATCH 26/28] fix: answer 502 instead of crashing where no upstream
 request can be built

---
 proxyhandler.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/proxyhandler.go b/proxyhandler.go
index 28a0577..669689e 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -107,7 +107,7 @@ func handle(proxy *Proxy) {
 	}
 }
 
-func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
+func scaffoldUpstreamRequest(proxy *Proxy) (*http.Request, error) {
 	//this context is used to time out the upstream request
 	ctx, cancel := context.WithCancel(context.TODO())
 
@@ -121,10 +121,13 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 
 	upReqURI := proxy.resolveUpstreamURI()
 
-	upstreamRequest, _ := http.NewRequestWithContext(ctx,
+	upstreamRequest, err := http.NewRequestWithContext(ctx,
 		proxy.Dwn.Method,
 		upReqURI,
 		proxy.bodyReader())
+	if err != nil {
+		return nil, err
+	}
 
 	log.Trace().
 		Str("dwnReqPath", proxy.Dwn.Path).
@@ -145,11 +148,14 @@ func scaffoldUpstreamRequest(proxy *Proxy) *http.Request {
 	}
 	upstreamRequest.Header.Set(XRequestID, proxy.XRequestID)
 
-	return upstreamRequest
+	return upstreamRequest, nil
 }
 
 func performUpstreamRequest(proxy *Proxy) (*http.Response, error) {
-	req := scaffoldUpstreamRequest(proxy)
+	req, err := scaffoldUpstreamRequest(proxy)
+	if err != nil {
+		return nil, err
+	}
 	var upstreamResponse *http.Response
 	var upstreamError error
 
-- 
2.43.0


From cc751625e8bcb213e00ced863b01c47668269e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:45 +0000
Subject: [PATCH 27/28] fix: answer 502 for upstream status codes that are not
 valid instead of crashing

---
 proxyhandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxyhandler.go b/proxyhandler.go
index 669689e..eeb2104 100644
--- a/proxyhandler.go
+++ b/proxyhandler.go
@@ -267,6 +267,7 @@ func shouldProxyUpstreamResponse(proxy *Proxy, bodyError error) bool {
 	return !proxy.hasDownstreamAborted() &&
 		!proxy.hasUpstreamAttemptAborted() &&
 		bodyError == nil &&
+		proxy.Up.Atmpt.resp.StatusCode > 99 &&
 		proxy.Up.Atmpt.resp.StatusCode < 500
 }
 
-- 
2.43.0


From e62d633f1cb8b2f4f5cc2e099a74b0ae5f24f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:46 +0000
Subject: [PATCH 28/28] fix: routes to the about resource enforce their jwt
 like any other route

---
 responses.go | 17 +++++++++++++++++
 server.go    |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/responses.go b/responses.go
index c84c82a..1eec244 100644
--- a/responses.go
+++ b/responses.go
@@ -155,6 +155,23 @@ func randomHuttese() string {
 	return huttese[rand.Int()%len(huttese)]
 }
 
+//aboutRouteHandler serves the about resource for a route, with the same access control any other route has.
+func aboutRouteHandler(route Route) http.HandlerFunc {
+	return func(w http.ResponseWriter, r *http.Request) {
+		if route.hasJwt() {
+			proxy := new(Proxy).
+				setOutgoing(w).
+				parseIncoming(r)
+			proxy.setRoute(&route)
+			if !proxy.validateJwt() {
+				sendStatusCodeAsJSON(proxy.respondWith(401, "jwt bearer token missing, invalid, expired or unauthorized"))
+				return
+			}
+		}
+		aboutHandler(w, r)
+	}
+}
+
 func aboutHandler(w http.ResponseWriter, r *http.Request) {
 	proxy := new(Proxy).
 		parseIncoming(r).
diff --git a/server.go b/server.go
index 514a497..c8c42ce 100644
--- a/server.go
+++ b/server.go
@@ -136,7 +136,7 @@ func (runtime Runtime) mapPathsToHandler() http.Handler {
 	handler := http.NewServeMux()
 	for _, route := range runtime.Routes {
 		if route.Resource == about {
-			handler.Handle(route.Path, http.HandlerFunc(aboutHandler))
+			handler.Handle(route.Path, aboutRouteHandler(route))
 			log.Debug().Msgf("assigned about handler to path %s", route.Path)
 		}
 	}
-- 
2.43.0

