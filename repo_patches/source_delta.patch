From 72e975736071681e1b6a049235244d66a101f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:16 +0000
Subject: [PATCH 01/16] fix: bootstrap ASN lookup accepts text such as "ssa5"
 as an AS number

parseASN trimmed any run of the letters a and s from the left of the query
rather than one "AS" prefix.
---
 bootstrap/asn_registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bootstrap/asn_registry.go b/bootstrap/asn_registry.go
index 3cb83c2..186908f 100644
--- a/bootstrap/asn_registry.go
+++ b/bootstrap/asn_registry.go
@@ -127,7 +127,7 @@ func (a *ASNRegistry) File() *File {
 
 func parseASN(asn string) (uint32, error) {
 	asn = strings.ToLower(asn)
-	asn = strings.TrimLeft(asn, "as")
+	asn = strings.TrimPrefix(asn, "as")
 
 	result, err := strconv.ParseUint(asn, 10, 32)
 	if err != nil {
-- 
2.43.0


From b6a4b38bbdc9004251f17b8132ca00f38a59e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:01 +0000
Subject: [PATCH 02/16] fix: bootstrap IP lookup never matches IPv4-mapped IPv6
 queries

net.IPNet.Contains converts ::ffff:a.b.c.d to four bytes, so a covering IPv6
registry entry such as ::/0 never contained it. Compare in the registry's own
address family.
---
 bootstrap/net_registry.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bootstrap/net_registry.go b/bootstrap/net_registry.go
index f01f393..16f5673 100644
--- a/bootstrap/net_registry.go
+++ b/bootstrap/net_registry.go
@@ -123,10 +123,10 @@ func (n *NetRegistry) Lookup(question *Question) (*Answer, error) {
 
 		index := sort.Search(len(nets), func(i int) bool {
 			net := nets[i].Net
-			return net.Contains(lookupNet.IP) || bytes.Compare(net.IP, lookupNet.IP) >= 0
+			return netContains(net, lookupNet.IP) || bytes.Compare(net.IP, lookupNet.IP) >= 0
 		})
 
-		if index == len(nets) || !nets[index].Net.Contains(lookupNet.IP) {
+		if index == len(nets) || !netContains(nets[index].Net, lookupNet.IP) {
 			continue
 		}
 
@@ -142,6 +142,13 @@ func (n *NetRegistry) Lookup(question *Question) (*Answer, error) {
 	}, nil
 }
 
+// netContains reports whether the network |n| includes |ip|, which is of the same length.
+//
+// Unlike n.Contains(), IPv4-mapped IPv6 addresses are treated as IPv6.
+func netContains(n *net.IPNet, ip net.IP) bool {
+	return bytes.Equal(ip.Mask(n.Mask), n.IP)
+}
+
 func numIPBytesForVersion(ipVersion int) int {
 	var length int
 
-- 
2.43.0


From 270c0ea3dd135f319a5b7f86ca3c3c73a8f53455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:08 +0000
Subject: [PATCH 03/16] fix: bootstrap Lookup keeps using an expired registry

A long-lived client never re-downloaded a registry file once it was in memory,
although the cache reported it as expired.
---
 bootstrap/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 7fd7fa2..4732343 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -321,7 +321,7 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 		}
 	}
 
-	if c.registries[registry] == nil || forceDownload {
+	if c.registries[registry] == nil || state == cache.Expired || forceDownload {
 		c.Verbose(fmt.Sprintf("  bootstrap: Downloading %s", registry.Filename()))
 
 		err := c.DownloadWithContext(question.Context(), registry)
-- 
2.43.0


From 321e2e5ebfb3c594c717f5508bb4fbb243e7803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:46 +0000
Subject: [PATCH 04/16] fix: Request.URL loses the server's parameters and
 modifies the server URL

---
 request.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/request.go b/request.go
index decad0b..9df572d 100644
--- a/request.go
+++ b/request.go
@@ -263,9 +263,11 @@ func (r *Request) URL() *url.URL {
 		resultURL = new(url.URL)
 		*resultURL = *r.Server
 	} else {
-		tempURL := r.Server
+		tempURL := *r.Server
 		tempURL.RawQuery = ""
+		tempURL.ForceQuery = false
 		tempURL.Fragment = ""
+		tempURL.RawFragment = ""
 		tempURLString := tempURL.String()
 
 		if len(tempURLString) == 0 || tempURLString[len(tempURLString)-1] != '/' {
@@ -287,6 +289,7 @@ func (r *Request) URL() *url.URL {
 		resultURL.RawQuery = query.Encode()
 
 		resultURL.Fragment = r.Server.Fragment
+		resultURL.RawFragment = r.Server.RawFragment
 	}
 
 	return resultURL
-- 
2.43.0


From 9c397be55b5e953c24609bbdd1682e00dfab8950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:47 +0000
Subject: [PATCH 05/16] fix: IP request query text is not escaped in the
 request URL

---
 request.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 9df572d..df377eb 100644
--- a/request.go
+++ b/request.go
@@ -196,8 +196,12 @@ func (r *Request) pathAndValues() (string, url.Values) {
 	case HelpRequest:
 		path = "help"
 	case IPRequest:
-		// TODO: escape IP address/nets?
-		path = fmt.Sprintf("ip/%s", r.Query)
+		// The '/' before a network's prefix length stays a path separator.
+		ip, length, isNet := strings.Cut(r.Query, "/")
+		path = fmt.Sprintf("ip/%s", escapePath(ip))
+		if isNet {
+			path += "/" + escapePath(length)
+		}
 	case NameserverRequest:
 		path = fmt.Sprintf("nameserver/%s", escapePath(r.Query))
 	case DomainSearchRequest:
-- 
2.43.0


From b292234505ecf5b431b3c6e780a6db9146db346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:47 +0000
Subject: [PATCH 06/16] fix: RDAP server error text shows a pointer instead of
 the error code

---
 client_error.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client_error.go b/client_error.go
index 10cce41..f4bf38c 100644
--- a/client_error.go
+++ b/client_error.go
@@ -46,10 +46,15 @@ func isClientError(t ClientErrorType, err error) bool {
 }
 
 func clientErrorFromRDAPError(e *Error) *ClientError {
+	var errorCode uint16
+	if e.ErrorCode != nil {
+		errorCode = *e.ErrorCode
+	}
+
 	return &ClientError{
 		Type: RDAPServerError,
 		Text: fmt.Sprintf("Server returned error code %d, title='%s', description='%s'",
-			e.ErrorCode,
+			errorCode,
 			e.Title,
 			strings.Join(e.Description, " ")),
 	}
-- 
2.43.0


From 5f4c6af3e8d0569da20e78ab43fb0876854f4943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:47 +0000
Subject: [PATCH 07/16] fix: Client.Do ignores Request.Timeout

---
 client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client.go b/client.go
index 9c422af..ff357fd 100644
--- a/client.go
+++ b/client.go
@@ -104,6 +104,14 @@ func (c *Client) Do(req *Request) (*Response, error) {
 		}
 	}
 
+	// The request's timeout covers bootstrapping and all RDAP queries.
+	if req.Timeout > 0 {
+		ctx, cancelFunc := context.WithTimeout(req.Context(), req.Timeout)
+		defer cancelFunc()
+
+		req = req.WithContext(ctx)
+	}
+
 	// Init HTTP client?
 	if c.HTTP == nil {
 		c.HTTP = &http.Client{}
-- 
2.43.0


From 39e1d8600c347588165898a04313d358c296cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:16 +0000
Subject: [PATCH 08/16] fix: decoder stores out of range JSON numbers as
 arbitrary unsigned integers

---
 decoder.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index bd8db9d..71a1e12 100644
--- a/decoder.go
+++ b/decoder.go
@@ -327,8 +327,13 @@ func (d *Decoder) decodeUint(keyName string, src any, dst reflect.Value, decodeD
 
 		d.addDecodeNote(decodeData, keyName, "bool to uint conversion")
 	case float64:
-		result = uint64(src)
-		d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
+		if src <= -1 || src >= 1<<64 {
+			success = false
+			d.addDecodeNote(decodeData, keyName, "error: number out of range")
+		} else {
+			result = uint64(src)
+			d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
+		}
 	case string:
 		var convError error
 
-- 
2.43.0


From cbaba93fcef9cb6bdc1c79915a7fddb32440da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:04 +0000
Subject: [PATCH 09/16] fix: vCard address accessors return the wrong component
 when one has several values

---
 vcard.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vcard.go b/vcard.go
index 222c622..8b52529 100644
--- a/vcard.go
+++ b/vcard.go
@@ -468,11 +468,18 @@ func (v *VCard) getFirstAddressField(index int) string {
 		return ""
 	}
 
-	values := adr.Values()
+	// Each address component can itself be a list, e.g. of several street lines.
+	components, ok := adr.Value.([]any)
+	if !ok {
+		components = []any{adr.Value}
+	}
 
-	if index >= len(values) {
+	if index >= len(components) {
 		return ""
 	}
 
-	return values[index]
+	var values []string
+	adr.appendValueStrings(components[index], &values)
+
+	return strings.Join(values, " ")
 }
-- 
2.43.0


From c50802fad4722a152618ac1c820a705d0260b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:51 +0000
Subject: [PATCH 10/16] fix: Printer OmitNotices and OmitRemarks do not omit
 notices and remarks

---
 print.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/print.go b/print.go
index a8ba8fc..b57c441 100644
--- a/print.go
+++ b/print.go
@@ -112,7 +112,7 @@ func (p *Printer) printNameserverSearchResults(sr *NameserverSearchResults, inde
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -137,7 +137,7 @@ func (p *Printer) printEntitySearchResults(sr *EntitySearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -162,7 +162,7 @@ func (p *Printer) printDomainSearchResults(sr *DomainSearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -186,7 +186,7 @@ func (p *Printer) printError(e *Error, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -218,7 +218,7 @@ func (p *Printer) printHelp(h *Help, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range h.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -255,13 +255,13 @@ func (p *Printer) printDomain(d *Domain, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range d.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range d.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -339,13 +339,13 @@ func (p *Printer) printAutnum(a *Autnum, indentLevel uint) {
 		p.printValue("Port43", a.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range a.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range a.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -393,13 +393,13 @@ func (p *Printer) printNameserver(n *Nameserver, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range n.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -470,13 +470,13 @@ func (p *Printer) printEntity(e *Entity, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range e.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -548,13 +548,13 @@ func (p *Printer) printIPNetwork(n *IPNetwork, indentLevel uint) {
 		p.printValue("Port43", n.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, no := range n.Notices {
 			p.printNotice(no, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
-- 
2.43.0


From 88dc830b95c5e44f06dffff311a5474417078273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:53 +0000
Subject: [PATCH 11/16] fix: Printer leaves out the conformance of IP networks

---
 print.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/print.go b/print.go
index b57c441..8900880 100644
--- a/print.go
+++ b/print.go
@@ -548,6 +548,12 @@ func (p *Printer) printIPNetwork(n *IPNetwork, indentLevel uint) {
 		p.printValue("Port43", n.Port43, indentLevel)
 	}
 
+	if !p.BriefOutput {
+		for _, c := range n.Conformance {
+			p.printValue("Conformance", c, indentLevel)
+		}
+	}
+
 	if !p.BriefOutput && !p.OmitNotices {
 		for _, no := range n.Notices {
 			p.printNotice(no, indentLevel)
-- 
2.43.0


From 3a8ebfb8282bce0c50706ad1f0d57c6df2c2f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:55 +0000
Subject: [PATCH 12/16] fix: --raw and --json print the first response instead
 of the accepted one

---
 cli.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli.go b/cli.go
index 86c0ae9..e955284 100644
--- a/cli.go
+++ b/cli.go
@@ -526,15 +526,18 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 		printer.Print(resp.Object)
 	}
 
+	// The last response is the one which was accepted, any before it failed.
+	body := resp.HTTP[len(resp.HTTP)-1].Body
+
 	// Print the raw response out?
 	if *outputFormatRaw {
-		fmt.Fprintf(stdout, "%s", resp.HTTP[0].Body)
+		fmt.Fprintf(stdout, "%s", body)
 	}
 
 	// Print the response, JSON pretty-printed?
 	if *outputFormatJSON {
 		var out bytes.Buffer
-		if err := json.Indent(&out, resp.HTTP[0].Body, "", "  "); err != nil {
+		if err := json.Indent(&out, body, "", "  "); err != nil {
 			printError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))
 			return 1
 		}
-- 
2.43.0


From 8487abd9a0b079906d5dace5ff69386805da25ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:58 +0000
Subject: [PATCH 13/16] fix: carriage returns in WHOIS output values are
 printed

---
 cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli.go b/cli.go
index e955284..68fbb03 100644
--- a/cli.go
+++ b/cli.go
@@ -569,7 +569,7 @@ func safePrint(v string) string {
 		switch r {
 		case '\000':
 			return -1
-		case '\n':
+		case '\n', '\r':
 			return ' '
 		default:
 			return r
-- 
2.43.0


From f3e5f08d51c203c6d84dbe8e90e536d36b5e9acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:00 +0000
Subject: [PATCH 14/16] fix: command line arguments starting with @ read
 arbitrary files, even in sandbox mode

---
 cli.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli.go b/cli.go
index 68fbb03..12371d0 100644
--- a/cli.go
+++ b/cli.go
@@ -121,6 +121,10 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 	// For duration timer (in --verbose output).
 	start := time.Now()
 
+	// Arguments of the form @filename are plain text. Don't let kingpin read the
+	// named file (this also bypasses sandbox mode).
+	kingpin.EnableFileExpansion = false
+
 	// Setup command line arguments parser.
 	app := kingpin.New("rdap", "RDAP command-line client")
 	app.HelpFlag.Short('h')
-- 
2.43.0


From 306dda2e7c14abe2757a4659f3b1f1db84ead60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:21 +0000
Subject: [PATCH 15/16] fix: escaped bootstrap base URL paths without a
 trailing slash lose their escapes

---
 bootstrap/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 4732343..d76a861 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -216,8 +216,12 @@ func (c *Client) download(ctx context.Context, registry RegistryType) ([]byte, R
 	baseURL := new(url.URL)
 	*baseURL = *c.BaseURL
 
-	if baseURL.Path != "" && baseURL.Path[len(baseURL.Path)-1] != '/' {
+	if p := baseURL.EscapedPath(); p != "" && p[len(p)-1] != '/' {
 		baseURL.Path += "/"
+
+		if baseURL.RawPath != "" {
+			baseURL.RawPath += "/"
+		}
 	}
 
 	fetchURL := baseURL.ResolveReference(u)
-- 
2.43.0


From 742eaf58122c63c73f377547a850412959eba574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:51 +0000
Subject: [PATCH 16/16] fix: a server URL that cannot be requested is a failed
 attempt, not a crash

Request.URL() returns nil when the URL cannot be built (e.g. a space in
the server's host), which Client.Do dereferenced.
---
 client.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index ff357fd..0ad652f 100644
--- a/client.go
+++ b/client.go
@@ -6,6 +6,7 @@ package rdap
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -251,12 +252,18 @@ func (c *Client) Do(req *Request) (*Response, error) {
 
 func (c *Client) get(rdapReq *Request) *HTTPResponse {
 	// HTTPResponse stores the URL, http.Response, response body...
-	httpResponse := &HTTPResponse{
-		URL: rdapReq.URL().String(),
-	}
+	httpResponse := &HTTPResponse{}
 
 	start := time.Now()
 
+	rdapURL := rdapReq.URL()
+	if rdapURL == nil {
+		httpResponse.Error = errors.New("cannot construct the request URL")
+		return httpResponse
+	}
+
+	httpResponse.URL = rdapURL.String()
+
 	// Set up the HTTP request. The request context carries the timeout.
 	req, err := http.NewRequestWithContext(rdapReq.Context(), http.MethodGet, httpResponse.URL, http.NoBody)
 	if err != nil {
-- 
2.43.0

