From efafcd428515b1f0ba45fa43160e3651db906f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:13 +0000
Subject: [PATCH 01/17] fix: don't modify Request.Server (and lose its query)
 in Request.URL()

---
 request.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/request.go b/request.go
index decad0b..c710941 100644
--- a/request.go
+++ b/request.go
@@ -263,9 +263,12 @@ func (r *Request) URL() *url.URL {
 		resultURL = new(url.URL)
 		*resultURL = *r.Server
 	} else {
-		tempURL := r.Server
+		// Work on a copy, the Server URL belongs to the caller.
+		tempURL := *r.Server
 		tempURL.RawQuery = ""
+		tempURL.ForceQuery = false
 		tempURL.Fragment = ""
+		tempURL.RawFragment = ""
 		tempURLString := tempURL.String()
 
 		if len(tempURLString) == 0 || tempURLString[len(tempURLString)-1] != '/' {
-- 
2.43.0


From 7005ac9a3bc1bf7cd5aece1e05c293b71f11530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:16 +0000
Subject: [PATCH 02/17] fix: escape the query text in IP request URLs

---
 request.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index c710941..67bf7ed 100644
--- a/request.go
+++ b/request.go
@@ -196,8 +196,13 @@ func (r *Request) pathAndValues() (string, url.Values) {
 	case HelpRequest:
 		path = "help"
 	case IPRequest:
-		// TODO: escape IP address/nets?
-		path = fmt.Sprintf("ip/%s", r.Query)
+		// The slash between an IP network's address and prefix length is not
+		// escaped (e.g. ip/192.0.2.0/24).
+		addr, prefixLen, isNet := strings.Cut(r.Query, "/")
+		path = fmt.Sprintf("ip/%s", escapePath(addr))
+		if isNet {
+			path += "/" + escapePath(prefixLen)
+		}
 	case NameserverRequest:
 		path = fmt.Sprintf("nameserver/%s", escapePath(r.Query))
 	case DomainSearchRequest:
-- 
2.43.0


From 5bd5952e4ae1e5fcfaa3cad800e1a2431a98ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:18 +0000
Subject: [PATCH 03/17] fix: apply Request.Timeout in Client.Do

---
 client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client.go b/client.go
index 9c422af..c1b402c 100644
--- a/client.go
+++ b/client.go
@@ -119,6 +119,14 @@ func (c *Client) Do(req *Request) (*Response, error) {
 		c.Verbose = func(text string) {}
 	}
 
+	// Apply the Request's timeout (if any).
+	if req.Timeout > 0 {
+		ctx, cancelFunc := context.WithTimeout(req.Context(), req.Timeout)
+		defer cancelFunc()
+
+		req = req.WithContext(ctx)
+	}
+
 	c.Verbose("")
 	c.Verbose("client: Running...")
 	c.Verbose(fmt.Sprintf("client: Request type  : %s", req.Type))
-- 
2.43.0


From 16d3bf446d152ccf37f49263c355565d6faecc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:21 +0000
Subject: [PATCH 04/17] fix: report the RDAP error code, not its address, in
 RDAPServerErrors

---
 client_error.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client_error.go b/client_error.go
index 10cce41..f4bf38c 100644
--- a/client_error.go
+++ b/client_error.go
@@ -46,10 +46,15 @@ func isClientError(t ClientErrorType, err error) bool {
 }
 
 func clientErrorFromRDAPError(e *Error) *ClientError {
+	var errorCode uint16
+	if e.ErrorCode != nil {
+		errorCode = *e.ErrorCode
+	}
+
 	return &ClientError{
 		Type: RDAPServerError,
 		Text: fmt.Sprintf("Server returned error code %d, title='%s', description='%s'",
-			e.ErrorCode,
+			errorCode,
 			e.Title,
 			strings.Join(e.Description, " ")),
 	}
-- 
2.43.0


From 52287fcea25e21b141b041b283a6fa572eea6100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:24 +0000
Subject: [PATCH 05/17] fix: Printer OmitNotices/OmitRemarks omit
 notices/remarks

---
 print.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/print.go b/print.go
index a8ba8fc..b57c441 100644
--- a/print.go
+++ b/print.go
@@ -112,7 +112,7 @@ func (p *Printer) printNameserverSearchResults(sr *NameserverSearchResults, inde
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -137,7 +137,7 @@ func (p *Printer) printEntitySearchResults(sr *EntitySearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -162,7 +162,7 @@ func (p *Printer) printDomainSearchResults(sr *DomainSearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -186,7 +186,7 @@ func (p *Printer) printError(e *Error, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -218,7 +218,7 @@ func (p *Printer) printHelp(h *Help, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range h.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -255,13 +255,13 @@ func (p *Printer) printDomain(d *Domain, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range d.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range d.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -339,13 +339,13 @@ func (p *Printer) printAutnum(a *Autnum, indentLevel uint) {
 		p.printValue("Port43", a.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range a.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range a.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -393,13 +393,13 @@ func (p *Printer) printNameserver(n *Nameserver, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range n.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -470,13 +470,13 @@ func (p *Printer) printEntity(e *Entity, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range e.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -548,13 +548,13 @@ func (p *Printer) printIPNetwork(n *IPNetwork, indentLevel uint) {
 		p.printValue("Port43", n.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, no := range n.Notices {
 			p.printNotice(no, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
-- 
2.43.0


From 8bb3299d3bf3c15d2ee6165c4d55a14534f1dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:26 +0000
Subject: [PATCH 06/17] fix: reject out of range numbers when decoding unsigned
 integers

---
 decoder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index bd8db9d..3a2ef4e 100644
--- a/decoder.go
+++ b/decoder.go
@@ -327,8 +327,15 @@ func (d *Decoder) decodeUint(keyName string, src any, dst reflect.Value, decodeD
 
 		d.addDecodeNote(decodeData, keyName, "bool to uint conversion")
 	case float64:
-		result = uint64(src)
 		d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
+
+		// The result of converting an out of range float64 is undefined.
+		if src <= -1 || src >= 1<<64 {
+			d.addDecodeNote(decodeData, keyName, "error: number too small or large")
+			success = false
+		} else {
+			result = uint64(src)
+		}
 	case string:
 		var convError error
 
-- 
2.43.0


From a4e042a43567a2228c4bf551e664a7b735f2966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:15 +0000
Subject: [PATCH 07/17] fix: leave optional fields unset when they cannot be
 decoded

---
 decoder.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 3a2ef4e..5001c53 100644
--- a/decoder.go
+++ b/decoder.go
@@ -725,7 +725,7 @@ func getFieldName(sf reflect.StructField) (string, bool) {
 }
 
 // decodePtr decodes |src| into the ptr |dst|. The ptr is initialised to a new
-// value if nil.
+// value if nil, and left nil if |src| cannot be decoded.
 //
 // The parameters and return variables are as per decode().
 func (d *Decoder) decodePtr(keyName string, src any, dst reflect.Value, decodeData *DecodeData) (bool, error) {
@@ -742,12 +742,17 @@ func (d *Decoder) decodePtr(keyName string, src any, dst reflect.Value, decodeDa
 			d.addDecodeNote(decodeData, keyName, vcardError.Error())
 		}
 	} else {
+		value := dst
 		if dst.IsNil() {
-			value := reflect.New(dst.Type().Elem())
-			dst.Set(value)
+			value = reflect.New(dst.Type().Elem())
 		}
 
-		success, err = d.decode(keyName, src, reflect.Indirect(dst), decodeData)
+		success, err = d.decode(keyName, src, reflect.Indirect(value), decodeData)
+
+		// Leave the ptr nil unless there's a decoded value.
+		if success && dst.IsNil() {
+			dst.Set(value)
+		}
 	}
 
 	return success, err
-- 
2.43.0


From 5923943b3b9dcfe52411ab8311ddef6f3542687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:17 +0000
Subject: [PATCH 08/17] fix: --raw/--json print the successful response after
 failover

---
 cli.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli.go b/cli.go
index 86c0ae9..67bf8dc 100644
--- a/cli.go
+++ b/cli.go
@@ -511,6 +511,10 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 		fmt.Fprintln(stderr, "")
 	}
 
+	// Body of the successful response. Any earlier HTTP responses are from RDAP
+	// servers which failed.
+	body := resp.HTTP[len(resp.HTTP)-1].Body
+
 	// Output formatting.
 	if !*outputFormatText && !*outputFormatWhois && !*outputFormatJSON && !*outputFormatRaw {
 		*outputFormatText = true
@@ -528,13 +532,13 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 
 	// Print the raw response out?
 	if *outputFormatRaw {
-		fmt.Fprintf(stdout, "%s", resp.HTTP[0].Body)
+		fmt.Fprintf(stdout, "%s", body)
 	}
 
 	// Print the response, JSON pretty-printed?
 	if *outputFormatJSON {
 		var out bytes.Buffer
-		if err := json.Indent(&out, resp.HTTP[0].Body, "", "  "); err != nil {
+		if err := json.Indent(&out, body, "", "  "); err != nil {
 			printError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))
 			return 1
 		}
-- 
2.43.0


From baa16359a9227092895d17f83efa50481a2eca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:20 +0000
Subject: [PATCH 09/17] fix: --whois values can't contain carriage returns

---
 cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli.go b/cli.go
index 67bf8dc..322989d 100644
--- a/cli.go
+++ b/cli.go
@@ -570,7 +570,7 @@ func safePrint(v string) string {
 		switch r {
 		case '\000':
 			return -1
-		case '\n':
+		case '\n', '\r':
 			return ' '
 		default:
 			return r
-- 
2.43.0


From 90bcb20e4eee6d4c450a9a0dcbf88a14013f19b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:22 +0000
Subject: [PATCH 10/17] fix: vCard address fields following a multi-valued
 component

---
 vcard.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/vcard.go b/vcard.go
index 222c622..02dc6c6 100644
--- a/vcard.go
+++ b/vcard.go
@@ -470,6 +470,24 @@ func (v *VCard) getFirstAddressField(index int) string {
 
 	values := adr.Values()
 
+	// An address component can itself have multiple values, this is represented
+	// as a nested array (RFC7095 section 3.3.1.3). Don't let these shift the
+	// components which follow.
+	components, _ := adr.Value.([]any)
+	isComponent := func(c any) bool {
+		_, isArray := c.([]any)
+		return !isArray
+	}
+
+	if slices.ContainsFunc(components, isComponent) {
+		values = make([]string, 0, len(components))
+
+		for _, c := range components {
+			component := &VCardProperty{Value: c}
+			values = append(values, strings.Join(component.Values(), " "))
+		}
+	}
+
 	if index >= len(values) {
 		return ""
 	}
-- 
2.43.0


From 9d998858735f6fda0bc80253343b61b1f5899789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:25 +0000
Subject: [PATCH 11/17] fix: refresh expired Service Registry files in
 bootstrap Lookup()

---
 bootstrap/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 7fd7fa2..fa19f59 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -313,12 +313,16 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 	c.Verbose(fmt.Sprintf("  bootstrap: Cache state: %s: %s", c.filenameFor(registry), state))
 
 	var forceDownload bool
-	if state == cache.ShouldReload {
+	switch state {
+	case cache.ShouldReload:
 		if err := c.reloadFromCache(registry); err != nil {
 			forceDownload = true
 
 			c.Verbose(fmt.Sprintf("  bootstrap: Cache load error (%s), downloading...", err))
 		}
+	case cache.Absent, cache.Expired:
+		// The in-memory registry (if any) is too old to be used.
+		forceDownload = true
 	}
 
 	if c.registries[registry] == nil || forceDownload {
-- 
2.43.0


From cf37c9774aee5b9a8f27f63d09f7775b3aec0a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:27 +0000
Subject: [PATCH 12/17] fix: don't use an outdated registry after failing to
 load a newer cached file

---
 bootstrap/client.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index fa19f59..454c7d6 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -149,6 +149,9 @@ type Client struct {
 	Verbose func(text string)
 
 	registries map[RegistryType]Registry
+
+	// Registries for which the latest cached file couldn't be loaded.
+	cacheLoadFailed map[RegistryType]bool
 }
 
 // A Registry implements bootstrap lookups.
@@ -171,6 +174,10 @@ func (c *Client) init() {
 		c.registries = make(map[RegistryType]Registry)
 	}
 
+	if c.cacheLoadFailed == nil {
+		c.cacheLoadFailed = make(map[RegistryType]bool)
+	}
+
 	if c.BaseURL == nil {
 		c.BaseURL, _ = url.Parse(DefaultBaseURL)
 	}
@@ -203,6 +210,7 @@ func (c *Client) DownloadWithContext(ctx context.Context, registry RegistryType)
 	}
 
 	c.registries[registry] = s
+	c.cacheLoadFailed[registry] = false
 
 	return nil
 }
@@ -258,6 +266,9 @@ func (c *Client) freshenFromCache(registry RegistryType) {
 }
 
 func (c *Client) reloadFromCache(registry RegistryType) error {
+	// The cache considers a file to be loaded even if it can't be parsed.
+	c.cacheLoadFailed[registry] = true
+
 	json, err := c.Cache.Load(c.filenameFor(registry))
 	if err != nil {
 		return err
@@ -270,6 +281,7 @@ func (c *Client) reloadFromCache(registry RegistryType) error {
 	}
 
 	c.registries[registry] = s
+	c.cacheLoadFailed[registry] = false
 
 	return nil
 }
@@ -312,12 +324,13 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 	state := c.Cache.State(c.filenameFor(registry))
 	c.Verbose(fmt.Sprintf("  bootstrap: Cache state: %s: %s", c.filenameFor(registry), state))
 
-	var forceDownload bool
+	forceDownload := c.cacheLoadFailed[registry]
 	switch state {
 	case cache.ShouldReload:
-		if err := c.reloadFromCache(registry); err != nil {
-			forceDownload = true
+		err := c.reloadFromCache(registry)
+		forceDownload = err != nil
 
+		if err != nil {
 			c.Verbose(fmt.Sprintf("  bootstrap: Cache load error (%s), downloading...", err))
 		}
 	case cache.Absent, cache.Expired:
-- 
2.43.0


From af35e8159f3ea26c53e3f7b1d289b38bc9ed2ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:41 +0000
Subject: [PATCH 13/17] fix: a failed or interrupted save can't destroy a
 cached file

DiskCache.Save wrote over the cached Service Registry file in place, so a
full disk or a crash lost the good copy. Write a temporary file and rename it.
---
 bootstrap/cache/disk_cache.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/bootstrap/cache/disk_cache.go b/bootstrap/cache/disk_cache.go
index d114f8a..71482fc 100644
--- a/bootstrap/cache/disk_cache.go
+++ b/bootstrap/cache/disk_cache.go
@@ -102,7 +102,7 @@ func (d *DiskCache) Save(filename string, data []byte) error {
 		return err
 	}
 
-	if err := os.WriteFile(d.cacheDirPath(filename), data, 0o600); err != nil {
+	if err := d.writeFile(filename, data); err != nil {
 		return err
 	}
 
@@ -116,6 +116,31 @@ func (d *DiskCache) Save(filename string, data []byte) error {
 	return nil
 }
 
+// writeFile writes the file |filename| with |data| to disk.
+//
+// The file is replaced only once |data| is completely written.
+func (d *DiskCache) writeFile(filename string, data []byte) error {
+	tmp, err := os.CreateTemp(d.Dir, filename+".tmp")
+	if err != nil {
+		return err
+	}
+
+	_, err = tmp.Write(data)
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err == nil {
+		err = os.Rename(tmp.Name(), d.cacheDirPath(filename))
+	}
+
+	if err != nil {
+		os.Remove(tmp.Name())
+	}
+
+	return err
+}
+
 // Load loads the file |filename| from disk.
 //
 // Since Service Registry files do not change much, the file is returned even
-- 
2.43.0


From 96ef0e23dd0aa9b0394826bdc9866a25c7a39cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:49 +0000
Subject: [PATCH 14/17] fix: don't crash when the server URL can't be used

---
 client.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index c1b402c..71e6d23 100644
--- a/client.go
+++ b/client.go
@@ -250,9 +250,20 @@ func (c *Client) Do(req *Request) (*Response, error) {
 }
 
 func (c *Client) get(rdapReq *Request) *HTTPResponse {
+	// The Server URL & query may not combine to a valid URL.
+	rdapURL := rdapReq.URL()
+	if rdapURL == nil {
+		return &HTTPResponse{
+			Error: &ClientError{
+				Type: InputError,
+				Text: fmt.Sprintf("Invalid RDAP server URL '%s'", rdapReq.Server),
+			},
+		}
+	}
+
 	// HTTPResponse stores the URL, http.Response, response body...
 	httpResponse := &HTTPResponse{
-		URL: rdapReq.URL().String(),
+		URL: rdapURL.String(),
 	}
 
 	start := time.Now()
-- 
2.43.0


From 764ed2874302603d5d7fe3c6b92d7b91ac8a5638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:52 +0000
Subject: [PATCH 15/17] fix: don't expand @file arguments in sandbox mode

---
 cli.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cli.go b/cli.go
index 322989d..74f9e31 100644
--- a/cli.go
+++ b/cli.go
@@ -166,6 +166,22 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 	// Command line query (any remaining non-option arguments).
 	queryArgs := app.Arg("", "").Strings()
 
+	// The parser expands @file arguments to the contents of the file, which
+	// isn't allowed in sandbox mode.
+	sandboxed, fileArg := options.Sandbox, ""
+	for i, arg := range args {
+		if arg == "--exp=sandbox" || (arg == "sandbox" && i > 0 && args[i-1] == "--exp") {
+			sandboxed = true
+		} else if strings.HasPrefix(arg, "@") {
+			fileArg = arg
+		}
+	}
+
+	if sandboxed && fileArg != "" {
+		printError(stderr, fmt.Sprintf("Error: cannot use '%s' (sandbox mode enabled)", fileArg))
+		return 1
+	}
+
 	// Parse command line arguments.
 	// The help messages for -h/--help are printed directly by app.Parse().
 	_, err := app.Parse(args)
-- 
2.43.0


From d50f341b6b1fde43a3e6a580859c548e73db57a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:17 +0000
Subject: [PATCH 16/17] fix: keep the escaping of a bootstrap service URL's
 path

A slash was added to Path but not to RawPath, so a service URL such as
https://x/a%2Fb was fetched from https://x/a/b/ instead.
---
 bootstrap/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 454c7d6..10363c0 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -226,6 +226,11 @@ func (c *Client) download(ctx context.Context, registry RegistryType) ([]byte, R
 
 	if baseURL.Path != "" && baseURL.Path[len(baseURL.Path)-1] != '/' {
 		baseURL.Path += "/"
+
+		// Keep the path's own escaping (if any).
+		if baseURL.RawPath != "" {
+			baseURL.RawPath += "/"
+		}
 	}
 
 	fetchURL := baseURL.ResolveReference(u)
-- 
2.43.0


From 837cf09b15fc691ee2c7a428acf7dbd209b48da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:57 +0000
Subject: [PATCH 17/17] fix: use the file of a Cache that was in use before the
 bootstrap Client

A Cache object that already had a Service Registry file - saved by an earlier
Client, or put there by the application - reported it as Good, and a Client
without the registry in memory then downloaded it again.
---
 bootstrap/client.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 10363c0..7764d9d 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -263,8 +263,20 @@ func (c *Client) download(ctx context.Context, registry RegistryType) ([]byte, R
 	return json, s, nil
 }
 
+// cacheState returns the cache state of the registry's file.
+func (c *Client) cacheState(registry RegistryType) cache.FileState {
+	state := c.Cache.State(c.filenameFor(registry))
+
+	// A Cache in use before the Client can have a file the Client hasn't loaded.
+	if state == cache.Good && c.registries[registry] == nil && !c.cacheLoadFailed[registry] {
+		state = cache.ShouldReload
+	}
+
+	return state
+}
+
 func (c *Client) freshenFromCache(registry RegistryType) {
-	if c.Cache.State(c.filenameFor(registry)) == cache.ShouldReload {
+	if c.cacheState(registry) == cache.ShouldReload {
 		// Best-effort refresh; on failure the existing in-memory registry is kept.
 		_ = c.reloadFromCache(registry)
 	}
@@ -326,7 +338,7 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 
 	registry := question.RegistryType
 
-	state := c.Cache.State(c.filenameFor(registry))
+	state := c.cacheState(registry)
 	c.Verbose(fmt.Sprintf("  bootstrap: Cache state: %s: %s", c.filenameFor(registry), state))
 
 	forceDownload := c.cacheLoadFailed[registry]
-- 
2.43.0

