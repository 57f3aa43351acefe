From 56c1920450d45e7d95b2ea396287ab491b585eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:23 +0000
Subject: [PATCH 01/13] fix: report a failed write of a message file even if
 closing it works

---
 sinksmtp.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index c5a7c29..ea25298 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -668,9 +668,12 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 			warnf("error writing message file: %s\n", err)
 		}
 		_ = fp.Sync()
-		err = fp.Close()
-		if err != nil {
-			warnf("error closing message file: %s\n", err)
+		cerr := fp.Close()
+		if cerr != nil {
+			warnf("error closing message file: %s\n", cerr)
+			if err == nil {
+				err = cerr
+			}
 		}
 	} else if !os.IsExist(err) {
 		warnf("error writing message file: %v\n", err)
-- 
2.43.0


From 048e6d05c725f57ea7b333b4dac2fd68c12336ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:23 +0000
Subject: [PATCH 02/13] fix: remove the partial file when saving a message
 fails

---
 sinksmtp.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sinksmtp.go b/sinksmtp.go
index ea25298..23e142b 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -675,6 +675,11 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 				err = cerr
 			}
 		}
+		if err != nil {
+			// Don't leave a partial message behind; a resend
+			// would find it and be taken as already saved.
+			os.Remove(tgt)
+		}
 	} else if !os.IsExist(err) {
 		warnf("error writing message file: %v\n", err)
 	} else {
-- 
2.43.0


From b12c860ada1f87bb3bddd908c4509254d0c6646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:23 +0000
Subject: [PATCH 03/13] fix: never append rules to the shared base rules slice
 in place

---
 sinksmtp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 23e142b..bd3e8d6 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -155,7 +155,9 @@ func accumRules(baserules []*Rule, fname string) ([]*Rule, error) {
 		return baserules, nil
 	}
 	rules, err := loadRules(fname)
-	return append(baserules, rules...), err
+	// The base rules are shared between connections; we must never
+	// append into the spare capacity of their slice.
+	return append(baserules[:len(baserules):len(baserules)], rules...), err
 }
 
 // Accumulate the set of rules for this connection from our base rules
-- 
2.43.0


From 01512bb9e861aa726a52b618f0111e1c343b2bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:23 +0000
Subject: [PATCH 04/13] fix: do not crash on a rule note when there is no SMTP
 log

---
 sinksmtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index bd3e8d6..6375fec 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -797,7 +797,7 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	// this may be a mistake given EHLO retrying as HELO, but
 	// I'll see.
 	if note := c.withprops["note"]; note != "" {
-		c.trans.log.Write([]byte(fmt.Sprintf("! rule note: %s\n", note)))
+		writeLog(c.trans.log, "! rule note: %s\n", note)
 	}
 	// Disable TLS if desired, or just disable asking for client certs.
 	switch c.withprops["tls-opt"] {
-- 
2.43.0


From 18e0356cfd314f1b68ee0bdea69e99af8d2d511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:23 +0000
Subject: [PATCH 05/13] fix: do not crash when matching an empty host name or
 pattern

---
 rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rules.go b/rules.go
index e3f9f72..eb40222 100644
--- a/rules.go
+++ b/rules.go
@@ -349,8 +349,8 @@ func matchAddress(addr string, pat string) bool {
 // This stripping is suppressed if the pattern ends in a '.' itself.
 func matchHost(host string, pat string) bool {
 	host = strings.ToLower(host)
-	if host[len(host)-1] == '.' && pat[len(pat)-1] != '.' {
-		host = host[:len(host)-1]
+	if !strings.HasSuffix(pat, ".") {
+		host = strings.TrimSuffix(host, ".")
 	}
 	if host == pat || "."+host == pat {
 		return true
-- 
2.43.0


From 1091b68d40f9fa3658119492d5cf9002843005b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:23 +0000
Subject: [PATCH 06/13] fix: do not crash on an empty match argument

---
 rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index eb40222..033ecd0 100644
--- a/rules.go
+++ b/rules.go
@@ -132,7 +132,7 @@ func newContext(trans *smtpTransaction, rules []*Rule) *Context {
 func (c *Context) getMatchList(a string) []string {
 	var fname string
 	switch {
-	case a[0] == '/' || strings.HasPrefix(a, "./"):
+	case strings.HasPrefix(a, "/") || strings.HasPrefix(a, "./"):
 		fname = a
 	case strings.HasPrefix(a, "file:"):
 		fname = a[len("file:"):]
-- 
2.43.0


From c6c9d732fe697b5cdca534e3f44bab57ff4c9256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:23 +0000
Subject: [PATCH 07/13] fix: do not crash logging SBL entries for a non-IPv4
 client

---
 sinksmtp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sinksmtp.go b/sinksmtp.go
index 6375fec..2ec5b0c 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -695,6 +695,10 @@ func getSBLHits(t *smtpTransaction) []string {
 	var sbls []string
 	// since we know this hit, we can omit a lot of checks.
 	s := strings.Split(t.rip, ".")
+	if len(s) != 4 {
+		// a 'dbl' hit for a client that is not on IPv4.
+		return sbls
+	}
 	ln := fmt.Sprintf("%s.%s.%s.%s.sbl.spamhaus.org.", s[3], s[2], s[1], s[0])
 	txts, err := net.LookupTXT(ln)
 	if err != nil {
-- 
2.43.0


From d9de71ae4fd8afe5651333796ddaf1d87befd3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:52 +0000
Subject: [PATCH 08/13] fix: use the last line of a pattern file even without a
 newline

---
 sinksmtp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 2ec5b0c..66cb1f5 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -89,7 +89,9 @@ func readList(rdr *bufio.Reader) ([]string, error) {
 	var a []string
 	for {
 		line, err := rdr.ReadString('\n')
-		if err != nil {
+		// The last line may lack its newline; then we get it together
+		// with io.EOF. The next read will return just io.EOF.
+		if err != nil && !(err == io.EOF && line != "") {
 			if err == io.EOF {
 				return a, nil
 			}
-- 
2.43.0


From b1c14c8515e7e3c1c04f2e57c63060abdc17b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:52 +0000
Subject: [PATCH 09/13] fix: use the last line of the -conncfg file even
 without a newline

---
 conncfg.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conncfg.go b/conncfg.go
index 84bbecb..9b3bc6d 100644
--- a/conncfg.go
+++ b/conncfg.go
@@ -60,10 +60,12 @@ func readConnFile(rdr *bufio.Reader) (*destMap, error) {
 		var host, cert, key string
 
 		line, err := rdr.ReadString('\n')
-		if err == io.EOF {
+		// The last line may lack its newline; then we get it together
+		// with io.EOF. The next read will return just io.EOF.
+		if err == io.EOF && line == "" {
 			break
 		}
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return nil, err
 		}
 		lnum++
-- 
2.43.0


From 4e6c03038a8828a9f01b2022a7bc999bd29b66d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:52 +0000
Subject: [PATCH 10/13] fix: make-yakker takes effect whatever later commands
 the session has

---
 sinksmtp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 66cb1f5..88d5759 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -434,6 +434,7 @@ type smtpTransaction struct {
 	lastamsg string
 
 	lastresgood bool // last result from decider()
+	makeyakker  bool // some rule has set make-yakker
 }
 
 // returns overall hash and body-of-message hash. The latter may not
@@ -799,6 +800,11 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	if sd := c.withprops["savedir"]; sd != "" {
 		c.trans.savedir = sd
 	}
+	// make-yakker is sticky too; it must take effect at the end of the
+	// session regardless of what later commands do.
+	if _, ok := c.withprops["make-yakker"]; ok {
+		c.trans.makeyakker = true
+	}
 	// rule notes are deliberately logged every time they hit.
 	// this may be a mistake given EHLO retrying as HELO, but
 	// I'll see.
@@ -1203,9 +1209,8 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 	// Once people are yakkers we don't count their continued failure
 	// to do anything against them.
 	// And we have to have good rules to start with because duh.
-	_, forceyakker := c.withprops["make-yakker"]
 	switch {
-	case forceyakker:
+	case trans.makeyakker:
 		// It's a lot simpler if forced yakking takes priority
 		// over everything else.
 		cnt = yakkers.Set(trans.rip, yakTimeout, yakCount)
-- 
2.43.0


From 0ad2e4c2543498b2ff0a89cefb61d2c1e9c9afc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:52 +0000
Subject: [PATCH 11/13] fix: an unparsable -conncfg local name matches no
 connection

---
 conncfg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conncfg.go b/conncfg.go
index 9b3bc6d..f2f687b 100644
--- a/conncfg.go
+++ b/conncfg.go
@@ -37,7 +37,7 @@ func (d *destMap) find(nc net.Conn) *perDest {
 		if de.local == "*" || de.local == las {
 			return de
 		}
-		if ip.Equal(net.ParseIP(de.local)) {
+		if ip != nil && ip.Equal(net.ParseIP(de.local)) {
 			return de
 		}
 		_, ipn, err := net.ParseCIDR(de.local)
-- 
2.43.0


From 3decc38b9547c96a842a5e4a571d8684e0cd6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:52 +0000
Subject: [PATCH 12/13] fix: an unparsable IP pattern matches no client

---
 rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index 033ecd0..b348885 100644
--- a/rules.go
+++ b/rules.go
@@ -376,7 +376,7 @@ func matchIp(rip string, cidr string) bool {
 	// of canonicalizing all of that for us.
 	ip := net.ParseIP(rip)
 	ip2 := net.ParseIP(cidr)
-	if ip.Equal(ip2) {
+	if ip != nil && ip.Equal(ip2) {
 		return true
 	}
 	_, ipn, err := net.ParseCIDR(cidr)
-- 
2.43.0


From 030f0ccdc4c7aa3d73f686966c17409bcc254f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:33 +0000
Subject: [PATCH 13/13] fix: notice a repeated with option whose first argument
 was empty

---
 rparse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rparse.go b/rparse.go
index 17c626c..0285ace 100644
--- a/rparse.go
+++ b/rparse.go
@@ -486,7 +486,7 @@ func (p *parser) pWClause(rc *RClause) (bool, error) {
 		cv := p.curtok.val
 		switch ct {
 		case itemMessage, itemNote, itemSavedir:
-			if rc.withs[cv] != "" {
+			if _, ok := rc.withs[cv]; ok {
 				return gotone, p.posError(fmt.Sprintf("repeated '%s' option in with clause", cv))
 			}
 			p.consume()
-- 
2.43.0

