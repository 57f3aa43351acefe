# Planted bugs: edits against /repo's HEAD and a demonstration for each.
SEEDS = []
def seed(id, property, needs, breaks, edits, demo, imports=()):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=list(imports)))

SM = "github.com/siebenmann/smtpd"

seed("save-isexist-any", "C01",
 "the save directory becomes unusable (here: it is removed) after the server started, so that creating the message file fails with something other than 'already exists'",
 "a message that could not be saved at all is acknowledged with a 2xx reply",
 [("sinksmtp.go", """	} else if !os.IsExist(err) {
		warnf("error writing message file: %v\\n", err)
	} else {
		err = nil
	}""", """	} else if !os.IsExist(err) && !os.IsNotExist(err) {
		warnf("error writing message file: %v\\n", err)
	} else {
		err = nil
	}""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	d, err := os.MkdirTemp("", "save")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	savedir = d + "/gone"
	r := session(newFake(), nil, nil, nil, nil, []smtpd.EventInfo{
		cmd(smtpd.HELO, "h"), cmd(smtpd.MAILFROM, "a@b.c"), cmd(smtpd.RCPTTO, "x@y.z"), cmd(smtpd.DATA, ""), msg("Subject: x\\n\\nhello\\n"),
	}, nil)
	if len(r) < 5 || r[4] == "" || r[4][0] != '4' {
		t.Fatalf("a message that was not saved got %q", r)
	}
}
""", ["os", SM])

seed("save-tmp-overwrite", "C02",
 "a second message whose file name equals that of a message already saved (resent message with -save-hash=msg)",
 "the earlier saved record is replaced by the later one",
 [("sinksmtp.go", """	fp, err := os.OpenFile(tgt, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
	if err == nil {""", """	tmp := tgt + ".new"
	fp, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
	if err == nil {"""),
  ("sinksmtp.go", """			os.Remove(tgt)
		}""", """			os.Remove(tmp)
		} else {
			err = os.Rename(tmp, tgt)
		}""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	d, err := os.MkdirTemp("", "save")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	savedir = d
	hashtype = "msg"
	one := func(helo string) string {
		session(newFake(), nil, nil, nil, nil, []smtpd.EventInfo{
			cmd(smtpd.HELO, helo), cmd(smtpd.MAILFROM, "a@b.c"), cmd(smtpd.RCPTTO, "x@y.z"), cmd(smtpd.DATA, ""), msg("Subject: x\\n\\nhello\\n"),
		}, nil)
		l, _ := os.ReadDir(d)
		if len(l) != 1 {
			t.Fatalf("%d files", len(l))
		}
		b, _ := os.ReadFile(d + "/" + l[0].Name())
		return string(b)
	}
	if a, b := one("first"), one("second"); a != b {
		t.Fatalf("the saved record changed:\\n%s\\n---\\n%s", a, b)
	}
}
""", ["os", SM])

seed("mfrom-rset-late", "C05",
 "a transaction with an accepted recipient, then a second MAIL FROM in the same session, then a message",
 "recipients of the abandoned transaction are recorded for the next message",
 [("sinksmtp.go", """				trans.from = evt.Arg
				trans.data = ""
				trans.rcptto = []string{}
				if minphase""", """				if trans.from != evt.Arg {
					trans.rcptto = []string{}
				}
				trans.from = evt.Arg
				trans.data = ""
				if minphase""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	savedir = ""
	var lg syncBuf
	session(newFake(), nil, &lg, nil, nil, []smtpd.EventInfo{
		cmd(smtpd.HELO, "h"), cmd(smtpd.MAILFROM, "a@b.c"), cmd(smtpd.RCPTTO, "first@y.z"),
		cmd(smtpd.MAILFROM, "a@b.c"), cmd(smtpd.RCPTTO, "second@y.z"), cmd(smtpd.DATA, ""), msg("Subject: x\\n\\nhello\\n"),
	}, nil)
	if s := lg.all(); strings.Contains(s, "first@y.z") || !strings.Contains(s, "second@y.z") {
		t.Fatalf("log: %s", s)
	}
}
""", ["strings", SM])

seed("data-stall-accept", "C04",
 "a rule with the phase @data that gives a stall",
 "a DATA command the rules stall gets a success reply after its 4xx one",
 [("sinksmtp.go", """				if decider(pData, evt, c, convo, "", trans) {
					continue
				}
				if minphase == "data" {""", """				if decider(pData, evt, c, convo, "", trans) && (trans.lastresgood || len(c.rulehit()) > 0) {
					continue
				}
				if minphase == "data" {"""),
  ("sinksmtp.go", """// trivial but I care about these""", """// rulehit gives the current with options, if the last rule set any.
func (c *Context) rulehit() map[string]string {
	return c.withprops
}

// trivial but I care about these""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	savedir = ""
	r := session(newFake(), mustParse("@data stall all\\n"), nil, nil, nil, []smtpd.EventInfo{
		cmd(smtpd.HELO, "h"), cmd(smtpd.MAILFROM, "a@b.c"), cmd(smtpd.RCPTTO, "first@y.z"), cmd(smtpd.DATA, ""),
	}, nil)
	if len(r) < 4 || r[3] != "4" {
		t.Fatalf("replies %q", r)
	}
}
""", [SM])

seed("log-after-reject", "C03",
 "a message log and no save directory, and a rule refusing the message in the @message phase",
 "a message that is refused when received is not written to the message log",
 [("sinksmtp.go", """	var hash string
	logMessage(prefix, trans, logf)
	if trans.savedir == "" {
		return trans.hash, nil
	}""", """	var hash string
	if trans.savedir == "" {
		// logged by the caller once it knows the verdict
		return trans.hash, nil
	}
	logMessage(prefix, trans, logf)"""),
  ("sinksmtp.go", """				doAccept(convo, c, transid)
			}
			updateTimeOf""", """				if trans.savedir == "" {
					logMessage(prefix, trans, logf)
				}
				doAccept(convo, c, transid)
			}
			updateTimeOf""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	savedir = ""
	var lg syncBuf
	session(newFake(), mustParse("@message reject all\\n"), &lg, nil, nil, []smtpd.EventInfo{
		cmd(smtpd.HELO, "h"), cmd(smtpd.MAILFROM, "a@b.c"), cmd(smtpd.RCPTTO, "first@y.z"), cmd(smtpd.DATA, ""), msg("Subject: x\\n\\nhello\\n"),
	}, nil)
	if len(lg.writes) != 1 {
		t.Fatalf("log: %q", lg.writes)
	}
}
""", [SM])

seed("nullsender-options-cleared", "C07",
 "MAIL FROM:<> refused by a rule that has with options, then RCPT TO",
 "the postponed refusal of the null sender loses its with options",
 [("rules.go", """		c.withprops = make(map[string]string)
		// we deliberately""", """		for k := range c.withprops {
			delete(c.withprops, k)
		}
		// we deliberately""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	savedir = ""
	r := session(newFake(), mustParse("reject from <> with message \\"no bounces\\"\\n"), nil, nil, nil, []smtpd.EventInfo{
		cmd(smtpd.HELO, "h"), cmd(smtpd.MAILFROM, ""), cmd(smtpd.RCPTTO, "x@y.z"),
	}, nil)
	if len(r) < 3 || r[1] == "" || r[1][0] != '2' || r[2] != "5 no bounces" {
		t.Fatalf("replies %q", r)
	}
}
""", [SM])

seed("rcpts-stop-at-repeat", "C08",
 "the first recipient is given again before the one a post-RCPT rule is about",
 "recipients after a repetition of the first one are not looked at",
 [("rules.go", """	for _, rcpt := range c.trans.rcptto {
		c.rcptto = rcpt
""", """	for i, rcpt := range c.trans.rcptto {
		// back at the start, we have seen them all
		if i > 0 && rcpt == c.trans.rcptto[0] {
			break
		}
		c.rcptto = rcpt
""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	savedir = ""
	r := session(newFake(), mustParse("@data reject to third@y.z\\n"), nil, nil, nil, []smtpd.EventInfo{
		cmd(smtpd.HELO, "h"), cmd(smtpd.MAILFROM, "a@b.c"), cmd(smtpd.RCPTTO, "x@y.z"), cmd(smtpd.RCPTTO, "x@y.z"), cmd(smtpd.RCPTTO, "third@y.z"), cmd(smtpd.DATA, ""),
	}, nil)
	if len(r) < 6 || r[5] == "" || r[5][0] != '5' {
		t.Fatalf("replies %q", r)
	}
}
""", [SM])

seed("clause-forgets-requires", "C09",
 "a compact rule over two lines whose first clause needs a later phase than its second",
 "such a rule is evaluated before the recipient is known",
 [("rparse.go", """		p.consume()
		if p.curtok.typ == itemEOL {
			p.consume()
		}
""", """		p.consume()
		if p.curtok.typ == itemEOL {
			p.consume()
			p.currule.requires = pAny
		}
""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	savedir = ""
	r := session(newFake(), mustParse("reject to <>;\\n  host nosuch.invalid\\n"), nil, nil, nil, []smtpd.EventInfo{
		cmd(smtpd.HELO, "h"), cmd(smtpd.MAILFROM, "a@b.c"),
	}, nil)
	if len(r) < 2 || r[0] == "" || r[0][0] != '2' || r[1] == "" || r[1][0] != '2' {
		t.Fatalf("replies %q", r)
	}
}
""", [SM])

seed("later-file-hides-error", "C10",
 "two rule files, of which the first does not parse and the second does",
 "the connection runs with just the rules of the second file",
 [("sinksmtp.go", """		rules, err = accumRules(rules, rfile)
		if err != nil {
			break
		}
""", """		rules, err = accumRules(rules, rfile)
""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	d, err := os.MkdirTemp("", "rules")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	os.WriteFile(d+"/one", []byte("reject frm a@b.c\\n"), 0600)
	os.WriteFile(d+"/two", []byte("accept from c@d.e\\n"), 0600)
	rulefiles = []string{d + "/one", d + "/two"}
	savedir = ""
	r := session(newFake(), nil, nil, nil, nil, []smtpd.EventInfo{cmd(smtpd.HELO, "h")}, nil)
	if len(r) < 1 || r[0] == "" || r[0][0] != '4' {
		t.Fatalf("replies %q", r)
	}
}
""", ["os", SM])

seed("list-comment-anywhere", "C13",
 "a pattern file with a pattern that has a '#' in it",
 "the pattern is cut short at the '#'",
 [("sinksmtp.go", """		line = strings.TrimSpace(line)
		if line == "" || line[0] == '#' {
			continue
		}

		line = strings.ToLower(line)""", """		if idx := strings.IndexByte(line, '#'); idx != -1 {
			line = line[:idx]
		}
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}

		line = strings.ToLower(line)""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	d, err := os.MkdirTemp("", "list")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	os.WriteFile(d+"/list", []byte("# people\\nlist#owner@b.c\\n"), 0600)
	savedir = ""
	r := session(newFake(), mustParse("reject from file:"+d+"/list\\n"), nil, nil, nil, []smtpd.EventInfo{cmd(smtpd.HELO, "h"), cmd(smtpd.MAILFROM, "list#owner@b.c")}, nil)
	if len(r) < 2 || r[1] == "" || r[1][0] != '5' {
		t.Fatalf("replies %q", r)
	}
}
""", ["os", SM])

seed("private-net-narrow", "C16",
 "a mail domain whose host has an address in 172.17/16 to 172.31/16",
 "a host in private address space counts as good",
 [("mxresolve.go", '"172.16.0.0/12"', '"172.16.0.0/16"')],
 """
func TestDemo(t *testing.T) {
	if r, _ := checkIP("172.17.0.1"); r != dnsBad {
		t.Fatalf("a host in 172.17/16 is %v", r)
	}
}
""", [])

seed("rset-counts-good-sessions", "C17",
 "a client that has reached the minimum phase and then starts several transactions in one session",
 "a session that reached the minimum phase counts against its client, and is cut off",
 [("sinksmtp.go", """trans.from != "" && !gotsomewhere && sesscounts {""", """trans.from != "" && sesscounts {""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	savedir = ""
	yakCount = 1
	defer func() { yakCount = 0 }()
	var lg syncBuf
	var ev []smtpd.EventInfo
	ev = append(ev, cmd(smtpd.HELO, "h"))
	for i := 0; i < 5; i++ {
		ev = append(ev, cmd(smtpd.MAILFROM, "a@b.c"))
	}
	r := session(newFake(), nil, nil, &lg, nil, ev, nil)
	if len(r) < 6 || r[5] == "" || r[5][0] != '2' {
		t.Fatalf("replies %q", r)
	}
}
""", [SM])

seed("cert-asked-after-failure", "C18",
 "a client IP with exactly one recent TLS failure",
 "a client certificate is requested although the IP had a TLS failure",
 [("sinksmtp.go", """		if blcount == 0 {
			tlsc.ClientAuth""", """		if blcount <= 1 {
			tlsc.ClientAuth""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	savedir = ""
	notls.Add("192.0.2.7", tlsTimeout)
	var cfg *tls.Config
	smtpd.Setup = func(c *smtpd.Conn) { cfg = c.Config.TLSConfig }
	process(1, newFake(), []tls.Certificate{{}}, nil, nil, nil, nil)
	if cfg == nil || cfg.ClientAuth != tls.NoClientCert {
		t.Fatalf("TLS configuration %v", cfg)
	}
}
""", ["crypto/tls", SM])

seed("stats-handed-out", "C19",
 "the statistics are being read over HTTP while another connection updates the table",
 "the table's counters are handed out by reference and read without the lock",
 [("sinksmtp.go", """	return i.stats
}""", """	return &i.stats
}""")],
 """
func TestDemo(t *testing.T) {
	s := notls.Stats()
	before, _ := json.Marshal(s)
	notls.Add("192.0.2.99", tlsTimeout)
	after, _ := json.Marshal(s)
	if string(before) != string(after) {
		t.Fatalf("a snapshot changed: %s %s", before, after)
	}
}
""", ["encoding/json"])

seed("set-reports-expired", "C20",
 "forcing the count of an IP whose record has expired",
 "the expired count is reported as the previous one",
 [("sinksmtp.go", """		t.count = 0
		i.stats.AddsExpired++
	}
	t.when = time.Now()
	ocnt""", """		i.stats.AddsExpired++
	}
	t.when = time.Now()
	ocnt""")],
 """
func TestDemo(t *testing.T) {
	m := &ipMap{ips: make(map[string]*ipEnt)}
	m.Add("192.0.2.7", time.Hour)
	m.Add("192.0.2.7", time.Hour)
	time.Sleep(20 * time.Millisecond)
	if n := m.Set("192.0.2.7", time.Millisecond, 9); n != 0 {
		t.Fatalf("an expired record is reported as %d", n)
	}
}
""", ["time"])

seed("empty-list-left-open", "C22",
 "a pattern file without any pattern, read by many connections",
 "the file is not closed",
 [("sinksmtp.go", """	defer fp.Close()
	alist, err := readList(bufio.NewReader(fp))
	if err != nil {""", """	alist, err := readList(bufio.NewReader(fp))
	if len(alist) > 0 {
		fp.Close()
	}
	if err != nil {""")],
 """
func TestDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	f, err := os.CreateTemp("", "list")
	if err != nil {
		t.Fatal(err)
	}
	f.Close()
	defer os.Remove(f.Name())
	n := func() int {
		l, _ := os.ReadDir("/proc/self/fd")
		return len(l)
	}
	loadList(f.Name())
	a := n()
	for i := 0; i < 20; i++ {
		loadList(f.Name())
	}
	if b := n(); b > a+5 {
		t.Fatalf("%d descriptors became %d", a, b)
	}
}
""", ["os", "runtime/debug"])

seed("certless-line-keeps-certs", "C24",
 "a -conncfg line without certificates for a destination, with certificates on the command line",
 "TLS is offered on a destination that is configured to have none",
 [("sinksmtp.go", """			certs = pd.certs
""", """			if len(pd.certs) > 0 {
				certs = pd.certs
			}
""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	d, err := os.MkdirTemp("", "conn")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	os.WriteFile(d+"/cfg", []byte("192.0.2.1 hostname=plain\\n"), 0600)
	connfile = d + "/cfg"
	savedir = ""
	var cfg *tls.Config
	name := ""
	smtpd.Setup = func(c *smtpd.Conn) { cfg, name = c.Config.TLSConfig, c.Config.LocalName }
	process(1, newFake(), []tls.Certificate{{}}, nil, nil, nil, nil)
	if cfg != nil || name != "plain" {
		t.Fatalf("TLS configuration %v, name %q", cfg, name)
	}
}
""", ["crypto/tls", "os", SM])

seed("ipv6-port-in-name", "C25",
 "-save-hash=full and an IPv6 client resending a message from another port",
 "the client's port influences the name of the saved file",
 [("sinksmtp.go", """	if rmsg == "" {
		rmsg = trans.raddr""", """	if rmsg == "" || strings.IndexByte(rmsg, ':') != -1 {
		rmsg = trans.raddr""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	d, err := os.MkdirTemp("", "save")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	savedir = d
	hashtype = "full"
	for _, a := range []string{"[2001:db8::7]:1024", "[2001:db8::7]:1025"} {
		c := newFake()
		c.remote = a
		session(c, nil, nil, nil, nil, []smtpd.EventInfo{
			cmd(smtpd.HELO, "h"), cmd(smtpd.MAILFROM, "a@b.c"), cmd(smtpd.RCPTTO, "x@y.z"), cmd(smtpd.DATA, ""), msg("Subject: x\\n\\nhello\\n"),
		}, nil)
	}
	if l, _ := os.ReadDir(d); len(l) != 1 {
		t.Fatalf("%d files", len(l))
	}
}
""", ["os", SM])

seed("log-recipients-cut", "C26",
 "a message with more than a hundred recipients",
 "the message log line does not name all recipients",
 [("sinksmtp.go", """	for _, a := range trans.rcptto {
		fmt.Fprintf(writer, " <%s>", a)
	}""", """	for i, a := range trans.rcptto {
		if i >= 100 {
			fmt.Fprintf(writer, " ...")
			break
		}
		fmt.Fprintf(writer, " <%s>", a)
	}""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	savedir = ""
	var lg syncBuf
	ev := []smtpd.EventInfo{cmd(smtpd.HELO, "h"), cmd(smtpd.MAILFROM, "a@b.c")}
	for i := 0; i < 120; i++ {
		ev = append(ev, cmd(smtpd.RCPTTO, fmt.Sprintf("x%d@y.z", i)))
	}
	ev = append(ev, cmd(smtpd.DATA, ""), msg("Subject: x\\n\\nhello\\n"))
	session(newFake(), nil, &lg, nil, nil, ev, nil)
	if !strings.Contains(lg.all(), "<x119@y.z>") {
		t.Fatalf("log: %s", lg.all())
	}
}
""", ["fmt", "strings", SM])

seed("cached-hit-unrecorded", "C27",
 "a blocklist that is tested by a second rule, or in a second phase, of the same connection",
 "a match that comes from the remembered answer is not recorded as a hit",
 [("rnodes.go", """	res := c.getDnsblRes(ln)
	if res {
		c.addDnsblHit(d.domain)
	}
	return res
""", """	known := c.dnsbl[ln] != nil
	res := c.getDnsblRes(ln)
	if !known && bool(res) {
		c.addDnsblHit(d.domain)
	}
	return res
""")],
 """
func TestDemo(t *testing.T) {
	c := newContext(&smtpTransaction{rip: "192.0.2.7", rdns: &rDNSResults{}}, nil)
	yes := Result(true)
	c.dnsbl["7.2.0.192.bl.invalid."] = &yes
	r := mustParse("reject dnsbl bl.invalid\\n")
	if !r[0].clauses[0].expr.Eval(c) || len(c.dnsblhit) != 1 {
		t.Fatalf("hits %v", c.dnsblhit)
	}
}
""", [])

seed("savedir-lost-on-stall", "C28",
 "a rule that stalls a command and names a savedir, then a message in the same session",
 "the savedir of a matching stall rule is not used for later messages",
 [("sinksmtp.go", """	if sd := c.withprops["savedir"]; sd != "" {""", """	if sd := c.withprops["savedir"]; sd != "" && res != aStall {""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	d, err := os.MkdirTemp("", "save")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	os.Mkdir(d+"/one", 0700)
	os.Mkdir(d+"/two", 0700)
	savedir = d + "/one"
	session(newFake(), mustParse("@helo stall helo early.x with savedir "+d+"/two\\n"), nil, nil, nil, []smtpd.EventInfo{
		cmd(smtpd.HELO, "early.x"), cmd(smtpd.HELO, "h"), cmd(smtpd.MAILFROM, "a@b.c"), cmd(smtpd.RCPTTO, "x@y.z"), cmd(smtpd.DATA, ""), msg("Subject: x\\n\\nhello\\n"),
	}, nil)
	if l, _ := os.ReadDir(d + "/two"); len(l) != 1 {
		t.Fatalf("%d files", len(l))
	}
}
""", ["os", SM])

seed("dnlog-two-writes", "C29",
 "two do-nothing clients at the same time",
 "a record of the do-nothing log is written in two pieces, between which others can come",
 [("sinksmtp.go", """	fmt.Fprintf(dnlog, "%s [%s] %s %s -> %s\\n", time.Now().Format(TimeNZ),
		prefix, what, trans.rip, trans.laddr)""", """	fmt.Fprintf(dnlog, "%s [%s] ", time.Now().Format(TimeNZ), prefix)
	fmt.Fprintf(dnlog, "%s %s -> %s\\n", what, trans.rip, trans.laddr)""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	savedir = ""
	yakCount = 1
	defer func() { yakCount = 0 }()
	var lg, dl syncBuf
	session(newFake(), nil, nil, &lg, &dl, nil, nil)
	session(newFake(), nil, nil, &lg, &dl, nil, nil)
	if len(dl.writes) == 0 {
		t.Fatal("nothing logged")
	}
	for _, w := range dl.writes {
		if !strings.HasSuffix(w, "\\n") || !strings.Contains(w, "192.0.2.7") {
			t.Fatalf("writes %q", dl.writes)
		}
	}
}
""", ["strings"])

seed("same-file-one-rule", "C30",
 "-heloreject and -fromreject naming the same file",
 "the -heloreject rule is missing",
 [("sinksmtp.go", """	if heloreject != "" {""", """	if heloreject != "" && heloreject != fromreject {""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	fromreject, heloreject = "/tmp/x", "/tmp/x"
	if r := buildRules(false); len(r) != 2 {
		t.Fatalf("rules %v", r)
	}
}
""", [])

seed("repeated-make-yakker", "C11",
 "a rule clause whose with part gives make-yakker twice",
 "a repeated make-yakker option is not reported as an error",
 [("rparse.go", """		case itemMakeYakker:
			if _, ok := rc.withs[cv]; ok {""", """		case itemMakeYakker:
			if rc.withs[cv] != "" {""")],
 """
func TestDemo(t *testing.T) {
	if r, err := Parse("reject all with make-yakker make-yakker\\n"); err == nil {
		t.Fatalf("no error, rules %v", r)
	}
}
""", [])

seed("escape-before-closing-quote", "C31",
 "a quoted string whose last character is an escaped one",
 "the closing quote right after an escaped character is not seen",
 [("rlex.go", """		l.pos = apos + 2
		lookat = l.pos""", """		l.pos = apos + 2
		lookat = l.pos + 1""")],
 """
func TestDemo(t *testing.T) {
	r, err := Parse("reject from \\"ab\\\\\\"\\"\\n")
	if err != nil || len(r) != 1 {
		t.Fatalf("rules %v, error %v", r, err)
	}
}
""", [])

seed("earlier-clause-options", "C12",
 "a compact rule of which a later clause matches and an earlier, non-matching one has with options",
 "the with options of clauses that did not match are set as well",
 [("rnodes.go", """		for k, v := range r.clauses[i].withs {
			c.withprops[k] = v
		}
""", """		for j := 0; j <= i; j++ {
			for k, v := range r.clauses[j].withs {
				c.withprops[k] = v
			}
		}
""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	savedir = ""
	r := session(newFake(), mustParse("@from reject from x@y.z with message \\"one\\"; all with note \\"two\\"\\n"), nil, nil, nil, []smtpd.EventInfo{
		cmd(smtpd.HELO, "h"), cmd(smtpd.MAILFROM, "a@b.c"),
	}, nil)
	if len(r) < 2 || r[1] != "5" {
		t.Fatalf("replies %q", r)
	}
}
""", [SM])

seed("deferred-miss-ends-rules", "C06",
 "a rule for an explicit phase that misses because of an empty pattern file, before the rule that matches",
 "the rules after it are not evaluated in that phase",
 [("rules.go", """			//fmt.Printf(" ... rulemiss set, skip\\n")
			continue""", """			//fmt.Printf(" ... rulemiss set, skip\\n")
			if r.deferto == ph {
				break
			}
			continue""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	savedir = ""
	r := session(newFake(), mustParse("@helo reject helo file:/nonexistent/list\\nreject helo bad.x\\n"), nil, nil, nil, []smtpd.EventInfo{cmd(smtpd.HELO, "bad.x")}, nil)
	if len(r) < 1 || r[0] == "" || r[0][0] != '5' {
		t.Fatalf("replies %q", r)
	}
}
""", [SM])

seed("to-falls-back", "C14",
 "RCPT TO:<> and a 'to' rule after an accepted recipient",
 "'to' examines the recipients accepted before instead of the current one",
 [("rnodes.go", """			return []string{c.rcptto}
""", """			if c.rcptto == "" {
				return c.trans.rcptto
			}
			return []string{c.rcptto}
""")],
 """
func TestDemo(t *testing.T) {
	demoInit()
	savedir = ""
	r := session(newFake(), mustParse("@to accept to <>\\n@to reject to x@y.z with message \\"x\\"\\n"), nil, nil, nil, []smtpd.EventInfo{
		cmd(smtpd.HELO, "h"), cmd(smtpd.MAILFROM, "a@b.c"), cmd(smtpd.RCPTTO, "w@y.z"), cmd(smtpd.RCPTTO, ""),
	}, nil)
	c := newContext(&smtpTransaction{rcptto: []string{"x@y.z"}, rdns: &rDNSResults{}}, mustParse("reject to x@y.z\\n"))
	if a := Decide(pRto, cmd(smtpd.RCPTTO, ""), c); a != aNoresult {
		t.Fatalf("RCPT TO:<> gives %v (replies %q)", a, r)
	}
}
""", [SM])
