package main

import (
	"bytes"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/siebenmann/smtpd"
)

// fakeConn is a connection from 192.0.2.7:4025 to 192.0.2.1:25.
type fakeConn struct {
	closed int
	local  string
	remote string
}

type fakeAddr string

func (a fakeAddr) Network() string { return "tcp" }
func (a fakeAddr) String() string  { return string(a) }

func (c *fakeConn) Read(b []byte) (int, error)  { return 0, io.EOF }
func (c *fakeConn) Write(b []byte) (int, error) { return len(b), nil }
func (c *fakeConn) Close() error                { c.closed++; return nil }
func (c *fakeConn) LocalAddr() net.Addr         { return fakeAddr(c.local) }
func (c *fakeConn) RemoteAddr() net.Addr        { return fakeAddr(c.remote) }
func (c *fakeConn) SetDeadline(t time.Time) error      { return nil }
func (c *fakeConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *fakeConn) SetWriteDeadline(t time.Time) error { return nil }

func newFake() *fakeConn { return &fakeConn{local: "192.0.2.1:25", remote: "192.0.2.7:4025"} }

// syncBuf is a log that keeps each write apart.
type syncBuf struct {
	sync.Mutex
	writes []string
}

func (b *syncBuf) Write(p []byte) (int, error) {
	b.Lock()
	b.writes = append(b.writes, string(p))
	b.Unlock()
	return len(p), nil
}
func (b *syncBuf) all() string { b.Lock(); defer b.Unlock(); return strings.Join(b.writes, "") }

var setupOnce sync.Once

// demoInit sets the globals a session needs.
func demoInit() {
	setupOnce.Do(func() {
		hashtype = "all"
		minphase = "helo"
		srvname = "demo"
		genStallRules()
		go warnbackend()
		// keep expected warnings off the terminal
		if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stderr = f
		}
	})
}

func cmd(c smtpd.Command, arg string) smtpd.EventInfo {
	return smtpd.EventInfo{What: smtpd.COMMAND, Cmd: c, Arg: arg}
}
func msg(text string) smtpd.EventInfo { return smtpd.EventInfo{What: smtpd.GOTDATA, Arg: text} }

// session runs process() over a script and returns the replies, one per event.
func session(nc net.Conn, rules []*Rule, logf, smtplog, dnlog io.Writer, script []smtpd.EventInfo, tweak func(*smtpd.Conn)) []string {
	demoInit()
	var conn *smtpd.Conn
	smtpd.Setup = func(c *smtpd.Conn) {
		conn = c
		c.Script = script
		if tweak != nil {
			tweak(c)
		}
	}
	process(1, nc, nil, logf, smtplog, dnlog, rules)
	if conn == nil {
		return nil
	}
	return conn.Replies
}

func mustParse(s string) []*Rule {
	r, e := Parse(s)
	if e != nil {
		panic(e)
	}
	return r
}

var _ = bytes.NewBuffer
