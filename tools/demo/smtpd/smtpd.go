// Package smtpd is a scripted stand-in for github.com/siebenmann/smtpd, used by
// demonstrations only: Next() hands out a prepared list of events and the
// replies are recorded. A command left without a reply when Next() is called
// again is accepted, as in the real package.
package smtpd

import (
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"time"
)

type Command int

const (
	noCmd Command = iota
	BadCmd
	HELO
	EHLO
	MAILFROM
	RCPTTO
	DATA
	QUIT
	RSET
	NOOP
	VRFY
	EXPN
	HELP
	AUTH
	STARTTLS
)

const TimeFmt = "2006-01-02 15:04:05 -0700"

type Limits struct{ CmdInput time.Duration }

type Config struct {
	TLSConfig *tls.Config
	Limits    *Limits
	Delay     time.Duration
	SayTime   bool
	LocalName string
	SftName   string
	Announce  string
}

type Event int

const (
	_ Event = iota
	COMMAND
	AUTHRESP
	AUTHABORT
	GOTDATA
	DONE
	ABORT
	TLSERROR
)

type EventInfo struct {
	What Event
	Cmd  Command
	Arg  string
}

type Conn struct {
	TLSOn    bool
	TLSState tls.ConnectionState
	TLSError error
	Config   Config

	Script  []EventInfo
	Replies []string // one per event, "" until answered; two replies are joined by "+"
	Log     io.Writer
	n       int
	OnNext  func(c *Conn, n int)
}

// Setup is called with each new connection.
var Setup func(c *Conn)

func NewConn(conn net.Conn, cfg Config, log io.Writer) *Conn {
	c := &Conn{Config: cfg, Log: log}
	if Setup != nil {
		Setup(c)
	}
	return c
}

func (c *Conn) reply(s string) {
	if len(c.Replies) == 0 {
		c.Replies = append(c.Replies, "")
	}
	i := len(c.Replies) - 1
	if c.Replies[i] != "" {
		c.Replies[i] += "+"
	}
	c.Replies[i] += s
}

func (c *Conn) Accept()                                       { c.reply("2") }
func (c *Conn) AcceptMsg(format string, elems ...interface{}) { c.reply("2 " + fmt.Sprintf(format, elems...)) }
func (c *Conn) AcceptData(id string)                          { c.reply("2 id " + id) }
func (c *Conn) Reject()                                       { c.reply("5") }
func (c *Conn) RejectMsg(format string, elems ...interface{}) { c.reply("5 " + fmt.Sprintf(format, elems...)) }
func (c *Conn) RejectData(id string)                          { c.reply("5 id " + id) }
func (c *Conn) Tempfail()                                     { c.reply("4") }
func (c *Conn) TempfailMsg(format string, elems ...interface{}) {
	c.reply("4 " + fmt.Sprintf(format, elems...))
}

func (c *Conn) Next() EventInfo {
	if n := len(c.Replies); n > 0 && c.Replies[n-1] == "" {
		c.Replies[n-1] = "2 implicit"
	}
	c.Replies = append(c.Replies, "")
	i := c.n
	c.n++
	if c.OnNext != nil {
		c.OnNext(c, i)
	}
	if i >= len(c.Script) {
		return EventInfo{What: DONE}
	}
	return c.Script[i]
}
