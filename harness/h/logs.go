package h

import (
	"io"
	"log"
	"reflect"
	"runtime"
	"strconv"

	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/logger"
)

// ---- C34: what the library logs reaches the log ----

type entry struct{ level, caller, text string }

// book is a logger that keeps what it is told.
type book struct {
	entries  []entry
	settings []string
}

func (b *book) add(l, c, m string)        { b.entries = append(b.entries, entry{l, c, m}) }
func (b *book) Debug(caller, msg string)   { b.add("DEBUG", caller, msg) }
func (b *book) Info(caller, msg string)    { b.add("INFO", caller, msg) }
func (b *book) Warning(caller, msg string) { b.add("WARNING", caller, msg) }
func (b *book) Error(caller, msg string)   { b.add("ERROR", caller, msg) }
func (b *book) Configure(s string)         { b.settings = append(b.settings, s) }

var levels = []string{"DEBUG", "INFO", "WARNING", "ERROR"}

func logAt(level int, msg ...interface{}) {
	switch level {
	case 0:
		logger.Debug(msg...)
	case 1:
		logger.Info(msg...)
	case 2:
		logger.Warning(msg...)
	case 3:
		logger.Error(msg...)
	}
}

// line is the line of the statement that calls it.
func line() int {
	_, _, n, _ := runtime.Caller(1)
	return n
}

// page collects what goes to the standard log.
type page struct{ lines []string }

func (p *page) Write(b []byte) (int, error) {
	p.lines = append(p.lines, string(b))
	return len(b), nil
}

// pristine is the logger before anything was set up.
var pristine = logger.Logger

func forget() {
	logger.Logger = pristine
	if sym.Symbolic() {
		return
	}
	if v := reflect.ValueOf(pristine); v.Kind() == reflect.Ptr {
		c := reflect.New(v.Type().Elem())
		c.Elem().Set(v.Elem())
		logger.Logger = c.Interface().(logger.Loggable)
	}
}

// withLog runs f with l as the library's logger (nil: none set up) and the
// standard log going to p.
func withLog(l logger.Loggable, p io.Writer, f func()) {
	old := logger.Logger
	w, flags := log.Writer(), log.Flags()
	log.SetOutput(p)
	log.SetFlags(0)
	defer func() {
		logger.Logger = old
		log.SetOutput(w)
		log.SetFlags(flags)
	}()
	forget()
	if l != nil {
		logger.Setup(&l)
	}
	f()
}

// C34Delivery: a message goes to the logger set up last, once, at its level.
//
//gosym:prop=C34 tier=both log=real shard=level:4 shard=setup:3 reach=ok
//gosym:bound texts of any 5 bytes and any 2 bytes and any number below 256 between them, all levels, set up at first, after another logger, after the default one was used
func C34Delivery() {
	level, setup := sym.Choose("level", 4), sym.Choose("setup", 3)
	s, t, n := string(sym.Bytes("s", 5)), string(sym.Bytes("t", 2)), sym.Byte("n")
	b, first, p := &book{}, &book{}, &page{}
	var l logger.Loggable = b
	switch setup {
	case 1:
		l = first
	case 2:
		l = nil
	}
	withLog(l, p, func() {
		if setup > 0 {
			if setup == 2 {
				logger.Configure("all")
				logger.Error("before")
				p.lines = nil
			}
			var l logger.Loggable = b
			logger.Setup(&l)
		}
		var at int
		switch level {
		case 0:
			logger.Debug(s, n, t)
			at = line() - 1
		case 1:
			logger.Info(s, n, t)
			at = line() - 1
		case 2:
			logger.Warning(s, n, t)
			at = line() - 1
		case 3:
			logger.Error(s, n, t)
			at = line() - 1
		}
		sym.Assert(len(b.entries) == 1, "a message does not reach the logger exactly once")
		e := b.entries[0]
		sym.Assert(e.level == levels[level], "a message arrives at another level")
		sym.Assert(e.text == s+strconv.Itoa(int(n))+t, "a message arrives with another text")
		sym.Assert(e.caller == "logs.go:"+strconv.Itoa(at), "the caller is not the place that logged")
		logger.Configure(s)
		sym.Assert(len(b.settings) == 1 && b.settings[0] == s, "the settings do not reach the logger")
		sym.Assert(len(b.entries) == 1, "configuring logs")
		logAt(level)
		sym.Assert(len(b.entries) == 2 && b.entries[1].text == "" && b.entries[1].level == levels[level], "an empty message is lost")
	})
	sym.Assert(len(first.entries) == 0 && len(first.settings) == 0, "the logger set up before is still used")
	sym.Assert(len(p.lines) == 0, "messages go to the standard log although a logger is set up")
	sym.Reach("ok")
}

// C34Default: without a logger, warnings and errors of the configured callers
// go to the standard log.
//
//gosym:prop=C34 tier=both log=real shard=level:4 shard=conf:4 reach=ok
//gosym:bound any caller of 4 bytes, any settings of 3 bytes, any text of 3 bytes; not configured, "all", any, "all" among others, after another configuration or none
func C34Default() {
	level, conf := sym.Choose("level", 4), sym.Choose("conf", 4)
	caller, text := string(sym.Bytes("caller", 4)), string(sym.Bytes("text", 3))
	p := &page{}
	withLog(nil, p, func() {
		want := true
		if conf > 0 && sym.Choose("before", 2) == 1 {
			logger.Configure("other.go,Other.go")
		}
		switch conf {
		case 1:
			logger.Configure("all")
		case 2:
			set := sym.Bytes("set", 3)
			logger.Configure(string(set))
			want = named(set, caller)
		case 3:
			set := append(sym.Bytes("set", 2), ",all"...)
			logger.Configure(string(set))
		default:
			logAt(level, text)
			checkLines(p, level, text, true)
			sym.Assert(len(p.lines) == 0 || contains(p.lines[0], " logs.go:"), "the caller is missing")
			p.lines = nil
		}
		l := logger.Logger
		sym.Assert(l != nil, "no default logger")
		switch level {
		case 0:
			l.Debug(caller, text)
		case 1:
			l.Info(caller, text)
		case 2:
			l.Warning(caller, text)
		case 3:
			l.Error(caller, text)
		}
		checkLines(p, level, text, want)
		sym.Assert(len(p.lines) == 0 || contains(p.lines[0], " "+caller+" "), "the caller is missing")
	})
	sym.Reach("ok")
}

// checkLines: one line with level and text exactly if the message is to be
// shown.
func checkLines(p *page, level int, text string, want bool) {
	if level < 2 || !want {
		sym.Assert(len(p.lines) == 0, "the default logger shows what it should not")
		return
	}
	sym.Assert(len(p.lines) == 1, "the default logger does not show a warning or error once")
	got := p.lines[0]
	sym.Assert(contains(got, "["+levels[level]+"]"), "the default logger shows another level")
	// how the line ends is left open if the text ends with a new line itself
	sym.Assert(got != "" && got[len(got)-1] == '\n', "a line of the log does not end")
	got, end := chomp(got), chomp(text)
	sym.Assert(len(got) > len(end) && got[len(got)-len(end):] == end, "the default logger shows another text")
}

func chomp(s string) string {
	for s != "" && s[len(s)-1] == '\n' {
		s = s[:len(s)-1]
	}
	return s
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// named: one of the names in set, separated by commas, is "all" or part of the
// caller.
func named(set []byte, caller string) bool {
	from := 0
	for i := 0; i <= len(set); i++ {
		if i == len(set) || set[i] == ',' {
			if n := string(set[from:i]); n == "all" || contains(caller, n) {
				return true
			}
			from = i + 1
		}
	}
	return false
}

// C34Operations: sessions work the same with any logger and with none.
//
//gosym:prop=C34 tier=both log=real shard=log:3 reach=ok
//gosym:bound a session of three messages, one of them damaged, with a logger that keeps everything, the default one, and the default one for one caller; all keys
func C34Operations() {
	k := sym.Choose("log", 3)
	b, p := &book{}, &page{}
	var l logger.Loggable
	if k == 0 {
		l = b
	}
	withLog(l, p, func() {
		if k == 2 {
			logger.Configure("Nothing.go")
		}
		c := newConv(serializerN(0), true, true)
		pt := sym.Bytes("pt", 3)
		deliver(c.b, c.cb, send(c.ca, pt), pt, "first message")
		deliver(c.a, c.ca, send(c.cb, pt), pt, "reply")
		m := send(c.ca, pt)
		sym.Honest()
		bad := wire{append([]byte{}, m.b...), m.t}
		bad.b[len(bad.b)-1] ^= 1
		_, err := c.b.recv(c.cb, bad)
		sym.Assert(err != nil, "a damaged message is accepted")
		deliver(c.b, c.cb, m, pt, "genuine message")
	})
	switch k {
	case 0:
		sym.Assert(len(p.lines) == 0, "messages go to the standard log although a logger is set up")
		for _, e := range b.entries {
			sym.Assert(contains(e.caller, ".go:"), "a caller is not a file and line")
		}
	case 1:
		for _, s := range p.lines {
			sym.Assert(contains(s, "[WARNING]") || contains(s, "[ERROR]"), "the default logger shows what it should not")
		}
	case 2:
		sym.Assert(len(p.lines) == 0, "the default logger shows what it was not configured for")
	}
	sym.Reach("ok")
}
