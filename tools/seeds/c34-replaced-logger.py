prop='C34'
needs='an application that configures the default logger first and sets up its own logger afterwards'
breaks='a logger set up after the library has chosen its default one is ignored: errors and warnings never reach the application'
edits=[('logger/logger.go','''	Logger = *logger''','''	if _, ok := Logger.(*defaultLogger); !ok {
		Logger = *logger
	}''')]
main='''
package main

import (
	"io"
	"log"
	"strings"

	"github.com/prospik/libsignal-protocol-go/logger"
)

type ears struct {
	quiet
	said []string
}

func (e *ears) Error(caller, m string) { e.said = append(e.said, caller+" "+m) }

// pristine is the logger before help.go sets one up.
var pristine = logger.Logger

func main() {
	log.SetOutput(io.Discard)
	// a program that starts out with the default logger
	logger.Logger = pristine
	logger.Configure("session.go")
	logger.Error("starting")
	e := &ears{}
	var l logger.Loggable = e
	logger.Setup(&l)
	logger.Error("now ", "heard")
	check(len(e.said) == 1, "the logger set up heard %d messages", len(e.said))
	check(strings.HasPrefix(e.said[0], "main.go:") && strings.HasSuffix(e.said[0], " now heard"), "heard %q", e.said[0])
}
'''
