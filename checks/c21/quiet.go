package main

import (
	"io"
	stdlog "log"
)

// net/http reports panics of handlers on the standard logger
func quietNetHTTP() { stdlog.SetOutput(io.Discard) }
