// Package vtest runs tests of the testing package within a program.
package vtest

import (
	"flag"
	"io"
	"os"
	"reflect"
	"testing"
	"time"

	"log"
)

type entry = struct {
	Parent, Path string
	Data         []byte
	Values       []any
	Generation   int
	IsSeed       bool
}

// what the testing package asks of a test binary
type deps struct{}

func (deps) ImportPath() string                          { return "check" }
func (deps) ModulePath() string                          { return "check" }
func (deps) MatchString(pat, str string) (bool, error)   { return true, nil }
func (deps) SetPanicOnExit0(bool)                        {}
func (deps) StartCPUProfile(io.Writer) error             { return nil }
func (deps) StopCPUProfile()                             {}
func (deps) StartTestLog(io.Writer)                      {}
func (deps) StopTestLog() error                          { return nil }
func (deps) WriteProfileTo(string, io.Writer, int) error { return nil }
func (deps) CoordinateFuzzing(time.Duration, int64, time.Duration, int64, int, []entry, []reflect.Type, string, string) error {
	return nil
}
func (deps) RunFuzzWorker(func(entry) error) error              { return nil }
func (deps) ReadCorpus(string, []reflect.Type) ([]entry, error) { return nil, nil }
func (deps) CheckCorpus([]any, []reflect.Type) error            { return nil }
func (deps) ResetCoverage()                                     {}
func (deps) SnapshotCoverage()                                  {}
func (deps) InitRuntimeCoverage() (string, func(string, string) (string, error), func() float64) {
	return "", nil, nil
}

// Prepare: the testing package only runs tests once it has read its flags, which it does when it is run
func Prepare() {
	log.SetOutput(io.Discard)
	testing.Init()
	_ = flag.Set("test.parallel", "8")
	_ = flag.CommandLine.Parse(nil)
	quiet(func() { testing.MainStart(deps{}, nil, nil, nil, nil).Run() })
}

func quiet(f func()) {
	stdout, stderr := os.Stdout, os.Stderr
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout, os.Stderr = null, null
	defer func() { os.Stdout, os.Stderr = stdout, stderr; null.Close() }()
	f()
}

// Run runs these, after Prepare.
func Run(tests []testing.InternalTest) {
	quiet(func() { testing.RunTests(deps{}.MatchString, tests) })
}
