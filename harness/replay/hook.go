package replay

import (
	"net/http"
	_ "unsafe"

	"verifharness/sym"
)

// The os package reports opens and stats to internal/testlog; the replay uses
// it to record which files are opened and to keep file times on the bubble's clock.

type logger interface {
	Getenv(key string)
	Stat(file string)
	Open(file string)
	Chdir(dir string)
}

//go:linkname setLogger internal/testlog.SetLogger
func setLogger(impl logger)

type hooks struct{}

var bubble bool

func (hooks) Getenv(string) {}
func (hooks) Chdir(string)  {}
func (hooks) Open(f string) { sym.HookOpen(f) }
func (hooks) Stat(f string) {
	if bubble {
		sym.SyncFile(f)
	}
}

// The replay binary is built with net/http's roundtrip.go overlaid so that
// transports ask this hook instead of opening connections.

//go:linkname httpHook net/http.verifHook
var httpHook func(t *http.Transport, r *http.Request) (*http.Response, error)

func init() { httpHook = sym.RoundTrip }
