package sym

import (
	"errors"
	"net/http"
	"sync"
)

// HTTP answers the requests of every http.Transport.
var HTTP func(t *http.Transport, r *http.Request) (*http.Response, error)

// RoundTrip stands in for (*http.Transport).RoundTrip.
func RoundTrip(t *http.Transport, r *http.Request) (*http.Response, error) {
	if HTTP == nil {
		return nil, errors.New("no network")
	}
	return HTTP(t, r)
}

var (
	hookMu sync.Mutex
	hookOn bool
	opened []string
)

// HookOpen is told of every file that is opened natively.
func HookOpen(f string) {
	hookMu.Lock()
	if hookOn {
		opened = append(opened, f)
	}
	hookMu.Unlock()
}

// HookReset starts recording.
func HookReset() {
	hookMu.Lock()
	opened, hookOn = nil, true
	hookMu.Unlock()
}

// Opened lists the files opened so far.
func Opened() []string {
	hookMu.Lock()
	defer hookMu.Unlock()
	return append([]string(nil), opened...)
}

// Wait waits for a bubble's goroutines to settle.
var Wait = func() {}
