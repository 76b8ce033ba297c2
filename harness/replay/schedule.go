//go:build schedule

package replay

import (
	"os"
	_ "unsafe"

	"verifharness/sym"
)

// In schedule replays the sync packages are overlaid to call these hooks
// before every synchronisation operation.

//go:linkname syncHook sync.verifHook
var syncHook func()

//go:linkname atomicHook sync/atomic.verifHook
var atomicHook func()

func init() {
	if os.Getenv("REPLAY_FREE") == "" {
		sym.Scheduled = true
		syncHook, atomicHook = sym.SyncPoint, sym.SyncPoint
	}
}
