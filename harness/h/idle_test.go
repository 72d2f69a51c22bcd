package h

import _ "unsafe"

// A goroutine that waits for a mutex counts as idle in a bubble of virtual time, as it does in the engine.

//go:linkname idleReasons runtime.isIdleInSynctest
var idleReasons [45]bool

//go:linkname reasonNames runtime.waitReasonStrings
var reasonNames [45]string

func init() {
	for i, s := range reasonNames {
		switch s {
		case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock":
			idleReasons[i] = true
		}
	}
}
