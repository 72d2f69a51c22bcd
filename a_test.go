package x
import ("testing";"testing/synctest";"sync";"time"; _ "unsafe")

//go:linkname isIdle runtime.isIdleInSynctest
var isIdle [45]bool

//go:linkname reasons runtime.waitReasonStrings
var reasons [45]string

func init(){ for i,s:=range reasons { if s=="sync.Mutex.Lock"||s=="sync.RWMutex.Lock"||s=="sync.RWMutex.RLock" { isIdle[i]=true; println(i,s) } } }

func TestX(t *testing.T){
 synctest.Test(t, func(t *testing.T){
  var mu sync.Mutex
  mu.Lock()
  go func(){ mu.Lock(); println("got"); mu.Unlock() }()
  time.Sleep(5*time.Second)
  synctest.Wait()
  mu.Unlock()
  time.Sleep(5*time.Second)
  mu.Lock()
 })
}
