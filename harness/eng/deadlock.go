package eng

import (
	"runtime"
	"strings"
)

// waits are the states of a goroutine that only another one can end.
var waits = []string{"sync.", "semacquire", "chan receive", "chan send", "select"}

// deadlocked tells whether every goroutine that runs the checks or the code
// under test waits for another one, at least one of them inside the code under
// test. The snapshot stops the world, and none of them can be woken: this
// holds on a busy machine too.
func deadlocked() (string, bool) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		if len(buf) >= 64<<20 {
			return "", false
		}
		buf = make([]byte, 2*len(buf))
	}
	where := ""
	for _, g := range strings.Split(string(buf), "\n\n") {
		lib := strings.Contains(g, "sahandsafizadeh/qeep")
		if !lib && !strings.Contains(g, "qv/props.") {
			continue
		}
		i, j := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
		if i < 0 || j < i {
			return "", false
		}
		state := g[i+1 : j]
		ok := false
		for _, w := range waits {
			ok = ok || strings.HasPrefix(state, w)
		}
		if !ok {
			return "", false
		}
		if !lib || where != "" {
			continue
		}
		// waiting inside the library, not in a callback of the harness
		for _, l := range strings.Split(g, "\n")[1:] {
			if strings.HasPrefix(l, "qv/") {
				break
			}
			if strings.Contains(l, "sahandsafizadeh/qeep") {
				where = state + " in " + l
				break
			}
		}
	}
	return where, where != ""
}
