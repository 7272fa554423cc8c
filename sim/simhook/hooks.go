package simhook

// EnterFn and ExitFn are called when an observed function is entered and left,
// with pointers to its parameters and results. Hooks turns them on.
var (
	EnterFn func(name string, recv any, args ...any)
	ExitFn  func(name string, recv any, res ...any)
	// Reached counts the calls per function.
	Reached = map[string]int{}
)

// Enter is called on entry of an observed function.
func Enter(name string, recv any, args ...any) {
	Reached[name]++
	if EnterFn != nil {
		EnterFn(name, recv, args...)
	}
}

// Exit is called on exit of an observed function.
func Exit(name string, recv any, res ...any) {
	if ExitFn != nil {
		ExitFn(name, recv, res...)
	}
}

// HashRec is one output of an observed hash function, and what was absorbed before it.
type HashRec struct {
	Alg string
	In  []byte
	Out []byte
}

var (
	// Recording tells whether hashes are recorded.
	Recording bool
	// Records are the recorded hash outputs, in order.
	Records []HashRec
	// Rewrite, if set, replaces what an extendable-output function has absorbed,
	// just before its first output.
	Rewrite func(alg string, in []byte) []byte
	// Tweak, if set, changes what an extendable-output function delivers.
	Tweak func(alg string, out []byte)
)
