package simrt

// Every simulated run is a process of its own: what the code under test keeps in
// package variables is put back to what it is when a process starts.
var onStart []func()

// OnStart registers a function that puts a package's variables back. Packages register
// in the order in which they are initialised.
func OnStart(f func()) { onStart = append(onStart, f) }

// NewProcess puts all of them back.
func NewProcess() {
	for _, f := range onStart {
		f()
	}
}

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}
