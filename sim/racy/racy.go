// Package racy is the only harness package compiled with race instrumentation: its
// state stands for a reporter that is not safe for concurrent use.
package racy

// Cell is the state of one reporter.
type Cell struct{ n int }

// Touch is a plain, unsynchronised write.
func (c *Cell) Touch() { c.n++ }
