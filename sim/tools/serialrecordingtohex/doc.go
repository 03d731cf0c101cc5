// Package serialrecordingtohex takes the instrumented command of that name from the tree under test.
package serialrecordingtohex
