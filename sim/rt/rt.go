// Package rt carries the sources of the simulator runtime, which the driver adds
// to the builds of the code under test.
package rt

import "embed"

//go:embed *.go.txt
var FS embed.FS
