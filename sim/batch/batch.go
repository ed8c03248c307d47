// Package batch carries the sources of the programs in which generated lexers and
// parsers run under the simulator.
package batch

import "embed"

//go:embed *.go.txt *.tmpl
var FS embed.FS
