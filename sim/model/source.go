package model

import "embed"

// Source is the source of this package, for programs that are built elsewhere.
//
//go:embed rng.go gram.go lex.go forest.go chart.go
var Source embed.FS
