//go:build vcover

package main

import "github.com/jschaf/bibtex/token"

func tokenCov() ([]string, [][]uint32) { return token.VerifCov() }
