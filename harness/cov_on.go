//go:build vcover

package main

import (
	"fmt"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/scanner"
)

// The block counters of the code under test, added at build time by
// tools/overlay.sh. Their sum is the logical clock of a run.
const covOn = true

var (
	covNames  []string
	covCounts [][]uint32
)

func init() {
	for _, f := range []func() ([]string, [][]uint32){
		bibtex.VerifCov, ast.VerifCov, asts.VerifCov, parser.VerifCov, render.VerifCov, scanner.VerifCov, tokenCov,
	} {
		n, c := f()
		covNames = append(covNames, n...)
		covCounts = append(covCounts, c...)
	}
}

func steps() uint64 {
	var n uint64
	for _, cs := range covCounts {
		for _, c := range cs {
			n += uint64(c)
		}
	}
	return n
}

func covSnapshot() []uint32 {
	var out []uint32
	for _, cs := range covCounts {
		out = append(out, cs...)
	}
	return out
}

var covFolded = map[int]bool{}

// covFold keeps the counters from overflowing: it remembers which blocks were
// reached and restarts the counters.
func covFold() {
	if steps() < 1<<30 {
		return
	}
	i := 0
	for _, cs := range covCounts {
		for j, c := range cs {
			if c != 0 {
				covFolded[i] = true
				cs[j] = 0
			}
			i++
		}
	}
}

func covered() []int {
	var out []int
	i := 0
	for _, cs := range covCounts {
		for _, c := range cs {
			if c != 0 || covFolded[i] {
				out = append(out, i)
			}
			i++
		}
	}
	return out
}

func covByFile(cov map[int]bool) (map[string]string, int) {
	m := map[string]string{}
	i := 0
	for f, cs := range covCounts {
		n := 0
		for range cs {
			if cov[i] {
				n++
			}
			i++
		}
		m[covNames[f]] = fmt.Sprintf("%d/%d", n, len(cs))
	}
	return m, i
}
