package main

import (
	"golang.org/x/tools/go/ssa"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

func itoa(i int) string { return strconv.Itoa(i) }

func nextafter(x, y float64) float64 { return math.Nextafter(x, y) }

func floatTerm(f float64) *Term {
	return numRat(new(big.Rat).SetFloat64(f))
}

func containsStr(s, sub string) bool { return strings.Contains(s, sub) }

// Iteration in a fixed order, so that a run does not depend on map order.
func sortedTerms[V any](m map[*Term]V) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func sortedNames[V any](m map[string]V) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func sortedBlocks(m map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for b := range m {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Index < out[j].Index })
	return out
}
