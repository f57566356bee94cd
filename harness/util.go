package main

import (
	"sort"
	"strconv"

	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

type opType = tsonpatch.OpType

func itoa(i int) string { return strconv.Itoa(i) }

func keysOf[T any](m map[string]T) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
