package main

import (
	"io"
	"log"
	"sort"
)

func newNopLog(w io.Writer) *log.Logger { return log.New(w, "", 0) }

func sortBy[E any](s []E, key func(E) string) {
	sort.Slice(s, func(i, j int) bool { return key(s[i]) < key(s[j]) })
}
