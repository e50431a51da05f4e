package main

import (
	"crypto/sha256"
	"sort"

	"verif.local/ds/simsync"
)

type simWG = simsync.WaitGroup

func sum8(b []byte) []byte { h := sha256.Sum256(b); return h[:4] }

func sortStrings(s []string) { sort.Strings(s) }

func sortInt64(s []int64) { sort.Slice(s, func(i, j int) bool { return s[i] < s[j] }) }
