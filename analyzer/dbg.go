package main

import (
	"fmt"
	"os"
	"sort"
)

var dbg = os.Getenv("DBG") != ""

func dumpFacts(m map[*Term]bool) {
	var s []string
	for t, v := range m {
		s = append(s, fmt.Sprintf("   %v = %s", v, t))
	}
	sort.Strings(s)
	for _, x := range s {
		fmt.Println(x)
	}
}
