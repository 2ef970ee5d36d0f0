package main

import (
	"fmt"
	"os"
)

// subs are helper programs run as separate processes by some checks
// (crash children, servers).
var subs = map[string]func(args []string) int{}

func subMain(args []string) int {
	if len(args) == 0 || subs[args[0]] == nil {
		fmt.Fprintln(os.Stderr, "unknown sub")
		return 3
	}
	return subs[args[0]](args[1:])
}
