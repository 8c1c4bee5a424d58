package main

import (
	"fmt"
	"os"
)

// subcommands run instead of the cases: harness NAME ARGS...
var subcommands = map[string]func(args []string){}

func subcommand(args []string) {
	f := subcommands[args[0]]
	if f == nil {
		fmt.Fprintln(os.Stderr, "harness: no subcommand", args[0])
		os.Exit(3)
	}
	f(args[1:])
}
