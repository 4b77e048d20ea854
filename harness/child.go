package main

import (
	"fmt"
	"os"
)

var children = map[string]func(args []string){}

func childMain(name string, args []string) {
	f := children[name]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown child", name)
		os.Exit(2)
	}
	f(args)
}
