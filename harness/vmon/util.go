package main

import (
	"fmt"
	"os"
	"strconv"
)

func quote(s string) string { return strconv.Quote(s) }
func sprint(a any) string   { return fmt.Sprint(a) }

// self is the path of this program.
func self() string {
	p, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return p
}
