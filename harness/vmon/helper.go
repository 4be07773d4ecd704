package main

import (
	"encoding/json"
	"fmt"
)

// helper holds small developer commands.
func helper(args []string) {
	if len(args) >= 3 && args[0] == "try" {
		var c Cfg
		if args[1] != "" {
			if err := json.Unmarshal([]byte(args[1]), &c); err != nil {
				fatal("%v", err)
			}
		}
		for _, h := range args[2:] {
			md, err := c.Convert(h)
			fmt.Printf("%q err=%v\n  md:   %q\n  html: %q\n", h, err, md, mdToHTML(c, md))
			if m := rereadProbe(h, c); m != "" {
				fmt.Println("  DIFF", m)
			}
		}
		return
	}
	if len(args) > 0 && args[0] == "convert" {
		helperConvert()
		return
	}
	fatal("no helper %v", args)
}
