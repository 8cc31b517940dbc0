package main

import (
	"flag"
	"fmt"
	"os"
)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	prop := flag.String("prop", "", "property to decide")
	tier := flag.String("tier", "quick", "quick or thorough")
	dump := flag.String("dump", "", "print the abstract outcomes of pkg:Function")
	flag.Parse()
	if *dump != "" {
		p, err := load(*repo, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		debugDump(p, *dump, flag.Args())
		return
	}
	os.Exit(runProperty(*repo, *prop, *tier))
}
