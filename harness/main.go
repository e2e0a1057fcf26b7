// Command vharness runs harnesses natively on recorded inputs.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"vharness/props"
	"vharness/vsym"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "replay" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var f struct {
			Violation vsym.Case `json:"violation"`
		}
		json.Unmarshal(b, &f)
		r := run(&f.Violation)
		o, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(o))
		if len(r.Failed) > 0 || r.Panic != "" {
			os.Exit(1)
		}
		return
	}
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		l, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		var c vsym.Case
		if err := json.Unmarshal(l, &c); err != nil {
			fmt.Println(`{"err":"bad case"}`)
			continue
		}
		o, _ := json.Marshal(run(&c))
		fmt.Println(string(o))
	}
}

func run(c *vsym.Case) *vsym.Result {
	f := props.Registry[c.Harness]
	if f == nil {
		return &vsym.Result{Err: "no harness " + c.Harness}
	}
	return vsym.Run(c, f)
}
