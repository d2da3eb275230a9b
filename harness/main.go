// Command harness replays one model against the real code.
package main

import (
	"fmt"
	"os"

	"verif/harness/h"
	"verif/harness/nd"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: harness MODEL FUNC [repeat]")
		os.Exit(2)
	}
	if err := nd.Load(os.Args[1]); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	f := h.Funcs[os.Args[2]]
	if f == nil {
		fmt.Println("no such harness:", os.Args[2])
		os.Exit(2)
	}
	n := 1
	if len(os.Args) > 3 {
		fmt.Sscan(os.Args[3], &n)
	}
	for i := 0; i < n; i++ {
		nd.Reset()
		err := nd.Run(f)
		if err != nil {
			fmt.Println("PANIC", err)
			os.Exit(3)
		}
		if nd.Skipped {
			fmt.Println("SKIPPED")
			os.Exit(4)
		}
		if len(nd.Failed) > 0 {
			os.Exit(1)
		}
	}
	fmt.Println("OK")
}
