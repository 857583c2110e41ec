package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) > 2 {
		switch os.Args[1] {
		case "unit":
			unitMain(os.Args[2:])
			return
		case "check":
			os.Exit(checkMain(os.Args[2]))
		case "debug-keys":
			P, _ := loadProgram(repoDir)
			pk := P.proto
			if os.Args[2] == "extra" {
				pk = P.extra
			}
			for _, e := range P.registry(pk, "entityMapper") {
				fmt.Printf("%04x\n", e.key)
			}
			return
		case "debug-np":
			P, err := loadProgram(repoDir)
			if err != nil {
				fmt.Fprintln(os.Stderr, "load:", err)
				os.Exit(2)
			}
			debugNP(P, os.Args[2:])
			return
		case "debug-fn":
			P, err := loadProgram(repoDir)
			if err != nil {
				fmt.Fprintln(os.Stderr, "load:", err)
				os.Exit(2)
			}
			debugFn(P, os.Args[2:])
			return
		case "debug-rt":
			P, err := loadProgram(repoDir)
			if err != nil {
				fmt.Fprintln(os.Stderr, "load:", err)
				os.Exit(2)
			}
			debugRT(P, os.Args[2:])
			return
		}
	}
	fmt.Fprintln(os.Stderr, "usage: gsa check <property>")
	os.Exit(2)
}
