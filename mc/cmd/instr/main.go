// Command instr writes the instrumented copy of the parser.
package main

import (
	"fmt"
	"os"

	"verif/mc/instr"
)

func main() {
	name, st, err := instr.Write(os.Args[1], "github.com/shellyln/go-open-soql-parser/soql/parser", os.Args[2], "verif/", false)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("%s %+v\n", name, st)
}
