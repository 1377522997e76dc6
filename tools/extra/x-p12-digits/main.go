package main

import (
	"fmt"
	"os"
	"strings"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func check(ok bool, a ...interface{}) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func main() {
	_ = jsonvalue.NewNull

	a := jsonvalue.MustUnmarshalString("1." + strings.Repeat("3", 40000))
	b := jsonvalue.MustUnmarshalString("0.5")
	check(a.GreaterThan(b))
}
