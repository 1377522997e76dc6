package main

import (
	"fmt"
	"os"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func check(ok bool, a ...interface{}) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func main() {
	_ = jsonvalue.NewNull

	_, err := jsonvalue.Unmarshal([]byte("\"\xed\xa0\x80\""))
	check(err != nil)
}
