package main

import (
	"fmt"
	"os"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func check(ok bool, a ...interface{}) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func main() {
	_ = jsonvalue.NewNull

	v, err := jsonvalue.Import(map[string]*int{"a": nil})
	check(err == nil, err)
	check(v.MustMarshalString() == `{"a":null}`, v.MustMarshalString())
}
