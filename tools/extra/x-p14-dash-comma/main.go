package main

import (
	"fmt"
	"os"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func check(ok bool, a ...interface{}) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func main() {
	_ = jsonvalue.NewNull

	type T struct {
		A int `json:"-,"`
	}
	s := jsonvalue.New(T{1}).MustMarshalString()
	check(s == `{"-":1}`, s)
}
