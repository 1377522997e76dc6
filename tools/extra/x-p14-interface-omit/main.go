package main

import (
	"fmt"
	"os"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func check(ok bool, a ...interface{}) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func main() {
	_ = jsonvalue.NewNull

	type T struct {
		A interface{} `json:"a,omitempty"`
	}
	s := jsonvalue.New(T{0}).MustMarshalString()
	check(s == `{"a":0}`, s)
}
