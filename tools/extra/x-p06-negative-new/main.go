package main

import (
	"fmt"
	"os"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func check(ok bool, a ...interface{}) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func main() {
	_ = jsonvalue.NewNull

	v := jsonvalue.MustUnmarshalString(`[1,2]`)
	_, err := v.Set(1).At(-3, "a")
	check(err != nil && v.Len() == 2, v.MustMarshalString())
}
