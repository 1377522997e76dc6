package main

import (
	"fmt"
	"os"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func check(ok bool, a ...interface{}) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func main() {
	_ = jsonvalue.NewNull

	v := jsonvalue.NewArray()
	for i := 0; i < 300; i++ {
		v.MustAppend(map[string]int{"a": i, "b": i}).InTheEnd()
	}
	v.MustMarshalString(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
		check(p.KeyPath[0].Int() == v1.Int(), p.KeyPath.String(), v1)
		return k1 < k2
	}))
}
