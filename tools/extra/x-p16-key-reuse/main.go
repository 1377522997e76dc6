package main

import (
	"fmt"
	"os"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func check(ok bool, a ...interface{}) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func main() {
	_ = jsonvalue.NewNull

	v := jsonvalue.MustUnmarshalString(`[{"a":1,"b":2},{"c":1,"d":2}]`)
	var kept []jsonvalue.KeyPath
	var text []string
	v.MustMarshal(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
		kept = append(kept, p.KeyPath)
		text = append(text, p.KeyPath.String())
		return k1 < k2
	}))
	for i := range kept {
		check(kept[i].String() == text[i])
	}
}
