package main

import (
	"fmt"
	"os"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func check(ok bool, a ...interface{}) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func main() {
	_ = jsonvalue.NewNull

	v := jsonvalue.MustUnmarshalString(`{"a":{"b":{"c":{"d":{"x":1,"y":2},"e":{"x":1,"y":2}}}}}`)
	var kept []jsonvalue.KeyPath
	var texts []string
	v.MustMarshalString(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
		if p != nil {
			kept = append(kept, p.KeyPath)
			texts = append(texts, p.KeyPath.String())
		}
		return k1 < k2
	}))
	for i, p := range kept {
		check(p.String() == texts[i], p.String(), texts[i])
	}
}
