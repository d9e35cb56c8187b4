package main

import (
	"fmt"

	"github.com/renthraysk/xtorm/types"
)

func init() { commands["decimal"] = decimalMain }

func plainInts(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func replayDecimal(ev []obj) []obj {
	var log []obj
	for _, e := range ev {
		d := types.Decimal(untokens(e["d"]))
		keep := string(d)
		buf := filler(num(e["cap"]) + num(e["len"]))[:num(e["len"])]
		c := clone(e)
		var (
			text string
			form byte
			neg  bool
			coef []byte
			exp  int32
		)
		pan, what := guard(func() {
			text = d.String()
			form, neg, coef, exp = d.Decompose(buf)
		})
		if pan {
			c["panic"] = fmt.Sprint(what)
		}
		c["pan"] = pan || string(d) != keep
		c["text"] = plainInts([]byte(text))
		c["form"] = int(form)
		c["neg"] = neg
		c["coef"] = plainInts(coef)
		c["exp"] = int(exp)
		log = append(log, c)
	}
	return log
}

func decimalMain(args []string) error {
	return replayAll(args, func(p program) []obj { return replayDecimal(p.Ev) })
}
