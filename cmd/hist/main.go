// hist runs one history of public calls in a fresh process. It reads a request
// (a table of calls, an order to make them in and, possibly, what each is
// expected to return), makes the calls, scribbles over everything each one
// handed out, and reports what each returned or the first that differs.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"

	"github.com/nyaruka/phonenumbers/v2/verif/ops"
)

type request struct {
	Calls  [][][]byte
	Order  string // "list", "pairs", "reverse", "strides"
	Expect [][]byte
}

type reply struct {
	Out   [][]byte // list without expectations
	Bad   int      // position in the history of the first difference, or -1
	Call  int      // which call it was
	Got   []byte
	Steps int
	Prev  []int // the calls before it, most recent last
}

func call(c [][]byte) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprint("panic: ", r)
		}
	}()
	a := make([]string, len(c)-1)
	for i := range a {
		a[i] = string(c[i+1])
	}
	o, scribble, _, err := ops.Call(string(c[0]), a)
	if err != nil {
		o = "argument changed: " + err.Error()
	}
	scribble()
	return o
}

func main() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	var r request
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	rep := reply{Bad: -1}
	step := func(i int) bool {
		got := call(r.Calls[i])
		rep.Steps++
		if r.Expect == nil {
			rep.Out = append(rep.Out, []byte(got))
			return true
		}
		if got != string(r.Expect[i]) {
			rep.Bad, rep.Call, rep.Got = rep.Steps-1, i, []byte(got)
			return false
		}
		rep.Prev = append(rep.Prev, i)
		if len(rep.Prev) > 4000 {
			rep.Prev = append([]int{}, rep.Prev[2000:]...)
		}
		return true
	}
	n := len(r.Calls)
	switch r.Order {
	case "list":
		for i := 0; i < n && step(i); i++ {
		}
	case "reverse":
		for i := n - 1; i >= 0 && step(i); i-- {
		}
	case "pairs":
	loop:
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if !step(i) || !step(j) {
					break loop
				}
			}
		}
	case "strides":
	loop2:
		for _, k := range []int{7, 101, 977, 1409} {
			for i := 0; i < n; i++ {
				if !step(i * k % n) {
					break loop2
				}
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}
