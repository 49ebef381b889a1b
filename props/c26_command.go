package props

import (
	"bytes"
	"fmt"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/nyaruka/phonenumbers/v2/verif/explore"
)

var phoneparser string

// commandOracle runs the phoneparser program on its arguments and compares all
// it shows with the model. args: the program's arguments.
func commandOracle(a []string) error {
	var out, errs bytes.Buffer
	var err error
	for try := 0; try < 5; try++ {
		out.Reset()
		errs.Reset()
		cmd := exec.Command(phoneparser, a...)
		cmd.Stdout, cmd.Stderr = &out, &errs
		err = cmd.Run()
		if _, ran := err.(*exec.ExitError); ran || err == nil {
			break
		}
		time.Sleep(time.Second) // the system is out of processes
	}
	code := 0
	if e, ok := err.(*exec.ExitError); ok {
		code = e.ExitCode()
	} else if err != nil {
		return err
	}
	if errs.Len() > 0 {
		return diff("what the program wrote to standard error", clipText(errs.String()), "")
	}
	got := out.String()
	if len(a) != 2 {
		if code != 1 || !strings.HasPrefix(got, "usage: phoneparser ") || strings.Count(got, "\n") != 1 {
			return diff("usage", fmt.Sprint(code, " ", got), "1 usage: phoneparser ...")
		}
		return nil
	}
	n, perr := w.Parse(a[0], a[1], false)
	want, wantCode := "", 0
	if perr != nil {
		wantCode = 1
		for _, e := range errorsOf {
			if e.model == perr {
				want = "Error parsing number: " + (*e.impl).Error() + "\n"
			}
		}
	} else {
		want = "            E164: " + w.Format(n, 0) + "\n" +
			"National Dialing: " + w.Format(n, 2) + "\n" +
			"        National: " + strconv.FormatUint(n.NN, 10) + "\n" +
			"         IsValid: " + strconv.FormatBool(w.Valid(n)) + "\n"
	}
	if got != want {
		return diff("what the program printed", got, want)
	}
	if code != wantCode {
		return diff("exit code", code, wantCode)
	}
	return nil
}

func clipText(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func init() {
	explore.Register(&explore.Property{
		ID:          "C26",
		Rule:        "the built phoneparser program, run on: argument lists of every length 0 to 4 over a small alphabet; for every calling code a behaviour class of its plan each, internationally and nationally written; regions of all kinds; words over sharp tokens; numbers that do not parse",
		Oracles:     map[string]explore.Oracle{"command": commandOracle},
		Assumptions: []string{"an argument holds no NUL, which no operating system passes"},
		Init: func() {
			initSpaces()
			phoneparser, _ = filepath.Abs(".build/phoneparser")
		},
		Explore: func(c *explore.Ctx) {
			small := []string{"6502530000", "US", "", "-h"}
			c.Seq("argument lists", func(k *explore.Worker) {
				k.Do("command")
				n := 4
				var rec func(a []string)
				rec = func(a []string) {
					if len(a) > 0 {
						k.Do("command", a...)
					}
					if len(a) == n {
						return
					}
					for _, s := range small {
						rec(append(a[:len(a):len(a)], s))
					}
				}
				rec(nil)
			})
			per := 3
			if c.Thorough {
				per = 60
			}
			c.Par("plans", len(spaces), func(k *explore.Worker, u int) {
				s := spaces[u]
				regs := regionsFor(s.cc)
				reps := append(append([]string{}, s.reps...), s.nsns...)
				for i, nsn := range reps {
					if i >= per {
						break
					}
					k.Do("command", "+"+strconv.Itoa(s.cc)+nsn, "")
					for j, r := range regs {
						if j > 1 && !c.Thorough {
							break
						}
						p := w.Region(r)
						k.Do("command", nsn, r)
						if p != nil && p.NP != "" {
							k.Do("command", p.NP+nsn+" x12", strings.ToLower(r))
							k.Do("command", p.NP+nsn, r)
						}
					}
				}
			})
			regs := append(append([]string{}, w.RegionList()...), "ZZ", "001", "", "us", "U", "USA", "\u00e9", "\xff", "-", " US")
			c.Par("regions", len(regs), func(k *explore.Worker, u int) {
				for _, t := range []string{"6502530000", "+390236618300", "02 3661 8300", "00442070313000", "1-800-FLOWERS", "tel:7031;phone-context=+44", "12"} {
					k.Do("command", t, regs[u])
				}
			})
			toks := []string{"+", "0", "1", "44", "2070313000", "x5", " ", "a", "(", "%d", "\uFF11", "\xff", "\n"}
			n := 2
			if c.Thorough {
				n = 3
			}
			c.Par("words", len(toks), func(k *explore.Worker, u int) {
				words(toks, n, func(s string) bool {
					return k.Do("command", toks[u]+s, "GB") && k.Do("command", toks[u]+s, "US")
				})
			})
			c.Seq("lengths", func(k *explore.Worker) {
				for _, n := range []int{1, 2, 3, 16, 17, 18, 19, 249, 250, 251, 1000, 50000} {
					for _, d := range []string{"0", "1", "9", "\u0663", "-", "+"} {
						k.Do("command", strings.Repeat(d, n), "US")
						k.Do("command", "+39"+strings.Repeat(d, n), "ZZ")
					}
				}
			})
		},
	})
}
