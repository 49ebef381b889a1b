// concbuild builds the driver that makes concurrent calls under a controlled
// scheduler: concbuild DIR writes DIR/conc.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"

	"github.com/nyaruka/phonenumbers/v2/verif/conc"
)

// plain packages publish nothing that other packages wrote, so leaving the race
// detector out of them changes no verdict and saves half of a process's start.
var plain = []string{"compress/flate", "hash/crc32", "strconv", "unicode/utf8", "bufio", "bytes", "regexp/syntax"}

func main() {
	dir := os.Args[1]
	ov, err := conc.WriteOverlay("/repo", filepath.Join(dir, "overlay"))
	build := func(args ...string) error {
		args = append(append([]string{"build", "-race", "-o", filepath.Join(dir, "conc")}, args...), "./cmd/conc")
		for _, p := range plain {
			args = append(args[:1:1], append([]string{"-gcflags=" + p + "=-race=false"}, args[1:]...)...)
		}
		cmd := exec.Command("go", args...)
		cmd.Stderr = os.Stderr
		return cmd.Run()
	}
	if err == nil {
		err = build("-tags", "verifconc", "-overlay", ov)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "concbuild: no controlled scheduler:", err)
		err = build()
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "concbuild:", err)
		os.Exit(1)
	}
}
