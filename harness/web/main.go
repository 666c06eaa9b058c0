//go:build go1.22

// The checks of the packages that do I/O but have no threads of their own: enumerations of inputs, configurations and
// faults on the code as it is.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/chanjarster/gears/zverif/lib"
)

// programs are what a case can run in a process of its own, with genuine arguments, environment and exit status.
var programs = map[string]func(arg string){}

func main() {
	if p := os.Getenv("ZVERIF_PROGRAM"); p != "" {
		name, arg, _ := strings.Cut(p, " ")
		programs[name](arg)
		os.Exit(0)
	}
	lib.Main()
}

// runProgram runs a program and returns its exit status and standard output.
func runProgram(name, arg string, args, env []string) (code int, out string) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, args...)
	cmd.Env = append([]string{"ZVERIF_PROGRAM=" + name + " " + arg, "GOMAXPROCS=1"}, env...)
	var b strings.Builder
	cmd.Stdout = &b
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	defer t.Stop()
	cmd.Wait()
	return cmd.ProcessState.ExitCode(), b.String()
}

func diff(what string, got, want any) string {
	if fmt.Sprint(got) == fmt.Sprint(want) {
		return ""
	}
	return fmt.Sprintf("%s is %q, expected %q", what, fmt.Sprint(got), fmt.Sprint(want))
}
