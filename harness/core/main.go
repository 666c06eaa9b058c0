//go:build go1.22

package main

import "github.com/chanjarster/gears/zverif/lib"

func main() { lib.Main() }
