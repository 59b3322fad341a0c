package main

import (
	"aaa.vmon/mon"
	"aaa.vmon/roundmon"
)

func main() { mon.Main(roundmon.All, raceBuild) }
