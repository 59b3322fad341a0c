package main

import (
	"aaa.vmon/fullmon"
	"aaa.vmon/mon"
)

func main() { mon.Main(fullmon.All, raceBuild) }
