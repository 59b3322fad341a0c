package main

import (
	"aaa.vmon/coremon"
	"aaa.vmon/mon"
)

func main() { mon.Main(coremon.All, raceBuild) }
