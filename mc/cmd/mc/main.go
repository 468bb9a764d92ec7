package main

import (
	"xcoremc/fw"
	_ "xcoremc/h"
)

func main() { fw.Main() }
