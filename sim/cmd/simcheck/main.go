package main

import "verifsim/h"

func main() { h.Main() }
