package main

import "verif/harness/rt"

func main() { rt.Main(p01) }
