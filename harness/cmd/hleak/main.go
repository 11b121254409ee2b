package main

import "verif/harness/rt"

func main() { rt.Main(r01) }
