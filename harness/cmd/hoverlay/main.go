// Command hoverlay monitors the overlay file system.
package main

import "verif/harness/rt"

func main() { rt.Main(o01, o02, o03, o04, o05, o06, o07) }
