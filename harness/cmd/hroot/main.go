// Command hroot monitors confinement across all rooted file systems.
package main

import "verif/harness/rt"

func main() { rt.Main(v01) }
