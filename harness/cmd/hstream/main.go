// Command hstream monitors the stream module.
package main

import "verif/harness/rt"

func main() {
	rt.Main(s01, s02, s03, s04, h01, h02, h03, f01)
}
