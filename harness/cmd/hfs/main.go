// Command hfs monitors fsutil, tarfs and vroot.
package main

import "verif/harness/rt"

func main() {
	rt.Main(t01, t02, t03, u01, u02, u03, u04, u05, u06, u07, v02, v05, v08, v03, v04, v06, v07, v09, v10, v11)
}
