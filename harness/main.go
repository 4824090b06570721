// Command vh runs the generated checks of /verif against the tree in /repo.
package main

import (
	"verif/harness/kit"
	_ "verif/harness/props"
)

func main() { kit.Main() }
