// Command live checks the properties that are decided on live sessions against a scripted publisher.
package main

import (
	"strconv"

	"verif/harness/vf"
)

func itoa(i int) string { return strconv.Itoa(i) }

func main() {
	vf.Main(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c28, c32, c33, c34, c35, c37, c38)
}
