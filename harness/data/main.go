// Command data checks tables, expressions and selections of the data package.
package main

import "verif/harness/vf"

func main() {
	vf.Main(c18, c19, c20, c21, c22, c31, c36)
}
