// Command hot holds the harness for package opentracing.
package main

import "verif/kit"

func main() { kit.Main() }
