package main

import "p/foo"

func main() { foo.ZZMain() }
