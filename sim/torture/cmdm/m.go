package main

import "torture/tort"

func main() {
	for _, s := range tort.All() {
		println(s)
	}
}
