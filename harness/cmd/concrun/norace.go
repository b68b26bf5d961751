//go:build !race

package main

func races() int { return 0 }
