//go:build !race
// +build !race

package main

func races() int { return 0 }
