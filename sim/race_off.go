//go:build !race

package main

func hb() {}

func atEnd() {}

func ended() {}
