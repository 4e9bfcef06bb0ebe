//go:build go1.22

package main
