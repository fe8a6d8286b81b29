//go:build !builders

package main

import "github.com/deNULL/dawg"

// Used where the exported builder types are not there any more.
type receiver struct{}

func newReceiver() *receiver { return nil }

func (r *receiver) build(*dawg.Dawg, *images) error { return nil }
