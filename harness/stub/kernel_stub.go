package main

// Stands in for kernel.go when the internal packages no longer fit it.
func (g *gen) kcase() *Case { return &Case{Op: "karith"} }

func kernel(k *Case) []Fail { return nil }
