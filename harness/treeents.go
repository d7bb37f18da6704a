package main

import (
	"github.com/henderiw/idxtable/pkg/tree"
	"k8s.io/apimachinery/pkg/labels"
)

type entryI struct {
	id     uint64
	l      int
	labels labels.Set
}

func entries(es tree.Entries) (out []entryI) {
	for _, e := range es {
		out = append(out, entryI{e.ID().ID(), int(e.ID().Length()), e.Labels()})
	}
	return
}
