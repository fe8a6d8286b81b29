//go:build builders

package main

import (
	"fmt"

	"github.com/deNULL/dawg"
)

// receiver builds, by means of the exported builder types, into objects which
// keep receiving the results of a whole history.
type receiver struct {
	dict  *dawg.Dictionary
	guide *dawg.Guide
	index *dawg.Index
	byD   map[*dawg.Dawg]*dawg.DictionaryBuilder
	gbs   map[*dawg.Dawg]*dawg.GuideBuilder
	ib    *dawg.IndexBuilder
}

func newReceiver() *receiver {
	r := &receiver{
		dict:  dawg.NewDictionary(),
		guide: dawg.NewGuide(),
		index: dawg.NewIndex(),
		byD:   map[*dawg.Dawg]*dawg.DictionaryBuilder{},
		gbs:   map[*dawg.Dawg]*dawg.GuideBuilder{},
	}
	r.ib = dawg.NewIndexBuilder(r.dict, r.guide, r.index)
	return r
}

// build rebuilds everything from an automaton, with the builders made for the
// automaton earlier, and compares.
func (r *receiver) build(d *dawg.Dawg, want *images) error {
	if r.byD[d] == nil {
		r.byD[d] = dawg.NewDictionaryBuilder(d, r.dict)
		r.gbs[d] = dawg.NewGuideBuilder(d, r.dict, r.guide)
	}
	if !r.byD[d].BuildDictionary() || !r.gbs[d].Build() || !r.ib.Build() {
		return fmt.Errorf("building failed")
	}
	var err error
	got := &images{ranked: want.ranked, rindex: want.rindex}
	if got.dict, err = dictImage(r.dict); err != nil {
		return err
	}
	if got.guide, err = guideImage(r.guide); err != nil {
		return err
	}
	if got.index, err = indexImage(r.index); err != nil {
		return err
	}
	return got.diff(want)
}
