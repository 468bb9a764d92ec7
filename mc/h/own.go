package h

import (
	x1 "github.com/webability-go/xcore"
	x2 "github.com/webability-go/xcore/v2"
)

// Datasets and collections of kinds the library does not know: programs may write their own.

type ownDS2 struct{ *x2.XDataset }

func (d *ownDS2) Clone() x2.XDatasetDef { return &ownDS2{d.XDataset.Clone().(*x2.XDataset)} }

type ownCol2 struct{ *x2.XDatasetCollection }

func (d *ownCol2) Clone() x2.XDatasetCollectionDef {
	return &ownCol2{d.XDatasetCollection.Clone().(*x2.XDatasetCollection)}
}

type ownDS1 struct{ *x1.XDataset }

func (d *ownDS1) Clone() x1.XDatasetDef { return &ownDS1{d.XDataset.Clone().(*x1.XDataset)} }

type ownCol1 struct{ *x1.XDatasetCollection }

func (d *ownCol1) Clone() x1.XDatasetCollectionDef {
	return &ownCol1{d.XDatasetCollection.Clone().(*x1.XDatasetCollection)}
}

// ownImpl: own, plain and thread-safe kinds in turn.
func ownImpl() func() int { n := 1; return func() int { n++; return n % 3 } }
