// Code generated by tools/genshim; DO NOT EDIT.

package srandv2

import rand "math/rand/v2"

type ChaCha8 = rand.ChaCha8

var New = rand.New
var NewChaCha8 = rand.NewChaCha8
var NewPCG = rand.NewPCG
var NewZipf = rand.NewZipf

type PCG = rand.PCG
type Rand = rand.Rand
type Source = rand.Source
type Zipf = rand.Zipf
