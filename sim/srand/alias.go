// Code generated by tools/genshim; DO NOT EDIT.

package srand

import rand "math/rand"

var New = rand.New
var NewSource = rand.NewSource
var NewZipf = rand.NewZipf

type Rand = rand.Rand
type Source = rand.Source
type Source64 = rand.Source64
type Zipf = rand.Zipf
