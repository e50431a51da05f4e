// Code generated by gendrop from math/rand; DO NOT EDIT.

package simrand

import "math/rand"

var New = rand.New
var NewSource = rand.NewSource
var NewZipf = rand.NewZipf

type Rand = rand.Rand
type Source = rand.Source
type Source64 = rand.Source64
type Zipf = rand.Zipf
