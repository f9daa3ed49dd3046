// Code generated by tools/genshim; DO NOT EDIT.

package sioutil

import ioutil "io/ioutil"

var Discard = ioutil.Discard
var NopCloser = ioutil.NopCloser
var ReadAll = ioutil.ReadAll
