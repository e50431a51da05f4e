// Code generated by gendrop from log; DO NOT EDIT.

package simlog

import "log"

var Flags = log.Flags

const LUTC = log.LUTC
const Ldate = log.Ldate
const Llongfile = log.Llongfile
const Lmicroseconds = log.Lmicroseconds
const Lmsgprefix = log.Lmsgprefix

type Logger = log.Logger

const Lshortfile = log.Lshortfile
const LstdFlags = log.LstdFlags
const Ltime = log.Ltime

var New = log.New
var Output = log.Output
var Panic = log.Panic
var Panicf = log.Panicf
var Panicln = log.Panicln
var Prefix = log.Prefix
var SetFlags = log.SetFlags
var SetOutput = log.SetOutput
var SetPrefix = log.SetPrefix
var Writer = log.Writer
