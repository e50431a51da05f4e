// Package simlog stands in for log.
package simlog

import (
	"fmt"
	"log"

	"verif.local/ds/simfmt"
)

func Print(a ...any)            { simfmt.Print(a...) }
func Printf(f string, a ...any) { simfmt.Printf(f, a...) }
func Println(a ...any)          { simfmt.Println(a...) }
func Fatal(a ...any)            { panic("log.Fatal: " + fmt.Sprint(a...)) }
func Fatalf(f string, a ...any) { panic("log.Fatal: " + fmt.Sprintf(f, a...)) }
func Fatalln(a ...any)          { panic("log.Fatal: " + fmt.Sprintln(a...)) }
func Default() *log.Logger      { return log.New(simfmt.Sink, "", 0) }
