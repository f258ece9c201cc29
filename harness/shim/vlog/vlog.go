// Package vlog formats what the code logs and hands it to the record; fatal messages end the calling goroutine.
package vlog

import (
	"fmt"
	"io"

	"verif.local/harness/shim/vrt"
)

func Print(a ...interface{})            { vrt.SimPrint(fmt.Sprint(a...)) }
func Println(a ...interface{})          { vrt.SimPrint(fmt.Sprintln(a...)) }
func Printf(f string, a ...interface{}) { vrt.SimPrint(fmt.Sprintf(f, a...)) }

func Fatal(a ...interface{})   { Print(a...); panic(vrt.SimExit{Code: 1}) }
func Fatalln(a ...interface{}) { Fatal(a...) }
func Fatalf(f string, a ...interface{}) {
	Printf(f, a...)
	panic(vrt.SimExit{Code: 1})
}

func Panic(a ...interface{})            { panic(fmt.Sprint(a...)) }
func Panicln(a ...interface{})          { panic(fmt.Sprintln(a...)) }
func Panicf(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }

func SetOutput(io.Writer) {}
func SetFlags(int)        {}
func SetPrefix(string)    {}
func Flags() int          { return 0 }
func Prefix() string      { return "" }
func Writer() io.Writer   { return io.Discard }

func Output(depth int, s string) error {
	Print(s)
	return nil
}

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

// Logger logs like the package.
type Logger struct{ prefix string }

func New(w io.Writer, prefix string, flags int) *Logger { return &Logger{prefix} }
func Default() *Logger                                  { return &Logger{} }

func (l *Logger) Print(a ...interface{})            { Print(l.prefix + fmt.Sprint(a...)) }
func (l *Logger) Println(a ...interface{})          { Print(l.prefix + fmt.Sprintln(a...)) }
func (l *Logger) Printf(f string, a ...interface{}) { Print(l.prefix + fmt.Sprintf(f, a...)) }
func (l *Logger) Fatal(a ...interface{})            { Fatal(l.prefix + fmt.Sprint(a...)) }
func (l *Logger) Fatalln(a ...interface{})          { Fatal(l.prefix + fmt.Sprintln(a...)) }
func (l *Logger) Fatalf(f string, a ...interface{}) { Fatal(l.prefix + fmt.Sprintf(f, a...)) }
func (l *Logger) Panic(a ...interface{})            { Panic(l.prefix + fmt.Sprint(a...)) }
func (l *Logger) Panicln(a ...interface{})          { Panic(l.prefix + fmt.Sprintln(a...)) }
func (l *Logger) Panicf(f string, a ...interface{}) { Panic(l.prefix + fmt.Sprintf(f, a...)) }
func (l *Logger) SetOutput(io.Writer)               {}
func (l *Logger) SetFlags(int)                      {}
func (l *Logger) SetPrefix(p string)                { l.prefix = p }
func (l *Logger) Output(d int, s string) error      { return Output(d, l.prefix+s) }
