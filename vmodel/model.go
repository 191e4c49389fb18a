// Package vmodel holds models of library functions that have no Go body or
// whose body is outside the encoded fragment. A directive names the function
// each one stands for.
package vmodel

import (
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/go-ego/riot/zzverif/vsym"
)

//vsym:replace internal/bytealg.IndexByteString
func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//vsym:replace internal/bytealg.IndexByte
func IndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

//vsym:replace internal/bytealg.LastIndexByteString
func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

//vsym:replace internal/bytealg.CountString
func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

//vsym:replace internal/bytealg.Count
func Count(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}

//vsym:replace internal/bytealg.IndexString
func IndexString(s, sub string) int { return Index(s, sub) }

//vsym:replace strings.Index
func Index(s, sub string) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

//vsym:replace strings.IndexByte
func SIndexByte(s string, c byte) int { return IndexByteString(s, c) }

//vsym:replace bytes.Equal
func BytesEqual(a, b []byte) bool { return string(a) == string(b) }

//vsym:replace internal/bytealg.Equal
func BEqual(a, b []byte) bool { return string(a) == string(b) }

//vsym:replace internal/bytealg.Compare
func BCompare(a, b []byte) int { return CompareString(string(a), string(b)) }

//vsym:replace bytes.Compare
func BytesCompare(a, b []byte) int { return CompareString(string(a), string(b)) }

//vsym:replace internal/bytealg.CompareString
func CompareString(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

//vsym:replace strings.Compare
func StringsCompare(a, b string) int { return CompareString(a, b) }

//vsym:replace sort.Slice
func SortSlice(x interface{}, less func(i, j int) bool) { vsym.SortSlice(x, less) }

//vsym:replace sort.SliceStable
func SortSliceStable(x interface{}, less func(i, j int) bool) { vsym.SortSlice(x, less) }

//vsym:replace sort.SliceIsSorted
func SliceIsSorted(x interface{}, less func(i, j int) bool) bool { return vsym.SliceIsSorted(x, less) }

// words puts the texts of errors and the like in their place.
func words(a []interface{}) []interface{} {
	var out []interface{}
	for i, x := range a {
		var s string
		switch x := x.(type) {
		case error:
			s = word(x.Error)
		case fmt.Stringer:
			s = word(x.String)
		default:
			continue
		}
		if out == nil {
			out = append(out, a...)
		}
		out[i] = s
	}
	if out == nil {
		return a
	}
	return out
}

func word(f func() string) (s string) {
	defer func() {
		if recover() != nil {
			s = "<nil>"
		}
	}()
	return f()
}

//vsym:replace fmt.Sprintf
func Sprintf(format string, a ...interface{}) string { return vsym.Sprintf(format, words(a)...) }

//vsym:replace fmt.Sprint
func Sprint(a ...interface{}) string { return vsym.Sprint(words(a)...) }

//vsym:replace fmt.Sprintln
func Sprintln(a ...interface{}) string { return vsym.Sprintln(words(a)...) }

func write(w io.Writer, s string) (int, error) {
	if _, ok := w.(*os.File); ok {
		return len(s), nil // standard output and the like
	}
	return io.WriteString(w, s)
}

//vsym:replace fmt.Fprintf
func Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return write(w, Sprintf(format, a...))
}

//vsym:replace fmt.Fprint
func Fprint(w io.Writer, a ...interface{}) (int, error) { return write(w, Sprint(a...)) }

//vsym:replace fmt.Fprintln
func Fprintln(w io.Writer, a ...interface{}) (int, error) { return write(w, Sprintln(a...)) }

type wrapped struct {
	msg string
	err error
}

func (w *wrapped) Error() string { return w.msg }
func (w *wrapped) Unwrap() error { return w.err }

//vsym:replace fmt.Errorf
func Errorf(format string, a ...interface{}) error {
	verb := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		switch format[i] {
		case '%':
			continue
		case 'w':
			f := format[:i] + "v" + format[i+1:]
			if verb < len(a) {
				if err, ok := a[verb].(error); ok {
					return &wrapped{Sprintf(f, a...), err}
				}
			}
			format = f
		}
		verb++
	}
	return errors.New(Sprintf(format, a...))
}

//vsym:replace errors.Is
func Is(err, target error) bool {
	for {
		if err == target {
			return true
		}
		if err == nil {
			return false
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		x, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = x.Unwrap()
	}
}

//vsym:replace errors.As
func As(err error, target interface{}) bool {
	for err != nil {
		if vsym.AsTarget(err, target) {
			return true
		}
		x, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = x.Unwrap()
	}
	return false
}

//vsym:replace strings.Clone
func Clone(s string) string { return s }

var env = map[string]string{}

//vsym:replace os.Getenv
func Getenv(k string) string { return env[k] }

//vsym:replace os.LookupEnv
func LookupEnv(k string) (string, bool) {
	v, ok := env[k]
	return v, ok
}

//vsym:replace os.Setenv
func Setenv(k, v string) error {
	env[k] = v
	return nil
}

//vsym:replace os.Unsetenv
func Unsetenv(k string) error {
	delete(env, k)
	return nil
}
