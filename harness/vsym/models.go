package vsym

import (
	"io"
	"sync"
)

// Go-source models of library functions that the executor does not interpret
// from their own source (reflection, assembly). They are only executed
// symbolically.

type runtimeError string

func (e runtimeError) Error() string { return string(e) }
func (e runtimeError) RuntimeError() {}

func kindOf(v any) int              { panic("symbolic only") }
func intOf(v any) uint64            { panic("symbolic only") }
func boolOf(v any) bool             { panic("symbolic only") }
func strOf(v any) string            { panic("symbolic only") }
func isBytes(v any) bool            { panic("symbolic only") }
func typeName(v any) string         { panic("symbolic only") }
func comparable_(v any) bool        { panic("symbolic only") }
func asTarget(err, target any) bool { panic("symbolic only") }
func fmtInt(v uint64, base int, signed bool) string {
	panic("symbolic only")
}

func errorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	cmp := comparable_(target)
	for {
		if cmp && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func errorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	for {
		if asTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && errorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	msg  string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.msg }
func (e *wrapErrors) Unwrap() []error { return e.errs }

type plainError struct{ msg string }

func (e *plainError) Error() string { return e.msg }

func errorf(format string, args ...any) error {
	msg := sprintf(format, args...)
	var ws []error
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '#' || format[i] == '+' || format[i] == '0' || format[i] == '-' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(args) {
			if e, ok := args[n].(error); ok {
				ws = append(ws, e)
			}
		}
		n++
	}
	switch len(ws) {
	case 0:
		return &plainError{msg}
	case 1:
		return &wrapError{msg, ws[0]}
	}
	return &wrapErrors{msg, ws}
}

func hexBytes(s string) string {
	const d = "0123456789abcdef"
	r := make([]byte, 0, 2*len(s))
	for i := 0; i < len(s); i++ {
		r = append(r, d[s[i]>>4], d[s[i]&15])
	}
	return string(r)
}

func anyIndex(v any, i int) any        { panic("symbolic only") }
func anyFields(v any) int              { panic("symbolic only") }
func anyField(v any, i int) any        { panic("symbolic only") }
func anyFieldName(v any, i int) string { panic("symbolic only") }
func anyDeref(v any) any               { panic("symbolic only") }

type fmtFlags struct {
	sharp, plus, minus, zero, space, hasW, hasP bool
	w, p                                        int
}

func fmtBase(v uint64, base uint64, digits string) string {
	if v == 0 {
		return "0"
	}
	var r [64]byte
	i := len(r)
	for v > 0 {
		i--
		r[i] = digits[v%base]
		v /= base
	}
	return string(r[i:])
}

func upper(s string) string {
	r := []byte(s)
	for i, c := range r {
		if 'a' <= c && c <= 'z' {
			r[i] = c - 32
		}
	}
	return string(r)
}

// fmtNum formats an integer as package fmt does.
func fmtNum(v any, signed bool, verb byte, f fmtFlags) string {
	u := intOf(v)
	neg := signed && int64(u) < 0
	if neg {
		u = -u
	}
	var d string
	switch verb {
	case 'x', 'X':
		d = fmtInt(u, 16, false)
		if verb == 'X' {
			d = upper(d)
		}
	case 'b':
		d = fmtBase(u, 2, "01")
	case 'o':
		d = fmtBase(u, 8, "01234567")
	case 'c':
		return string(rune(u))
	case 'q':
		return "'" + string(rune(u)) + "'"
	default:
		d = fmtInt(u, 10, false)
	}
	if f.hasP {
		for len(d) < f.p {
			d = "0" + d
		}
	}
	sign := ""
	switch {
	case neg:
		sign = "-"
	case f.plus && verb != 'v':
		sign = "+"
	case f.space:
		sign = " "
	}
	pre := ""
	if f.sharp {
		switch verb {
		case 'x':
			pre = "0x"
		case 'X':
			pre = "0X"
		case 'b':
			pre = "0b"
		case 'o':
			pre = "0"
		}
	}
	if f.zero && !f.minus && f.hasW && !f.hasP {
		for len(sign)+len(pre)+len(d) < f.w {
			d = "0" + d
		}
	}
	return sign + pre + d
}

func fmtAny(v any, verb byte, f fmtFlags, depth int) string {
	if v == nil {
		if verb == 'v' || verb == 'T' || depth > 0 {
			return "<nil>"
		}
		return "%!" + string(rune(verb)) + "(<nil>)"
	}
	if verb == 'T' {
		return typeName(v)
	}
	if verb == 'p' {
		return "0xc000000000"
	}
	if verb == 'w' {
		verb = 'v'
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		s, ok := "", false
		switch x := v.(type) {
		case error:
			s, ok = x.Error(), true
		case interface{ String() string }:
			s, ok = x.String(), true
		}
		if ok {
			switch verb {
			case 'q':
				return "\"" + s + "\""
			case 'x':
				return hexBytes(s)
			case 'X':
				return upper(hexBytes(s))
			}
			return s
		}
	}
	if verb == 's' && depth == 0 {
		switch kindOf(v) {
		case 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12:
			return "%!s(" + typeName(v) + "=" + fmtAny(v, 'v', fmtFlags{}, 1) + ")"
		}
	}
	switch k := kindOf(v); k {
	case 1:
		s := "false"
		if boolOf(v) {
			s = "true"
		}
		if verb != 'v' && verb != 't' {
			return "%!" + string(rune(verb)) + "(bool=" + s + ")"
		}
		return s
	case 2, 3, 4, 5, 6:
		return fmtNum(v, true, verb, f)
	case 7, 8, 9, 10, 11, 12:
		return fmtNum(v, false, verb, f)
	case 24:
		s := strOf(v)
		switch verb {
		case 'x':
			return hexBytes(s)
		case 'X':
			return upper(hexBytes(s))
		case 'd', 'c', 'b', 'o', 't', 'U':
			return "%!" + string(rune(verb)) + "(" + typeName(v) + "=" + s + ")"
		}
		if f.hasP && f.p < len(s) {
			s = s[:f.p]
		}
		if verb == 'q' || verb == 'v' && f.sharp {
			return "\"" + s + "\""
		}
		return s
	case 22:
		if depth == 0 && anyFields(v) < 0 {
			return "<nil>"
		}
		if x := anyDeref(v); depth == 0 && x != nil {
			switch kindOf(x) {
			case 17, 23, 25:
				return "&" + fmtAny(x, verb, f, depth+1)
			}
		}
		return "0xc000000000"
	case 17, 23:
		if k == 23 && isBytes(v) {
			switch verb {
			case 's', 'q', 'x', 'X':
				s := strOf(v)
				switch verb {
				case 'x':
					return hexBytes(s)
				case 'X':
					return upper(hexBytes(s))
				case 'q':
					return "\"" + s + "\""
				}
				return s
			}
		}
		s := "["
		for i, n := 0, anyLen(v); i < n; i++ {
			if i > 0 {
				s += " "
			}
			s += fmtAny(anyIndex(v, i), verb, f, depth+1)
		}
		return s + "]"
	case 25:
		s := "{"
		for i, n := 0, anyFields(v); i < n; i++ {
			if i > 0 {
				s += " "
			}
			if f.plus {
				s += anyFieldName(v, i) + ":"
			}
			s += fmtAny(anyField(v, i), verb, f, depth+1)
		}
		return s + "}"
	}
	return "{" + typeName(v) + "}"
}

func sprintf(format string, args ...any) string {
	var b []byte
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			b = append(b, c)
			continue
		}
		i++
		var f fmtFlags
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '#':
				f.sharp = true
			case '+':
				f.plus = true
			case '-':
				f.minus = true
			case '0':
				f.zero = true
			case ' ':
				f.space = true
			default:
				break flags
			}
		}
		num := func() (int, bool) {
			if i < len(format) && format[i] == '*' && n < len(args) {
				v, _ := args[n].(int)
				n++
				i++
				return v, true
			}
			v, ok := 0, false
			for i < len(format) && '0' <= format[i] && format[i] <= '9' {
				v, ok = v*10+int(format[i]-'0'), true
				i++
			}
			return v, ok
		}
		f.w, f.hasW = num()
		if i < len(format) && format[i] == '.' {
			i++
			f.p, _ = num()
			f.hasP = true
		}
		if i >= len(format) {
			b = append(b, "%!(NOVERB)"...)
			break
		}
		if format[i] == '%' {
			b = append(b, '%')
			continue
		}
		if n >= len(args) {
			b = append(b, "%!"...)
			b = append(b, format[i])
			b = append(b, "(MISSING)"...)
			continue
		}
		s := fmtAny(args[n], format[i], f, 0)
		if f.hasW {
			for runeCount(s) < f.w {
				if f.minus {
					s += " "
				} else {
					s = " " + s
				}
			}
		}
		b = append(b, s...)
		n++
	}
	if n < len(args) {
		b = append(b, "%!(EXTRA "...)
		for i, a := range args[n:] {
			if i > 0 {
				b = append(b, ", "...)
			}
			if a == nil {
				b = append(b, "<nil>"...)
				continue
			}
			b = append(b, typeName(a)...)
			b = append(b, '=')
			b = append(b, fmtAny(a, 'v', fmtFlags{}, 0)...)
		}
		b = append(b, ')')
	}
	return string(b)
}

func sprint(args ...any) string {
	var b []byte
	for i, a := range args {
		if i > 0 && kindOf(a) != 24 && kindOf(args[i-1]) != 24 {
			b = append(b, ' ')
		}
		b = append(b, fmtAny(a, 'v', fmtFlags{}, 0)...)
	}
	return string(b)
}

func sprintln(args ...any) string {
	var b []byte
	for i, a := range args {
		if i > 0 {
			b = append(b, ' ')
		}
		b = append(b, fmtAny(a, 'v', fmtFlags{}, 0)...)
	}
	return string(append(b, '\n'))
}

func fprintf(w io.Writer, format string, args ...any) (int, error) {
	return w.Write([]byte(sprintf(format, args...)))
}
func fprint(w io.Writer, args ...any) (int, error)   { return w.Write([]byte(sprint(args...))) }
func fprintln(w io.Writer, args ...any) (int, error) { return w.Write([]byte(sprintln(args...))) }

func indexByte(b []byte, c byte) int {
	for i := range b {
		if b[i] == c {
			return i
		}
	}
	return -1
}
func indexByteString(b string, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}
func countByte(b []byte, c byte) int {
	n := 0
	for i := range b {
		if b[i] == c {
			n++
		}
	}
	return n
}
func countByteString(b string, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}
func compareBytes(a, b []byte) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] < b[i] {
			return -1
		}
		if a[i] > b[i] {
			return 1
		}
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}
func indexBytes(a, b []byte) int {
	for i := 0; i+len(b) <= len(a); i++ {
		if string(a[i:i+len(b)]) == string(b) {
			return i
		}
	}
	return -1
}
func indexString(a, b string) int {
	for i := 0; i+len(b) <= len(a); i++ {
		if a[i:i+len(b)] == b {
			return i
		}
	}
	return -1
}

func smapOf(m *sync.Map) map[any]any { panic("symbolic only") }
func smapDone(m *sync.Map)           { panic("symbolic only") }

func smapLoad(m *sync.Map, k any) (any, bool) {
	c := smapOf(m)
	v, ok := c[k]
	smapDone(m)
	return v, ok
}

func smapStore(m *sync.Map, k, v any) {
	c := smapOf(m)
	c[k] = v
	smapDone(m)
}

func smapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	c := smapOf(m)
	o, ok := c[k]
	if !ok {
		c[k] = v
		o = v
	}
	smapDone(m)
	return o, ok
}

func smapLoadAndDelete(m *sync.Map, k any) (any, bool) {
	c := smapOf(m)
	o, ok := c[k]
	delete(c, k)
	smapDone(m)
	return o, ok
}

func smapDelete(m *sync.Map, k any) { smapLoadAndDelete(m, k) }

func smapSwap(m *sync.Map, k, v any) (any, bool) {
	c := smapOf(m)
	o, ok := c[k]
	c[k] = v
	smapDone(m)
	return o, ok
}

func smapCompareAndSwap(m *sync.Map, k, old, v any) bool {
	c := smapOf(m)
	o, ok := c[k]
	ok = ok && o == old
	if ok {
		c[k] = v
	}
	smapDone(m)
	return ok
}

func smapCompareAndDelete(m *sync.Map, k, old any) bool {
	c := smapOf(m)
	o, ok := c[k]
	ok = ok && o == old
	if ok {
		delete(c, k)
	}
	smapDone(m)
	return ok
}

func smapRange(m *sync.Map, f func(k, v any) bool) {
	c := smapOf(m)
	var ks []any
	for k := range c {
		ks = append(ks, k)
	}
	smapDone(m)
	for _, k := range ks {
		if v, ok := smapLoad(m, k); ok && !f(k, v) {
			return
		}
	}
}

func smapClear(m *sync.Map) {
	c := smapOf(m)
	clear(c)
	smapDone(m)
}

func anyLen(x any) int        { panic("symbolic only") }
func anySwap(x any, i, j int) { panic("symbolic only") }

func sortSlice(x any, less func(i, j int) bool) {
	n := anyLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			anySwap(x, j, j-1)
		}
	}
}

func runeCount(s string) int {
	n := 0
	for range s {
		n++
	}
	return n
}
