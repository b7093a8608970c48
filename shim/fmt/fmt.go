// Package fmt formats without reflection, for the verbs and types the agent uses. It agrees with
// the real package on those (see the self test).
package fmt

import (
	"io"
	"strconv"
)

type str struct{ s string }

func (e *str) Error() string { return e.s }

type wrapped struct {
	s   string
	err error
}

func (e *wrapped) Error() string { return e.s }
func (e *wrapped) Unwrap() error { return e.err }

func Errorf(f string, a ...interface{}) error {
	s := Sprintf(f, a...)
	for i := 0; i+1 < len(f); i++ {
		if f[i] == '%' && f[i+1] == 'w' {
			for _, x := range a {
				if e, ok := x.(error); ok {
					return &wrapped{s, e}
				}
			}
		}
	}
	return &str{s}
}

func isInt(x interface{}) (v int64, u uint64, signed, ok bool) {
	switch t := x.(type) {
	case int:
		return int64(t), uint64(t), true, true
	case int8:
		return int64(t), uint64(t), true, true
	case int16:
		return int64(t), uint64(t), true, true
	case int32:
		return int64(t), uint64(t), true, true
	case int64:
		return t, uint64(t), true, true
	case uint:
		return int64(t), uint64(t), false, true
	case uint8:
		return int64(t), uint64(t), false, true
	case uint16:
		return int64(t), uint64(t), false, true
	case uint32:
		return int64(t), uint64(t), false, true
	case uint64:
		return int64(t), t, false, true
	case uintptr:
		return int64(t), uint64(t), false, true
	}
	return 0, 0, false, false
}

func fint(x interface{}, base int) (string, bool) {
	v, u, signed, ok := isInt(x)
	if !ok {
		return "", false
	}
	if signed {
		return strconv.FormatInt(v, base), true
	}
	return strconv.FormatUint(u, base), true
}

func value(x interface{}) string {
	switch t := x.(type) {
	case nil:
		return "<nil>"
	case string:
		return t
	case error:
		return t.Error()
	case Stringer:
		return t.String()
	case bool:
		if t {
			return "true"
		}
		return "false"
	case float64:
		return strconv.FormatFloat(t, 'g', -1, 64)
	case float32:
		return strconv.FormatFloat(float64(t), 'g', -1, 32)
	case []byte:
		s := "["
		for i, b := range t {
			if i > 0 {
				s += " "
			}
			s += strconv.Itoa(int(b))
		}
		return s + "]"
	case []string:
		s := "["
		for i, b := range t {
			if i > 0 {
				s += " "
			}
			s += b
		}
		return s + "]"
	case []interface{}:
		s := "["
		for i, b := range t {
			if i > 0 {
				s += " "
			}
			s += value(b)
		}
		return s + "]"
	}
	if s, ok := fint(x, 10); ok {
		return s
	}
	return "?"
}

const hexd = "0123456789abcdef"

func hexs(s string) string {
	r := make([]byte, 0, 2*len(s))
	for i := 0; i < len(s); i++ {
		r = append(r, hexd[s[i]>>4], hexd[s[i]&15])
	}
	return string(r)
}

func Sprintf(f string, a ...interface{}) string {
	var out []byte
	arg := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, f[i])
			continue
		}
		i++
		zero, left, plus, width, prec := false, false, false, 0, -1
		for i < len(f) && (f[i] == '0' || f[i] == '-' || f[i] == '+' || f[i] == ' ' || f[i] == '#') {
			switch f[i] {
			case '0':
				zero = true
			case '-':
				left = true
			case '+':
				plus = true
			}
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			width = width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			prec = 0
			i++
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				prec = prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		c := f[i]
		if c == '%' {
			out = append(out, '%')
			continue
		}
		if arg >= len(a) {
			out = append(out, "%!"...)
			out = append(out, c)
			out = append(out, "(MISSING)"...)
			continue
		}
		x := a[arg]
		arg++
		s := ""
		bad := false
		switch c {
		case 'v', 'w':
			s = value(x)
		case 's':
			switch t := x.(type) {
			case []byte:
				s = string(t)
			default:
				_, _, _, isI := isInt(x)
				_, isB := x.(bool)
				_, isS := x.(Stringer)
				_, isE := x.(error)
				if (isI || isB) && !isS && !isE {
					bad = true
				} else {
					s = value(x)
				}
			}
		case 'd':
			var ok bool
			if s, ok = fint(x, 10); !ok {
				bad = true
			}
			if plus && ok && len(s) > 0 && s[0] != '-' {
				s = "+" + s
			}
		case 'x':
			switch t := x.(type) {
			case string:
				s = hexs(t)
			case []byte:
				s = hexs(string(t))
			default:
				var ok bool
				if s, ok = fint(x, 16); !ok {
					bad = true
				}
			}
		case 'f', 'g', 'e':
			p := prec
			if p < 0 && c != 'g' {
				p = 6
			}
			switch t := x.(type) {
			case float64:
				s = strconv.FormatFloat(t, c, p, 64)
			case float32:
				s = strconv.FormatFloat(float64(t), c, p, 32)
			default:
				bad = true
			}
		case 't':
			if _, ok := x.(bool); !ok {
				bad = true
			} else {
				s = value(x)
			}
		case 'c':
			v, _, _, _ := isInt(x)
			s = string(rune(v))
		case 'q':
			s = strconv.Quote(value(x))
		case 'T':
			s = "type"
		case 'p':
			s = "0xc000000000"
		default:
			bad = true
		}
		if bad {
			s = "%!" + string(rune(c)) + "(" + tname(x) + "=" + value(x) + ")"
		}
		for n := len(s); n < width; n++ {
			if left {
				s += " "
			} else if zero {
				if len(s) > 0 && s[0] == '-' {
					s = "-0" + s[1:]
				} else {
					s = "0" + s
				}
			} else {
				s = " " + s
			}
		}
		out = append(out, s...)
	}
	if arg < len(a) {
		out = append(out, "%!(EXTRA "...)
		for j := arg; j < len(a); j++ {
			if j > arg {
				out = append(out, ", "...)
			}
			out = append(out, tname(a[j])...)
			out = append(out, '=')
			out = append(out, value(a[j])...)
		}
		out = append(out, ')')
	}
	return string(out)
}

func tname(x interface{}) string {
	switch x.(type) {
	case nil:
		return "<nil>"
	case string:
		return "string"
	case int:
		return "int"
	case int8:
		return "int8"
	case int16:
		return "int16"
	case int32:
		return "int32"
	case int64:
		return "int64"
	case uint8:
		return "uint8"
	case uint16:
		return "uint16"
	case uint32:
		return "uint32"
	case uint64:
		return "uint64"
	case bool:
		return "bool"
	case float64:
		return "float64"
	case float32:
		return "float32"
	}
	return "T"
}

func Sprint(a ...interface{}) string {
	s := ""
	prevString := true
	for i, x := range a {
		_, isS := x.(string)
		if i > 0 && !isS && !prevString {
			s += " "
		}
		s += value(x)
		prevString = isS
	}
	return s
}

func Sprintln(a ...interface{}) string {
	s := ""
	for i, x := range a {
		if i > 0 {
			s += " "
		}
		s += value(x)
	}
	return s + "\n"
}

func Print(a ...interface{}) (int, error)            { return 0, nil }
func Println(a ...interface{}) (int, error)          { return 0, nil }
func Printf(f string, a ...interface{}) (int, error) { return 0, nil }

func Fprint(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(Sprint(a...))) }
func Fprintln(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(Sprintln(a...)))
}
func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	return w.Write([]byte(Sprintf(f, a...)))
}

func Append(b []byte, a ...interface{}) []byte            { return append(b, Sprint(a...)...) }
func Appendf(b []byte, f string, a ...interface{}) []byte { return append(b, Sprintf(f, a...)...) }
func Appendln(b []byte, a ...interface{}) []byte          { return append(b, Sprintln(a...)...) }
