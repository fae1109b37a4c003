package linux_test

// Replay harness for property P16: random names are cleaned by the compiler and by the runtime library and compared
// with a character-by-character model.

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/stringutil"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/plugins/linux"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
)

func p16alnum(c byte) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9'
}

func p16clean(name string) string {
	var b []byte
	for i := 0; i < len(name); i++ {
		if p16alnum(name[i]) {
			b = append(b, name[i])
		} else if i == 0 || p16alnum(name[i-1]) {
			b = append(b, '_')
		}
	}
	for len(b) > 0 && '0' <= b[0] && b[0] <= '9' {
		b = b[1:]
	}
	return string(b)
}

func p16check(name string) error {
	want := p16clean(name)
	if got := ir.CleanName(name); got != want {
		return fmt.Errorf("ir.CleanName(%q) = %q, want %q", name, got, want)
	}
	if got := stringutil.CleanName(name); got != want {
		return fmt.Errorf("stringutil.CleanName(%q) = %q, want %q", name, got, want)
	}
	if got := ir.CleanName(want); got != want {
		return fmt.Errorf("cleaning %q again gives %q", want, got)
	}
	if got := linux.EnvVar(name); got != strings.ToUpper(want) {
		return fmt.Errorf("linux.EnvVar(%q) = %q, want %q", name, got, strings.ToUpper(want))
	}
	if got := golang.EnvVar(name); got != linux.EnvVar(name) {
		return fmt.Errorf("%q is called %q by the compiler and %q by the runtime", name, linux.EnvVar(name), got)
	}
	if got := linux.FuncName(name); got != strings.ToLower(want) {
		return fmt.Errorf("linux.FuncName(%q) = %q, want %q", name, got, strings.ToLower(want))
	}
	if utf8.ValidString(name) {
		cap := ""
		for i, c := range name {
			if i == 0 {
				c = unicode.ToUpper(c)
			}
			cap += string(c)
		}
		if got := stringutil.Capitalize(name); got != cap {
			return fmt.Errorf("Capitalize(%q) = %q, want %q", name, got, cap)
		}
	}
	return nil
}

func p16suffix(name, suffix, repl string) error {
	want := name + "." + repl
	if len(name) >= len(suffix) && name[len(name)-len(suffix):] == suffix {
		want = name[:len(name)-len(suffix)] + repl
	}
	if got := stringutil.ReplaceSuffix(name, suffix, repl); got != want {
		return fmt.Errorf("ReplaceSuffix(%q, %q, %q) = %q, want %q", name, suffix, repl, got, want)
	}
	return nil
}

func p16run(r *rand.Rand) (err error) {
	var name string
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%q: panic: %v", name, p)
		}
	}()
	parts := []string{"a", "Z", "user", "service", "_", "__", ".", "-", " ", "0", "9", "42", "/", ":", "\t", "\n", "é", "世", "\xff", "²", "٣", "addr", ".http", "grpc", "$", "{"}
	for i := r.Intn(8); i > 0; i-- {
		name += parts[r.Intn(len(parts))]
	}
	if r.Intn(4) == 0 {
		b := make([]byte, r.Intn(6))
		r.Read(b)
		name += string(b)
	}
	if err := p16check(name); err != nil {
		return err
	}
	suffix := parts[r.Intn(len(parts))]
	if r.Intn(3) == 0 {
		suffix = ""
	}
	return p16suffix(name, suffix, parts[r.Intn(len(parts))])
}

func TestVerifP16Names(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget := 4 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		budget = 60 * time.Second
	}
	r := rand.New(rand.NewSource(seed))
	for c := 0; c < 256; c++ {
		for _, name := range []string{string([]byte{byte(c)}), string([]byte{'a', byte(c), 'b'}), string([]byte{byte(c), 'a'}), string([]byte{'1', byte(c), '2', 'x'})} {
			if err := p16check(name); err != nil {
				t.Errorf("FAILING-INPUT: %v", err)
				return
			}
		}
	}
	start, n := time.Now(), 0
	for ; time.Since(start) < budget; n++ {
		if err := p16run(r); err != nil {
			t.Errorf("FAILING-INPUT: seed %d step %d: %v", seed, n, err)
			return
		}
	}
	fmt.Printf("COVERED: every byte in 4 contexts and %d random names\n", n)
}
