property P16
include std.inc
bounded dir=plugins/linux file=P16_names_test.go run=TestVerifP16Names
package stringutil = "github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/stringutil"
package ir = "github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
package linux = "github.com/blueprint-uservices/blueprint/plugins/linux"
package golang = "github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
load regexp = "regexp"
load strings = "strings"
load strconv = "strconv"

// symbols(s): s with every run of characters other than letters and digits replaced by one underscore
ufun symbols(s string) string
ufun compiled(p string) *regexp.Regexp
define pattern() string = "[^a-zA-Z0-9]+"
extern regexp.(*Regexp).ReplaceAllString(re, src, repl) (s)
  pure
  ensures re == compiled(pattern()) && repl == "_" ==> s == symbols(src) && wordChars(s)
  why "the pattern matches the maximal runs of characters that are neither letters nor digits"
ufun isDigit(s string) bool
extern strconv.Atoi(s) (n, err)
  pure
  ensures err == nil <==> isDigit(s)
  why "of a string of one character, Atoi accepts exactly the digits"
// strip(s): s without its leading digits
ufun strip(s string) string
define stripDef() bool = forall s string :: {strip(s), substr(s, 0, 1)} strip(s) == ite(len(s) == 0, s, ite(isDigit(substr(s, 0, 1)), strip(substr(s, 1, len(s))), s)) && (len(s) == 0 ==> strip(s) == s)
define stripEmpty() bool = forall s string :: {strip(s)} len(s) == 0 ==> strip(s) == s
extern strings.TrimLeft(s, cutset) (t)
  pure
  ensures cutset == "0123456789" ==> t == strip(s)
// wordChars(s): only letters, digits and underscores
ufun wordChars(s string) bool
define wordDef() bool = forall s string :: {wordChars(s), substr(s, 1, len(s))} wordChars(s) && len(s) > 0 ==> wordChars(substr(s, 1, len(s)))
define theory() bool = stripDef() && stripEmpty() && wordDef()
define cleaned(name string) string = strip(symbols(name))
ufun lower(s string) string
ufun upperOf(s string) string
extern strings.ToUpper(s) (t)
  pure
  ensures t == upperOf(s)
extern strings.ToLower(s) (t)
  pure
  ensures t == lower(s)

// the compiler's and the runtime's cleaning are the same function of the name
func stringutil.CleanName(name) (s)
  requires theory()
  ensures same: s == cleaned(name)
  ensures letters: wordChars(s)
  ensures noLeadingDigit: len(s) > 0 ==> !isDigit(substr(s, 0, 1))
  invariant <c string> tail: strip(c) == strip(symbols(name)) && wordChars(c)

func golang.cleanName(name) (s)
  requires theory()
  ensures same: s == cleaned(name)
  ensures letters: wordChars(s)
  ensures noLeadingDigit: len(s) > 0 ==> !isDigit(substr(s, 0, 1))
  invariant <c string> tail: strip(c) == strip(symbols(name)) && wordChars(c)

func ir.CleanName(name) (s)
  requires theory()
  ensures same: s == cleaned(name)

func linux.EnvVar(name) (s)
  requires theory()
  ensures same: s == upperOf(cleaned(name))

func golang.EnvVar(name) (s)
  requires theory()
  ensures same: s == upperOf(cleaned(name))

func linux.FuncName(name) (s)
  requires theory()
  ensures same: s == lower(cleaned(name))

ufun before(s string; suffix string) string
ufun ends(s string; suffix string) bool
extern strings.CutSuffix(s, suffix) (b, found)
  pure
  ensures found == ends(s, suffix) && (found ==> b + suffix == s)
func stringutil.ReplaceSuffix(s, suffix, replacement) (t)
  ensures replaced: forall b string :: {b + suffix} ends(s, suffix) && b + suffix == s ==> t == b + replacement
  ensures appended: !ends(s, suffix) ==> t == s + "." + replacement
