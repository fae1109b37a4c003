package registry_test

// Replay harness for property P05: random histories of registrations, default changes and requests against a reference.

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/blueprint-uservices/blueprint/runtime/core/registry"
)

type p05svc struct{ id int }

func TestGovcP05(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rnd := rand.New(rand.NewSource(int64(seed)))
	nfail := 0
	fail := func(f string, a ...any) {
		t.Errorf("FAILING-INPUT: "+f, a...)
		if nfail++; nfail > 8 {
			t.FailNow()
		}
	}
	names := []string{"", "a", "b", "c", "local", "A"}
	hist := 0
	for r := 0; r < 5000; r++ {
		hist++
		func() {
			log := ""
			defer func() {
				if p := recover(); p != nil {
					fail("%s: panic %v", log, p)
				}
			}()
			reg := registry.NewServiceRegistry[*p05svc]("svc" + strconv.Itoa(r))
			type builder struct {
				name string
				svc  *p05svc
				err  error
			}
			model := map[string]*builder{}
			def := ""
			runs := map[*builder]int{}
			settled := false
			var want *p05svc
			var wantErr error
			wantAny := false // any error
			n := 0
			for i := 0; i < 8; i++ {
				switch rnd.Intn(4) {
				case 0, 1:
					nm := names[rnd.Intn(len(names))]
					n++
					b := &builder{name: nm}
					switch rnd.Intn(4) {
					case 0:
						b.err = fmt.Errorf("failure %d", n)
					case 1:
						b.err, b.svc = fmt.Errorf("failure %d", n), &p05svc{n}
					case 2:
						b.svc = &p05svc{n}
					case 3:
						if rnd.Intn(4) > 0 {
							b.svc = &p05svc{n}
						}
					}
					log += fmt.Sprintf(" Register(%q, builder %d -> %v,%v)", nm, n, b.svc, b.err)
					if len(model) == 0 {
						def = nm
					}
					model[nm] = b
					reg.Register(nm, func(ctx context.Context) (*p05svc, error) { runs[b]++; return b.svc, b.err })
				case 2:
					nm := names[rnd.Intn(len(names))]
					log += fmt.Sprintf(" SetDefault(%q)", nm)
					def = nm
					reg.SetDefault(nm)
				case 3:
					log += " Get"
					got, err := reg.Get(context.Background())
					if !settled {
						settled = true
						if b, ok := model[def]; ok {
							want, wantErr = b.svc, b.err
							if runs[b] != 1 {
								fail("%s: the builder of %q ran %d times", log, def, runs[b])
							}
						} else {
							wantAny = true
						}
					}
					if wantAny {
						if err == nil {
							fail("%s: no error for the unregistered default %q", log, def)
						}
					} else if !errors.Is(err, wantErr) || (err == nil) != (wantErr == nil) || got != want {
						fail("%s: got (%v, %v), want (%v, %v)", log, got, err, want, wantErr)
					}
					total := 0
					for _, k := range runs {
						total += k
					}
					if (wantAny && total != 0) || (!wantAny && total != 1) {
						fail("%s: builders ran %d times", log, total)
					}
				}
			}
		}()
	}
	t.Logf("COVERED: %d random histories of registrations and requests", hist)
}
