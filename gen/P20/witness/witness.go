// Package witness declares the service interface for which the wrapper code is generated.
package witness

import "context"

type Item struct {
	Name  string
	Count int64
}

type Service interface {
	Zero(ctx context.Context) error
	One(ctx context.Context, a string) (string, error)
	Two(ctx context.Context, s string, n int64, i int) (string, int64, error)
	Mix(ctx context.Context, xs []string, m map[string]int64, p *Item) (*Item, []string, error)
}
