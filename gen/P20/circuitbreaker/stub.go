// Package circuitbreaker stands for github.com/mercari/go-circuitbreaker, which is not in the module cache.
// It declares the part of that package's interface that the generated code uses; the behaviour is assumed
// (contracts in P20.spec).
package circuitbreaker

import (
	"context"
	"errors"
	"time"
)

type CircuitBreaker struct{ state int }
type BreakerOption interface{ apply() }
type Counters struct{}
type TripFunc func(*Counters) bool

var ErrOpen = errors.New("circuit breaker open")

func New(opts ...BreakerOption) *CircuitBreaker                     { return nil }
func WithFailOnContextCancel(b bool) BreakerOption                  { return nil }
func WithFailOnContextDeadline(b bool) BreakerOption                { return nil }
func WithCounterResetInterval(d time.Duration) BreakerOption        { return nil }
func WithTripFunc(f TripFunc) BreakerOption                         { return nil }
func NewTripFuncFailureRate(min int64, rate float64) TripFunc       { return nil }
func (c *CircuitBreaker) Ready() bool                               { return false }
func (c *CircuitBreaker) Done(ctx context.Context, err error) error { return err }
