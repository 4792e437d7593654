package props

import (
	"context"
	"log/slog"
	"sync/atomic"
)

type noLog struct{}

func (noLog) Enabled(context.Context, slog.Level) bool  { return false }
func (noLog) Handle(context.Context, slog.Record) error { return nil }
func (n noLog) WithAttrs([]slog.Attr) slog.Handler      { return n }
func (n noLog) WithGroup(string) slog.Handler           { return n }

var quietLogger = slog.New(noLog{})

// errLog counts what is logged at error level.
type errLog struct {
	n    *atomic.Int64
	last *atomic.Value
}

func newErrLog() errLog { return errLog{new(atomic.Int64), new(atomic.Value)} }

func (l errLog) Enabled(_ context.Context, v slog.Level) bool { return v >= slog.LevelError }
func (l errLog) Handle(_ context.Context, r slog.Record) error {
	l.n.Add(1)
	l.last.Store(r.Message)
	return nil
}
func (l errLog) WithAttrs([]slog.Attr) slog.Handler { return l }
func (l errLog) WithGroup(string) slog.Handler      { return l }
