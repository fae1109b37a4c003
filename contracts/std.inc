// Contracts assumed on the standard library and on small third-party packages.
load errors = "github.com/pkg/errors"
load fmt = "fmt"
extern errors.Errorf(format, args) (err)
  pure
  ensures err != nil
extern errors.New(s) (err)
  pure
  ensures err != nil
extern errors.Wrap(e, s) (err)
  pure
  ensures (err != nil) <==> (e != nil)
extern errors.Wrapf(e, s, args) (err)
  pure
  ensures (err != nil) <==> (e != nil)
extern fmt.Errorf(format, args) (err)
  pure
  ensures err != nil
extern fmt.Sprintf(format, args) (s)
  pure

load context = "context"
iface context.Context.Err(c) (err)
  pure
load slog = "golang.org/x/exp/slog"
extern slog.Info(msg, args)
  pure
extern slog.Warn(msg, args)
  pure
extern slog.Error(msg, args)
  pure
extern slog.Debug(msg, args)
  pure
