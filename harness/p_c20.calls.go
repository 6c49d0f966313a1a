package harness

import (
	"context"
	"runtime"

	"github.com/aceld/zinx/zlog"
)

// The calls of C20, in a file whose name has more than one dot.

func callsFile() string {
	_, f, _, _ := runtime.Caller(0)
	return f
}

type logAPI struct {
	name   string
	level  int
	format bool
	call   func(format string, v ...interface{}) int // returns the line it is called from
}

func here() int {
	_, _, n, _ := runtime.Caller(1)
	return n
}

func coreAPIs(l *zlog.ZinxLoggerCore) []logAPI {
	return []logAPI{
		{"Debugf", 0, true, func(f string, v ...interface{}) int { l.Debugf(f, v...); return here() }},
		{"Infof", 1, true, func(f string, v ...interface{}) int { l.Infof(f, v...); return here() }},
		{"Warnf", 2, true, func(f string, v ...interface{}) int { l.Warnf(f, v...); return here() }},
		{"Errorf", 3, true, func(f string, v ...interface{}) int { l.Errorf(f, v...); return here() }},
		{"Panicf", 4, true, func(f string, v ...interface{}) (n int) {
			defer func() { recover() }()
			n = here() + 1
			l.Panicf(f, v...)
			return
		}},
		{"Debug", 0, false, func(f string, v ...interface{}) int { l.Debug(v...); return here() }},
		{"Info", 1, false, func(f string, v ...interface{}) int { l.Info(v...); return here() }},
		{"Warn", 2, false, func(f string, v ...interface{}) int { l.Warn(v...); return here() }},
		{"Error", 3, false, func(f string, v ...interface{}) int { l.Error(v...); return here() }},
		{"Panic", 4, false, func(f string, v ...interface{}) (n int) {
			defer func() { recover() }()
			n = here() + 1
			l.Panic(v...)
			return
		}},
	}
}

func globalAPIs() []logAPI {
	d, x := defaultLog, context.Background()
	return []logAPI{
		{"zlog.Debugf", 0, true, func(f string, v ...interface{}) int { zlog.Debugf(f, v...); return here() }},
		{"zlog.Infof", 1, true, func(f string, v ...interface{}) int { zlog.Infof(f, v...); return here() }},
		{"zlog.Warnf", 2, true, func(f string, v ...interface{}) int { zlog.Warnf(f, v...); return here() }},
		{"zlog.Errorf", 3, true, func(f string, v ...interface{}) int { zlog.Errorf(f, v...); return here() }},
		{"zlog.Panicf", 4, true, func(f string, v ...interface{}) (n int) {
			defer func() { recover() }()
			n = here() + 1
			zlog.Panicf(f, v...)
			return
		}},
		{"zlog.Debug", 0, false, func(f string, v ...interface{}) int { zlog.Debug(v...); return here() }},
		{"zlog.Info", 1, false, func(f string, v ...interface{}) int { zlog.Info(v...); return here() }},
		{"zlog.Warn", 2, false, func(f string, v ...interface{}) int { zlog.Warn(v...); return here() }},
		{"zlog.Error", 3, false, func(f string, v ...interface{}) int { zlog.Error(v...); return here() }},
		{"Ins.InfoF", 1, true, func(f string, v ...interface{}) int { d.InfoF(f, v...); return here() }},
		{"Ins.ErrorF", 3, true, func(f string, v ...interface{}) int { d.ErrorF(f, v...); return here() }},
		{"Ins.DebugF", 0, true, func(f string, v ...interface{}) int { d.DebugF(f, v...); return here() }},
		{"Ins.InfoFX", 1, true, func(f string, v ...interface{}) int { d.InfoFX(x, f, v...); return here() }},
		{"Ins.ErrorFX", 3, true, func(f string, v ...interface{}) int { d.ErrorFX(x, f, v...); return here() }},
		{"Ins.DebugFX", 0, true, func(f string, v ...interface{}) int { d.DebugFX(x, f, v...); return here() }},
	}
}
