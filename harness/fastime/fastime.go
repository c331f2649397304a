// Package fastime is a stand-in for github.com/kpango/fastime with the same API and no clock of its own:
// every reading is time.Now(). Inside a testing/synctest bubble that is the bubble's virtual clock, so the code
// under test, gache and glg all read the same virtual time. It keeps no state shared between goroutines, so it
// adds no happens-before edges which could hide a data race.
package fastime

import (
	"context"
	"time"
)

type Fastime interface {
	IsDaemonRunning() bool
	GetFormat() string
	SetFormat(format string) Fastime
	GetLocation() *time.Location
	SetLocation(location *time.Location) Fastime
	Now() time.Time
	Stop()
	UnixNow() int64
	UnixUNow() uint32
	UnixNanoNow() int64
	UnixUNanoNow() uint32
	FormattedNow() []byte
	StartTimerD(ctx context.Context, dur time.Duration) Fastime
}

type clock struct{}

var instance Fastime = clock{}

func New() Fastime { return clock{} }

func (clock) IsDaemonRunning() bool                                { return true }
func (clock) GetFormat() string                                    { return time.RFC3339 }
func (c clock) SetFormat(string) Fastime                           { return c }
func (clock) GetLocation() *time.Location                          { return time.Local }
func (c clock) SetLocation(*time.Location) Fastime                 { return c }
func (clock) Now() time.Time                                       { return time.Now() }
func (clock) Stop()                                                {}
func (clock) UnixNow() int64                                       { return time.Now().Unix() }
func (clock) UnixUNow() uint32                                     { return uint32(time.Now().Unix()) }
func (clock) UnixNanoNow() int64                                   { return time.Now().UnixNano() }
func (clock) UnixUNanoNow() uint32                                 { return uint32(time.Now().UnixNano()) }
func (clock) FormattedNow() []byte                                 { return []byte(time.Now().Format(time.RFC3339)) }
func (c clock) StartTimerD(context.Context, time.Duration) Fastime { return c }

func IsDaemonRunning() bool                              { return true }
func GetLocation() *time.Location                        { return time.Local }
func GetFormat() string                                  { return time.RFC3339 }
func SetLocation(location *time.Location) Fastime        { return instance }
func SetFormat(format string) Fastime                    { return instance }
func Now() time.Time                                     { return time.Now() }
func Stop()                                              {}
func UnixNow() int64                                     { return time.Now().Unix() }
func UnixUNow() uint32                                   { return uint32(time.Now().Unix()) }
func UnixNanoNow() int64                                 { return time.Now().UnixNano() }
func UnixUNanoNow() uint32                               { return uint32(time.Now().UnixNano()) }
func FormattedNow() []byte                               { return []byte(time.Now().Format(time.RFC3339)) }
func StartTimerD(context.Context, time.Duration) Fastime { return instance }
