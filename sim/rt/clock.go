package rt

import (
	"fmt"
	"io"
	"os"
	"time"
)

var (
	nowHook  func() time.Time
	zoneHook func(string) (*time.Location, error)
	outHook  func([]byte)
	clockN   uint64
	zoneN    uint64
	outN     uint64
)

// SetClock installs the simulated clock, nil for the real one
//
//go:norace
func SetClock(f func() time.Time) { nowHook = f }

// SetZones installs the simulated zone database, nil for the real one
//
//go:norace
func SetZones(f func(string) (*time.Location, error)) { zoneHook = f }

// SetOutput installs a receiver of standard output and standard error
//
//go:norace
func SetOutput(f func([]byte)) { outHook = f }

// IOCounts returns the number of calls of the clock, the zone database
// and of output since the last call
//
//go:norace
func IOCounts() (clock, zone, out uint64) {
	clock, zone, out = clockN, zoneN, outN
	clockN, zoneN, outN = 0, 0, 0
	return
}

//go:norace
func getNow() func() time.Time { clockN++; return nowHook }

//go:norace
func getZone() func(string) (*time.Location, error) { zoneN++; return zoneHook }

//go:norace
func getOut() func([]byte) { outN++; return outHook }

// Now replaces time.Now
func Now() time.Time {
	if f := getNow(); f != nil {
		return f()
	}
	return time.Now()
}

// Since replaces time.Since
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep: other threads run, the simulated clock
// decides how much time that takes
func Sleep(d time.Duration) {
	Y(0)
	Gosched()
}

func yieldReal() { time.Sleep(time.Millisecond) }

// LoadLocation replaces time.LoadLocation
func LoadLocation(name string) (*time.Location, error) {
	if f := getZone(); f != nil {
		return f(name)
	}
	return time.LoadLocation(name)
}

type sink struct{ f *os.File }

func (s sink) Write(p []byte) (int, error) {
	if f := getOut(); f != nil {
		f(p)
		return len(p), nil
	}
	return s.f.Write(p)
}

func (s sink) WriteString(p string) (int, error) { return s.Write([]byte(p)) }

// Stdout and Stderr replace os.Stdout and os.Stderr
var (
	Stdout io.Writer = sink{os.Stdout}
	Stderr io.Writer = sink{os.Stderr}
)

// Print replaces fmt.Print
func Print(a ...interface{}) (int, error) { return fmt.Fprint(Stdout, a...) }

// Println replaces fmt.Println
func Println(a ...interface{}) (int, error) { return fmt.Fprintln(Stdout, a...) }

// Printf replaces fmt.Printf
func Printf(f string, a ...interface{}) (int, error) { return fmt.Fprintf(Stdout, f, a...) }
