package rt

// Channel operations of the code under test. The channels are real ones;
// who has to wait gives up the baton.

// SendTo is ch <- v, as SendTo(ch)(v)
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		for {
			select {
			case ch <- v:
				Released()
				return
			default:
			}
			if !Block("channel send") {
				ch <- v
				return
			}
		}
	}
}

// Recv is <-ch
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is <-ch with two results
func Recv2[T any](ch <-chan T) (T, bool) {
	for {
		select {
		case v, ok := <-ch:
			Released()
			return v, ok
		default:
		}
		if !Block("channel receive") {
			v, ok := <-ch
			return v, ok
		}
	}
}

// Close is close(ch)
func Close[T any](ch chan<- T) {
	close(ch)
	Released()
}

// SelectWait waits in a select statement of which no case is ready
func SelectWait() {
	if !Block("select") {
		yieldReal()
	}
}

// ChanIter ranges over a channel
type ChanIter[T any] struct {
	ch <-chan T
	V  T
}

func ChanIt[T any](ch <-chan T) *ChanIter[T] { return &ChanIter[T]{ch: ch} }

func (c *ChanIter[T]) Next() bool {
	var ok bool
	c.V, ok = Recv2(c.ch)
	return ok
}
