package ring

import (
	"io"

	"github.com/livekit/media-sdk/ring"
)

// Any history of operations on a buffer of any positive capacity: the buffer is compared with a queue that holds
// stream elements head..tail-1.
//
//verif:check C15=assert C03=panic track
func History() {
	n := vAny[int]()
	vAssume(n > 0)
	b := ring.NewBuffer[int](n)
	head, tail := 0, 0
	for vLoop() {
		switch vAny[int]() {
		case 0:
			b.Push(vElem[int]("a", tail))
			tail++
			if tail-head > n {
				head++
			}
		case 1:
			ok := b.TryPush(vElem[int]("a", tail))
			vAssert(ok == (tail-head < n), "TryPush fails exactly when the buffer is full")
			if ok {
				tail++
			}
		case 2:
			v, ok := b.TryPop()
			vAssert(ok == (tail > head), "TryPop succeeds exactly when an element is stored")
			if ok {
				vAssert(v == vElem[int]("a", head), "TryPop returns the oldest element")
				head++
			}
		case 3:
			v, ok := b.TryPeek()
			vAssert(ok == (tail > head), "TryPeek succeeds exactly when an element is stored")
			if ok {
				vAssert(v == vElem[int]("a", head), "TryPeek returns the oldest element")
			}
		case 4:
			p := vStream[[]int]("a", tail, vRange(0, 1<<40))
			w, err := b.Write(p)
			vAssert(err == nil && w == len(p), "Write reports the number of elements given")
			tail += len(p)
			if tail-head > n {
				head = tail - n
			}
		case 5:
			p := make([]int, vRange(0, 1<<40))
			r, err := b.Read(p)
			if len(p) == 0 {
				vAssert(r == 0 && err == nil, "Read into an empty slice returns nothing")
				break
			}
			if tail == head {
				vAssert(r == 0 && err == io.EOF, "Read of an empty buffer returns io.EOF")
				break
			}
			vAssert(err == nil, "Read of stored elements succeeds")
			vAssert(r == min(len(p), tail-head), "Read returns as many elements as are stored and fit")
			vAssert(vIsStream(p[:r], "a", head), "Read returns the oldest elements in order")
			head += r
		}
		vAssert(b.Size() == n, "the capacity never changes")
		vAssert(b.Len() == tail-head, "Len is the number of stored elements")
		vAssert(b.Len() >= 0 && b.Len() <= n, "Len is between zero and the capacity")
	}
}
