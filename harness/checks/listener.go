package checks

import (
	"sync"

	"github.com/dufourgilles/emberlib/errors"
)

type call struct {
	node interface{}
	err  string
}

// recorder is a listener that records what it is told.
type recorder struct {
	mu    sync.Mutex
	calls []call
	then  func(node interface{}, err string)
}

func (r *recorder) Receive(node interface{}, err errors.Error) {
	r.mu.Lock()
	r.calls = append(r.calls, call{node, es(err)})
	then := r.then
	r.mu.Unlock()
	if then != nil {
		then(node, es(err))
	}
}

func (r *recorder) n() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.calls)
}

func (r *recorder) take() []call {
	r.mu.Lock()
	defer r.mu.Unlock()
	c := r.calls
	r.calls = nil
	return c
}
