prop='C25'
needs='The reading half of a pipe is closed first, and the writing half afterwards with its own error.'
breaks='A later read returns the error of the writing half instead of the closed pipe error.'
edits=[('pipe.go','''	if werr := p.werr.Load(); rerr == nil && werr != nil {
		return werr
	}
	return io.ErrClosedPipe
}

// writeCloseError''','''	if werr := p.werr.Load(); werr != nil {
		return werr
	}
	if rerr != nil {
		return io.ErrClosedPipe
	}
	return io.ErrClosedPipe
}

// writeCloseError''')]
pkg='.'
demo='''package media
import ("testing";"io";"errors")
func TestDemo(t *testing.T) {
	r, w := Pipe[PCM16Sample](8000)
	_ = r.Close()
	_ = w.CloseWithError(errors.New("late"))
	if _, err := r.ReadSample(make(PCM16Sample, 4)); err != io.ErrClosedPipe { t.Fatal(err) }
}
'''
