//go:build go1.21

// verif:properties C06

package ferry

import (
	"io"

	. "github.com/muguangyi/ferry/verifghost"
)

// Where the serializer cuts depends on the bytes of the frame only, and a frame is cut as soon as it is complete.
func Verif_C06_slice() {
	s := newSerializer()
	b := Any[[]byte]("bytes so far")
	m := Any[int]("of which had arrived earlier")
	Assume(len(b) < 1<<40 && m >= 0 && m <= len(b))
	n := s.Slice(b)
	l := s.Slice(b[:m])
	Assert("C06 a frame lies within the bytes", n >= 0 && n <= len(b))
	if n > 0 && m >= n {
		Assert("C06 bytes after a frame do not change it", l == n)
	} else {
		Assert("C06 an incomplete frame is not cut", l == 0)
	}
	Cover("cut")
}

// ghostProto is a message with arbitrary content.
type ghostProto struct{ content []byte }

func (p *ghostProto) Marshal(writer io.Writer) error {
	_, err := writer.Write(p.content)
	return err
}
func (p *ghostProto) Unmarshal(reader io.Reader) error { return nil }

// The packets of a stream are the frames that were made for the messages.
func Verif_C06_frames() {
	s := newSerializer()
	p := &ghostProto{content: Any[[]byte]("content")}
	Assume(len(p.content) < 1<<32-16)
	f := s.Marshal(&packer{Id: Any[cProtoType]("kind"), P: p})
	Assert("C06 a frame is cut where it ends", s.Slice(f) == len(f) && len(f) > 0)
	Cover("frame")
}
