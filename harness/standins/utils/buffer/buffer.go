// Package buffer is an offline stand-in for github.com/indigo-web/utils/buffer: a growing,
// limited memory out of which consecutive segments are cut.
package buffer

type Buffer struct {
	memory  []byte
	begin   int
	maxSize int
}

func New(initialSize, maxSize int) *Buffer {
	return &Buffer{memory: make([]byte, 0, initialSize), maxSize: maxSize}
}

// Append writes data, returning false (and writing nothing) if the limit would be exceeded.
func (b *Buffer) Append(elements []byte) (ok bool) {
	if len(b.memory)+len(elements) > b.maxSize {
		return false
	}
	b.memory = append(b.memory, elements...)
	return true
}

// AppendByte is Append of a single byte.
func (b *Buffer) AppendByte(c byte) (ok bool) {
	if len(b.memory)+1 > b.maxSize {
		return false
	}
	b.memory = append(b.memory, c)
	return true
}

// SegmentLength returns the number of bytes in the unfinished segment.
func (b *Buffer) SegmentLength() int { return len(b.memory) - b.begin }

// Trunc drops up to n last bytes of the unfinished segment.
func (b *Buffer) Trunc(n int) {
	if l := b.SegmentLength(); n > l {
		n = l
	}
	b.memory = b.memory[:len(b.memory)-n]
}

// Discard drops the unfinished segment.
func (b *Buffer) Discard(n int) {
	if n > b.SegmentLength() {
		n = b.SegmentLength()
	}
	b.begin += n
}

// Preview returns the unfinished segment without finishing it.
func (b *Buffer) Preview() []byte { return b.memory[b.begin:] }

// Finish completes the segment and returns it.
func (b *Buffer) Finish() []byte {
	segment := b.memory[b.begin:]
	b.begin = len(b.memory)
	return segment
}

// Clear forgets everything, keeping the memory.
func (b *Buffer) Clear() {
	b.begin = 0
	b.memory = b.memory[:0]
}
