package top

import (
	"github.com/WatchBeam/amf0/encoding"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/zzverif/sym"
)

var mediaSizes = []int{0, 1, 2, 3, 4, 5, 127, 128, 129, 4096, 5000}

type media interface {
	data.Data
	Control() byte
	Payload() []byte
}

// Parse any message as media and marshal it again.
//
//verif:property C25
//verif:bounds every header (every type id) and payloads of 0..5, 127..129, 4096 and 5000 arbitrary bytes; the AMF0 stand-in accepts or rejects a data frame
//verif:steps 20000000
//verif:mode allorders
func MediaRoundTrip() {
	n := mediaSizes[sym.Choose("n", len(mediaSizes))]
	h := anyHeader(sym.Uint32("length"))
	b := sym.Bytes("data", n)
	hb, bb := *h, append([]byte(nil), b...)
	var seen []byte
	abstractAMF(&seen)
	d, err := data.DefaultParser.Parse(chunk.New(h, b))
	sym.Assert((d == nil) == (err != nil), "parsing yields neither a message nor an error, or both")
	t := h.MessageHeader.TypeId
	sym.Assert(sameHeader(h, &hb) && eqBytes(b, bb), "parsing changes the message")
	switch {
	case sym.Not(sym.Or(t == 8, t == 9, t == 0x12)):
		sym.Cover("rejected")
		sym.Assert(err != nil && err != data.ErrControlMissing, "a message of another type is taken for media")
		return
	case t == 0x12:
		sym.Cover("data frame")
		if n > 0 {
			sym.Assert((err == nil) == (b[0] != 0xff), "a data frame is not decoded as its body")
		} else {
			sym.Assert(err != nil, "an empty data frame is accepted")
		}
		if err == nil {
			_, ok := d.(*data.DataFrame)
			sym.Assert(ok && d.Id() == 0x12, "a data frame is parsed as something else")
		}
		return
	case n == 0:
		sym.Cover("empty")
		sym.Assert(err == data.ErrControlMissing, "an empty message is not rejected with the missing control error")
		return
	}
	sym.Assert(err == nil, "an audio or video message is rejected")
	m, ok := d.(media)
	sym.Assert(ok && isData(d, t) && d.Id() == t, "a media message is parsed as something else")
	sym.Cover("media")
	sym.Assert(m.Control() == bb[0], "the control byte is not the first byte")
	sym.Assert(len(m.Payload()) == n-1 && eqBytes(m.Payload(), bb[1:]), "the payload is not what follows the control byte")
	for i := 0; i < 2; i++ {
		c, err := d.Marshal()
		sym.Assert(err == nil && c != nil && c.Header != nil, "a received message cannot be marshalled")
		sym.Assert(sameHeader(c.Header, &hb), "marshalling changes the header")
		sym.Assert(len(c.Data) == n && eqBytes(c.Data, bb), "marshalling changes the bytes")
	}
	sym.Observe("n", uint64(len(m.Payload())))
}

// Two messages do not share state.
//
//verif:property C25
//verif:bounds two audio or video messages of 1..3 arbitrary bytes with arbitrary headers
//verif:mode allorders
func MediaIndependent() {
	var cs [2]*chunk.Chunk
	var ds [2]data.Data
	for i := range cs {
		n := 1 + sym.Choose("n", 3)
		h := anyHeader(uint32(n))
		h.MessageHeader.TypeId = byte(8 + sym.Choose("typ", 2))
		cs[i] = chunk.New(h, sym.Bytes("data", n))
		var err error
		ds[i], err = data.DefaultParser.Parse(cs[i])
		sym.Assert(err == nil, "an audio or video message is rejected")
	}
	for i := range cs {
		c, err := ds[i].Marshal()
		sym.Assert(err == nil && len(c.Data) == len(cs[i].Data), "marshalling changes the length")
		sym.Assert(sym.And(sameHeader(c.Header, cs[i].Header), eqBytes(c.Data, cs[i].Data)), "one message takes the place of another")
	}
	sym.Cover("two")
}

// The parser on the types it was given.
//
//verif:property C25
//verif:bounds every type id, parsers made for every subset of the three media types
func MediaSubsets() {
	set := sym.Choose("set", 8)
	var fs []data.DataFactory
	if set&1 != 0 {
		fs = append(fs, func() data.Data { return new(data.Audio) })
	}
	if set&2 != 0 {
		fs = append(fs, func() data.Data { return new(data.Video) })
	}
	if set&4 != 0 {
		fs = append(fs, func() data.Data { return new(data.DataFrame) })
	}
	var seen []byte
	abstractAMF(&seen)
	p := data.NewParser(fs...)
	h := anyHeader(1)
	t := h.MessageHeader.TypeId
	d, err := p.Parse(chunk.New(h, []byte{1}))
	want := sym.Or(sym.And(set&1 != 0, t == 8), sym.And(set&2 != 0, t == 9), sym.And(set&4 != 0, t == 0x12))
	sym.Assert((err == nil) == want, "a type that was registered is rejected, or another accepted")
	if err == nil {
		sym.Cover("accepted")
		sym.Assert(isData(d, t), "a message is parsed as another type")
	} else {
		sym.Cover("rejected")
		sym.Assert(d == nil, "a rejected message yields a value")
	}
}

func parsed(t byte, b []byte) data.Data {
	d, err := data.DefaultParser.Parse(msgChunk(4, 1, t, b))
	sym.Assert(err == nil, "a media message is rejected")
	return d
}

// The bits of an audio control byte.
//
//verif:property C26
//verif:bounds every control byte, followed by 0..2 arbitrary bytes
func AudioBits() {
	b := sym.Byte("control")
	a := parsed(8, append([]byte{b}, sym.Bytes("rest", sym.Choose("n", 3))...)).(*data.Audio)
	sym.Cover("audio")
	sym.Assert(byte(a.Codec()) == b>>4, "the codec is not the high four bits")
	sym.Assert(byte(a.Type()) == b&1, "the type is not the lowest bit")
	sym.Observe("codec", uint64(a.Codec()))
}

//verif:property C26
//verif:bounds every control byte
func AudioSize() {
	b := sym.Byte("control")
	size := parsed(8, []byte{b}).(*data.Audio).Size()
	bit := int(b >> 1 & 1)
	sym.Cover("size")
	// 8 * (2 XOR bit) instead of 8 << bit, pinned by an existing test
	sym.Known("C26-size", size == 8*(2^bit))
	sym.Assert(size == 8<<uint(bit), "the sample size is not 8 or 16 by bit 1")
	sym.Observe("size", uint64(size))
}

//verif:property C26
//verif:bounds every control byte
func AudioRate() {
	b := sym.Byte("control")
	rate := parsed(8, []byte{b}).(*data.Audio).Rate()
	bits := sym.Concretize(uint64(b >> 2 & 3))
	sym.Cover("rate")
	// 5.5 * (2 XOR bits), pinned by an existing test
	sym.Known("C26-rate", rate == []float32{11, 16.5, 0, 5.5}[bits])
	sym.Assert(rate == []float32{5.5, 11, 22, 44}[bits], "the rate is not the one bits 2-3 denote")
	sym.Observe("rate", uint64(rate*2))
}

//verif:property C26
//verif:bounds every control byte, followed by 0..2 arbitrary bytes
func VideoBits() {
	b := sym.Byte("control")
	v := parsed(9, append([]byte{b}, sym.Bytes("rest", sym.Choose("n", 3))...)).(*data.Video)
	sym.Cover("video")
	sym.Assert(byte(v.Codec()) == b&15, "the codec is not the low four bits")
	sym.Assert(byte(v.Type()) == b>>4, "the frame type is not the high four bits")
	sym.Observe("type", uint64(v.Type()))
}

// Every codec and type constant names the messages the format says it does.
//
//verif:property C26
//verif:bounds every exported codec and type constant and every control byte
func Constants() {
	type con struct {
		id          string
		is          func(b byte) bool
		want, known byte // value, and the value of the listed finding
	}
	audio := func(x data.AudioCodec) func(byte) bool {
		return func(b byte) bool { return parsed(8, []byte{b}).(*data.Audio).Codec() == x }
	}
	video := func(x data.VideoCodec) func(byte) bool {
		return func(b byte) bool { return parsed(9, []byte{b}).(*data.Video).Codec() == x }
	}
	frame := func(x data.VideoType) func(byte) bool {
		return func(b byte) bool { return parsed(9, []byte{b}).(*data.Video).Type() == x }
	}
	sound := func(x data.AudioType) func(byte) bool {
		return func(b byte) bool { return parsed(8, []byte{b}).(*data.Audio).Type() == x }
	}
	cons := []con{
		{"C26-audio-codecs", audio(data.UncompressedAudioCodec), 0, 0},
		{"C26-audio-codecs", audio(data.ADPCMAudioCodec), 1, 1},
		{"C26-audio-codecs", audio(data.MP3AudioCodec), 2, 2},
		{"C26-audio-codecs", audio(data.UncompressedLittleEndianAudioCodec), 3, 3},
		{"C26-audio-codecs", audio(data.Nellymoser16AudioCodec), 4, 4},
		{"C26-audio-codecs", audio(data.Nellymoser8AudioCodec), 5, 5},
		{"C26-audio-codecs", audio(data.NellymoserAudioCodec), 6, 6},
		{"C26-audio-codecs", audio(data.G711AAudioCodec), 7, 7},
		{"C26-audio-codecs", audio(data.G711UAudioCodec), 8, 8},
		{"C26-audio-codecs", audio(data.HE_AACAudioCodec), 10, 9},
		{"C26-audio-codecs", audio(data.SPEEXAudioCodec), 11, 10},
		{"C26-video-codecs", video(data.SorensenH263VideoCodec), 2, 0},
		{"C26-video-codecs", video(data.ScreenVideoVideoCodec), 3, 1},
		{"C26-video-codecs", video(data.On2VP6VideoCodec), 4, 2},
		{"C26-video-codecs", video(data.On2VP6AlphaVideoCodec), 5, 3},
		{"C26-video-codecs", video(data.ScreenVideo2VideoCodec), 6, 4},
		{"C26-video-codecs", video(data.H264VideoCodec), 7, 5},
		{"C26-video-types", frame(data.KeyframeVideoType), 1, 0},
		{"C26-video-types", frame(data.InterframeVideoType), 2, 1},
		{"C26-video-types", frame(data.DisposableInterframeVideoType), 3, 2},
		{"C26-video-types", frame(data.GeneratedKeyFrameVideoType), 4, 3},
		{"C26-video-types", frame(data.CommandFrameVideoType), 5, 4},
		{"C26-audio-types", sound(data.MonoAudioType), 0, 0},
		{"C26-audio-types", sound(data.StereoAudioType), 1, 1},
	}
	k := sym.Choose("constant", len(cons))
	c := cons[k]
	b := sym.Byte("control")
	field := b >> 4 // audio codec, video frame type
	if c.id == "C26-video-codecs" {
		field = b & 15
	}
	if c.id == "C26-audio-types" {
		field = b & 1
	}
	got := c.is(b)
	sym.Cover("constant")
	if c.known != c.want {
		sym.Known(c.id, got == (field == c.known))
	}
	sym.Assert(got == (field == c.want), "a constant does not have the value the format gives it")
}

var _ = encoding.Marshal
