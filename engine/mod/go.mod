module github.com/WatchBeam/rtmp

go 1.27.3

require github.com/WatchBeam/amf0 v0.0.0

replace github.com/WatchBeam/amf0 => /verif/stubs/amf0
