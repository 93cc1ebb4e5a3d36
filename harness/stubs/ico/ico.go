// Package ico is a stand-in for github.com/donnie4w/ico v0.0.1, which is not in the
// offline module cache. It offers only what the image package compiles against; no
// check exercises ICO output.
package ico

import (
	"errors"
	"image"
	"io"
)

type Options struct{ Thumbnails [][2]uint8 }

func Encode(w io.Writer, img image.Image, o *Options) error {
	return errors.New("ico: not available offline")
}
