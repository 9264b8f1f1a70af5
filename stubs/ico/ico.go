// Package ico declares the API of github.com/donnie4w/ico that /repo uses, so
// that package image type-checks without the module, which is not cached.
package ico

import (
	"image"
	"io"
)

type Options struct{ Thumbnails [][2]uint8 }

func Encode(w io.Writer, m image.Image, opt *Options) error { panic("stub") }
