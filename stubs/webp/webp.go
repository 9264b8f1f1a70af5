// Package webp declares the API of github.com/chai2010/webp that /repo uses,
// so that package image type-checks without cgo.
package webp

import (
	"image"
	"io"
)

type Options struct {
	Lossless bool
	Quality  float32
	Exact    bool
}

func Encode(w io.Writer, m image.Image, opt *Options) error { panic("stub") }
