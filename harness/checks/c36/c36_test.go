// Image transforms on losslessly encoded input, against pixel-by-pixel definitions.
package c36

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/color/palette"
	"image/draw"
	"image/gif"
	"image/jpeg"
	"image/png"
	"math"
	"slices"
	"sync"
	"testing"

	"github.com/chai2010/webp"
	"github.com/disintegration/imaging"
	gi "github.com/donnie4w/gofer/image"
	"golang.org/x/image/bmp"
	"golang.org/x/image/tiff"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// pic is the model: 8-bit pixels.
type pic struct {
	w, h int
	p    []color.NRGBA
}

func newPic(w, h int) *pic { return &pic{w, h, make([]color.NRGBA, max(0, w*h))} }

func (p *pic) at(x, y int) color.NRGBA { return p.p[y*p.w+x] }

func (p *pic) each(w, h int, f func(x, y int) color.NRGBA) *pic {
	q := newPic(w, h)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			q.p[y*w+x] = f(x, y)
		}
	}
	return q
}

func (p *pic) crop(x0, y0, x1, y1 int) *pic {
	x0, y0, x1, y1 = max(x0, 0), max(y0, 0), min(x1, p.w), min(y1, p.h)
	if x0 >= x1 || y0 >= y1 {
		return newPic(0, 0)
	}
	return p.each(x1-x0, y1-y0, func(x, y int) color.NRGBA { return p.at(x+x0, y+y0) })
}

func (p *pic) gray() *pic {
	return p.each(p.w, p.h, func(x, y int) color.NRGBA {
		c := p.at(x, y)
		g := uint8(0.299*float64(c.R) + 0.587*float64(c.G) + 0.114*float64(c.B) + 0.5)
		return color.NRGBA{g, g, g, c.A}
	})
}

func (p *pic) invert() *pic {
	return p.each(p.w, p.h, func(x, y int) color.NRGBA {
		c := p.at(x, y)
		return color.NRGBA{255 - c.R, 255 - c.G, 255 - c.B, c.A}
	})
}

// left turns by a quarter, counter-clockwise.
func (p *pic) left() *pic {
	return p.each(p.h, p.w, func(x, y int) color.NRGBA { return p.at(p.w-1-y, x) })
}

func (p *pic) flipH() *pic {
	return p.each(p.w, p.h, func(x, y int) color.NRGBA { return p.at(p.w-1-x, y) })
}

func (p *pic) flipV() *pic {
	return p.each(p.w, p.h, func(x, y int) color.NRGBA { return p.at(x, p.h-1-y) })
}

func fromImage(img image.Image) *pic {
	b := img.Bounds()
	q := newPic(b.Dx(), b.Dy())
	for y := 0; y < q.h; y++ {
		for x := 0; x < q.w; x++ {
			q.p[y*q.w+x] = color.NRGBAModel.Convert(img.At(b.Min.X+x, b.Min.Y+y)).(color.NRGBA)
		}
	}
	return q
}

func (p *pic) same(q *pic) string {
	if p.w != q.w || p.h != q.h {
		return fmt.Sprintf("%dx%d instead of %dx%d", p.w, p.h, q.w, q.h)
	}
	for i := range p.p {
		if p.p[i] != q.p[i] {
			return fmt.Sprintf("pixel (%d,%d) is %v instead of %v", i%p.w, i/p.w, p.p[i], q.p[i])
		}
	}
	return ""
}

// close: the same within tol, where anything is visible.
func (p *pic) close(q *pic, tol int) string {
	if p.w != q.w || p.h != q.h {
		return fmt.Sprintf("%dx%d instead of %dx%d", p.w, p.h, q.w, q.h)
	}
	for i, a := range p.p {
		b := q.p[i]
		far := func(x, y uint8) bool { return int(x)-int(y) > tol || int(y)-int(x) > tol }
		if far(a.A, b.A) || a.A > 32 && (far(a.R, b.R) || far(a.G, b.G) || far(a.B, b.B)) {
			return fmt.Sprintf("pixel (%d,%d) is %v instead of %v", i%p.w, i/p.w, a, b)
		}
	}
	return ""
}

// The filters by number.
var filters = []imaging.ResampleFilter{imaging.NearestNeighbor, imaging.Box, imaging.Linear, imaging.Hermite, imaging.MitchellNetravali, imaging.CatmullRom, imaging.BSpline, imaging.Gaussian,
	imaging.Bartlett, imaging.Lanczos, imaging.Hann, imaging.Hamming, imaging.Blackman, imaging.Welch, imaging.Cosine}

type source struct {
	data   []byte
	pic    *pic
	format string
	lossy  bool // its own format does not keep every pixel
}

// Colours that every palette used here has.
var primary = color.Palette{color.NRGBA{0, 0, 0, 255}, color.NRGBA{255, 255, 255, 255}, color.NRGBA{255, 0, 0, 255}, color.NRGBA{0, 255, 0, 255}, color.NRGBA{0, 0, 255, 255}, color.NRGBA{0, 255, 255, 255}, color.NRGBA{255, 0, 255, 255}, color.NRGBA{255, 255, 0, 255}}

func side(t *rapid.T, label string, most int) int {
	switch rapid.IntRange(0, 5).Draw(t, label+".how") {
	case 0:
		return rapid.IntRange(1, 3).Draw(t, label)
	case 1:
		return rapid.IntRange(1, most).Draw(t, label)
	default:
		return rapid.IntRange(1, min(most, 40)).Draw(t, label)
	}
}

func drawSource(t *rapid.T, most int) source {
	w, hh := side(t, "w", most), side(t, "h", most)
	format := rapid.SampledFrom([]string{"png", "png", "png", "bmp", "tiff", "gif", "webp", "jpeg"}).Draw(t, "format")
	kind := rapid.IntRange(0, 3).Draw(t, "pixels") // opaque, with alpha, grey, paletted
	r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
	rect := image.Rect(0, 0, w, hh)
	var img draw.Image
	switch {
	case format == "gif":
		img = image.NewPaletted(rect, primary)
	case kind == 2 && format != "webp":
		img = image.NewGray(rect)
	case kind == 3 && (format == "png" || format == "bmp"):
		img = image.NewPaletted(rect, palette.Plan9)
	default:
		img = image.NewNRGBA(rect)
	}
	for y := 0; y < hh; y++ {
		for x := 0; x < w; x++ {
			v := r.Next()
			c := color.NRGBA{uint8(v), uint8(v >> 8), uint8(v >> 16), 255}
			if kind == 1 && format == "png" {
				c.A = uint8(v >> 24)
				if v>>32&7 == 0 {
					c.A = 0
				}
			}
			if format == "gif" {
				img.(*image.Paletted).SetColorIndex(x, y, uint8(v&7))
				continue
			}
			img.Set(x, y, c)
			if n, ok := img.(*image.NRGBA); ok {
				n.SetNRGBA(x, y, c)
			}
		}
	}
	var b bytes.Buffer
	var err error
	switch format {
	case "png":
		err = png.Encode(&b, img)
	case "bmp":
		err = bmp.Encode(&b, img)
	case "tiff":
		err = tiff.Encode(&b, img, &tiff.Options{Compression: tiff.CompressionType(rapid.IntRange(0, 1).Draw(t, "compression"))})
	case "gif":
		err = gif.Encode(&b, img, nil)
	case "webp":
		err = webp.Encode(&b, img, &webp.Options{Lossless: true})
	case "jpeg":
		err = jpeg.Encode(&b, img, &jpeg.Options{Quality: rapid.IntRange(1, 100).Draw(t, "jpeg.quality")})
	}
	if err != nil {
		panic(err)
	}
	back, _, err := image.Decode(bytes.NewReader(b.Bytes()))
	if err != nil {
		panic(err)
	}
	return source{b.Bytes(), fromImage(back), format, format == "webp" || format == "jpeg"}
}

func encode(t *rapid.T, c *h.C, f func() ([]byte, error), src []byte) ([]byte, error) {
	keep := bytes.Clone(src)
	var out []byte
	var err error
	p := h.Catch(func() { out, err = f() })
	h.Must(t, c, p == nil, "crashes: %v", p)
	h.Must(t, c, bytes.Equal(keep, src), "the input bytes changed")
	return out, err
}

func decode(t *rapid.T, c *h.C, b []byte) (*pic, string) {
	img, f, err := image.Decode(bytes.NewReader(b))
	h.Must(t, c, err == nil, "the result is not an image: %v", err)
	return fromImage(img), f
}

// Rotations by quarter turns, flips, inversion, greyscale and crops, alone and combined.
func TestExact(t *testing.T) {
	h.Check(t, 1500, 20000, func(t *rapid.T, c *h.C) {
		s := drawSource(t, 130)
		want := s.pic
		o := &gi.Options{}
		some := 0
		pick := func(label string) bool {
			v := rapid.IntRange(0, 2).Draw(t, label) == 0
			if v {
				some++
			}
			return v
		}
		rect := func(label string) []int {
			l := []int{rapid.IntRange(1, s.pic.w+3).Draw(t, label), rapid.IntRange(1, s.pic.h+3).Draw(t, label), rapid.IntRange(-3, s.pic.w+3).Draw(t, label), rapid.IntRange(-3, s.pic.h+3).Draw(t, label)}
			return l
		}
		empty := false
		if pick("anchored crop") {
			a := rect("anchor")
			o.CropAnchor = a
			want = want.crop(a[2], a[3], a[2]+a[0], a[3]+a[1])
			empty = empty || want.w == 0
		}
		if !empty && pick("side crop") {
			a := rect("side")
			o.CropSide = a
			// The rectangle is moved until it lies within the image.
			x, y := max(0, min(a[2], want.w-a[0])), max(0, min(a[3], want.h-a[1]))
			want = want.crop(x, y, x+a[0], y+a[1])
		}
		if pick("gray") {
			o.Gray = true
			want = want.gray()
		}
		if pick("invert") {
			o.Invert = true
			want = want.invert()
		}
		if pick("rotate") {
			k := rapid.SampledFrom([]int{1, 2, 3, 4, -1, -2, -3, 5, 8, 401}).Draw(t, "quarters")
			o.Rotate = 90 * k
			for i := 0; i < (k%4+4)%4; i++ {
				want = want.left()
			}
		}
		if pick("flip h") {
			o.FlipH = true
			want = want.flipH()
		}
		if pick("flip v") {
			o.FlipV = true
			want = want.flipV()
		}
		format := s.format
		if pick("format") {
			o.Format = rapid.SampledFrom([]string{"png", "png", "bmp", "tif", "tiff", "webp", "gif", "jpg", "jpeg"}).Draw(t, "to")
			format = o.Format
			switch format {
			case "tif":
				format = "tiff"
			case "jpg":
				format = "jpeg"
			}
		}
		opts := o
		if some == 0 && rapid.Bool().Draw(t, "no options") {
			opts = nil
		}
		c.Note("%s %dx%d %+v", s.format, s.pic.w, s.pic.h, *o)
		c.NonTrivialIf(some > 0)
		c.LabelIf(some > 1, "combined")
		im := &gi.Image{ResizeFilter: gi.ResampleFilter(rapid.IntRange(0, 15).Draw(t, "filter"))}
		out, err := encode(t, c, func() ([]byte, error) {
			return im.Encode(s.data, 0, 0, gi.Mode(rapid.IntRange(0, 5).Draw(t, "mode")), opts)
		}, s.data)
		if empty {
			return // a crop of nothing: it may be refused, without effect, or an image without pixels
		}
		h.Must(t, c, err == nil, "fails: %v", err)
		got, f := decode(t, c, out)
		h.Must(t, c, f == format, "the result is %s, want %s", f, format)
		// Only sizes are certain of lossy input and output, and of colours a GIF may not have.
		if s.format == "jpeg" || format == "jpeg" || format == "webp" && o.Format == "" || format == "gif" && (s.format != "gif" || o.Gray) {
			c.Label("size only")
			h.Must(t, c, got.w == want.w && got.h == want.h, "%dx%d instead of %dx%d", got.w, got.h, want.w, want.h)
			return
		}
		if format == "bmp" || format == "webp" { // colours under full transparency are not kept; bmp has no partial one
			for _, q := range []*pic{got, want} {
				for i := range q.p {
					if q.p[i].A == 0 {
						q.p[i] = color.NRGBA{}
					}
				}
			}
			alpha := slices.ContainsFunc(want.p, func(c color.NRGBA) bool { return c.A != 255 })
			if alpha {
				h.Must(t, c, got.w == want.w && got.h == want.h, "%dx%d instead of %dx%d", got.w, got.h, want.w, want.h)
				return
			}
		}
		why := got.same(want)
		h.Must(t, c, why == "", "%s", why)
	})
}

// near: a side computed from the other by the aspect ratio.
func near(got int, want float64) bool {
	return math.Abs(float64(got)-want) <= 1 || want < 1 && got == 1
}

// Every mode's size, as it follows from the requested sides.
func TestResize(t *testing.T) {
	h.Check(t, 1200, 15000, func(t *rapid.T, c *h.C) {
		s := drawSource(t, 200)
		w, hh := s.pic.w, s.pic.h
		ask := func(label string) int {
			switch rapid.IntRange(0, 5).Draw(t, label+".how") {
			case 0:
				return 0
			case 1:
				return rapid.SampledFrom([]int{w, hh, w + 1, hh + 1, max(1, w-1), max(1, hh-1)}).Draw(t, label)
			}
			return rapid.IntRange(1, max(w, hh)+5).Draw(t, label)
		}
		a, b := ask("width"), ask("height")
		mode := gi.Mode(rapid.IntRange(0, 5).Draw(t, "mode"))
		im := &gi.Image{ResizeFilter: gi.ResampleFilter(rapid.IntRange(0, 15).Draw(t, "filter"))}
		resize := rapid.Bool().Draw(t, "resize")
		c.Note("%s %dx%d to %d,%d mode %d filter %d resize %v", s.format, w, hh, a, b, mode, im.ResizeFilter, resize)
		c.NonTrivialIf(a+b > 0)
		c.Label(fmt.Sprintf("mode %d", mode))
		out, err := encode(t, c, func() ([]byte, error) {
			if resize {
				return im.Resize(s.data, a, b, mode)
			}
			return im.Encode(s.data, a, b, mode, nil)
		}, s.data)
		h.Must(t, c, err == nil, "fails: %v", err)
		got, f := decode(t, c, out)
		h.Must(t, c, f == s.format, "the result is %s, want %s", f, s.format)
		grow := (mode == gi.Mode1 || mode == gi.Mode5) && (a == 0 || b == 0) // the missing side is the other one
		h.Must(t, c, (grow || got.w <= w && got.h <= hh) && got.w > 0 && got.h > 0, "%dx%d becomes %dx%d", w, hh, got.w, got.h)
		if a == 0 && b == 0 {
			if s.lossy && !resize {
				h.Must(t, c, got.w == w && got.h == hh, "nothing asked for: %dx%d becomes %dx%d", w, hh, got.w, got.h)
				return
			}
			why := got.same(s.pic)
			h.Must(t, c, why == "", "nothing asked for: %s", why)
			return
		}
		// What is left of the picture, with the filter asked for.
		if f != "gif" && f != "jpeg" && f != "webp" && (got.w != w || got.h != hh) {
			img, _, _ := image.Decode(bytes.NewReader(s.data))
			filter := imaging.MitchellNetravali
			if n := int(im.ResizeFilter); n < len(filters) {
				filter = filters[n]
			}
			var want *image.NRGBA
			if mode == gi.Mode1 || mode == gi.Mode5 {
				want = imaging.Fill(img, got.w, got.h, imaging.Center, filter)
			} else {
				want = imaging.Resize(img, got.w, got.h, filter)
			}
			why := got.close(fromImage(want), 2)
			h.Must(t, c, why == "", "%dx%d to %dx%d, mode %d, filter %d: %s", w, hh, got.w, got.h, mode, im.ResizeFilter, why)
			c.Label("filtered")
		}
		// For upright images most modes take the two numbers as long and short side.
		x, y := a, b
		if w < hh {
			x, y = b, a
		}
		fw, fh := float64(w), float64(hh)
		r := fw / fh
		orig := got.w == w && got.h == hh
		whole := func(why string) {
			h.Must(t, c, orig, "%dx%d is resized to %dx%d although %s", w, hh, got.w, got.h, why)
		}
		if x > w && y > hh {
			whole("both sides asked for are larger")
			return
		}
		cover := func(x, y int) {
			if x == 0 {
				x = w
			}
			if y == 0 {
				y = hh
			}
			if x >= w || y >= hh {
				whole("a side asked for is not smaller")
				return
			}
			k := math.Max(float64(x)/fw, float64(y)/fh)
			h.Must(t, c, near(got.w, fw*k) && near(got.h, fh*k) && (got.w == x || got.h == y), "%dx%d is to cover %dx%d, gets %dx%d", w, hh, x, y, got.w, got.h)
		}
		switch mode {
		case gi.Mode0:
			if x == 0 {
				x = w
			}
			if y == 0 {
				y = hh
			}
			switch {
			case x >= w && y >= hh:
				whole("no side asked for is smaller")
			case x >= w || x < w && y < hh && x > y:
				h.Must(t, c, got.h == y && near(got.w, float64(y)*r), "height %d asked for: %dx%d becomes %dx%d", y, w, hh, got.w, got.h)
			default:
				h.Must(t, c, got.w == x && near(got.h, float64(x)/r), "width %d asked for: %dx%d becomes %dx%d", x, w, hh, got.w, got.h)
			}
		case gi.Mode1, gi.Mode5:
			if mode == gi.Mode1 {
				x, y = a, b
			}
			nw, nh := min(x, w), min(y, hh)
			if nw == 0 {
				nw = nh
			}
			if nh == 0 {
				nh = nw
			}
			// A missing side is the other one; it may not fit, which leaves it at the rest.
			h.Must(t, c, got.w == nw && got.h == nh || nw > w || nh > hh, "a thumbnail of %dx%d asked for: %dx%d becomes %dx%d", nw, nh, w, hh, got.w, got.h)
		case gi.Mode2:
			switch {
			case a == 0:
				k := float64(b) / fh
				if k >= 1 {
					whole("the height asked for is not smaller")
				} else if float64(b)*r >= 1 {
					h.Must(t, c, near(got.h, fh*k) && near(got.w, fw*k), "height %d asked for: %dx%d becomes %dx%d", b, w, hh, got.w, got.h)
				}
			case b == 0:
				k := float64(a) / fw
				if k >= 1 {
					whole("the width asked for is not smaller")
				} else if float64(a)/r >= 1 {
					h.Must(t, c, near(got.w, fw*k) && near(got.h, fh*k), "width %d asked for: %dx%d becomes %dx%d", a, w, hh, got.w, got.h)
				}
			default:
				cover(x, y)
			}
		case gi.Mode3:
			if a == 0 {
				a = b
			} else if b == 0 {
				b = a
			}
			cover(a, b)
		case gi.Mode4:
			if x == 0 {
				x = y
			} else if y == 0 {
				y = x
			}
			cover(x, y)
		}
	})
}

// Scaling to a box, with and without a pixel limit.
func TestScale(t *testing.T) {
	h.Check(t, 1200, 15000, func(t *rapid.T, c *h.C) {
		s := drawSource(t, 200)
		w, hh := s.pic.w, s.pic.h
		box := []int{rapid.IntRange(0, 150).Draw(t, "width"), rapid.IntRange(0, 150).Draw(t, "height")}
		// keep a very long image's cover within bounds
		lower := rapid.Bool().Draw(t, "lower")
		limit := 0
		if rapid.Bool().Draw(t, "limited") || !lower && (w > 20*hh || hh > 20*w) {
			limit = rapid.OneOf(rapid.IntRange(1, 30), rapid.IntRange(1, 30000)).Draw(t, "limit")
			box = append(box, limit)
		}
		o := &gi.Options{}
		if lower {
			o.ScaleLower = box
		} else {
			o.ScaleUpper = box
		}
		c.Note("%s %dx%d lower %v %v", s.format, w, hh, lower, box)
		c.NonTrivial()
		c.LabelIf(limit > 0, "pixel limit")
		out, err := encode(t, c, func() ([]byte, error) { return (&gi.Image{}).Encode(s.data, 0, 0, gi.Mode0, o) }, s.data)
		h.Must(t, c, err == nil, "fails: %v", err)
		got, _ := decode(t, c, out)
		h.Must(t, c, got.w > 0 && got.h > 0, "%dx%d becomes %dx%d", w, hh, got.w, got.h)
		h.Must(t, c, limit == 0 || got.w*got.h <= limit, "%dx%d becomes %dx%d: more than %d pixels", w, hh, got.w, got.h, limit)
		x, y := float64(max(1, box[0])), float64(max(1, box[1]))
		kx, ky := x/float64(w), y/float64(hh)
		k := math.Max(kx, ky)
		if lower {
			k = math.Min(kx, ky)
		}
		fw, fh := k*float64(w), k*float64(hh)
		if limit > 0 && math.Max(1, math.Floor(fw))*math.Max(1, math.Floor(fh)) > float64(limit) {
			q := math.Sqrt(float64(limit) / (fw * fh))
			// The ratio can be kept only as far as the sides have room for it.
			if gw, gh := fw*q, fh*q; fw >= 8 && fh >= 8 && gw >= 3 && gh >= 3 {
				h.Must(t, c, math.Abs(float64(got.w)-gw) <= 2+gw/8 && math.Abs(float64(got.h)-gh) <= 2+gh/8, "%dx%d at most %d pixels: %dx%d, want about %.1fx%.1f", w, hh, limit, got.w, got.h, gw, gh)
			}
			return
		}
		if lower {
			h.Must(t, c, float64(got.w) <= x && float64(got.h) <= y, "%dx%d is to fit %vx%v, gets %dx%d", w, hh, x, y, got.w, got.h)
		}
		h.Must(t, c, near(got.w, fw) && near(got.h, fh), "%dx%d scaled to %vx%v (lower %v) gets %dx%d, want about %.1fx%.1f", w, hh, x, y, lower, got.w, got.h, fw, fh)
	})
}

// Animated GIFs.
func TestGIF(t *testing.T) {
	h.Check(t, 300, 4000, func(t *rapid.T, c *h.C) {
		w, hh := side(t, "w", 120), side(t, "h", 60)
		frames := rapid.IntRange(1, 6).Draw(t, "frames")
		g := &gif.GIF{LoopCount: rapid.IntRange(-1, 4).Draw(t, "loop"), Config: image.Config{Width: w, Height: hh, ColorModel: color.Palette(palette.WebSafe)}}
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		var union image.Rectangle
		var plainAt []color.Color // frames of one colour
		pals := []color.Palette{palette.WebSafe, palette.Plan9, {color.Black, color.White}, {color.NRGBA{}, color.NRGBA{255, 0, 0, 255}, color.NRGBA{0, 255, 0, 255}}}
		for i := 0; i < frames; i++ {
			rect := image.Rect(0, 0, w, hh)
			if rapid.Bool().Draw(t, "partial") {
				x, y := rapid.IntRange(0, w-1).Draw(t, "x"), rapid.IntRange(0, hh-1).Draw(t, "y")
				rect = image.Rect(x, y, rapid.IntRange(x+1, w).Draw(t, "x1"), rapid.IntRange(y+1, hh).Draw(t, "y1"))
			}
			m := image.NewPaletted(rect, pals[rapid.IntRange(0, len(pals)-1).Draw(t, "palette")])
			one := uint8(r.Next() % uint64(len(m.Palette)))
			uniform := rapid.IntRange(0, 2).Draw(t, "uniform") == 0
			for k := range m.Pix {
				m.Pix[k] = uint8(r.Next() % uint64(len(m.Palette)))
				if uniform {
					m.Pix[k] = one
				}
			}
			union = union.Union(rect)
			plainAt = append(plainAt, nil)
			if _, _, _, a := m.Palette[one].RGBA(); uniform && rect == image.Rect(0, 0, w, hh) && a == 0xffff {
				plainAt[i] = m.Palette[one]
			}
			g.Image = append(g.Image, m)
			g.Delay = append(g.Delay, rapid.SampledFrom([]int{0, 1, 5, 10, 100, 65535}).Draw(t, "delay"))
			g.Disposal = append(g.Disposal, byte(rapid.IntRange(0, 3).Draw(t, "disposal")))
		}
		var b bytes.Buffer
		if err := gif.EncodeAll(&b, g); err != nil {
			panic(err)
		}
		src := b.Bytes()
		a, bb := rapid.IntRange(0, w+5).Draw(t, "width"), rapid.IntRange(0, hh+5).Draw(t, "height")
		c.Note("%dx%d %d frames delays %v to %d,%d", w, hh, frames, g.Delay, a, bb)
		c.NonTrivialIf(frames > 1)
		out, err := encode(t, c, func() ([]byte, error) { return gi.ResizeGIF(src, a, bb) }, src)
		h.Must(t, c, err == nil, "fails: %v", err)
		q, err := gif.DecodeAll(bytes.NewReader(out))
		h.Must(t, c, err == nil, "the result is not a GIF: %v", err)
		h.Must(t, c, len(q.Image) == frames && slices.Equal(q.Delay, g.Delay), "%d frames with delays %v become %d with %v", frames, g.Delay, len(q.Image), q.Delay)
		before, err := gif.DecodeAll(bytes.NewReader(src)) // as the encoder wrote them
		h.Must(t, c, err == nil && slices.Equal(q.Disposal, before.Disposal), "the frames' disposals %v become %v", before.Disposal, q.Disposal)
		h.Must(t, c, frames == 1 || q.LoopCount == g.LoopCount, "loop count %d becomes %d", g.LoopCount, q.LoopCount)
		k := 1.0
		if a > 0 {
			k = math.Min(k, float64(a)/float64(w))
		}
		if bb > 0 {
			k = math.Min(k, float64(bb)/float64(hh))
		}
		for i, m := range q.Image {
			h.Must(t, c, m.Bounds().In(image.Rect(0, 0, q.Config.Width, q.Config.Height)), "frame %d reaches beyond the image", i)
		}
		if union != image.Rect(0, 0, w, hh) {
			return // no frame reaches every side
		}
		h.Must(t, c, near(q.Config.Width, float64(w)*k) && near(q.Config.Height, float64(hh)*k), "%dx%d to %d,%d becomes %dx%d", w, hh, a, bb, q.Config.Width, q.Config.Height)
		for i, m := range q.Image {
			if plainAt[i] == nil {
				continue
			}
			c.Label("a frame of one colour")
			want := color.NRGBAModel.Convert(plainAt[i])
			h.Must(t, c, m.Bounds() == image.Rect(0, 0, q.Config.Width, q.Config.Height), "frame %d of the whole image covers %v of %dx%d", i, m.Bounds(), q.Config.Width, q.Config.Height)
			for k := range m.Pix {
				got := color.NRGBAModel.Convert(m.At(k%m.Rect.Dx(), k/m.Rect.Dx()))
				h.Must(t, c, got == want, "frame %d is all %v, and %v at %d,%d when resized", i, want, got, k%m.Rect.Dx(), k/m.Rect.Dx())
			}
		}
	})
}

// What is no image, or a damaged one, crashes nothing and is left alone.
func TestGarbage(t *testing.T) {
	h.Check(t, 800, 10000, func(t *rapid.T, c *h.C) {
		var data []byte
		whole := false
		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0:
			data = h.Bytes(t, "data", 300)
		default:
			s := drawSource(t, 40)
			data = bytes.Clone(s.data)
			if rapid.Bool().Draw(t, "gif or jpeg") {
				var b bytes.Buffer
				m := image.NewNRGBA(image.Rect(0, 0, 9, 7))
				if rapid.Bool().Draw(t, "gif") {
					gif.Encode(&b, m, nil)
				} else {
					jpeg.Encode(&b, m, nil)
				}
				data = b.Bytes()
			}
			// The sizes in the header stay: a damaged size may ask for any amount of memory.
			head := min(len(data), 160)
			switch {
			case rapid.Bool().Draw(t, "cut"):
				data = data[:rapid.IntRange(0, len(data)-1).Draw(t, "at")]
			case len(data) > head && !bytes.HasPrefix(data, []byte("II")) && !bytes.HasPrefix(data, []byte("MM")): // TIFF keeps sizes and offsets everywhere
				data[rapid.IntRange(head, len(data)-1).Draw(t, "where")] ^= byte(rapid.IntRange(1, 255).Draw(t, "by"))
			default:
				whole = true
			}
		}
		_, _, derr := image.Decode(bytes.NewReader(data))
		o := &gi.Options{Rotate: 90 * rapid.IntRange(0, 3).Draw(t, "quarters"), Gray: rapid.Bool().Draw(t, "gray"), FlipH: rapid.Bool().Draw(t, "flip")}
		a, b := rapid.IntRange(-3, 30).Draw(t, "width"), rapid.IntRange(-3, 30).Draw(t, "height")
		c.Note("%d bytes decodable %v whole %v to %d,%d %+v", len(data), derr == nil, whole, a, b, *o)
		c.Key(data)
		c.NonTrivial()
		c.LabelIf(derr == nil, "still decodable")
		im := &gi.Image{}
		out, err := encode(t, c, func() ([]byte, error) {
			return im.Encode(data, a, b, gi.Mode(rapid.IntRange(-1, 7).Draw(t, "mode")), o)
		}, data)
		if derr != nil {
			h.Must(t, c, err != nil || bytes.Equal(out, data), "input that is no image comes back changed")
		} else {
			h.Must(t, c, err == nil, "fails: %v", err)
		}
		out, err = encode(t, c, func() ([]byte, error) { return im.Resize(data, a, b, gi.Mode0) }, data)
		h.Must(t, c, derr == nil || err != nil || bytes.Equal(out, data), "input that is no image comes back changed")
		out, err = encode(t, c, func() ([]byte, error) { return gi.QualityByBinary(data, rapid.IntRange(-2, 30).Draw(t, "quality")) }, data)
		h.Must(t, c, derr == nil || err != nil || bytes.Equal(out, data), "input that is no image comes back changed")
		_, gerr := gif.DecodeAll(bytes.NewReader(data))
		out, err = encode(t, c, func() ([]byte, error) { return gi.ResizeGIF(data, max(0, a), max(0, b)) }, data)
		h.Must(t, c, gerr == nil || err != nil || bytes.Equal(out, data), "input that is no GIF comes back changed")
	})
}

// Re-encoding at another quality keeps the pixels of lossless formats and every size.
func TestQuality(t *testing.T) {
	h.Check(t, 300, 4000, func(t *rapid.T, c *h.C) {
		s := drawSource(t, 90)
		q := rapid.IntRange(1, 30).Draw(t, "quality")
		c.Note("%s %dx%d quality %d", s.format, s.pic.w, s.pic.h, q)
		c.NonTrivial()
		out, err := encode(t, c, func() ([]byte, error) { return gi.QualityByBinary(s.data, q) }, s.data)
		h.Must(t, c, err == nil, "fails: %v", err)
		got, f := decode(t, c, out)
		if s.lossy {
			h.Must(t, c, f == s.format && got.w == s.pic.w && got.h == s.pic.h, "%s of %dx%d re-encoded as %s of %dx%d", s.format, s.pic.w, s.pic.h, f, got.w, got.h)
			return
		}
		why := got.same(s.pic)
		h.Must(t, c, why == "" && f == s.format, "re-encoded as %s: %s", f, why)
	})
}

// One value used by several goroutines at once.
func TestConcurrent(t *testing.T) {
	h.Check(t, 60, 600, func(t *rapid.T, c *h.C) {
		n := rapid.IntRange(2, 8).Draw(t, "goroutines")
		im := &gi.Image{}
		var srcs []source
		for i := 0; i < n; i++ {
			srcs = append(srcs, drawSource(t, 60))
		}
		c.Note("%d goroutines", n)
		c.NonTrivial()
		bad := make([]string, n)
		var wg sync.WaitGroup
		for i, s := range srcs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				out, err := im.Encode(s.data, 0, 0, gi.Mode0, &gi.Options{FlipH: true, Invert: true, Rotate: 270})
				if err != nil {
					bad[i] = err.Error()
					return
				}
				img, _, err := image.Decode(bytes.NewReader(out))
				if err != nil {
					bad[i] = err.Error()
					return
				}
				got, want := fromImage(img), s.pic.invert().left().left().left().flipH()
				if bad[i] = got.same(want); s.lossy && got.w == want.w && got.h == want.h {
					bad[i] = ""
				}
			}()
		}
		wg.Wait()
		for i := range bad {
			h.Must(t, c, bad[i] == "", "goroutine %d: %s", i, bad[i])
		}
	})
}
