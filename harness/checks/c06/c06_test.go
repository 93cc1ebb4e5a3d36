package c06

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sync"
	"testing"

	athrift "github.com/apache/thrift/lib/go/thrift"
	"github.com/donnie4w/gofer/keystore"
	gthrift "github.com/donnie4w/gofer/thrift"
	"github.com/donnie4w/gofer/util"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/emptypb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type Inner struct {
	Name string
	Nums []int64
	P    *int32
}

type Rec struct {
	I   int64
	U   uint64
	I8  int8
	F   float64
	B   bool
	S   string
	Raw []byte
	L   []string
	M   map[string]int64
	MM  map[string]Inner
	N   *Inner
}

func text(t *rapid.T, l string) string {
	switch rapid.IntRange(0, 3).Draw(t, l+".how") {
	case 0:
		return rapid.StringN(0, 12, -1).Draw(t, l)
	case 1:
		return rapid.StringMatching(`[ -~]{0,20}`).Draw(t, l)
	case 2:
		return rapid.SampledFrom([]string{"", "\"", "\\", "<&>", "\u2028", "\x00", "日本語", "a\nb\tc", "{}", "null", "\U0001F600"}).Draw(t, l)
	default:
		return string(bytes.Repeat([]byte{'x'}, h.Size(t, l, 600)))
	}
}

func raw(t *rapid.T, l string) string { return string(h.Bytes(t, l, 500)) }

func inner(t *rapid.T, l string) Inner {
	in := Inner{Name: text(t, l+".name")}
	n := rapid.IntRange(0, 4).Draw(t, l+".n")
	for i := 0; i < n; i++ {
		in.Nums = append(in.Nums, h.Int64(t, l+".num"))
	}
	if rapid.Bool().Draw(t, l+".hasP") {
		p := int32(h.Int64(t, l+".p")) | 1 // gob drops pointers to zero values
		in.P = &p
	}
	return in
}

func rec(t *rapid.T) Rec {
	r := Rec{I: h.Int64(t, "I"), U: uint64(h.Int64(t, "U")), I8: int8(h.Int64(t, "I8")), B: rapid.Bool().Draw(t, "B"), S: text(t, "S"), Raw: h.Bytes(t, "Raw", 300)}
	r.F = rapid.Float64().Draw(t, "F")
	if math.IsNaN(r.F) || math.IsInf(r.F, 0) || r.F == 0 { // (gob drops negative zero)
		r.F = 1.5
	}
	for i := rapid.IntRange(0, 3).Draw(t, "nl"); i > 0; i-- {
		r.L = append(r.L, text(t, "L"))
	}
	if n := rapid.IntRange(0, 3).Draw(t, "nm"); n > 0 {
		r.M, r.MM = map[string]int64{}, map[string]Inner{}
		for i := 0; i < n; i++ {
			r.M[text(t, "mk")] = h.Int64(t, "mv")
			r.MM[text(t, "mmk")] = inner(t, "mmv")
		}
	}
	if rapid.Bool().Draw(t, "hasN") {
		x := inner(t, "N")
		r.N = &x
	}
	return r
}

// show prints a value with nil and empty slices and maps alike.
func show(v any) string { return fmt.Sprintf("%#v", norm(reflect.ValueOf(v))) }

func norm(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return norm(v.Elem())
	case reflect.Struct:
		var out []any
		for i := 0; i < v.NumField(); i++ {
			out = append(out, norm(v.Field(i)))
		}
		return out
	case reflect.Map:
		out := map[string]any{}
		for _, k := range v.MapKeys() {
			out[k.String()] = norm(v.MapIndex(k))
		}
		return out
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return string(v.Bytes())
		}
		var out []any
		for i := 0; i < v.Len(); i++ {
			out = append(out, norm(v.Index(i)))
		}
		return out
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return v.Int()
	case reflect.Uint64:
		return v.Uint()
	case reflect.Float64:
		return math.Float64bits(v.Float())
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return v.String()
	}
	return v.Interface()
}

func TestJSONAndGob(t *testing.T) {
	h.Check(t, 3000, 40000, func(t *rapid.T, c *h.C) {
		r := rec(t)
		w := show(r)
		c.Note("%.300s", w)
		c.Key([]byte(w))
		c.NonTrivialIf(len(r.M) > 0 || r.N != nil || len(r.Raw) > 0)
		js := util.JsonEncode(r)
		gb, err := util.Encode(&r)
		h.Must(t, c, err == nil, "gob encode: %v", err)
		jk, gk := append([]byte(nil), js...), append([]byte(nil), gb...)
		// other values encoded and decoded in between must not matter
		r2 := rec(t)
		util.JsonDecode[Rec](util.JsonEncode(r2))
		if b2, err := util.Encode(r2); err == nil {
			util.Decode[Rec](b2)
		}
		h.Must(t, c, bytes.Equal(js, jk) && bytes.Equal(gb, gk), "a later call changed encoded bytes")
		jr, err := util.JsonDecode[Rec](js)
		h.Must(t, c, err == nil && show(jr) == w, "json round trip: %v\n got  %.600s\n want %.600s", err, show(jr), w)
		gr, err := util.Decode[Rec](gb)
		h.Must(t, c, err == nil && gr != nil && show(*gr) == w, "gob round trip: %v\n got  %.600s\n want %.600s", err, show(gr), w)
		// decoded values do not share memory with the encoded bytes
		for i := range gb {
			gb[i] ^= 0xff
		}
		for i := range js {
			js[i] ^= 0xff
		}
		h.Must(t, c, show(jr) == w && show(*gr) == w, "a decoded value changed when the encoded bytes were overwritten")
		// text that JSON does not allow
		bad := append([]byte(nil), jk...)
		if rapid.Bool().Draw(t, "trailing") {
			bad = append(bad, rapid.SampledFrom([]string{"}", "]", "{}", "x", " 1", "\x00", "\n{", ",", "\"", " \t\n"}).Draw(t, "tail")...)
		} else {
			bad[rapid.IntRange(0, len(bad)-1).Draw(t, "badAt")] = rapid.SampledFrom([]byte("{}[],:\"\\x0 \x00\xff")).Draw(t, "badByte")
		}
		if !json.Valid(bad) {
			c.Label("not JSON")
			_, err = util.JsonDecode[Rec](bad)
			_, err2 := util.JsonDecode[any](bad)
			h.Must(t, c, err != nil && err2 != nil, "text that is not JSON decodes without error: %.300q", bad)
		}
		// truncation
		n := rapid.IntRange(0, len(jk)-1).Draw(t, "cutJ")
		_, err = util.JsonDecode[Rec](jk[:n])
		h.Must(t, c, err != nil, "json of %d bytes truncated to %d decodes without error", len(jk), n)
		n = rapid.IntRange(0, len(gk)-1).Draw(t, "cutG")
		_, err = util.Decode[Rec](gk[:n])
		h.Must(t, c, err != nil, "gob of %d bytes truncated to %d decodes without error", len(gk), n)
	})
}

// tree draws what a JSON text without a schema can hold.
func tree(t *rapid.T, depth int) any {
	kind := rapid.IntRange(0, 7).Draw(t, "kind")
	if depth == 0 {
		kind %= 5
	}
	switch kind {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "bool")
	case 2:
		return float64(h.Int64(t, "int"))
	case 3:
		return rapid.Float64Range(-1e300, 1e300).Draw(t, "float")
	case 4:
		return text(t, "text")
	case 5, 6:
		m := map[string]any{}
		for i := rapid.IntRange(0, 4).Draw(t, "members"); i > 0; i-- {
			m[text(t, "key")] = tree(t, depth-1)
		}
		return m
	default:
		l := []any{}
		for i := rapid.IntRange(0, 4).Draw(t, "elements"); i > 0; i-- {
			l = append(l, tree(t, depth-1))
		}
		return l
	}
}

// loose is a record with members of any type.
type loose struct {
	A any            `json:"a"`
	M map[string]any `json:"m"`
	L []any
}

// Values without a schema come back with the types JSON gives them.
func TestJSONTrees(t *testing.T) {
	h.Check(t, 3000, 30000, func(t *rapid.T, c *h.C) {
		v := tree(t, 4)
		c.Note("%.300v", v)
		c.NonTrivialIf(v != nil)
		b := util.JsonEncode(v)
		got, err := util.JsonDecode[any](b)
		h.Must(t, c, err == nil && reflect.DeepEqual(got, v), "json round trip: %v\n got  %#v\n want %#v", err, got, v)
		x := loose{v, map[string]any{"k": v, "": tree(t, 1)}, []any{tree(t, 1), v}}
		back, err := util.JsonDecode[loose](util.JsonEncode(x))
		h.Must(t, c, err == nil && reflect.DeepEqual(back, x), "json round trip: %v\n got  %#v\n want %#v", err, back, x)
	})
}

// Scalars and containers at top level.
func TestTopLevel(t *testing.T) {
	h.Check(t, 3000, 30000, func(t *rapid.T, c *h.C) {
		i, s, f := h.Int64(t, "i"), text(t, "s"), rapid.Float64Range(-1e300, 1e300).Draw(t, "f")
		m := map[string]int64{s: i}
		l := []string{s, text(t, "s2")}
		c.Note("%d %q %v", i, s, f)
		c.NonTrivial()
		ji, e1 := util.JsonDecode[int64](util.JsonEncode(i))
		js, e2 := util.JsonDecode[string](util.JsonEncode(s))
		jf, e3 := util.JsonDecode[float64](util.JsonEncode(f))
		jm, e4 := util.JsonDecode[map[string]int64](util.JsonEncode(m))
		jl, e5 := util.JsonDecode[[]string](util.JsonEncode(l))
		jp, e6 := util.JsonDecode[*Inner](util.JsonEncode(&Inner{Name: s}))
		h.Must(t, c, e1 == nil && e2 == nil && e3 == nil && e4 == nil && e5 == nil && e6 == nil, "json errors %v %v %v %v %v %v", e1, e2, e3, e4, e5, e6)
		h.Must(t, c, ji == i && js == s && jf == f && show(jm) == show(m) && show(jl) == show(l) && jp != nil && jp.Name == s, "json: got %v %q %v %v %v", ji, js, jf, jm, jl)
		enc := func(v any) []byte {
			b, err := util.Encode(v)
			h.Must(t, c, err == nil, "gob encode %v: %v", v, err)
			return b
		}
		gi, e1 := util.Decode[int64](enc(i))
		gs, e2 := util.Decode[string](enc(s))
		gf, e3 := util.Decode[float64](enc(f))
		gm, e4 := util.Decode[map[string]int64](enc(m))
		gl, e5 := util.Decode[[]string](enc(l))
		h.Must(t, c, e1 == nil && e2 == nil && e3 == nil && e4 == nil && e5 == nil, "gob errors %v %v %v %v %v", e1, e2, e3, e4, e5)
		h.Must(t, c, *gi == i && *gs == s && *gf == f && show(*gm) == show(m) && show(*gl) == show(l), "gob: got %v %q %v %v %v", *gi, *gs, *gf, *gm, *gl)
	})
}

func user(t *rapid.T, l string) *keystore.UserBean {
	return &keystore.UserBean{Name: raw(t, l+".name"), Pwd: raw(t, l+".pwd"), Type: int8(h.Int64(t, l+".type"))}
}

func users(t *rapid.T, l string) map[string]*keystore.UserBean {
	m := map[string]*keystore.UserBean{}
	for i := rapid.IntRange(0, 5).Draw(t, l+".n"); i > 0; i-- {
		m[raw(t, l+".key")] = user(t, l)
	}
	return m
}

func keys(t *rapid.T) *keystore.KeyBean {
	k := &keystore.KeyBean{Admin: users(t, "admin"), Client: users(t, "client"), Mq: users(t, "mq"), Other: map[string]string{}}
	for i := rapid.IntRange(0, 5).Draw(t, "other.n"); i > 0; i-- {
		k.Other[raw(t, "other.key")] = raw(t, "other.val")
	}
	return k
}

func TestThriftBeans(t *testing.T) {
	h.Check(t, 2500, 30000, func(t *rapid.T, c *h.C) {
		k := keys(t)
		w := show(k)
		c.Note("%.300q", w)
		c.Key([]byte(w))
		c.NonTrivialIf(len(k.Admin)+len(k.Client)+len(k.Mq)+len(k.Other) > 0)
		b := util.TEncode(k)
		keep := append([]byte(nil), b...)
		util.TEncode(&keystore.UserBean{Name: "other", Pwd: "other", Type: 3})
		h.Must(t, c, bytes.Equal(b, keep), "a later call changed encoded bytes")
		got, err := util.TDecode(b, &keystore.KeyBean{})
		h.Must(t, c, err == nil && show(got) == w, "round trip: %v\n got  %.500q\n want %.500q", err, show(got), w)
		h.Must(t, c, got.Equals(k) && k.Equals(got), "the decoded record is not Equal to the original")
		u := user(t, "u")
		ub := util.TEncode(u)
		gu, err := util.TDecode(ub, keystore.NewUserBean())
		h.Must(t, c, err == nil && show(gu) == show(u) && gu.Equals(u), "user round trip: %v got %v want %v", err, gu, u)
		v := user(t, "v")
		h.Must(t, c, u.Equals(v) == (show(u) == show(v)), "Equals(%v, %v) = %v", u, v, u.Equals(v))
		n := rapid.IntRange(0, len(keep)-1).Draw(t, "cut")
		_, err = util.TDecode(keep[:n], &keystore.KeyBean{})
		h.Must(t, c, err != nil, "%d bytes truncated to %d decode without error", len(keep), n)
		n = rapid.IntRange(0, len(ub)-1).Draw(t, "cutU")
		_, err = util.TDecode(ub[:n], keystore.NewUserBean())
		h.Must(t, c, err != nil, "user: %d bytes truncated to %d decode without error", len(ub), n)
		// malformed: no crash
		m := append([]byte(nil), ub...)
		m[rapid.IntRange(0, len(m)-1).Draw(t, "at")] = rapid.Byte().Draw(t, "byte")
		p := h.Catch(func() { util.TDecode(m, keystore.NewUserBean()) })
		h.Must(t, c, p == nil, "malformed input crashes: %v", p)
	})
}

// ts is a hand-written record for the package that uses Apache's runtime.
type ts struct {
	B   bool
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	D   float64
	S   string
	Bin []byte
	L   []int64
	M   map[string]string
}

func (x *ts) Write(ctx context.Context, p athrift.TProtocol) error {
	p.WriteStructBegin(ctx, "ts")
	f := func(id int16, ty athrift.TType, w func() error) {
		p.WriteFieldBegin(ctx, "f", ty, id)
		w()
		p.WriteFieldEnd(ctx)
	}
	f(1, athrift.BOOL, func() error { return p.WriteBool(ctx, x.B) })
	f(2, athrift.BYTE, func() error { return p.WriteByte(ctx, x.I8) })
	f(3, athrift.I16, func() error { return p.WriteI16(ctx, x.I16) })
	f(4, athrift.I32, func() error { return p.WriteI32(ctx, x.I32) })
	f(5, athrift.I64, func() error { return p.WriteI64(ctx, x.I64) })
	f(6, athrift.DOUBLE, func() error { return p.WriteDouble(ctx, x.D) })
	f(7, athrift.STRING, func() error { return p.WriteString(ctx, x.S) })
	f(8, athrift.STRING, func() error { return p.WriteBinary(ctx, x.Bin) })
	f(9, athrift.LIST, func() error {
		p.WriteListBegin(ctx, athrift.I64, len(x.L))
		for _, v := range x.L {
			p.WriteI64(ctx, v)
		}
		return p.WriteListEnd(ctx)
	})
	f(10, athrift.MAP, func() error {
		p.WriteMapBegin(ctx, athrift.STRING, athrift.STRING, len(x.M))
		for k, v := range x.M {
			p.WriteString(ctx, k)
			p.WriteString(ctx, v)
		}
		return p.WriteMapEnd(ctx)
	})
	p.WriteFieldStop(ctx)
	return p.WriteStructEnd(ctx)
}

func (x *ts) Read(ctx context.Context, p athrift.TProtocol) (err error) {
	if _, err = p.ReadStructBegin(ctx); err != nil {
		return
	}
	for {
		_, ty, id, err := p.ReadFieldBegin(ctx)
		if err != nil {
			return err
		}
		if ty == athrift.STOP {
			break
		}
		switch id {
		case 1:
			x.B, err = p.ReadBool(ctx)
		case 2:
			x.I8, err = p.ReadByte(ctx)
		case 3:
			x.I16, err = p.ReadI16(ctx)
		case 4:
			x.I32, err = p.ReadI32(ctx)
		case 5:
			x.I64, err = p.ReadI64(ctx)
		case 6:
			x.D, err = p.ReadDouble(ctx)
		case 7:
			x.S, err = p.ReadString(ctx)
		case 8:
			x.Bin, err = p.ReadBinary(ctx)
		case 9:
			var n int
			_, n, err = p.ReadListBegin(ctx)
			for i := 0; i < n && err == nil; i++ {
				var v int64
				v, err = p.ReadI64(ctx)
				x.L = append(x.L, v)
			}
		case 10:
			var n int
			_, _, n, err = p.ReadMapBegin(ctx)
			x.M = map[string]string{}
			for i := 0; i < n && err == nil; i++ {
				var k, v string
				if k, err = p.ReadString(ctx); err == nil {
					v, err = p.ReadString(ctx)
				}
				x.M[k] = v
			}
		default:
			err = p.Skip(ctx, ty)
		}
		if err != nil {
			return err
		}
		p.ReadFieldEnd(ctx)
	}
	return p.ReadStructEnd(ctx)
}

func genTS(t *rapid.T) *ts {
	x := &ts{B: rapid.Bool().Draw(t, "b"), I8: int8(h.Int64(t, "i8")), I16: int16(h.Int64(t, "i16")), I32: int32(h.Int64(t, "i32")), I64: h.Int64(t, "i64"),
		D: rapid.Float64().Draw(t, "d"), S: raw(t, "s"), Bin: h.Bytes(t, "bin", 3000), M: map[string]string{}}
	for i := rapid.IntRange(0, 20).Draw(t, "l"); i > 0; i-- {
		x.L = append(x.L, h.Int64(t, "l.v"))
	}
	for i := rapid.IntRange(0, 4).Draw(t, "m"); i > 0; i-- {
		x.M[raw(t, "m.k")] = raw(t, "m.v")
	}
	return x
}

func TestThriftPackage(t *testing.T) {
	h.Check(t, 2500, 30000, func(t *rapid.T, c *h.C) {
		x := genTS(t)
		w := show(x)
		c.Note("%.300q", w)
		c.Key([]byte(w))
		c.NonTrivial()
		b := gthrift.TEncode(x)
		keep := append([]byte(nil), b...)
		gthrift.TEncode(genTS(t))
		h.Must(t, c, bytes.Equal(b, keep), "a later call changed encoded bytes")
		// the bytes are thrift compact protocol
		buf := athrift.NewTMemoryBuffer()
		x2 := *x
		pr := athrift.NewTCompactProtocolConf(buf, nil)
		x2.M = nil
		x2.Write(context.Background(), pr)
		x1 := *x
		x1.M = nil
		h.Must(t, c, bytes.Equal(gthrift.TEncode(&x1), buf.Bytes()), "not the compact protocol encoding")
		got, err := gthrift.TDecode(b, &ts{})
		h.Must(t, c, err == nil && show(got) == w, "round trip: %v\n got  %.500q\n want %.500q", err, show(got), w)
		n := rapid.IntRange(0, len(keep)-1).Draw(t, "cut")
		_, err = gthrift.TDecode(keep[:n], &ts{})
		h.Must(t, c, err != nil, "%d bytes truncated to %d decode without error", len(keep), n)
	})
}

func pvalue(t *rapid.T, depth int) *structpb.Value {
	k := rapid.IntRange(0, 5).Draw(t, "pk")
	if depth == 0 && k > 3 {
		k = 2
	}
	switch k {
	case 0:
		return structpb.NewNullValue()
	case 1:
		return structpb.NewBoolValue(rapid.Bool().Draw(t, "pb"))
	case 2:
		return structpb.NewNumberValue(rapid.Float64().Draw(t, "pn"))
	case 3:
		return structpb.NewStringValue(text(t, "ps"))
	case 4:
		l := &structpb.ListValue{}
		for i := rapid.IntRange(0, 4).Draw(t, "pl"); i > 0; i-- {
			l.Values = append(l.Values, pvalue(t, depth-1))
		}
		return structpb.NewListValue(l)
	default:
		return structpb.NewStructValue(pstruct(t, depth-1))
	}
}

func pstruct(t *rapid.T, depth int) *structpb.Struct {
	s := &structpb.Struct{Fields: map[string]*structpb.Value{}}
	for i := rapid.IntRange(0, 4).Draw(t, "pf"); i > 0; i-- {
		s.Fields[text(t, "pkey")] = pvalue(t, depth)
	}
	return s
}

func TestProtobuf(t *testing.T) {
	h.Check(t, 2500, 30000, func(t *rapid.T, c *h.C) {
		s := pstruct(t, 3)
		bv := wrapperspb.Bytes(h.Bytes(t, "bytes", 3000))
		c.Note("%.200v", s)
		c.NonTrivialIf(len(s.Fields) > 0)
		b := util.Marshal(s)
		keep := append([]byte(nil), b...)
		bb := util.Marshal(bv)
		h.Must(t, c, bytes.Equal(b, keep), "a later call changed encoded bytes")
		g := &structpb.Struct{}
		err := util.Unmarshal(b, g)
		h.Must(t, c, err == nil && proto.Equal(g, s), "round trip: %v got %v", err, g)
		gv := &wrapperspb.BytesValue{}
		err = util.Unmarshal(bb, gv)
		h.Must(t, c, err == nil && bytes.Equal(gv.Value, bv.Value), "bytes round trip: %v", err)
		// What a message held before is gone, and fields it does not know are kept.
		used := pstruct(t, 2)
		err = util.Unmarshal(keep, used)
		h.Must(t, c, err == nil && proto.Equal(used, s), "decoded into a used message: %v got %v", err, used)
		var un emptypb.Empty
		err = util.Unmarshal(keep, &un)
		back := &structpb.Struct{}
		h.Must(t, c, err == nil && util.Unmarshal(util.Marshal(&un), back) == nil && proto.Equal(back, s), "fields unknown to a message are lost: %v got %v", err, back)
		m := append(append([]byte(nil), keep...), rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "junk")...)
		if len(m) > 0 {
			m[rapid.IntRange(0, len(m)-1).Draw(t, "at")] = rapid.Byte().Draw(t, "byte")
			ref := proto.Unmarshal(m, &structpb.Struct{})
			var got error
			p := h.Catch(func() { got = util.Unmarshal(m, &structpb.Struct{}) })
			h.Must(t, c, p == nil && (got == nil) == (ref == nil), "malformed input: crash %v, error %v, want %v", p, got, ref)
		}
	})
}

func TestConcurrent(t *testing.T) {
	h.Check(t, 120, 1500, func(t *rapid.T, c *h.C) {
		n := rapid.IntRange(2, 8).Draw(t, "goroutines")
		ks, rs, tss := make([]*keystore.KeyBean, n), make([]Rec, n), make([]*ts, n)
		for i := range ks {
			ks[i], rs[i], tss[i] = keys(t), rec(t), genTS(t)
			c.Key([]byte(show(ks[i])))
		}
		c.Note("%d goroutines", n)
		c.NonTrivial()
		bad := make([]string, n)
		var wg sync.WaitGroup
		for i := range ks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						bad[i] = fmt.Sprint("panic: ", p)
					}
				}()
				wk, wr, wt := show(ks[i]), show(rs[i]), show(tss[i])
				for r := 0; r < 3; r++ {
					if g, err := util.TDecode(util.TEncode(ks[i]), &keystore.KeyBean{}); err != nil || show(g) != wk {
						bad[i] = fmt.Sprintf("thrift bean: %v", err)
					}
					if g, err := gthrift.TDecode(gthrift.TEncode(tss[i]), &ts{}); err != nil || show(g) != wt {
						bad[i] = fmt.Sprintf("thrift: %v", err)
					}
					if g, err := util.JsonDecode[Rec](util.JsonEncode(rs[i])); err != nil || show(g) != wr {
						bad[i] = fmt.Sprintf("json: %v", err)
					}
					b, err := util.Encode(rs[i])
					if err != nil {
						bad[i] = fmt.Sprintf("gob: %v", err)
						continue
					}
					if g, err := util.Decode[Rec](b); err != nil || show(*g) != wr {
						bad[i] = fmt.Sprintf("gob: %v", err)
					}
				}
			}()
		}
		wg.Wait()
		for i := range bad {
			h.Must(t, c, bad[i] == "", "goroutine %d: %s", i, bad[i])
		}
	})
}

func TestGarbage(t *testing.T) {
	h.Check(t, 4000, 50000, func(t *rapid.T, c *h.C) {
		b := rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "b")
		c.Note("%x", b)
		c.NonTrivialIf(len(b) > 0)
		p := h.Catch(func() {
			util.JsonDecode[Rec](b)
			util.JsonDecode[map[string]any](b)
			util.Decode[Rec](b)
			util.TDecode(b, keystore.NewUserBean())
			gthrift.TDecode(b, &ts{})
			util.Unmarshal(b, &structpb.Struct{})
		})
		h.Must(t, c, p == nil, "a decoder crashed: %v", p)
		_, err := util.JsonDecode[Rec](b)
		var ref Rec
		_ = ref
		c.LabelIf(err != nil, "json error")
	})
}

// Large fields and many elements.
func TestLarge(t *testing.T) {
	h.Check(t, 5, 60, func(t *rapid.T, c *h.C) {
		b := h.Big(t, "b", 6<<20)
		s := string(bytes.Repeat([]byte("text "), len(b)/5))
		n := rapid.SampledFrom([]int{127, 128, 16383, 16384, 40000, 65535, 65536, 70000}).Draw(t, "elements")
		c.Note("%s, %d elements", h.B(b), n)
		c.Key(b)
		c.NonTrivial()
		c.Label("large")
		k := &keystore.KeyBean{Admin: map[string]*keystore.UserBean{}, Client: map[string]*keystore.UserBean{}, Mq: map[string]*keystore.UserBean{}, Other: map[string]string{"big": string(b), string(b[:1000]): "v"}}
		x := &ts{S: s, Bin: b, M: map[string]string{}}
		r := Rec{I: 1, F: 1, S: s, Raw: b, M: map[string]int64{}, MM: map[string]Inner{"": {Nums: make([]int64, n)}}}
		for i := 0; i < n; i++ {
			key := fmt.Sprint(i)
			k.Client[key] = &keystore.UserBean{Name: key, Pwd: "p", Type: int8(i)}
			k.Other[key] = key
			x.L = append(x.L, int64(i)*int64(i)*7919)
			x.M[key] = key
			r.L = append(r.L, key)
			r.M[key] = int64(i)
			r.MM[""].Nums[i] = -int64(i)
		}
		gk, err := util.TDecode(util.TEncode(k), &keystore.KeyBean{})
		h.Must(t, c, err == nil && reflect.DeepEqual(gk, k), "thrift bean round trip: %v", err)
		gx, err := gthrift.TDecode(gthrift.TEncode(x), &ts{})
		h.Must(t, c, err == nil && reflect.DeepEqual(gx, x), "thrift round trip: %v", err)
		gj, err := util.JsonDecode[Rec](util.JsonEncode(r))
		h.Must(t, c, err == nil && reflect.DeepEqual(gj, r), "json round trip: %v", err)
		e, err := util.Encode(r)
		h.Must(t, c, err == nil, "gob: %v", err)
		gg, err := util.Decode[Rec](e)
		h.Must(t, c, err == nil && reflect.DeepEqual(*gg, r), "gob round trip: %v", err)
		gv := &wrapperspb.BytesValue{}
		err = util.Unmarshal(util.Marshal(wrapperspb.Bytes(b)), gv)
		h.Must(t, c, err == nil && bytes.Equal(gv.Value, b), "protobuf round trip: %v", err)
	})
}
