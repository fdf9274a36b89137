package rt

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"sync/atomic"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
)

// How a value travels, which limits what it can be.
type mode int

const (
	anyValue   mode = iota // as protobuf: no limit
	protoJSON              // within protojson
	plainJSON              // within encoding/json of the Go struct
	queryValue             // as a query parameter
	pathValue              // as a segment of a path
)

var strs = []string{"", " ", "a", "abc", "a b", "é", "日本語", "😀", "%", "%2F", "%41", "a&b=c", "?", "#x", "+", "a+b", "\"", "'", "\\", "\\n",
	"{}", "{a}", "null", "true", "0", "-1", "[1]", "[\"a\"]", "a;b", "a=b", "<b>&amp;</b>", "\t", "\n", "\r\n", "\x01", "\u007f", "\u2028", "a:b", "@", "~", "*", "(x)", "|", "^", "`",
	"a,b", ",", "..a", "...", "-", "_", "$1", "%s", "%d%v", "http://x/y?z", "ünïcödé", " lead", "trail ", strings.Repeat("long", 100)}

func genString(r *rand.Rand) string {
	switch r.Intn(5) {
	case 0:
		return strs[r.Intn(len(strs))] + strs[r.Intn(len(strs))]
	case 1:
		n := r.Intn(8)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune([]rune("abzAZ019 %&?#+/=;:,.'\"\\<>éß√漢𝄞\t{}[]")[r.Intn(40)%len([]rune("abzAZ019 %&?#+/=;:,.'\"\\<>éß√漢𝄞\t{}[]"))])
		}
		return b.String()
	case 2:
		if r.Intn(2) == 0 {
			return "" // what is there but empty
		}
	}
	return strs[r.Intn(len(strs))]
}

// genPathString is a string which can be one segment of a path
func genPathString(r *rand.Rand) string {
	for {
		s := strings.Replace(genString(r), "/", "", -1)
		if s != "" && s != "." && s != ".." {
			return s
		}
	}
}

func genInt(r *rand.Rand, bits uint, signed bool) int64 {
	lo, hi := int64(0), int64(math.MaxInt64)
	if signed {
		lo, hi = -1<<(bits-1), 1<<(bits-1)-1
	} else if bits == 32 {
		hi = math.MaxUint32
	}
	switch r.Intn(8) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return 0
	case 3:
		return 1
	case 4:
		if signed {
			return -1
		}
		return 1 << (bits / 2)
	case 5:
		return int64(r.Intn(1000))
	}
	v := int64(r.Uint64())
	if bits == 32 {
		if signed {
			return int64(int32(v))
		}
		return int64(uint32(v))
	}
	return v // for uint64 the bits are what counts
}

func genFloat(r *rand.Rand, bits int, finite bool) float64 {
	for {
		var v float64
		switch r.Intn(10) {
		case 0:
			v = 0
		case 1:
			v = math.Inf(1)
		case 2:
			v = math.Inf(-1)
		case 3:
			v = math.NaN()
		case 4:
			v = []float64{1e-7, 1e21, 123456789, 1e20, 16777216, 0.1, 1.0 / 3, math.SmallestNonzeroFloat32, math.MaxFloat32, -0.5}[r.Intn(10)]
		case 5:
			v = float64(r.Intn(2000) - 1000)
		case 6:
			v = r.NormFloat64() * 1e6
		default:
			v = math.Float64frombits(r.Uint64())
			if bits == 32 {
				v = float64(math.Float32frombits(r.Uint32()))
			}
		}
		if bits == 32 {
			v = float64(float32(v))
		}
		if finite && (math.IsInf(v, 0) || math.IsNaN(v)) {
			continue
		}
		return v
	}
}

// bigLeft is how many values of a size no buffer holds are still to be made.
var bigLeft int32 = 40

// bigSize is the size of a value which is to be big, else 0.
func bigSize(r *rand.Rand, md mode) int {
	if r.Intn(150) > 0 {
		return 0
	}
	left := atomic.AddInt32(&bigLeft, -1)
	if left < 0 {
		return 0
	}
	switch md {
	case pathValue:
		return 3000
	case queryValue:
		return 20000
	}
	return []int{5000, 70000, 140000, 600000}[left%4]
}

func genScalar(r *rand.Rand, fd protoreflect.FieldDescriptor, md mode) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(r.Intn(2) == 0)
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		if r.Intn(6) == 0 {
			return protoreflect.ValueOfEnum(protoreflect.EnumNumber([]int32{77, -3, math.MaxInt32, math.MinInt32}[r.Intn(4)]))
		}
		return protoreflect.ValueOfEnum(vs.Get(r.Intn(vs.Len())).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(genInt(r, 32, true)))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(genInt(r, 32, false)))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(genInt(r, 64, true))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(genInt(r, 64, false)))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(genFloat(r, 32, md == plainJSON)))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(genFloat(r, 64, md == plainJSON))
	case protoreflect.StringKind:
		if md == pathValue {
			s := genPathString(r)
			if n := bigSize(r, md); n > 0 {
				s = strings.Repeat(s+"x", n/(len(s)+1))
			}
			return protoreflect.ValueOfString(s)
		}
		if n := bigSize(r, md); n > 0 {
			return protoreflect.ValueOfString(strings.Repeat("a", n-3) + "é.")
		}
		return protoreflect.ValueOfString(genString(r))
	case protoreflect.BytesKind:
		n := r.Intn(12)
		if big := bigSize(r, md); big > 0 {
			n = big
		}
		b := make([]byte, n)
		r.Read(b)
		if md == plainJSON && fd.HasPresence() && len(b) == 0 {
			b = []byte{0} // encoding/json omits it when empty
		}
		return protoreflect.ValueOfBytes(b)
	}
	panic(fd.Kind())
}

func isWkt(m protoreflect.MessageDescriptor) bool {
	return m.ParentFile().Package() == "google.protobuf"
}

// plain is whether encoding/json gives back what it made of the Go struct.
func plain(m protoreflect.MessageDescriptor) bool {
	switch m.FullName() {
	case "google.protobuf.Any", "google.protobuf.Struct", "google.protobuf.Value", "google.protobuf.ListValue":
		return false
	}
	return true
}

func plainField(fd protoreflect.FieldDescriptor) bool {
	if o := fd.ContainingOneof(); o != nil && !o.IsSynthetic() {
		return false
	}
	if fd.IsMap() {
		if fd.MapKey().Kind() == protoreflect.BoolKind {
			return false
		}
		v := fd.MapValue()
		return v.Message() == nil || plain(v.Message())
	}
	return fd.Message() == nil || plain(fd.Message())
}

// genMessage fills m with values which can travel in the mode.
func genMessage(r *rand.Rand, m protoreflect.Message, md mode, depth int) {
	d := m.Descriptor()
	if isWkt(d) {
		genWkt(r, m, md)
		return
	}
	density := r.Intn(4) // some messages are full, some empty
	picked := map[string]protoreflect.FieldDescriptor{}
	fs := d.Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if o := fd.ContainingOneof(); o != nil && !o.IsSynthetic() {
			n := string(o.Name())
			if old := picked[n]; old == nil || r.Intn(2) == 0 {
				if r.Intn(4) > 0 {
					picked[n] = fd
				}
			}
			continue
		}
		if r.Intn(4) < density {
			continue
		}
		genField(r, m, fd, md, depth)
	}
	for _, n := range sortedFields(picked) {
		genField(r, m, picked[n], md, depth)
	}
}

func sortedFields(m map[string]protoreflect.FieldDescriptor) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return s
}

// genField sets one field, or leaves it alone if it cannot travel in the mode.
func genField(r *rand.Rand, m protoreflect.Message, fd protoreflect.FieldDescriptor, md mode, depth int) {
	inner := md
	switch md {
	case queryValue:
		// JSON within the query
		if fd.IsMap() || fd.Message() != nil && !plain(fd.Message()) {
			return
		}
		inner = plainJSON
	case plainJSON:
		if !plainField(fd) {
			return
		}
	}
	switch {
	case fd.IsMap():
		if depth > 3 {
			return
		}
		mp := m.Mutable(fd).Map()
		for i := r.Intn(4); i > 0; i-- {
			k := genScalar(r, fd.MapKey(), md).MapKey()
			v := mp.NewValue()
			if fd.MapValue().Message() != nil {
				genMessage(r, v.Message(), inner, depth+1)
			} else {
				v = genScalar(r, fd.MapValue(), inner)
			}
			mp.Set(k, v)
		}
		if mp.Len() == 0 {
			m.Clear(fd)
		}
	case fd.IsList():
		l := m.Mutable(fd).List()
		n := r.Intn(4)
		if fd.Message() == nil && bigSize(r, md) > 0 {
			n = 300
		}
		for i := n; i > 0; i-- {
			v := l.NewElement()
			if fd.Message() != nil {
				genMessage(r, v.Message(), inner, depth+1)
			} else {
				v = genScalar(r, fd, inner)
			}
			l.Append(v)
		}
		if l.Len() == 1 && md == queryValue && fd.Kind() == protoreflect.StringKind && strings.Contains(l.Get(0).String(), ",") {
			l.Append(l.Get(0)) // a single value with commas is a list
		}
		if l.Len() == 0 {
			m.Clear(fd)
		}
	case fd.Message() != nil:
		if depth > 3 {
			return
		}
		genMessage(r, m.Mutable(fd).Message(), inner, depth+1)
	default:
		m.Set(fd, genScalar(r, fd, md))
	}
}

func genWkt(r *rand.Rand, m protoreflect.Message, md mode) {
	set := func(name string, v interface{}) {
		m.Set(m.Descriptor().Fields().ByName(protoreflect.Name(name)), protoreflect.ValueOf(v))
	}
	switch m.Descriptor().FullName() {
	case "google.protobuf.Timestamp":
		set("seconds", r.Int63n(253402300799+62135596800)-62135596800)
		set("nanos", int32(r.Intn(3))*int32(r.Intn(333333333)))
	case "google.protobuf.Duration":
		s := r.Int63n(315576000000)
		n := int32(r.Intn(2)) * int32(r.Intn(999999999))
		if r.Intn(2) == 0 {
			s, n = -s, -n
		}
		set("seconds", s)
		set("nanos", n)
	case "google.protobuf.FieldMask":
		l := m.Mutable(m.Descriptor().Fields().ByName("paths")).List()
		for i := r.Intn(3); i > 0; i-- {
			l.Append(protoreflect.ValueOfString([]string{"a", "foo_bar", "x.y_z", "abc.def"}[r.Intn(4)]))
		}
	case "google.protobuf.Any":
		a, err := anypb.New(&durationpb.Duration{Seconds: int64(r.Intn(100))})
		if err == nil {
			proto.Merge(m.Interface(), a)
		}
	case "google.protobuf.Struct":
		v := map[string]interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			v[genString(r)] = []interface{}{nil, true, 1.5, genString(r), []interface{}{"x", nil}, map[string]interface{}{"k": -1.0}}[r.Intn(6)]
		}
		if s, err := structpb.NewStruct(v); err == nil {
			proto.Merge(m.Interface(), s)
		}
	case "google.protobuf.Empty":
	default:
		// wrappers
		if fd := m.Descriptor().Fields().ByName("value"); fd != nil && fd.Message() == nil && fd.Kind() != protoreflect.EnumKind {
			m.Set(fd, genScalar(r, fd, md))
		}
	}
}

// genRequest makes a request each field of which can travel where the binding
// puts it.
func genRequest(r *rand.Rand, b *Binding) proto.Message {
	m := b.M.In.New()
	full := m.New()
	genMessage(r, full, anyValue, 0) // decides which fields are set
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		switch place := b.Place(fd); {
		case place == "path":
			m.Set(fd, genScalar(r, fd, pathValue))
		case !full.Has(fd):
			continue
		case place == "query":
			genField(r, m, fd, queryValue, 0)
		default:
			genField(r, m, fd, protoJSON, 0)
		}
	}
	return m.Interface()
}

func genAny(r *rand.Rand, mt protoreflect.MessageType, md mode) proto.Message {
	m := mt.New()
	genMessage(r, m, md, 0)
	return m.Interface()
}

func where(m *Method) string { return fmt.Sprintf("%s.%s", m.Svc.Name, m.Name) }
