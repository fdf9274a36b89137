package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
)

// protoc is the oracle for what a .proto file means.
func (h *H) protoc(dir string, files ...string) (map[string]*descriptorpb.FileDescriptorProto, error) {
	out := filepath.Join(dir, "set.bin")
	args := append([]string{"-I" + dir, "-I" + filepath.Join(h.Verif, "rt", "googleapis"), "-o" + out}, files...)
	r := command(dir, nil, "", "protoc", args...)
	if r.Code != 0 {
		return nil, fmt.Errorf("protoc: %s", clip(r.Err, 2000))
	}
	var set descriptorpb.FileDescriptorSet
	if err := proto.Unmarshal([]byte(read(out)), &set); err != nil {
		return nil, err
	}
	rv := map[string]*descriptorpb.FileDescriptorProto{}
	for _, f := range set.File {
		rv[f.GetName()] = f
	}
	return rv, nil
}

// httpRules decodes the google.api.http annotation of a method, the primary
// binding first.
func httpRules(m *descriptorpb.MethodDescriptorProto) []Binding {
	if m.Options == nil {
		return nil
	}
	b := m.Options.ProtoReflect().GetUnknown()
	var rule []byte
	found := false
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return nil
		}
		b = b[n:]
		if num == 72295728 && typ == protowire.BytesType {
			v, n := protowire.ConsumeBytes(b)
			rule = append(rule, v...)
			found = true
			b = b[n:]
			continue
		}
		n = protowire.ConsumeFieldValue(num, typ, b)
		if n < 0 {
			return nil
		}
		b = b[n:]
	}
	if !found {
		return nil
	}
	return decodeRule(rule)
}

func decodeRule(b []byte) []Binding {
	var rv Binding
	var more []Binding
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		b = b[n:]
		if typ != protowire.BytesType {
			n := protowire.ConsumeFieldValue(num, typ, b)
			b = b[n:]
			continue
		}
		v, n := protowire.ConsumeBytes(b)
		b = b[n:]
		switch num {
		case 2, 3, 4, 5, 6:
			rv.Verb = []string{"get", "put", "post", "delete", "patch"}[num-2]
			rv.Path = string(v)
		case 7:
			rv.Body = string(v)
		case 8:
			rv.Custom = true
			for len(v) > 0 {
				num, _, n := protowire.ConsumeTag(v)
				v = v[n:]
				s, n := protowire.ConsumeBytes(v)
				v = v[n:]
				if num == 1 {
					rv.Verb = string(s)
				} else {
					rv.Path = string(s)
				}
			}
		case 11:
			more = append(more, decodeRule(v)...)
		}
	}
	return append([]Binding{rv}, more...)
}

// shortName is the last part of a full name
func shortName(s string) string { return s[strings.LastIndex(s, ".")+1:] }
