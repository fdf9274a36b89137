module verif/harness

go 1.21

require google.golang.org/protobuf v1.26.0
