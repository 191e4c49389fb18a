package grpc

import (
	"github.com/go-ego/riot/net/com"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
)

// VerifEserver is the service that InitErpc registers with etcd.
func VerifEserver() pb.GreeterServer { return &eserver{} }

// VerifConfig sets the configuration without starting an engine.
func VerifConfig(c com.Config) { config = c }
