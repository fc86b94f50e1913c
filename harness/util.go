package main

import (
	"encoding/json"
	"strings"

	coinpb "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func coinList(n interface{}, denom string) []*coinpb.Coin { return []*coinpb.Coin{coin(n, denom)} }

func msgs(ms ...proto.Message) []proto.Message { return ms }

type protoName = protoreflect.Name

func initReq(chain string) types.RequestInitChain { return types.RequestInitChain{ChainId: chain} }

type (
	moduleClientIface = client.Client
	schemaDef         = schema.Definition
	jsonRaw           = json.RawMessage
)

func impersonating(names string) []client.DeliverOption {
	if names == "" {
		return nil
	}
	return []client.DeliverOption{client.DeliverImpersonating(strings.Split(names, "+")...)}
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type apiObject interface {
	proto.Message
	APIDefinition() *meta.APIDefinition
}
