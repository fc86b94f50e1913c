From 5a0c1d7f5bb8dfd163f4dce54b83bcb9a32a930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:31 +0000
Subject: [PATCH 01/48] kv: add verif-tagged hook observing opened databases

---
 runtime/kv/badger.go    |  1 +
 runtime/kv/verif_off.go |  9 +++++++++
 runtime/kv/verif_on.go  | 17 +++++++++++++++++
 3 files changed, 27 insertions(+)
 create mode 100644 runtime/kv/verif_off.go
 create mode 100644 runtime/kv/verif_on.go

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index e999495..e1ffcf8 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -17,6 +17,7 @@ func NewBadger() *Badger {
 	if err != nil {
 		panic(err)
 	}
+	verifOpened(db)
 	return &Badger{db: db}
 }
 
diff --git a/runtime/kv/verif_off.go b/runtime/kv/verif_off.go
new file mode 100644
index 0000000..e890bd1
--- /dev/null
+++ b/runtime/kv/verif_off.go
@@ -0,0 +1,9 @@
+//go:build !verif
+// +build !verif
+
+package kv
+
+import "github.com/dgraph-io/badger/v3"
+
+// verifOpened is a no-op unless the verif build tag is set.
+func verifOpened(_ *badger.DB) {}
diff --git a/runtime/kv/verif_on.go b/runtime/kv/verif_on.go
new file mode 100644
index 0000000..ec9f92a
--- /dev/null
+++ b/runtime/kv/verif_on.go
@@ -0,0 +1,17 @@
+//go:build verif
+// +build verif
+
+package kv
+
+import "github.com/dgraph-io/badger/v3"
+
+// VerifOnOpen, if set, is called with every database opened by NewBadger.
+// It exists only in builds made with the verif tag, where it allows a
+// monitor to observe the raw contents of the database and to close it.
+var VerifOnOpen func(db *badger.DB)
+
+func verifOpened(db *badger.DB) {
+	if VerifOnOpen != nil {
+		VerifOnOpen(db)
+	}
+}
-- 
2.43.0


From 587abf62527e180e68d2d2fc5e9f743a478484e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:46 +0000
Subject: [PATCH 02/48] fix: encode string and bytes keys of 128 bytes and more
 as their content

Removing the first byte of the length prefixed encoding left part of the
length in the key of longer values, so that their objects were not found
under the identifier made of their content.
---
 pkg/protoutils/kindencoder/kindencoder.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pkg/protoutils/kindencoder/kindencoder.go b/pkg/protoutils/kindencoder/kindencoder.go
index 2f7344c..674f4bf 100644
--- a/pkg/protoutils/kindencoder/kindencoder.go
+++ b/pkg/protoutils/kindencoder/kindencoder.go
@@ -55,13 +55,9 @@ func (k kString) EncodeInterface(i interface{}) (protoreflect.Value, error) {
 }
 
 func (k kString) EncodeValueToBytes(value protoreflect.Value) []byte {
-	var b []byte
 	// NOTE: skipping UTF8 checks, anyways marshalling would fail
 	// if the string is invalid.
-	// NOTE2: this prepends the string length which we can do without..
-	b = protowire.AppendString(b, value.String())
-	// NOTE3: this removes the length prefix which is not needed
-	return b[1:]
+	return []byte(value.String())
 }
 
 // kBool is the KindEncoder for protoreflect.BoolKind
@@ -250,8 +246,5 @@ func (k kBytes) EncodeInterface(i interface{}) (protoreflect.Value, error) {
 }
 
 func (k kBytes) EncodeValueToBytes(value protoreflect.Value) []byte {
-	var b []byte
-	b = protowire.AppendBytes(b, value.Bytes())
-	// NOTE: removes the length prefix which is not needed
-	return b[1:]
+	return append([]byte(nil), value.Bytes()...)
 }
-- 
2.43.0


From 51b69db905923137337f3a637b53a2c4f538ac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:01 +0000
Subject: [PATCH 03/48] fix: report store errors other than not found instead
 of panicking

Creating an object that exists, or one with an empty primary key, is
something any transaction can cause; it has to be an error.
---
 runtime/runtime.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/runtime.go b/runtime/runtime.go
index 6c6c5b6..c7ec765 100644
--- a/runtime/runtime.go
+++ b/runtime/runtime.go
@@ -280,7 +280,9 @@ func convertStoreError(err error) error {
 	switch {
 	case errors.Is(err, orm.ErrNotFound):
 		return fmt.Errorf("%w: %s", errors.ErrNotFound, err)
+	case errors.Is(err, orm.ErrAlreadyExists):
+		return fmt.Errorf("%w: %s", errors.ErrAlreadyExists, err)
 	default:
-		panic("unrecognized error type: " + err.Error())
+		return fmt.Errorf("%w: %s", errors.ErrBadRequest, err)
 	}
 }
-- 
2.43.0


From 3cf65d019ad4014f7cac304cf418cdf5cd6351e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:15 +0000
Subject: [PATCH 04/48] fix: run the admission handlers of each message in
 DeliverTx

They were skipped, so a block could contain messages which CheckTx refuses.
---
 runtime/abci.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/abci.go b/runtime/abci.go
index d277d1a..ab2b31e 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -125,7 +125,7 @@ func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDe
 	// TODO cache again
 	// start delivering transitions
 	for _, transition := range tx.StateTransitions() {
-		err = a.rt.Deliver(tx.Users(), transition, DeliverSkipAdmissionHandlers())
+		err = a.rt.Deliver(tx.Users(), transition)
 		if err != nil {
 			return errors.ToABCIResponse(0, 0, err)
 		}
-- 
2.43.0


From 3ceccdbcf2369883dfb405bb5d6fae155aabd0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:30 +0000
Subject: [PATCH 05/48] fix: refuse transactions whose fee payer did not sign

Anyone could make any account pay for a transaction.
---
 x/authn/tx/decoder.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/x/authn/tx/decoder.go b/x/authn/tx/decoder.go
index f4ffa28..5a6f8ac 100644
--- a/x/authn/tx/decoder.go
+++ b/x/authn/tx/decoder.go
@@ -139,7 +139,19 @@ func (d *Decoder) authInfo(info *v1alpha12.AuthInfo, signatures [][]byte) (strin
 		return feePayer, usersStr, signers, nil
 	}
 	if info.Fee.Payer != "" {
+		if !contains(usersStr, info.Fee.Payer) {
+			return "", nil, nil, fmt.Errorf("tx: fee payer %s is not a signer", info.Fee.Payer)
+		}
 		feePayer = info.Fee.Payer
 	}
 	return feePayer, usersStr, signers, nil
 }
+
+func contains(list []string, s string) bool {
+	for _, x := range list {
+		if x == s {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 5c0488ba0fbe71c39bedab001d3579dfb1cc8676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:43 +0000
Subject: [PATCH 06/48] fix: refuse transactions with a public key of the wrong
 length

Computing the address of such a key panics.
---
 x/authn/tx/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/authn/tx/decoder.go b/x/authn/tx/decoder.go
index 5a6f8ac..861f7aa 100644
--- a/x/authn/tx/decoder.go
+++ b/x/authn/tx/decoder.go
@@ -118,6 +118,9 @@ func (d *Decoder) authInfo(info *v1alpha12.AuthInfo, signatures [][]byte) (strin
 		if err != nil {
 			return "", nil, nil, fmt.Errorf("tx: unable to resolve public key at index %d: %w", i, err)
 		}
+		if _, ok := pk.(*secp256k1.PubKey); ok && len(pk.Bytes()) != secp256k1.PubKeySize {
+			return "", nil, nil, fmt.Errorf("tx: public key at index %d is %d bytes, expected %d", i, len(pk.Bytes()), secp256k1.PubKeySize)
+		}
 		addr, err := bech32.ConvertAndEncode(d.bech32pfx, pk.Address())
 		if err != nil {
 			return "", nil, nil, fmt.Errorf("tx: unable to bechify address of public key at index %d: %w", i, err)
-- 
2.43.0


From 3ca47450d6860e3689d415ade92ec56ca0736e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:57 +0000
Subject: [PATCH 07/48] fix: answer queries whose object cannot be encoded with
 an error

An account holds an Any whose type may be unknown to the registry, which
made a query for it (and any query of the unimplemented list verb) panic.
---
 core/apiserver/router/server.go | 7 ++++---
 runtime/query.go                | 3 +--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 10edcfe..cddf294 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -2,7 +2,6 @@ package router
 
 import (
 	"fmt"
-	"io"
 	"net/http"
 	"strings"
 
@@ -245,10 +244,12 @@ func newListHandler(c client.Client, schema *schema.Schema) http.HandlerFunc {
 	}
 }
 
-func writeObject(w io.Writer, obj proto.Message) bool {
+func writeObject(w http.ResponseWriter, obj proto.Message) bool {
 	b, err := protojson.Marshal(obj)
 	if err != nil {
-		panic(err)
+		w.WriteHeader(http.StatusInternalServerError)
+		_, _ = w.Write([]byte(fmt.Sprintf("unable to encode object: %s", err)))
+		return false
 	}
 	_, err = w.Write(b)
 	if err != nil {
diff --git a/runtime/query.go b/runtime/query.go
index e7f3087..6e852e6 100644
--- a/runtime/query.go
+++ b/runtime/query.go
@@ -41,7 +41,6 @@ func (q *Querier) Handle(query types.RequestQuery) types.ResponseQuery {
 		response, err = q.apiResources(query)
 	case GetStateObjectsPath:
 		response, err = q.get(query)
-	case ListStateObjectsPath:
 	default:
 		return types.ResponseQuery{Code: 0x1, Log: "unknown verb"}
 	}
@@ -50,7 +49,7 @@ func (q *Querier) Handle(query types.RequestQuery) types.ResponseQuery {
 	}
 	b, err := protojson.Marshal(response)
 	if err != nil {
-		panic(err)
+		return types.ResponseQuery{Code: 0x1, Log: err.Error()}
 	}
 	return types.ResponseQuery{
 		Value: b,
-- 
2.43.0


From 6cc7cf4bd5b7b915d542fb00ff5b7c8a3504932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:11 +0000
Subject: [PATCH 08/48] fix: do not cut the identifier of a get query at its
 first slash

A query for a/b answered with the object a.
---
 runtime/query.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/query.go b/runtime/query.go
index 6e852e6..10de498 100644
--- a/runtime/query.go
+++ b/runtime/query.go
@@ -87,7 +87,8 @@ func (q *Querier) apiResources(_ types.RequestQuery) (proto.Message, error) {
 }
 
 func (q *Querier) get(req types.RequestQuery) (meta.APIObject, error) {
-	split := strings.Split(req.Path, "/")
+	// the identifier is everything after the kind, it may contain any character
+	split := strings.SplitN(req.Path, "/", 4)
 	if len(split) < 4 {
 		return nil, fmt.Errorf("invalid path for get")
 	}
-- 
2.43.0


From 5f2c83428991b586cf236cf75a792836ae6cd3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:25 +0000
Subject: [PATCH 09/48] fix: refuse transactions when no decoder is configured

The nil decoder made the first transaction panic.
---
 runtime/builder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/builder.go b/runtime/builder.go
index b06cccf..34ea419 100644
--- a/runtime/builder.go
+++ b/runtime/builder.go
@@ -85,6 +85,7 @@ func (b *Builder) Build() (*Runtime, error) {
 	switch b.decoder {
 	case nil:
 		klog.Warningf("no decoder - transactions sent to the ABCI application will be rejected")
+		b.rt.txDecoder = authentication.NewAlwaysFailingTxDecoder()
 	default:
 		b.rt.txDecoder = b.decoder
 	}
-- 
2.43.0


From eb801447f22be1e12cb4d6c4de6fb1416b678c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:40 +0000
Subject: [PATCH 10/48] fix: parse each coin on its own and as an integer

The coins were joined into one string and parsed as decimal coins, so that
an amount could smuggle in further coins, fractions were truncated (leaving
zero coins in the result) and large amounts panicked.
---
 core/coin/v1alpha1/coin.go | 40 +++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/core/coin/v1alpha1/coin.go b/core/coin/v1alpha1/coin.go
index 955c6f9..14ce020 100644
--- a/core/coin/v1alpha1/coin.go
+++ b/core/coin/v1alpha1/coin.go
@@ -2,27 +2,49 @@ package v1alpha1
 
 import (
 	"fmt"
-	"strings"
 
 	"github.com/cosmos/cosmos-sdk/types"
 )
 
+// newBalanceFromCoins returns the normalized form of the coins: sorted by
+// denomination and without zero amounts.
 func newBalanceFromCoins(coins []*Coin) (*Balance, error) {
-	b := new(strings.Builder)
-	for i, c := range coins {
-		// if it's not the first element we write the comma to separate denoms
-		if i != 0 {
-			_, _ = b.WriteString(",")
+	sdkCoins := make(types.Coins, 0, len(coins))
+	for _, c := range coins {
+		denom := c.GetDenom()
+		if err := types.ValidateDenom(denom); err != nil {
+			return nil, err
 		}
-		_, _ = b.WriteString(fmt.Sprintf("%s%s", c.Amount, c.Denom))
+		amount, err := parseAmount(c.GetAmount())
+		if err != nil {
+			return nil, err
+		}
+		if amount.IsZero() {
+			continue
+		}
+		sdkCoins = append(sdkCoins, types.Coin{Denom: denom, Amount: amount})
 	}
-	sdkCoins, err := types.ParseCoinsNormalized(b.String())
-	if err != nil {
+	sdkCoins = sdkCoins.Sort()
+	if err := sdkCoins.Validate(); err != nil {
 		return nil, err
 	}
 	return &Balance{Coins: sdkCoins}, nil
 }
 
+// parseAmount parses a non negative decimal integer
+func parseAmount(s string) (types.Int, error) {
+	for _, r := range s {
+		if r < '0' || r > '9' {
+			return types.Int{}, fmt.Errorf("invalid coin amount %q", s)
+		}
+	}
+	amount, ok := types.NewIntFromString(s)
+	if !ok {
+		return types.Int{}, fmt.Errorf("invalid coin amount %q", s)
+	}
+	return amount, nil
+}
+
 type Balance struct {
 	types.Coins
 }
-- 
2.43.0


From cf3da1db2d2237ffe55db55e17f3774700a1c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:53 +0000
Subject: [PATCH 11/48] fix: report an overflow when adding coins instead of
 panicking

---
 core/coin/v1alpha1/coin.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/coin/v1alpha1/coin.go b/core/coin/v1alpha1/coin.go
index 14ce020..44bb597 100644
--- a/core/coin/v1alpha1/coin.go
+++ b/core/coin/v1alpha1/coin.go
@@ -2,10 +2,14 @@ package v1alpha1
 
 import (
 	"fmt"
+	"math/big"
 
 	"github.com/cosmos/cosmos-sdk/types"
 )
 
+// maxAmountBitLen is the size of the largest amount types.Int can hold
+const maxAmountBitLen = 255
+
 // newBalanceFromCoins returns the normalized form of the coins: sorted by
 // denomination and without zero amounts.
 func newBalanceFromCoins(coins []*Coin) (*Balance, error) {
@@ -92,6 +96,12 @@ func SafeAdd(initial []*Coin, toAdd []*Coin) (result []*Coin, err error) {
 	if i.IsAnyNegative() || s.IsAnyNegative() {
 		return nil, fmt.Errorf("negative coins")
 	}
+	for _, c := range s.Coins {
+		sum := new(big.Int).Add(i.AmountOf(c.Denom).BigInt(), c.Amount.BigInt())
+		if sum.BitLen() > maxAmountBitLen {
+			return nil, fmt.Errorf("overflow adding %s", c)
+		}
+	}
 	sdkRes := i.Add(s.Coins...)
 	return (&Balance{Coins: sdkRes}).ToCoins(), nil
 }
-- 
2.43.0


From 3d49dbe757efac421cf05a361827eb4bfc3f07b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:00 +0000
Subject: [PATCH 12/48] fix: do not debit the sender of a transfer that can not
 be credited

A transfer to an address that can not be looked up (an empty one, say)
destroyed the coins: the sender was debited before the lookup failed. The
balance of a new receiver is normalized like any other.
---
 x/bank/handler.go | 69 +++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/x/bank/handler.go b/x/bank/handler.go
index af9d5e5..b464334 100644
--- a/x/bank/handler.go
+++ b/x/bank/handler.go
@@ -36,53 +36,50 @@ func (s SendCoinsHandler) Exec(req statetransition.ExecutionRequest) (resp state
 		return resp, err
 	}
 
+	// get balance of receiver, before anything is written: a receiver which
+	// can not be looked up can not be credited either. A transfer to oneself
+	// is credited on top of the debited balance.
+	newAccount := false
+	recvCoins := newSenderBalance
+	if msg.ToAddress != msg.FromAddress {
+		recvBalance, err := s.bank.Balances().Get(msg.ToAddress)
+		switch {
+		case err == nil:
+			recvCoins = recvBalance.Balance
+		case errors.Is(err, errors.ErrNotFound):
+			newAccount = true
+			recvCoins = nil
+		default:
+			return resp, err
+		}
+	}
+	newRecvBalance, err := coin.SafeAdd(recvCoins, msg.Amount)
+	if err != nil {
+		return resp, err
+	}
+
 	// update balance of sender
 	err = s.bank.ExecMsgSetBalance(&v1alpha12.MsgSetBalance{
 		Address: msg.FromAddress,
 		Amount:  newSenderBalance,
 	})
-
 	if err != nil {
 		return resp, err
 	}
 
-	// get balance of receiver
-	recvBalance, err := s.bank.Balances().Get(msg.ToAddress)
-
-	// we do a switch check to assert if the balance exists or not
-	switch {
-	// if no error simply update the balance
-	case err == nil:
-		var newRecvBalance []*coin.Coin
-		newRecvBalance, err = coin.SafeAdd(recvBalance.Balance, msg.Amount)
-		if err != nil {
-			return resp, err
-		}
-		err = s.bank.ExecMsgSetBalance(&v1alpha12.MsgSetBalance{
-			Address: msg.ToAddress,
-			Amount:  newRecvBalance,
-		})
-		if err != nil {
-			return
-		}
-
-		return resp, nil
-	// if not found create the balance for the account
-	// then attempt to create the account itself if it does not exist
-	case errors.Is(err, errors.ErrNotFound):
-		err = s.bank.ExecMsgSetBalance(&v1alpha12.MsgSetBalance{
-			Address: msg.ToAddress,
-			Amount:  msg.Amount,
-		})
-		if err != nil {
-			return
-		}
-
-		return resp, s.createAccountIfNotExist(msg.ToAddress)
-	// another error exit...
-	default:
+	// update balance of receiver, if it did not exist before create the
+	// account too
+	err = s.bank.ExecMsgSetBalance(&v1alpha12.MsgSetBalance{
+		Address: msg.ToAddress,
+		Amount:  newRecvBalance,
+	})
+	if err != nil {
 		return resp, err
 	}
+	if newAccount {
+		return resp, s.createAccountIfNotExist(msg.ToAddress)
+	}
+	return resp, nil
 }
 
 // createAccountIfNotExist creates a new account since it has received balance
-- 
2.43.0


From ea4875878fd93806783dd3a91df17e19dddf1065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:13 +0000
Subject: [PATCH 13/48] fix: let accounts created by receiving coins sign their
 first transaction

The public key of such an account is recorded by its first transaction
(setPubKeys), which was refused because no key was recorded. The key of the
transaction is bound to the account by its address.
---
 x/authn/extensions.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x/authn/extensions.go b/x/authn/extensions.go
index f30c28f..c10ae5e 100644
--- a/x/authn/extensions.go
+++ b/x/authn/extensions.go
@@ -211,9 +211,6 @@ func (a sigVerifier) Validate(aTx authentication.Tx) error {
 		if err != nil {
 			return err
 		}
-		if acc.PubKey == nil {
-			return fmt.Errorf("pub key not set on account %s", signer.Address)
-		}
 		// check sequence
 		if acc.Sequence != signer.Sequence {
 			return fmt.Errorf("invalid sequence %d expected %d", signer.Sequence, acc.Sequence)
-- 
2.43.0


From 7f08f5df4869072c3616cfda64fe79ee486a3b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:27 +0000
Subject: [PATCH 14/48] fix: report whether a deleted key existed and copy
 values read

Delete always reported true, and Get returned memory owned by the database
beyond the transaction it is valid in.
---
 runtime/kv/badger.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index e1ffcf8..2b005e7 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -40,14 +40,8 @@ func (b *Badger) Get(k []byte) (v []byte, exists bool) {
 		if err != nil {
 			return err
 		}
-		err = item.Value(func(val []byte) error {
-			v = val
-			return nil
-		})
-		if err != nil {
-			return err
-		}
-		return nil
+		v, err = item.ValueCopy(nil)
+		return err
 	})
 	switch {
 	case err == nil:
@@ -66,7 +60,15 @@ func (b *Badger) Has(k []byte) bool {
 
 func (b *Badger) Delete(k []byte) (exists bool) {
 	txn := b.db.NewTransaction(true)
-	err := txn.Delete(k)
+	defer txn.Discard()
+	_, err := txn.Get(k)
+	switch {
+	case err == nil:
+		exists = true
+	case !errors.Is(err, badger.ErrKeyNotFound):
+		panic(err)
+	}
+	err = txn.Delete(k)
 	if err != nil {
 		panic(err)
 	}
@@ -74,7 +76,7 @@ func (b *Badger) Delete(k []byte) (exists bool) {
 	if err != nil {
 		panic(err)
 	}
-	return true
+	return exists
 }
 
 func (b *Badger) Iterate(start, end []byte) Iterator {
-- 
2.43.0


From 77626022a56bac73d72bfa7fda790141fc6fbe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:40 +0000
Subject: [PATCH 15/48] fix: iterate ranges of keys, and end an iterator's
 transaction with it

Iterate used an iterator over the versions of the single key start. Closing
an iterator left its transaction open, which keeps old versions alive.
---
 runtime/kv/badger.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/runtime/kv/badger.go b/runtime/kv/badger.go
index 2b005e7..0161ce7 100644
--- a/runtime/kv/badger.go
+++ b/runtime/kv/badger.go
@@ -80,27 +80,23 @@ func (b *Badger) Delete(k []byte) (exists bool) {
 }
 
 func (b *Badger) Iterate(start, end []byte) Iterator {
-	txn := b.db.NewTransaction(true)
-	iter := txn.NewKeyIterator(start, badger.IteratorOptions{
-		PrefetchSize:   1,
-		PrefetchValues: false,
-		Reverse:        false,
-		AllVersions:    false,
-		InternalAccess: false,
-	})
-	iter.Rewind()
+	txn := b.db.NewTransaction(false)
+	iter := txn.NewIterator(badger.DefaultIteratorOptions)
+	iter.Seek(start)
 	return BadgerIterator{
 		start: start,
 		end:   end,
+		txn:   txn,
 		iter:  iter,
 	}
 }
 
 func (b *Badger) IteratePrefix(prefix []byte) Iterator {
-	txn := b.db.NewTransaction(true)
+	txn := b.db.NewTransaction(false)
 	iter := txn.NewIterator(badger.DefaultIteratorOptions)
 	iter.Seek(prefix)
 	return BaderPrefixIterator{
+		txn:       txn,
 		iter:      iter,
 		prefix:    prefix,
 		pfxLength: len(prefix),
@@ -108,6 +104,7 @@ func (b *Badger) IteratePrefix(prefix []byte) Iterator {
 }
 
 type BaderPrefixIterator struct {
+	txn       *badger.Txn
 	iter      *badger.Iterator
 	prefix    []byte
 	pfxLength int
@@ -138,11 +135,13 @@ func (b BaderPrefixIterator) Valid() bool {
 
 func (b BaderPrefixIterator) Close() {
 	b.iter.Close()
+	b.txn.Discard()
 }
 
 type BadgerIterator struct {
 	start []byte
 	end   []byte
+	txn   *badger.Txn
 	iter  *badger.Iterator
 }
 
@@ -179,4 +178,5 @@ func (b BadgerIterator) Valid() bool {
 
 func (b BadgerIterator) Close() {
 	b.iter.Close()
+	b.txn.Discard()
 }
-- 
2.43.0


From 90d44237b7e25caaa277ad9e72a004f9f875402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:02 +0000
Subject: [PATCH 16/48] fix: undo what a failing transaction wrote

---
 runtime/abci.go       | 24 ++++++++-------
 runtime/builder.go    |  5 ++--
 runtime/kv/journal.go | 70 +++++++++++++++++++++++++++++++++++++++++++
 runtime/runtime.go    | 26 ++++++++++++++--
 4 files changed, 111 insertions(+), 14 deletions(-)
 create mode 100644 runtime/kv/journal.go

diff --git a/runtime/abci.go b/runtime/abci.go
index ab2b31e..de6d686 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -116,21 +116,25 @@ func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDe
 	if err != nil {
 		return errors.ToABCIResponse(0, 0, err)
 	}
-	// TODO cache the store
-	err = a.rt.runTxPostAuthenticationChain(tx)
+	// the effects of authentication are kept whatever the state transitions do
+	err = a.rt.atomically(func() error {
+		return a.rt.runTxPostAuthenticationChain(tx)
+	})
 	if err != nil {
 		return errors.ToABCIResponse(0, 0, err)
 	}
-	// TODO write the cache
-	// TODO cache again
-	// start delivering transitions
-	for _, transition := range tx.StateTransitions() {
-		err = a.rt.Deliver(tx.Users(), transition)
-		if err != nil {
-			return errors.ToABCIResponse(0, 0, err)
+	// start delivering transitions, all of them or none has effects
+	err = a.rt.atomically(func() error {
+		for _, transition := range tx.StateTransitions() {
+			if err := a.rt.Deliver(tx.Users(), transition); err != nil {
+				return err
+			}
 		}
+		return nil
+	})
+	if err != nil {
+		return errors.ToABCIResponse(0, 0, err)
 	}
-	// TODO write cache
 	// success!
 	return types.ResponseDeliverTx{}
 }
diff --git a/runtime/builder.go b/runtime/builder.go
index 34ea419..20565d5 100644
--- a/runtime/builder.go
+++ b/runtime/builder.go
@@ -285,10 +285,11 @@ func (b *Builder) installDependencies() error {
 }
 
 func (b *Builder) initStore() error {
-	okv := kv.NewBadger()
+	okv := kv.NewJournal(kv.NewBadger())
 	obj := objects.NewStore(okv)
-	idxKv := kv.NewBadger()
+	idxKv := kv.NewJournal(kv.NewBadger())
 	idx := indexes.NewStore(idxKv)
+	b.rt.journals = []*kv.Journal{okv, idxKv}
 
 	b.store = orm.NewStore(obj, idx)
 
diff --git a/runtime/kv/journal.go b/runtime/kv/journal.go
new file mode 100644
index 0000000..98367c8
--- /dev/null
+++ b/runtime/kv/journal.go
@@ -0,0 +1,70 @@
+package kv
+
+// NewJournal instantiates a Journal which writes to the given KV.
+func NewJournal(kv KV) *Journal {
+	return &Journal{KV: kv}
+}
+
+// Journal is a KV which, between Begin and Commit, remembers what
+// its writes replaced so that Rollback can restore it.
+type Journal struct {
+	KV
+
+	recording bool
+	replaced  []entry
+}
+
+type entry struct {
+	key    []byte
+	value  []byte
+	exists bool
+}
+
+// Begin starts recording the writes, it forgets the ones recorded before.
+func (j *Journal) Begin() {
+	j.recording = true
+	j.replaced = nil
+}
+
+// Commit keeps the writes made since Begin.
+func (j *Journal) Commit() {
+	j.recording = false
+	j.replaced = nil
+}
+
+// Rollback undoes, last first, the writes made since Begin.
+func (j *Journal) Rollback() {
+	for i := len(j.replaced) - 1; i >= 0; i-- {
+		e := j.replaced[i]
+		if e.exists {
+			j.KV.Set(e.key, e.value)
+		} else {
+			j.KV.Delete(e.key)
+		}
+	}
+	j.Commit()
+}
+
+func (j *Journal) Set(key, value []byte) {
+	old, exists := j.KV.Get(key)
+	j.KV.Set(key, value)
+	j.record(key, old, exists)
+}
+
+func (j *Journal) Delete(key []byte) (exists bool) {
+	old, _ := j.KV.Get(key)
+	exists = j.KV.Delete(key)
+	j.record(key, old, exists)
+	return exists
+}
+
+func (j *Journal) record(key, value []byte, exists bool) {
+	if !j.recording {
+		return
+	}
+	j.replaced = append(j.replaced, entry{
+		key:    append([]byte(nil), key...),
+		value:  value,
+		exists: exists,
+	})
+}
diff --git a/runtime/runtime.go b/runtime/runtime.go
index c7ec765..b40460d 100644
--- a/runtime/runtime.go
+++ b/runtime/runtime.go
@@ -8,6 +8,7 @@ import (
 	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
 	"github.com/fdymylja/tmos/runtime/authentication/user"
 	"github.com/fdymylja/tmos/runtime/errors"
+	"github.com/fdymylja/tmos/runtime/kv"
 	"github.com/fdymylja/tmos/runtime/orm"
 	"k8s.io/klog/v2"
 
@@ -40,8 +41,9 @@ type Runtime struct {
 	authorizer        authorization.Authorizer
 	authorizerEnabled bool
 
-	router *Router
-	store  orm.Store
+	router   *Router
+	store    orm.Store
+	journals []*kv.Journal // record what is written to store
 
 	services *ServiceGroup
 }
@@ -261,6 +263,26 @@ func (r *Runtime) runTxPostAuthenticationChain(tx authentication.Tx) error {
 	return nil
 }
 
+// atomically runs f. If f fails, or panics, everything it wrote to the store is undone.
+func (r *Runtime) atomically(f func() error) (err error) {
+	for _, j := range r.journals {
+		j.Begin()
+	}
+	defer func() {
+		if p := recover(); p != nil {
+			err = fmt.Errorf("%w: panic: %v", errors.ErrBadRequest, p)
+		}
+		for _, j := range r.journals {
+			if err != nil {
+				j.Rollback()
+			} else {
+				j.Commit()
+			}
+		}
+	}()
+	return f()
+}
+
 func (r *Runtime) authorized(attributes authorization.Attributes) error {
 	if !r.authorizerEnabled {
 		return nil
-- 
2.43.0


From e83e86be45fa1b359076c3befec3e9dd8bcf9119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:33 +0000
Subject: [PATCH 17/48] fix: answer transactions and queries whose handling
 panics with an error

---
 runtime/abci.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/runtime/abci.go b/runtime/abci.go
index de6d686..1431ef6 100644
--- a/runtime/abci.go
+++ b/runtime/abci.go
@@ -1,6 +1,8 @@
 package runtime
 
 import (
+	"fmt"
+
 	"github.com/fdymylja/tmos/core/abci/tendermint/abci"
 	abcictrl "github.com/fdymylja/tmos/core/abci/v1alpha1"
 	meta "github.com/fdymylja/tmos/core/meta"
@@ -38,11 +40,21 @@ func (a ABCIApplication) SetOption(option types.RequestSetOption) types.Response
 	panic("implement me")
 }
 
-func (a ABCIApplication) Query(query types.RequestQuery) types.ResponseQuery {
+func (a ABCIApplication) Query(query types.RequestQuery) (resp types.ResponseQuery) {
+	defer func() {
+		if p := recover(); p != nil {
+			resp = types.ResponseQuery{Code: errors.CodeUnknown, Log: fmt.Sprintf("panic: %v", p)}
+		}
+	}()
 	return a.query.Handle(query)
 }
 
-func (a ABCIApplication) CheckTx(tmTx types.RequestCheckTx) types.ResponseCheckTx {
+func (a ABCIApplication) CheckTx(tmTx types.RequestCheckTx) (resp types.ResponseCheckTx) {
+	defer func() {
+		if p := recover(); p != nil {
+			resp = types.ResponseCheckTx(recovered(p))
+		}
+	}()
 	// decode tx
 	tx, err := a.rt.txDecoder.DecodeTx(tmTx.Tx)
 	if err != nil {
@@ -105,7 +117,12 @@ func (a ABCIApplication) BeginBlock(tmBlock types.RequestBeginBlock) types.Respo
 	}
 }
 
-func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDeliverTx {
+func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) (resp types.ResponseDeliverTx) {
+	defer func() {
+		if p := recover(); p != nil {
+			resp = recovered(p)
+		}
+	}()
 	// decode tx
 	tx, err := a.rt.txDecoder.DecodeTx(tmTx.Tx)
 	if err != nil {
@@ -139,6 +156,11 @@ func (a ABCIApplication) DeliverTx(tmTx types.RequestDeliverTx) types.ResponseDe
 	return types.ResponseDeliverTx{}
 }
 
+// recovered is the response to a transaction whose handling panicked
+func recovered(p interface{}) types.ResponseDeliverTx {
+	return errors.ToABCIResponse(0, 0, fmt.Errorf("%w: panic: %v", errors.ErrBadRequest, p))
+}
+
 func (a ABCIApplication) EndBlock(block types.RequestEndBlock) types.ResponseEndBlock {
 	// we set the abci endblcok state given us by tendermint so other modules can access it
 	err := a.rt.Deliver(a.user, &abcictrl.MsgSetEndBlockState{
-- 
2.43.0


From 0078e112af19786196e1f11d193e7c101d9a9b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:57 +0000
Subject: [PATCH 18/48] fix: only let signers of a transaction send their coins

---
 x/bank/extensions.go | 25 +++++++++++++++++++++++++
 x/bank/module.go     |  1 +
 2 files changed, 26 insertions(+)
 create mode 100644 x/bank/extensions.go

diff --git a/x/bank/extensions.go b/x/bank/extensions.go
new file mode 100644
index 0000000..810bab5
--- /dev/null
+++ b/x/bank/extensions.go
@@ -0,0 +1,25 @@
+package bank
+
+import (
+	"fmt"
+
+	"github.com/fdymylja/tmos/runtime/authentication"
+	"github.com/fdymylja/tmos/x/bank/v1alpha1"
+)
+
+// senderSigned is an authentication.AdmissionHandler which verifies
+// that the coins a transaction sends belong to those who signed it.
+type senderSigned struct{}
+
+func (senderSigned) Validate(tx authentication.Tx) error {
+	for _, transition := range tx.StateTransitions() {
+		msg, ok := transition.(*v1alpha1.MsgSendCoins)
+		if !ok {
+			continue
+		}
+		if !tx.Users().Has(msg.FromAddress) {
+			return fmt.Errorf("coins of %q can only be sent by their owner", msg.FromAddress)
+		}
+	}
+	return nil
+}
diff --git a/x/bank/module.go b/x/bank/module.go
index 59c5725..c9a231b 100644
--- a/x/bank/module.go
+++ b/x/bank/module.go
@@ -20,5 +20,6 @@ func (m Module) Initialize(client module.Client) module.Descriptor {
 		HandlesStateTransition(&v1alpha1.MsgSendCoins{}, NewSendCoinsHandler(client)).
 		HandlesStateTransition(&v1alpha1.MsgSetBalance{}, NewSetCoinsHandler(client)).
 		NeedsStateTransition(&authnv1alpha1.MsgCreateAccount{}).
+		WithAuthAdmissionHandler(senderSigned{}).
 		WithGenesis(newGenesisHandler()).Build()
 }
-- 
2.43.0


From 83a2229d361bd2e4fce46d6b1fa9b2a31eb8342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:42 +0000
Subject: [PATCH 19/48] fix: inspect nested messages for map fields

---
 pkg/protoutils/desc/desc.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/protoutils/desc/desc.go b/pkg/protoutils/desc/desc.go
index e9107a2..9257cdf 100644
--- a/pkg/protoutils/desc/desc.go
+++ b/pkg/protoutils/desc/desc.go
@@ -63,13 +63,12 @@ func hasMap(inspected map[protoreflect.FullName]struct{}, desc protoreflect.Mess
 	inspected[desc.FullName()] = struct{}{}
 
 	for _, insp := range toInspect {
-		if _, ok := inspected[desc.FullName()]; ok {
+		if _, ok := inspected[insp.FullName()]; ok {
 			continue
 		}
 		if hasMap(inspected, insp) {
 			return true
 		}
-		inspected[insp.FullName()] = struct{}{}
 	}
 
 	return false
-- 
2.43.0


From 53512619a337c949363ae2a87e2a25ae529c42fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:55 +0000
Subject: [PATCH 20/48] fix: set the api server before it is served

---
 core/apiserver/module.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/apiserver/module.go b/core/apiserver/module.go
index a8a0aa6..f82bacc 100644
--- a/core/apiserver/module.go
+++ b/core/apiserver/module.go
@@ -68,9 +68,10 @@ func (a *apiServer) Start() error {
 		return err
 	}
 
+	server := &http.Server{Handler: mux, Addr: ":8080"} // TODO configurable
+	a.server = server
 	go func() {
-		a.server = &http.Server{Handler: mux, Addr: ":8080"} // TODO configurable
-		err := a.server.ListenAndServe()
+		err := server.ListenAndServe()
 		if err != nil {
 			klog.ErrorS(err, "whilst serving")
 		}
@@ -80,5 +81,8 @@ func (a *apiServer) Start() error {
 }
 
 func (a *apiServer) Stop() error {
+	if a.server == nil {
+		return nil
+	}
 	return a.server.Shutdown(context.TODO())
 }
-- 
2.43.0


From 7db5fa10019c1ad7b04b1f69b3ad87e5b52ffb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:09 +0000
Subject: [PATCH 21/48] fix: pass the height of list requests on

---
 runtime/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/client/client.go b/runtime/client/client.go
index d0b6d74..f7a1852 100644
--- a/runtime/client/client.go
+++ b/runtime/client/client.go
@@ -87,7 +87,7 @@ type ListOption func(opt *ListOptionsRaw)
 // NOTE: this option can not be used by ModuleClient
 func ListAtHeight(height uint64) ListOption {
 	return func(opt *ListOptionsRaw) {
-		return
+		opt.Height = height
 	}
 }
 
-- 
2.43.0


From a330eb119e150b5b68855319c360c4bb62f0890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:23 +0000
Subject: [PATCH 22/48] fix: report module roles that can not be bound at
 genesis

---
 core/rbac/rbac_applier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/rbac/rbac_applier.go b/core/rbac/rbac_applier.go
index 2600ed9..02a221c 100644
--- a/core/rbac/rbac_applier.go
+++ b/core/rbac/rbac_applier.go
@@ -122,6 +122,9 @@ func (i initGenesisRoleCreator) handleModule(m *module.Descriptor) ([]*meta.APID
 		RoleId:  moduleRole.Id,
 		Subject: m.Name,
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return externalTransitions, nil
 }
-- 
2.43.0


From b5dd80998dc4d500f40440de9334e3181c6d5fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 23/48] fix: refuse repeated primary keys and duplicate
 secondary keys

---
 runtime/orm/schema/schema.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/orm/schema/schema.go b/runtime/orm/schema/schema.go
index 7c830fc..163cf8d 100644
--- a/runtime/orm/schema/schema.go
+++ b/runtime/orm/schema/schema.go
@@ -117,6 +117,9 @@ func parseObjectSchema(o meta.StateObject, options *Definition) (*Schema, error)
 		if primaryKey == nil {
 			return nil, fmt.Errorf("%w: invalid primary key field %s in object %s", ErrBadDefinition, options.PrimaryKey, meta.Name(o))
 		}
+		if primaryKey.IsList() {
+			return nil, fmt.Errorf("%w: primary key field %s of object %s is repeated", ErrBadDefinition, options.PrimaryKey, meta.Name(o))
+		}
 		primaryKeyEncoder, err := kindencoder.NewKindEncoder(primaryKey.Kind())
 		if err != nil {
 			return nil, fmt.Errorf("%w: %s has invalid primary key field: %s", ErrBadDefinition, meta.Name(o), err)
@@ -139,6 +142,9 @@ func parseObjectSchema(o meta.StateObject, options *Definition) (*Schema, error)
 	schema.secondaryKeys = make([]*Indexer, len(options.SecondaryKeys))
 	schema.secondaryKeysByField = make(map[string]*Indexer, len(options.SecondaryKeys))
 	for i, skName := range options.SecondaryKeys {
+		if _, exists := schema.secondaryKeysByField[skName]; exists {
+			return nil, fmt.Errorf("%w: duplicate secondary key %s in object %s", ErrBadDefinition, skName, meta.Name(o))
+		}
 		sk, err := NewIndexer(o, skName)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 9149709e3184d6975f906a50f35471d549d20df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:10 +0000
Subject: [PATCH 24/48] fix: require the three arguments the get command uses

---
 pkg/spfcli/get.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/spfcli/get.go b/pkg/spfcli/get.go
index 8d08abf..145fb94 100644
--- a/pkg/spfcli/get.go
+++ b/pkg/spfcli/get.go
@@ -8,7 +8,7 @@ func GetCmd(cli CLIContext) *cobra.Command {
 	return &cobra.Command{
 		Use:   "get",
 		Short: "fetch a state object in the apiserver",
-		Args:  cobra.MinimumNArgs(2),
+		Args:  cobra.ExactArgs(3),
 		RunE: func(cmd *cobra.Command, args []string) error {
 			client := cli.Client()
 
-- 
2.43.0


From 78554e9da5de316295bb0d9b9dd3ab059f4de863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:44 +0000
Subject: [PATCH 25/48] fix: serve objects whatever the case of their key field
 and content of their key

---
 core/apiserver/router/server.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index cddf294..517de71 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -3,6 +3,7 @@ package router
 import (
 	"fmt"
 	"net/http"
+	"net/url"
 	"strings"
 
 	"github.com/fdymylja/tmos/core/meta"
@@ -20,7 +21,7 @@ import (
 func NewBuilder(c client.Client) *Builder {
 	return &Builder{
 		client:     c,
-		mux:        mux.NewRouter(),
+		mux:        mux.NewRouter().UseEncodedPath(), // keys can contain slashes
 		modules:    map[string]module.Descriptor{},
 		knownPaths: nil,
 		openAPI:    NewOpenAPIBuilder(),
@@ -79,8 +80,8 @@ func (s *Builder) CreateStateObjectHandler(object meta.StateObject, definition *
 		// create get
 		def := object.APIDefinition()
 		singleInstancePath := strings.ToLower(
-			fmt.Sprintf("/%s/%s/{%s}", def.Group, def.Kind, definition.PrimaryKey),
-		)
+			fmt.Sprintf("/%s/%s", def.Group, def.Kind),
+		) + fmt.Sprintf("/{%s}", definition.PrimaryKey)
 		listInstancePath := strings.ToLower(
 			fmt.Sprintf("/%s/%ss", def.Group, def.Kind), // TODO the plural name should be in the state object schema options
 		)
@@ -159,6 +160,11 @@ func newGetHandler(c client.Client, schema *schema.Schema, definition *schema.De
 			badRequest(w, "missing object key in url path")
 			return
 		}
+		primaryKeyValue, err = url.PathUnescape(primaryKeyValue)
+		if err != nil {
+			badRequest(w, "bad primary key escaping in url path: %s", err)
+			return
+		}
 		// encode primary key
 		pkBytes, err := schema.EncodePrimaryKeyString(primaryKeyValue)
 		if err != nil {
-- 
2.43.0


From 47bbe441e5a61ef9936db9fc6367e3f39cac7f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:08 +0000
Subject: [PATCH 26/48] fix: refuse admission handlers of unknown state
 transitions

---
 runtime/router.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/router.go b/runtime/router.go
index 222e1e9..18e5a63 100644
--- a/runtime/router.go
+++ b/runtime/router.go
@@ -39,6 +39,9 @@ type Router struct {
 func (r *Router) AddStateTransitionAdmissionHandler(transition meta.StateTransition, handler statetransition.AdmissionHandler) error {
 	name := meta.Name(transition)
 
+	if !r.knownStateTransition(transition) {
+		return fmt.Errorf("%w: unable to register state transition admission handler for unknown state transition %s", ErrTransitionNotFound, name)
+	}
 	if !r.stateTransitionAdmissionHandlerExists(transition) {
 		r.stateTransitionAdmissionHandlers[name] = nil
 	}
-- 
2.43.0


From 9d5d7a4d20a373054bd4a9bac730602bbb462cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:28 +0000
Subject: [PATCH 27/48] fix: make the native secp256k1 backend build

It imported an internal package of another module and defined
VerifySignature on the private key.
---
 x/authn/crypto/secp256k1/secp256k1_cgo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/authn/crypto/secp256k1/secp256k1_cgo.go b/x/authn/crypto/secp256k1/secp256k1_cgo.go
index 4208848..3a4e62b 100644
--- a/x/authn/crypto/secp256k1/secp256k1_cgo.go
+++ b/x/authn/crypto/secp256k1/secp256k1_cgo.go
@@ -5,7 +5,7 @@ package secp256k1
 import (
 	"github.com/tendermint/tendermint/crypto"
 
-	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1/internal/secp256k1"
+	"github.com/fdymylja/tmos/x/authn/crypto/secp256k1/internal/secp256k1"
 )
 
 // Sign creates an ECDSA signature on curve Secp256k1, using SHA256 on the msg.
@@ -21,6 +21,6 @@ func (privKey *PrivKey) Sign(msg []byte) ([]byte, error) {
 
 // VerifySignature validates the signature.
 // The msg will be hashed prior to signature verification.
-func (pubKey *PrivKey) VerifySignature(msg []byte, sig []byte) bool {
+func (pubKey *PubKey) VerifySignature(msg []byte, sig []byte) bool {
 	return secp256k1.VerifySignature(pubKey.Key, crypto.Sha256(msg), sig)
 }
-- 
2.43.0


From 8c7a514ed9252826d66cb47ae7bd2c0a8252cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:46 +0000
Subject: [PATCH 28/48] fix: accept only strict DER encodings of ECDSA
 signatures

Trailing bytes after the signature and additional elements within it were
ignored, so one signature had unboundedly many accepted encodings.
---
 x/authn/crypto/internal/ecdsa/pubkey.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/x/authn/crypto/internal/ecdsa/pubkey.go b/x/authn/crypto/internal/ecdsa/pubkey.go
index 01b8d6d..9c1a3f9 100644
--- a/x/authn/crypto/internal/ecdsa/pubkey.go
+++ b/x/authn/crypto/internal/ecdsa/pubkey.go
@@ -4,21 +4,14 @@ import (
 	"crypto/ecdsa"
 	"crypto/elliptic"
 	"crypto/sha256"
-	"encoding/asn1"
 	"fmt"
 	"github.com/fdymylja/tmos/pkg/conv"
-	"math/big"
 
 	tmcrypto "github.com/tendermint/tendermint/crypto"
 
 	"github.com/cosmos/cosmos-sdk/types/errors"
 )
 
-// signature holds the r and s values of an ECDSA signature.
-type signature struct {
-	R, S *big.Int
-}
-
 type PubKey struct {
 	ecdsa.PublicKey
 
@@ -47,13 +40,8 @@ func (pk *PubKey) Bytes() []byte {
 
 // VerifySignature checks if sig is a valid ECDSA signature for msg.
 func (pk *PubKey) VerifySignature(msg []byte, sig []byte) bool {
-	s := new(signature)
-	if _, err := asn1.Unmarshal(sig, s); err != nil || s == nil {
-		return false
-	}
-
 	h := sha256.Sum256(msg)
-	return ecdsa.Verify(&pk.PublicKey, h[:], s.R, s.S)
+	return ecdsa.VerifyASN1(&pk.PublicKey, h[:], sig)
 }
 
 // String returns a string representation of the public key based on the curveName.
-- 
2.43.0


From 29f1e9529610b8103187f4e6c6571da7d381435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:01 +0000
Subject: [PATCH 29/48] fix: refuse ECDSA private keys which are zero or beyond
 the curve order

The public key of such a key is the point at infinity, whose serialisation
panics, or the one of another key.
---
 x/authn/crypto/internal/ecdsa/privkey.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/authn/crypto/internal/ecdsa/privkey.go b/x/authn/crypto/internal/ecdsa/privkey.go
index 0930285..ce29168 100644
--- a/x/authn/crypto/internal/ecdsa/privkey.go
+++ b/x/authn/crypto/internal/ecdsa/privkey.go
@@ -62,8 +62,13 @@ func (sk *PrivKey) Unmarshal(bz []byte, curve elliptic.Curve, expectedSize int)
 		return fmt.Errorf("wrong ECDSA SK bytes, expecting %d bytes", expectedSize)
 	}
 
+	d := new(big.Int).SetBytes(bz)
+	if d.Sign() == 0 || d.Cmp(curve.Params().N) >= 0 {
+		return fmt.Errorf("wrong ECDSA SK bytes, not a valid scalar")
+	}
+
 	sk.Curve = curve
-	sk.D = new(big.Int).SetBytes(bz)
+	sk.D = d
 	sk.X, sk.Y = curve.ScalarBaseMult(bz)
 	return nil
 }
-- 
2.43.0


From fdd8e5ab277c84989298db1d1ffb7065c09a6305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:15 +0000
Subject: [PATCH 30/48] fix: do not answer the address of another ECDSA key or
 type

The address was cached in the key and survived unmarshalling another key
into it and asking for the address of another type.
---
 x/authn/crypto/internal/ecdsa/privkey.go |  2 +-
 x/authn/crypto/internal/ecdsa/pubkey.go  | 11 ++---------
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/x/authn/crypto/internal/ecdsa/privkey.go b/x/authn/crypto/internal/ecdsa/privkey.go
index ce29168..0cf7088 100644
--- a/x/authn/crypto/internal/ecdsa/privkey.go
+++ b/x/authn/crypto/internal/ecdsa/privkey.go
@@ -24,7 +24,7 @@ type PrivKey struct {
 
 // PubKey returns ECDSA public key associated with this private key.
 func (sk *PrivKey) PubKey() PubKey {
-	return PubKey{sk.PublicKey, nil}
+	return PubKey{sk.PublicKey}
 }
 
 // Bytes serialize the private key using big-endian.
diff --git a/x/authn/crypto/internal/ecdsa/pubkey.go b/x/authn/crypto/internal/ecdsa/pubkey.go
index 9c1a3f9..26882fc 100644
--- a/x/authn/crypto/internal/ecdsa/pubkey.go
+++ b/x/authn/crypto/internal/ecdsa/pubkey.go
@@ -14,19 +14,12 @@ import (
 
 type PubKey struct {
 	ecdsa.PublicKey
-
-	// cache
-	address tmcrypto.Address
 }
 
-// Address gets the address associated with a pubkey. If no address exists, it returns a newly created ADR-28 address
-// for ECDSA keys.
+// Address gets the ADR-28 address associated with a pubkey.
 // protoName is a concrete proto structure id.
 func (pk *PubKey) Address(protoName string) tmcrypto.Address {
-	if pk.address == nil {
-		pk.address = Hash(protoName, pk.Bytes())
-	}
-	return pk.address
+	return Hash(protoName, pk.Bytes())
 }
 
 // Bytes returns the byte representation of the public key using a compressed form
-- 
2.43.0


From 41efe52b694f0294eb700f211aaf743ccbb20f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:50 +0000
Subject: [PATCH 31/48] fix: refuse to sign with an invalid secp256k1 private
 key

As the native backend does: a key which is no 32 byte scalar below the
curve order has no public key its signatures could be verified with.
---
 x/authn/crypto/secp256k1/secp256k1_nocgo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/authn/crypto/secp256k1/secp256k1_nocgo.go b/x/authn/crypto/secp256k1/secp256k1_nocgo.go
index 2d60544..6e60722 100644
--- a/x/authn/crypto/secp256k1/secp256k1_nocgo.go
+++ b/x/authn/crypto/secp256k1/secp256k1_nocgo.go
@@ -3,6 +3,7 @@
 package secp256k1
 
 import (
+	"errors"
 	"math/big"
 
 	secp256k1 "github.com/btcsuite/btcd/btcec"
@@ -20,6 +21,9 @@ var secp256k1halfN = new(big.Int).Rsh(secp256k1.S256().N, 1)
 // The returned signature will be of the form R || S (in lower-S form).
 func (privKey *PrivKey) Sign(msg []byte) ([]byte, error) {
 	priv, _ := secp256k1.PrivKeyFromBytes(secp256k1.S256(), privKey.Key)
+	if len(privKey.Key) != PrivKeySize || priv.D.Sign() == 0 || priv.D.Cmp(secp256k1.S256().N) >= 0 {
+		return nil, errors.New("invalid private key")
+	}
 	sig, err := priv.Sign(crypto.Sha256(msg))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 44b691ef90459d92f7c13f9acbc733fd7b3dbc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:27 +0000
Subject: [PATCH 32/48] fix: verify signatures with compressed secp256k1 keys
 only

A public key is documented to be in compressed form, and has no address
otherwise. The Go backend verified with uncompressed keys of an invalid
format byte, which the native backend refuses.
---
 x/authn/crypto/secp256k1/secp256k1_cgo.go   | 2 +-
 x/authn/crypto/secp256k1/secp256k1_nocgo.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/authn/crypto/secp256k1/secp256k1_cgo.go b/x/authn/crypto/secp256k1/secp256k1_cgo.go
index 3a4e62b..79b8091 100644
--- a/x/authn/crypto/secp256k1/secp256k1_cgo.go
+++ b/x/authn/crypto/secp256k1/secp256k1_cgo.go
@@ -22,5 +22,5 @@ func (privKey *PrivKey) Sign(msg []byte) ([]byte, error) {
 // VerifySignature validates the signature.
 // The msg will be hashed prior to signature verification.
 func (pubKey *PubKey) VerifySignature(msg []byte, sig []byte) bool {
-	return secp256k1.VerifySignature(pubKey.Key, crypto.Sha256(msg), sig)
+	return len(pubKey.Key) == PubKeySize && secp256k1.VerifySignature(pubKey.Key, crypto.Sha256(msg), sig)
 }
diff --git a/x/authn/crypto/secp256k1/secp256k1_nocgo.go b/x/authn/crypto/secp256k1/secp256k1_nocgo.go
index 6e60722..a357499 100644
--- a/x/authn/crypto/secp256k1/secp256k1_nocgo.go
+++ b/x/authn/crypto/secp256k1/secp256k1_nocgo.go
@@ -35,7 +35,7 @@ func (privKey *PrivKey) Sign(msg []byte) ([]byte, error) {
 // VerifyBytes verifies a signature of the form R || S.
 // It rejects signatures which are not in lower-S form.
 func (pubKey *PubKey) VerifySignature(msg []byte, sigStr []byte) bool {
-	if len(sigStr) != 64 {
+	if len(sigStr) != 64 || len(pubKey.Key) != PubKeySize {
 		return false
 	}
 	pub, err := secp256k1.ParsePubKey(pubKey.Key, secp256k1.S256())
-- 
2.43.0


From 10814597657b9aee490c00a04b3c6521b3a84f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:15 +0000
Subject: [PATCH 33/48] fix: point addition of equal and of opposite secp256k1
 points

The addition formula does not cover them: it ended in a nil dereference.
---
 .../crypto/secp256k1/internal/secp256k1/curve.go    | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/x/authn/crypto/secp256k1/internal/secp256k1/curve.go b/x/authn/crypto/secp256k1/internal/secp256k1/curve.go
index 7a23873..c67ac13 100644
--- a/x/authn/crypto/secp256k1/internal/secp256k1/curve.go
+++ b/x/authn/crypto/secp256k1/internal/secp256k1/curve.go
@@ -119,6 +119,9 @@ func (BitCurve *BitCurve) IsOnCurve(x, y *big.Int) bool {
 // affineFromJacobian reverses the Jacobian transform. See the comment at the
 // top of the file.
 func (BitCurve *BitCurve) affineFromJacobian(x, y, z *big.Int) (xOut, yOut *big.Int) {
+	if z.Sign() == 0 {
+		return new(big.Int), new(big.Int)
+	}
 	zinv := new(big.Int).ModInverse(z, BitCurve.P)
 	zinvsq := new(big.Int).Mul(zinv, zinv)
 
@@ -132,6 +135,16 @@ func (BitCurve *BitCurve) affineFromJacobian(x, y, z *big.Int) (xOut, yOut *big.
 
 // Add returns the sum of (x1,y1) and (x2,y2)
 func (BitCurve *BitCurve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
+	// the point at infinity is represented as (0, 0)
+	if x1.Sign() == 0 && y1.Sign() == 0 {
+		return x2, y2
+	}
+	if x2.Sign() == 0 && y2.Sign() == 0 {
+		return x1, y1
+	}
+	if x1.Cmp(x2) == 0 && y1.Cmp(y2) == 0 {
+		return BitCurve.Double(x1, y1)
+	}
 	z := new(big.Int).SetInt64(1)
 	return BitCurve.affineFromJacobian(BitCurve.addJacobian(x1, y1, z, x2, y2, z))
 }
-- 
2.43.0


From 109bd6ab0b75c0f1041ca8156b1ac059441ff155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:01 +0000
Subject: [PATCH 34/48] fix: refuse to multiply a point which is not on
 secp256k1

The multiplication read uninitialized memory for points of small order.
---
 x/authn/crypto/secp256k1/internal/secp256k1/ext.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/authn/crypto/secp256k1/internal/secp256k1/ext.h b/x/authn/crypto/secp256k1/internal/secp256k1/ext.h
index e422fe4..48697f8 100644
--- a/x/authn/crypto/secp256k1/internal/secp256k1/ext.h
+++ b/x/authn/crypto/secp256k1/internal/secp256k1/ext.h
@@ -92,7 +92,7 @@ static int secp256k1_ext_reencode_pubkey(
 // secp256k1_ext_scalar_mul multiplies a point by a scalar in constant time.
 //
 // Returns: 1: multiplication was successful
-//          0: scalar was invalid (zero or overflow)
+//          0: scalar was invalid (zero or overflow) or point not on the curve
 // Args:    ctx:      pointer to a context object (cannot be NULL)
 //  Out:    point:    the multiplied point (usually secret)
 //  In:     point:    pointer to a 64-byte public point,
@@ -113,7 +113,8 @@ int secp256k1_ext_scalar_mul(const secp256k1_context* ctx, unsigned char *point,
 	secp256k1_fe_set_b32(&feY, point+32);
 	secp256k1_ge_set_xy(&ge, &feX, &feY);
 	secp256k1_scalar_set_b32(&s, scalar, &overflow);
-	if (overflow || secp256k1_scalar_is_zero(&s)) {
+	/* ecmult_const reads uninitialized values for points of small order, which exist off the curve only. */
+	if (overflow || secp256k1_scalar_is_zero(&s) || !secp256k1_ge_is_valid_var(&ge)) {
 		ret = 0;
 	} else {
 		secp256k1_ecmult_const(&res, &ge, &s);
-- 
2.43.0


From 1775174f12d5e27f69dc82d131c286307c5d5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:46 +0000
Subject: [PATCH 35/48] fix: find the state transition's own access control in
 its file's dependencies

---
 core/rbac/rbac_applier.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/core/rbac/rbac_applier.go b/core/rbac/rbac_applier.go
index 02a221c..65e09f3 100644
--- a/core/rbac/rbac_applier.go
+++ b/core/rbac/rbac_applier.go
@@ -1,6 +1,7 @@
 package rbac
 
 import (
+	"errors"
 	"fmt"
 
 	abciv1alpha1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
@@ -135,27 +136,24 @@ func (i initGenesisRoleCreator) getACL(std *module.StateTransition) (*xt.StateTr
 
 	// runtime provides us the files in order so every file
 	// we add we are sure it already has the required dependencies.
-	var fds []protoreflect.FileDescriptor // NOTE(fdymylja): we cannot use protoregistry.Files.Range because the order is non deterministic
 	for _, rawFD := range std.ProtoDependencies {
 		fd, err := protodesc.NewFile(rawFD, fileRegistry)
 		if err != nil {
 			return nil, fmt.Errorf("unable to create file descriptor %s for state transition %s: %w", *rawFD.Name, std.ApiDefinition.Name(), err)
 		}
-		fds = append(fds, fd)
 		err = fileRegistry.RegisterFile(fd)
 		if err != nil {
 			return nil, fmt.Errorf("unable to register file %s for state transition %s: %w", *rawFD.Name, std.ApiDefinition.Name(), err)
 		}
 	}
 
-	var md protoreflect.MessageDescriptor
-	for _, fd := range fds {
-		got := fd.Messages().ByName(protoreflect.FullName(std.ProtobufFullname).Name())
-		if got != nil {
-			md = got
-			break
-		}
+	// the full name is required because the dependencies might
+	// contain messages which share their short name with the state transition.
+	desc, err := fileRegistry.FindDescriptorByName(protoreflect.FullName(std.ProtobufFullname))
+	if err != nil && !errors.Is(err, protoregistry.NotFound) {
+		return nil, err
 	}
+	md, _ := desc.(protoreflect.MessageDescriptor)
 
 	// critical error, there's some data corruption uh
 	if md == nil {
-- 
2.43.0


From 91948f2acb9902128b2a09da95ed8de858f3838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:57 +0000
Subject: [PATCH 36/48] fix: accounts hold public keys of known types only,
 under their own type

An account holding anything else, or a key under its alias, could not be
encoded and was missing from every query and API answer.
---
 x/authn/ctrl_admission.go        | 22 ++++++++++++++++++++++
 x/authn/ctrl_state_transition.go |  9 ++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/x/authn/ctrl_admission.go b/x/authn/ctrl_admission.go
index 14d940c..8fe81cd 100644
--- a/x/authn/ctrl_admission.go
+++ b/x/authn/ctrl_admission.go
@@ -4,7 +4,11 @@ import (
 	"fmt"
 
 	"github.com/fdymylja/tmos/runtime/statetransition"
+	"github.com/fdymylja/tmos/x/authn/crypto"
+	"github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
 	v1alpha12 "github.com/fdymylja/tmos/x/authn/v1alpha1"
+	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/types/known/anypb"
 )
 
 func NewCreateAccountAdmissionHandler() CreateAccountAdmissionHandler {
@@ -24,6 +28,24 @@ func (CreateAccountAdmissionHandler) Validate(request statetransition.AdmissionR
 	switch {
 	case acc.Address == "":
 		err = fmt.Errorf("no address provided")
+	case acc.PubKey != nil:
+		_, err = canonicalPubKey(acc.PubKey)
 	}
 	return err
 }
+
+var accountPubKeys = crypto.NewDefaultPubKeyResolver([]crypto.PubKey{&secp256k1.PubKey{}})
+
+// canonicalPubKey returns the public key as accounts hold it: under the type
+// it is resolved to, so that the account which contains it can be encoded to JSON.
+func canonicalPubKey(any *anypb.Any) (*anypb.Any, error) {
+	pk, err := accountPubKeys.New(any)
+	if err != nil {
+		return nil, fmt.Errorf("invalid public key: %w", err)
+	}
+	b, err := proto.Marshal(pk)
+	if err != nil {
+		return nil, err
+	}
+	return &anypb.Any{TypeUrl: fmt.Sprintf("/%s", proto.MessageName(pk)), Value: b}, nil
+}
diff --git a/x/authn/ctrl_state_transition.go b/x/authn/ctrl_state_transition.go
index bd66933..98410d9 100644
--- a/x/authn/ctrl_state_transition.go
+++ b/x/authn/ctrl_state_transition.go
@@ -26,10 +26,17 @@ func (m *CreateAccountHandler) Exec(req statetransition.ExecutionRequest) (resp
 	if err != nil {
 		return statetransition.ExecutionResponse{}, err
 	}
+	pubKey := msg.Account.PubKey
+	if pubKey != nil {
+		pubKey, err = canonicalPubKey(pubKey)
+		if err != nil {
+			return statetransition.ExecutionResponse{}, err
+		}
+	}
 	// create account
 	account := &v1alpha1.Account{
 		Address:       msg.Account.Address,
-		PubKey:        msg.Account.PubKey,
+		PubKey:        pubKey,
 		AccountNumber: lastAccNum.Number,
 		Sequence:      0,
 	}
-- 
2.43.0


From 3dea065c400edc8d699575a6756fb66f2a01b1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:50 +0000
Subject: [PATCH 37/48] fix: find map fields inside groups

---
 pkg/protoutils/desc/desc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/protoutils/desc/desc.go b/pkg/protoutils/desc/desc.go
index 9257cdf..f37cfce 100644
--- a/pkg/protoutils/desc/desc.go
+++ b/pkg/protoutils/desc/desc.go
@@ -53,7 +53,7 @@ func hasMap(inspected map[protoreflect.FullName]struct{}, desc protoreflect.Mess
 		switch {
 		case fd.IsMap():
 			return true
-		case fd.Kind() == protoreflect.MessageKind:
+		case fd.Kind() == protoreflect.MessageKind, fd.Kind() == protoreflect.GroupKind:
 			toInspect = append(toInspect, fd.Message())
 		default:
 			continue
-- 
2.43.0


From c4567077984801fcf9c4c128d63c36f67a5bf7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:23 +0000
Subject: [PATCH 38/48] fix: forge list types of messages in files without
 package or go_package

---
 pkg/protoutils/forge/list.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/protoutils/forge/list.go b/pkg/protoutils/forge/list.go
index 5a389fe..1fb4da7 100644
--- a/pkg/protoutils/forge/list.go
+++ b/pkg/protoutils/forge/list.go
@@ -20,9 +20,13 @@ const PackagePrefix = "dynamic"
 func List(message proto.Message, resolver protodesc.Resolver) (protoreflect.MessageType, error) {
 	fd := message.ProtoReflect().Descriptor().ParentFile()
 	md := message.ProtoReflect().Descriptor()
+	pkg := PackagePrefix
+	if fd.Package() != "" {
+		pkg = fmt.Sprintf("%s.%s", PackagePrefix, fd.Package())
+	}
 	forgedFdp := &descriptorpb.FileDescriptorProto{
 		Name:       ptrprim.String(fmt.Sprintf("%s/%s", PackagePrefix, fd.Path())),
-		Package:    ptrprim.String(fmt.Sprintf("%s.%s", PackagePrefix, fd.Package())),
+		Package:    ptrprim.String(pkg),
 		Dependency: []string{fd.Path()},
 		MessageType: []*descriptorpb.DescriptorProto{
 			{
@@ -39,13 +43,13 @@ func List(message proto.Message, resolver protodesc.Resolver) (protoreflect.Mess
 							x := descriptorpb.FieldDescriptorProto_TYPE_MESSAGE
 							return &x
 						}(),
-						TypeName: ptrprim.String(fmt.Sprintf("%s", md.FullName())),
+						TypeName: ptrprim.String(fmt.Sprintf(".%s", md.FullName())),
 					},
 				},
 			},
 		},
 		Options: &descriptorpb.FileOptions{
-			GoPackage: ptrprim.String(fmt.Sprintf("%s/dynamic", *fd.Options().(*descriptorpb.FileOptions).GoPackage)), // TODO(fdymylja): remove me when the oas3schema rework is done
+			GoPackage: ptrprim.String(fmt.Sprintf("%s/dynamic", fd.Options().(*descriptorpb.FileOptions).GetGoPackage())), // TODO(fdymylja): remove me when the oas3schema rework is done
 		},
 	}
 	fd, err := protodesc.NewFile(forgedFdp, resolver)
-- 
2.43.0


From ea70dc340247fc8aa27aa2a76f95bd74755052de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:08 +0000
Subject: [PATCH 39/48] fix: generate code only for the requested files and in
 a fixed order

---
 pkg/modulecodegen/codegen.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/pkg/modulecodegen/codegen.go b/pkg/modulecodegen/codegen.go
index d9b1a37..ecc9d12 100644
--- a/pkg/modulecodegen/codegen.go
+++ b/pkg/modulecodegen/codegen.go
@@ -16,23 +16,12 @@ const clientImportPackage = protogen.GoImportPath("github.com/fdymylja/tmos/runt
 const GenCodeFileSuffix = ".starport.go"
 
 func PluginRunner(plugin *protogen.Plugin) error {
-	groups := make(map[protogen.GoImportPath][]*protogen.File)
 	for _, f := range plugin.Files {
-		groups[f.GoImportPath] = append(groups[f.GoImportPath], f)
-	}
-	// then we parse single groups
-	for _, group := range groups {
-		err := genFiles(plugin, group)
-		if err != nil {
-			return err
+		// files which are only imported are not ours to generate
+		if !f.Generate {
+			continue
 		}
-	}
-	return nil
-}
-
-func genFiles(gen *protogen.Plugin, group []*protogen.File) error {
-	for _, file := range group {
-		genFile(file, gen)
+		genFile(f, plugin)
 	}
 	return nil
 }
-- 
2.43.0


From 0372d67eba4081b7a17ed0933b8ac843b8920298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:44 +0000
Subject: [PATCH 40/48] fix: generate valid parameter names for keys and
 objects named like Go keywords

---
 pkg/modulecodegen/codegen.go | 26 ++++++++++++++------------
 pkg/modulecodegen/util.go    | 26 ++++++++++++++++++++++++++
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/pkg/modulecodegen/codegen.go b/pkg/modulecodegen/codegen.go
index ecc9d12..9569f5f 100644
--- a/pkg/modulecodegen/codegen.go
+++ b/pkg/modulecodegen/codegen.go
@@ -209,18 +209,20 @@ func genStateObjectClient(g *protogen.GeneratedFile, message *protogen.Message)
 	if err != nil {
 		panic(err) // TODO not with panic
 	}
+	keyParam := keyParamName(g, message, primaryKey)
+	objectParam := objectParamName(message)
 	exportedClient := message.GoIdent.GoName + "Client"
 	g.P("type ", exportedClient, " interface {")
 	switch singleTon {
 	case true:
 		g.P("Get(opts ...", clientImportPackage.Ident("GetOption"), ") (*", message.GoIdent, ", error)")
 	case false:
-		g.P("Get(", primaryKey, " ", primaryKeyGoType, ", opts ...", clientImportPackage.Ident("GetOption"), ") (*", message.GoIdent, ", error)")
+		g.P("Get(", keyParam, " ", primaryKeyGoType, ", opts ...", clientImportPackage.Ident("GetOption"), ") (*", message.GoIdent, ", error)")
 		g.P("List(opts ...", clientImportPackage.Ident("ListOption"), ") (", message.GoIdent, "Iterator, error)")
 	}
-	g.P("Create(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("CreateOption"), ") error")
-	g.P("Delete(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("DeleteOption"), ") error")
-	g.P("Update(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("UpdateOption"), ") error")
+	g.P("Create(", objectParam, " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("CreateOption"), ") error")
+	g.P("Delete(", objectParam, " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("DeleteOption"), ") error")
+	g.P("Update(", objectParam, " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("UpdateOption"), ") error")
 	g.P("}")
 	g.P()
 
@@ -242,9 +244,9 @@ func genStateObjectClient(g *protogen.GeneratedFile, message *protogen.Message)
 		g.P("return _spfGenO, nil")
 		g.P("}")
 	case false:
-		g.P("func (x *", unexportedClient, ") ", "Get(", primaryKey, " ", primaryKeyGoType, ", opts... ", clientImportPackage.Ident("GetOption"), ") (*", message.GoIdent, ", error) {")
+		g.P("func (x *", unexportedClient, ") ", "Get(", keyParam, " ", primaryKeyGoType, ", opts... ", clientImportPackage.Ident("GetOption"), ") (*", message.GoIdent, ", error) {")
 		g.P("_spfGenO := new(", message.GoIdent, ")")
-		g.P("_spfGenID := ", metaPkg.Ident(metaIDConstructor[primaryKeyGoType]), "(", primaryKey, ")")
+		g.P("_spfGenID := ", metaPkg.Ident(metaIDConstructor[primaryKeyGoType]), "(", keyParam, ")")
 		g.P("_spfGenErr := x.client.Get(_spfGenID, _spfGenO, opts...)")
 		g.P("if _spfGenErr != nil {")
 		g.P("return nil, _spfGenErr")
@@ -260,18 +262,18 @@ func genStateObjectClient(g *protogen.GeneratedFile, message *protogen.Message)
 	}
 	// gen create
 	g.P()
-	g.P("func (x *", unexportedClient, ") ", "Create(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("CreateOption"), ") error {")
-	g.P("return x.client.Create(", toLowerCamelCase(message.GoIdent), ", opts...)")
+	g.P("func (x *", unexportedClient, ") ", "Create(", objectParam, " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("CreateOption"), ") error {")
+	g.P("return x.client.Create(", objectParam, ", opts...)")
 	g.P("}")
 	g.P()
 	// gen delete
-	g.P("func (x *", unexportedClient, ") ", "Delete(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("DeleteOption"), ") error {")
-	g.P("return x.client.Delete(", toLowerCamelCase(message.GoIdent), ", opts...)")
+	g.P("func (x *", unexportedClient, ") ", "Delete(", objectParam, " *", message.GoIdent, ", opts ...", clientImportPackage.Ident("DeleteOption"), ") error {")
+	g.P("return x.client.Delete(", objectParam, ", opts...)")
 	g.P("}")
 	g.P()
 	// gen update
-	g.P("func (x *", unexportedClient, ") ", "Update(", toLowerCamelCase(message.GoIdent), " *", message.GoIdent, ", opts ... ", clientImportPackage.Ident("UpdateOption"), ") error {")
-	g.P("return x.client.Update(", toLowerCamelCase(message.GoIdent), ", opts...)")
+	g.P("func (x *", unexportedClient, ") ", "Update(", objectParam, " *", message.GoIdent, ", opts ... ", clientImportPackage.Ident("UpdateOption"), ") error {")
+	g.P("return x.client.Update(", objectParam, ", opts...)")
 	g.P("}")
 	g.P()
 
diff --git a/pkg/modulecodegen/util.go b/pkg/modulecodegen/util.go
index a78b700..1921072 100644
--- a/pkg/modulecodegen/util.go
+++ b/pkg/modulecodegen/util.go
@@ -1,6 +1,8 @@
 package modulecodegen
 
 import (
+	"go/token"
+	"strings"
 	"unicode"
 
 	"google.golang.org/protobuf/compiler/protogen"
@@ -11,3 +13,27 @@ func toLowerCamelCase(ident protogen.GoIdent) string {
 	lower := unicode.ToLower((rune)(id[0]))
 	return string(lower) + id[1:]
 }
+
+// keyParamName returns the name of the parameter which holds the primary key
+// in the generated Get method: the primary key's name, unless it can not be used there.
+func keyParamName(g *protogen.GeneratedFile, message *protogen.Message, primaryKey string) string {
+	metaName := strings.SplitN(g.QualifiedGoIdent(metaPkg.Ident("ID")), ".", 2)[0]
+	switch primaryKey {
+	case "x", "opts", "new", "nil", metaName, message.GoIdent.GoName:
+		return "_spfGenKey"
+	}
+	if !token.IsIdentifier(primaryKey) {
+		return "_spfGenKey"
+	}
+	return primaryKey
+}
+
+// objectParamName returns the name of the parameter which holds the object
+// in the generated Create, Delete and Update methods.
+func objectParamName(message *protogen.Message) string {
+	name := toLowerCamelCase(message.GoIdent)
+	if name == "x" || name == "opts" || !token.IsIdentifier(name) {
+		return "_spfGenO"
+	}
+	return name
+}
-- 
2.43.0


From 066ccff045297215f3cbaf53f2739dab96537d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:02 +0000
Subject: [PATCH 41/48] fix: generate clients for objects with bool and integer
 primary keys

---
 core/meta/state.go           | 27 +++++++++++++++++++++++++++
 pkg/modulecodegen/codegen.go |  5 +++++
 2 files changed, 32 insertions(+)

diff --git a/core/meta/state.go b/core/meta/state.go
index 0bfaec9..37f9835 100644
--- a/core/meta/state.go
+++ b/core/meta/state.go
@@ -1,5 +1,7 @@
 package meta
 
+import "google.golang.org/protobuf/encoding/protowire"
+
 var SingletonID = BytesID("unique")
 
 func NewStringID(id string) StringID {
@@ -18,6 +20,31 @@ type BytesID []byte
 
 func (b BytesID) Bytes() []byte { return b }
 
+// NewBoolID returns the ID of an object whose primary key is a bool
+func NewBoolID(id bool) BytesID {
+	return protowire.AppendVarint(nil, protowire.EncodeBool(id))
+}
+
+// NewInt32ID returns the ID of an object whose primary key is an int32
+func NewInt32ID(id int32) BytesID {
+	return protowire.AppendVarint(nil, uint64(id))
+}
+
+// NewInt64ID returns the ID of an object whose primary key is an int64
+func NewInt64ID(id int64) BytesID {
+	return protowire.AppendVarint(nil, uint64(id))
+}
+
+// NewUint32ID returns the ID of an object whose primary key is an uint32
+func NewUint32ID(id uint32) BytesID {
+	return protowire.AppendVarint(nil, uint64(id))
+}
+
+// NewUint64ID returns the ID of an object whose primary key is an uint64
+func NewUint64ID(id uint64) BytesID {
+	return protowire.AppendVarint(nil, id)
+}
+
 // ID defines the unique identification of an StateObject.
 type ID interface {
 	Bytes() []byte
diff --git a/pkg/modulecodegen/codegen.go b/pkg/modulecodegen/codegen.go
index 9569f5f..672fb5f 100644
--- a/pkg/modulecodegen/codegen.go
+++ b/pkg/modulecodegen/codegen.go
@@ -364,5 +364,10 @@ var protoKindToGoType = map[protoreflect.Kind]string{
 var metaIDConstructor = map[string]string{
 	"string": "NewStringID",
 	"[]byte": "NewBytesID",
+	"bool":   "NewBoolID",
+	"int32":  "NewInt32ID",
+	"int64":  "NewInt64ID",
+	"uint32": "NewUint32ID",
+	"uint64": "NewUint64ID",
 	// TODO add other types
 }
-- 
2.43.0


From 2313664ab7fafc9427ed33cdcc9c1a50d2432ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:07 +0000
Subject: [PATCH 42/48] fix: make the specification of objects with recursive
 messages

---
 pkg/protoutils/oas3schema/oas3schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/protoutils/oas3schema/oas3schema.go b/pkg/protoutils/oas3schema/oas3schema.go
index 750c50e..fd69d57 100644
--- a/pkg/protoutils/oas3schema/oas3schema.go
+++ b/pkg/protoutils/oas3schema/oas3schema.go
@@ -75,6 +75,8 @@ func (g *OpenAPIv3Generator) AddRequiredMessage(message protoreflect.MessageDesc
 	if _, exists := g.requiredObjectsSet[message.FullName()]; exists {
 		return nil
 	}
+	// mark it before going through its fields: messages can be recursive
+	g.requiredObjectsSet[message.FullName()] = struct{}{}
 	// check if it has msg field
 	nestedMsgs := map[protoreflect.FullName]protoreflect.MessageDescriptor{}
 	for i := 0; i < message.Fields().Len(); i++ {
@@ -88,9 +90,7 @@ func (g *OpenAPIv3Generator) AddRequiredMessage(message protoreflect.MessageDesc
 		if err != nil {
 			return err
 		}
-		g.requiredObjectsSet[message.FullName()] = struct{}{}
 	}
-	g.requiredObjectsSet[message.FullName()] = struct{}{}
 	g.requiredObjects = append(g.requiredObjects, message)
 	g.requiredSchemas = append(g.requiredSchemas, fullMessageTypeName(message))
 	return nil
-- 
2.43.0


From 036fcbd7f3bec6dec31a327ca53b953b4abc9685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:55 +0000
Subject: [PATCH 43/48] fix: define the schemas of nested message types in the
 specification

---
 pkg/protoutils/oas3schema/oas3schema.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/protoutils/oas3schema/oas3schema.go b/pkg/protoutils/oas3schema/oas3schema.go
index fd69d57..5f0a5ad 100644
--- a/pkg/protoutils/oas3schema/oas3schema.go
+++ b/pkg/protoutils/oas3schema/oas3schema.go
@@ -459,7 +459,17 @@ func itemsItemForReference(xref string) *v3.ItemsItem {
 
 // fullMessageTypeName builds the full type name of a message.
 func fullMessageTypeName(md protoreflect.MessageDescriptor) string {
-	return "." + string(md.ParentFile().Package()) + "." + string(md.Name())
+	return "." + string(md.FullName())
+}
+
+// allMessages returns the given messages and the messages nested in them.
+func allMessages(messages []*protogen.Message) []*protogen.Message {
+	var all []*protogen.Message
+	for _, message := range messages {
+		all = append(all, message)
+		all = append(all, allMessages(message.Messages)...)
+	}
+	return all
 }
 
 func (g *OpenAPIv3Generator) responseContentForMessage(outputMessage *protogen.Message) *v3.MediaTypes {
@@ -501,7 +511,7 @@ func (g *OpenAPIv3Generator) responseContentForMessage(outputMessage *protogen.M
 // addSchemasToDocumentV3 adds info from one file descriptor.
 func (g *OpenAPIv3Generator) addSchemasToDocumentV3(d *v3.Document, file *protogen.File) {
 	// For each message, generate a definition.
-	for _, message := range file.Messages {
+	for _, message := range allMessages(file.Messages) {
 		typeName := fullMessageTypeName(message.Desc)
 		// Only generate this if we need it and haven't already generated it.
 		if !contains(g.requiredSchemas, typeName) ||
-- 
2.43.0


From 28f5a477be022ce476e291f725af0519d8072425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 44/48] fix: specify the lists of all objects declared in one
 proto file

---
 pkg/protoutils/forge/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/protoutils/forge/list.go b/pkg/protoutils/forge/list.go
index 1fb4da7..e6fe15f 100644
--- a/pkg/protoutils/forge/list.go
+++ b/pkg/protoutils/forge/list.go
@@ -25,7 +25,7 @@ func List(message proto.Message, resolver protodesc.Resolver) (protoreflect.Mess
 		pkg = fmt.Sprintf("%s.%s", PackagePrefix, fd.Package())
 	}
 	forgedFdp := &descriptorpb.FileDescriptorProto{
-		Name:       ptrprim.String(fmt.Sprintf("%s/%s", PackagePrefix, fd.Path())),
+		Name:       ptrprim.String(fmt.Sprintf("%s/%s/%s", PackagePrefix, fd.Path(), md.Name())), // one file for each message of a file
 		Package:    ptrprim.String(pkg),
 		Dependency: []string{fd.Path()},
 		MessageType: []*descriptorpb.DescriptorProto{
-- 
2.43.0


From 372fba3706cc2b2c69d038f420b125a989bf743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 45/48] fix: specify lists of times as the strings they are

---
 pkg/protoutils/oas3schema/oas3schema.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/protoutils/oas3schema/oas3schema.go b/pkg/protoutils/oas3schema/oas3schema.go
index 5f0a5ad..31862fd 100644
--- a/pkg/protoutils/oas3schema/oas3schema.go
+++ b/pkg/protoutils/oas3schema/oas3schema.go
@@ -555,9 +555,14 @@ func (g *OpenAPIv3Generator) addSchemasToDocumentV3(d *v3.Document, file *protog
 				fieldSchema.Type = "array"
 				switch field.Desc.Kind() {
 				case protoreflect.MessageKind:
-					fieldSchema.Items = itemsItemForReference(
-						g.schemaReferenceForTypeName(
-							fullMessageTypeName(field.Message.Desc)))
+					typeName := fullMessageTypeName(field.Message.Desc)
+					switch typeName {
+					case ".google.protobuf.Timestamp", ".google.type.Date", ".google.type.DateTime":
+						// Times are serialized as strings
+						fieldSchema.Items = itemsItemForTypeName("string")
+					default:
+						fieldSchema.Items = itemsItemForReference(g.schemaReferenceForTypeName(typeName))
+					}
 				case protoreflect.StringKind:
 					fieldSchema.Items = itemsItemForTypeName("string")
 				case protoreflect.Int32Kind,
-- 
2.43.0


From 3ecdb1a1ba49ee984a545a3da02e53d2f3bd8954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:09 +0000
Subject: [PATCH 46/48] fix: declare the key parameter of object paths in the
 specification

---
 core/apiserver/router/openapi.go | 20 ++++++++++++++++----
 core/apiserver/router/server.go  |  2 +-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/core/apiserver/router/openapi.go b/core/apiserver/router/openapi.go
index 1644ea1..691eab1 100644
--- a/core/apiserver/router/openapi.go
+++ b/core/apiserver/router/openapi.go
@@ -21,8 +21,20 @@ func NewOpenAPIBuilder() *openAPI {
 	}
 }
 
-func newGetParams() []*v3.Parameter {
-	return nil
+func newGetParams(primaryKey string) []*v3.Parameter {
+	return []*v3.Parameter{
+		{
+			Name:        primaryKey,
+			In:          "path",
+			Description: "The primary key of the object",
+			Required:    true,
+			Schema: &v3.SchemaOrReference{Oneof: &v3.SchemaOrReference_Schema{
+				Schema: &v3.Schema{
+					Type: "string",
+				},
+			}},
+		},
+	}
 }
 
 func newSingletonParams() []*v3.Parameter {
@@ -89,10 +101,10 @@ func (o openAPI) AddSingleton(obj meta.StateObject, path string) error {
 	return nil
 }
 
-func (o openAPI) AddObject(obj meta.StateObject, singlePath string, listPath string) error {
+func (o openAPI) AddObject(obj meta.StateObject, primaryKey string, singlePath string, listPath string) error {
 	opID := fmt.Sprintf("get.%s", meta.Name(obj))
 	comment := fmt.Sprintf("Returns an instance of %s", meta.Name(obj))
-	err := o.gen.AddRawOperation("GET", opID, comment, singlePath, "", newGetParams(), obj)
+	err := o.gen.AddRawOperation("GET", opID, comment, singlePath, "", newGetParams(primaryKey), obj)
 	if err != nil {
 		return err
 	}
diff --git a/core/apiserver/router/server.go b/core/apiserver/router/server.go
index 517de71..4ddc5fc 100644
--- a/core/apiserver/router/server.go
+++ b/core/apiserver/router/server.go
@@ -95,7 +95,7 @@ func (s *Builder) CreateStateObjectHandler(object meta.StateObject, definition *
 			HandlerFunc(newListHandler(s.client, sch))
 
 		// add to open API spec.
-		err = s.openAPI.AddObject(object, singleInstancePath, listInstancePath)
+		err = s.openAPI.AddObject(object, definition.PrimaryKey, singleInstancePath, listInstancePath)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 8278f7cbdc48991176a5d56f2a2bb6de420dc3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:52 +0000
Subject: [PATCH 47/48] fix: create the object when an update asks for it

---
 runtime/client.go        | 13 +++++++++++--
 runtime/client/client.go |  4 ++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/runtime/client.go b/runtime/client.go
index 6ee3072..88c4df5 100644
--- a/runtime/client.go
+++ b/runtime/client.go
@@ -6,6 +6,7 @@ import (
 	"github.com/fdymylja/tmos/core/meta"
 	"github.com/fdymylja/tmos/runtime/authentication/user"
 	"github.com/fdymylja/tmos/runtime/client"
+	"github.com/fdymylja/tmos/runtime/errors"
 )
 
 // NewModuleClient instantiates a client.Client that can only be used by modules.
@@ -36,8 +37,16 @@ func (c *ModuleClient) Create(object meta.StateObject, _ ...client.CreateOption)
 	return c.runtime.Create(c.users, object)
 }
 
-func (c *ModuleClient) Update(object meta.StateObject, _ ...client.UpdateOption) error {
-	return c.runtime.Update(c.users, object)
+func (c *ModuleClient) Update(object meta.StateObject, opts ...client.UpdateOption) error {
+	o := new(client.UpdateOptionsRaw)
+	for _, opt := range opts {
+		opt(o)
+	}
+	err := c.runtime.Update(c.users, object)
+	if o.CreateIfNotExists && errors.Is(err, errors.ErrNotFound) {
+		return c.runtime.Create(c.users, object)
+	}
+	return err
 }
 
 func (c *ModuleClient) Delete(object meta.StateObject, _ ...client.DeleteOption) error {
diff --git a/runtime/client/client.go b/runtime/client/client.go
index f7a1852..d4c5b54 100644
--- a/runtime/client/client.go
+++ b/runtime/client/client.go
@@ -39,7 +39,7 @@ func DeliverImpersonating(subjects ...string) DeliverOption {
 // -------------------- update options -----------------------
 
 type UpdateOptionsRaw struct {
-	createIfNotExists bool
+	CreateIfNotExists bool
 }
 
 type UpdateOption func(opt *UpdateOptionsRaw)
@@ -48,7 +48,7 @@ type UpdateOption func(opt *UpdateOptionsRaw)
 // the runtime.Runtime store if it does not exist.
 func UpdateCreateIfNotExists() UpdateOption {
 	return func(opt *UpdateOptionsRaw) {
-		opt.createIfNotExists = true
+		opt.CreateIfNotExists = true
 	}
 }
 
-- 
2.43.0


From 3c0c78dda8f2ff4c56709aea11d9740347242724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:21 +0000
Subject: [PATCH 48/48] fix: release the iterator of a listing which matches
 nothing

---
 runtime/orm/indexes/list.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/orm/indexes/list.go b/runtime/orm/indexes/list.go
index c61e41c..5df08b1 100644
--- a/runtime/orm/indexes/list.go
+++ b/runtime/orm/indexes/list.go
@@ -19,6 +19,7 @@ func (s Store) List(sch *schema.Schema, options orm.ListOptions) (kv.Iterator, e
 	}
 	iterator := s.kv.IteratePrefix(prefixes[0].marshal())
 	if !iterator.Valid() {
+		iterator.Close()
 		return nil, fmt.Errorf("%w: no records found for object %s and query %s", errNotFound, sch.Name(), options)
 	}
 	return iterator, nil
-- 
2.43.0

