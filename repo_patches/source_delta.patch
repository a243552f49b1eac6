From db7850c28655505e5fe8d95858bbde35664c5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 01/60] fix: start synchronisation dialogs with dialog ID 0 and
 message number 1

---
 dialog/dialog.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 241b276..1eba83b 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -155,6 +155,8 @@ func (d *dialog) SyncUserParameterData() error {
 }
 
 func (d *dialog) SyncClientSystemID() (string, error) {
+	d.dialogID = initialDialogID
+	d.messageCount = 0
 	syncMessage := message.NewSynchronisationMessage(d.hbciVersion)
 	syncMessage.Identification = segment.NewIdentificationSegment(d.BankID, d.clientID, initialClientSystemID, true)
 	syncMessage.ProcessingPreparation = segment.NewProcessingPreparationSegmentV3(
-- 
2.43.0


From 84868f814bcd63a8cf2e08b29eb02d31537efdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 02/60] fix: use client system ID 0 throughout the
 synchronisation opening and keep the ID in use otherwise

---
 dialog/dialog.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 1eba83b..de12501 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -96,8 +96,14 @@ func (d *dialog) SupportedSegments() []segment.VersionedSegment {
 
 func (d *dialog) SetClientSystemID(clientSystemID string) {
 	d.ClientSystemID = clientSystemID
-	d.signatureProvider.SetClientSystemID(d.ClientSystemID)
-	d.cryptoProvider.SetClientSystemID(d.ClientSystemID)
+	d.useClientSystemID(clientSystemID)
+}
+
+// useClientSystemID makes the providers put the given ID into the security
+// headers without changing the ID the dialog has been assigned
+func (d *dialog) useClientSystemID(clientSystemID string) {
+	d.signatureProvider.SetClientSystemID(clientSystemID)
+	d.cryptoProvider.SetClientSystemID(clientSystemID)
 }
 
 func (d *dialog) SetSecurityFunction(securityFn string) {
@@ -165,12 +171,9 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 	syncMessage.TanRequest = d.hbciVersion.TanProcess4Request(segment.IdentificationID)
 	syncMessage.Sync = d.hbciVersion.SynchronisationRequest(segment.SyncModeAquireClientID)
 	syncMessage.BasicMessage = d.newBasicMessage(syncMessage)
-	signedSyncMessage, err := syncMessage.Sign(d.signatureProvider)
-	if err != nil {
-		return "", err
-	}
-	d.cryptoProvider.SetClientSystemID(initialClientSystemID)
-	encryptedSyncMessage, err := signedSyncMessage.Encrypt(d.cryptoProvider)
+	d.useClientSystemID(initialClientSystemID)
+	encryptedSyncMessage, err := d.signAndEncrypt(syncMessage.BasicMessage)
+	d.useClientSystemID(d.ClientSystemID)
 	if err != nil {
 		return "", err
 	}
@@ -443,6 +446,14 @@ func (d *dialog) end() error {
 	return nil
 }
 
+func (d *dialog) signAndEncrypt(msg *message.BasicMessage) (*message.EncryptedMessage, error) {
+	signedMessage, err := msg.Sign(d.signatureProvider)
+	if err != nil {
+		return nil, err
+	}
+	return signedMessage.Encrypt(d.cryptoProvider)
+}
+
 func (d *dialog) newClientMessage(hbciMessage message.HBCIMessage) message.ClientMessage {
 	return d.newBasicMessage(hbciMessage)
 }
-- 
2.43.0


From 2eb6ddb245244bf563b22fc93b8f083eaf21da3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 03/60] fix: end an accepted dialog when processing its opening
 reply fails

---
 dialog/dialog.go | 71 ++++++++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 36 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index de12501..09f24c6 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -204,34 +204,40 @@ func (d *dialog) SyncClientSystemID() (string, error) {
 	if len(errors) > 0 {
 		return "", fmt.Errorf("institute returned errors:\n%s", strings.Join(errors, "\n"))
 	}
-	if err := d.updateSecurityFunctionIfNeeded(decryptedMessage); err != nil {
-		return "", fmt.Errorf("error updating security function: %w", err)
-	}
-
-	syncResponse := decryptedMessage.FindSegment("HISYN")
-	if syncResponse != nil {
-		syncSegment := syncResponse.(segment.SynchronisationResponse)
-		d.SetClientSystemID(syncSegment.ClientSystemID())
-	} else {
-		return "", fmt.Errorf("malformed message: missing unmarshaler for SynchronisationResponse")
+	if err := d.processSyncResponse(decryptedMessage); err != nil {
+		logErr(d.end())
+		return "", err
 	}
 
-	err = d.parseBankParameterData(decryptedMessage)
+	err = d.end()
 	if err != nil {
 		return "", err
 	}
 
-	err = d.parseUserParameterData(decryptedMessage)
-	if err != nil {
-		return "", err
+	return d.ClientSystemID, nil
+}
+
+func (d *dialog) processSyncResponse(response message.BankMessage) error {
+	if err := d.updateSecurityFunctionIfNeeded(response); err != nil {
+		return fmt.Errorf("error updating security function: %w", err)
 	}
 
-	err = d.end()
-	if err != nil {
-		return "", err
+	syncResponse := response.FindSegment("HISYN")
+	if syncResponse != nil {
+		syncSegment := syncResponse.(segment.SynchronisationResponse)
+		d.SetClientSystemID(syncSegment.ClientSystemID())
+	} else {
+		return fmt.Errorf("malformed message: missing unmarshaler for SynchronisationResponse")
 	}
 
-	return d.ClientSystemID, nil
+	return d.parseParameterData(response)
+}
+
+func (d *dialog) parseParameterData(bankMessage message.BankMessage) error {
+	if err := d.parseBankParameterData(bankMessage); err != nil {
+		return err
+	}
+	return d.parseUserParameterData(bankMessage)
 }
 
 func (d *dialog) SendAnonymousMessage(clientMessage message.HBCIMessage) (message.BankMessage, error) {
@@ -283,15 +289,7 @@ func (d *dialog) anonymousInit() error {
 	}
 	d.dialogID = messageHeader.DialogID.Val()
 
-	err = d.parseBankParameterData(bankMessage)
-	if err != nil {
-		return err
-	}
-
-	err = d.parseUserParameterData(bankMessage)
-	if err != nil {
-		return err
-	}
+	parseErr := d.parseParameterData(bankMessage)
 
 	bankInfoMessage := bankMessage.FindSegment(segment.BankAnnouncementID)
 	if bankInfoMessage != nil {
@@ -312,6 +310,10 @@ func (d *dialog) anonymousInit() error {
 	if len(errors) > 0 {
 		return fmt.Errorf("DialogEnd: Institute returned errors:\n%s", strings.Join(errors, "\n"))
 	}
+	if parseErr != nil {
+		logErr(d.anonymousEnd())
+		return parseErr
+	}
 	return nil
 }
 
@@ -375,15 +377,7 @@ func (d *dialog) init() error {
 	}
 	d.dialogID = messageHeader.DialogID.Val()
 
-	err = d.parseBankParameterData(decryptedMessage)
-	if err != nil {
-		return err
-	}
-
-	err = d.parseUserParameterData(decryptedMessage)
-	if err != nil {
-		return err
-	}
+	parseErr := d.parseParameterData(decryptedMessage)
 
 	bankInfoMessage := decryptedMessage.FindSegment(segment.BankAnnouncementID)
 	if bankInfoMessage != nil {
@@ -408,7 +402,12 @@ func (d *dialog) init() error {
 		return fmt.Errorf("DialogEnd: Institute returned errors:\n%s", strings.Join(errors, "\n"))
 	}
 
+	if parseErr != nil {
+		logErr(d.end())
+		return parseErr
+	}
 	if err := d.updateSecurityFunctionIfNeeded(decryptedMessage); err != nil {
+		logErr(d.end())
 		return fmt.Errorf("error updating security function: %w", err)
 	}
 
-- 
2.43.0


From d8d2852658e3ae283d71ec056b6d1a150b5e6b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 04/60] fix: replace the account list with the accounts of the
 latest reply instead of appending

---
 dialog/dialog.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 09f24c6..fb47e99 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -584,10 +584,15 @@ func (d *dialog) parseUserParameterData(bankMessage message.BankMessage) error {
 	}
 
 	accountData := bankMessage.FindSegments(segment.AccountInformationID)
+	if len(accountData) == 0 {
+		return nil
+	}
+	accounts := make([]domain.AccountInformation, 0, len(accountData))
 	for _, acc := range accountData {
 		infoSegment := acc.(segment.AccountInformation)
-		d.Accounts = append(d.Accounts, infoSegment.Account())
+		accounts = append(accounts, infoSegment.Account())
 	}
+	d.Accounts = accounts
 	return nil
 }
 
-- 
2.43.0


From 215c54de3491aef3fa2f7815269da0298fd8e603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 05/60] fix: keep the negotiated security function when the PIN
 is set again

---
 dialog/pin_tan_dialog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/pin_tan_dialog.go b/dialog/pin_tan_dialog.go
index 6bb3025..617f9a2 100644
--- a/dialog/pin_tan_dialog.go
+++ b/dialog/pin_tan_dialog.go
@@ -65,4 +65,7 @@ func (d *PinTanDialog) SetPin(pin string) {
 	d.signatureProvider = message.NewPinTanSignatureProvider(pinKey, d.ClientSystemID)
 	pinKey = domain.NewPinKey(pin, domain.NewPinTanKeyName(d.BankID, d.UserID, domain.KeyTypeEncryption))
 	d.cryptoProvider = message.NewPinTanCryptoProvider(pinKey, d.ClientSystemID)
+	if d.securityFn != "" {
+		d.SetSecurityFunction(d.securityFn)
+	}
 }
-- 
2.43.0


From 27ffdc3344d4a90f9387f105e833f1b6bf585f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 06/60] fix: recognise reversed debits and credits in MT940
 transactions

---
 swift/mt940.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 6a6b829..4fcbfd7 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -35,7 +35,7 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 		tr := transactionSequence.Transaction
 		descr := transactionSequence.Description
 		var amount float64
-		if tr.DebitCreditIndicator == "D" {
+		if tr.DebitCreditIndicator == "D" || tr.DebitCreditIndicator == "RC" {
 			amount = -tr.Amount
 		} else {
 			amount = tr.Amount
@@ -258,6 +258,8 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 			if len(runes) == 3 {
 				t.DebitCreditIndicator = string(runes[:2])
 				t.CurrencyKind = string(runes[2:])
+			} else if len(runes) == 2 && runes[0] == 'R' {
+				t.DebitCreditIndicator = string(runes)
 			} else if len(runes) == 2 {
 				t.DebitCreditIndicator = string(runes[:1])
 				t.CurrencyKind = string(runes[1:])
-- 
2.43.0


From 8620dc4c850b4b541d3b7cc0ed29c04c07fa5c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 07/60] fix: keep the sign of opening and closing balances of
 statements

---
 swift/mt940.go | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 4fcbfd7..67471fc 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -41,24 +41,12 @@ func (m *MT940) AccountTransactions() []domain.AccountTransaction {
 			amount = tr.Amount
 		}
 		transaction := domain.AccountTransaction{
-			Account:     accountConnection,
-			Amount:      domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
-			ValutaDate:  tr.ValutaDate.Time,
-			BookingDate: tr.BookingDate.Time,
-			AccountBalanceBefore: domain.Balance{
-				Amount: domain.Amount{
-					Amount:   m.StartingBalance.Amount,
-					Currency: m.StartingBalance.Currency,
-				},
-				TransmissionDate: m.StartingBalance.BookingDate.Time,
-			},
-			AccountBalanceAfter: domain.Balance{
-				Amount: domain.Amount{
-					Amount:   m.ClosingBalance.Amount,
-					Currency: m.ClosingBalance.Currency,
-				},
-				TransmissionDate: m.ClosingBalance.BookingDate.Time,
-			},
+			Account:              accountConnection,
+			Amount:               domain.Amount{Amount: amount, Currency: m.StartingBalance.Currency},
+			ValutaDate:           tr.ValutaDate.Time,
+			BookingDate:          tr.BookingDate.Time,
+			AccountBalanceBefore: m.StartingBalance.Balance(),
+			AccountBalanceAfter:  m.ClosingBalance.Balance(),
 		}
 		if descr != nil {
 			transaction.BookingText = descr.BookingText
-- 
2.43.0


From 43292dd5ef597a29a01e5bd776d1038e07944443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:00 +0000
Subject: [PATCH 08/60] fix: resolve MT940 booking dates to the date closest to
 the valuta date

---
 swift/mt940.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index 67471fc..af5d8ea 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -3,7 +3,6 @@ package swift
 import (
 	"bytes"
 	"fmt"
-	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -223,15 +222,11 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	if unicode.IsDigit(r) {
 		buf.UnreadRune()
 		dateBytes = buf.Next(4)
-		date, err = parseDate(dateBytes, t.ValutaDate.Year())
+		date, err = parseBookingDate(dateBytes, t.ValutaDate.Time)
 		if err != nil {
 			return errors.WithMessage(err, "unmarshal transaction tag: parsing booking date")
 		}
 		t.BookingDate = domain.NewShortDate(date)
-		monthDiff := int(math.Abs(float64(t.ValutaDate.Month() - t.BookingDate.Month())))
-		if monthDiff > 1 {
-			t.BookingDate = domain.NewShortDate(t.BookingDate.AddDate(1, 0, 0))
-		}
 	}
 	var runes []rune
 	for {
@@ -298,6 +293,27 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	return nil
 }
 
+// parseBookingDate resolves the month and day in value to the date closest to
+// the valuta date, as the year of the booking date is not transmitted
+func parseBookingDate(value []byte, valuta time.Time) (time.Time, error) {
+	var closest time.Time
+	found := false
+	for _, year := range []int{valuta.Year(), valuta.Year() - 1, valuta.Year() + 1} {
+		date, err := time.Parse("20060102", fmt.Sprintf("%04d%s", year, value))
+		if err != nil {
+			continue
+		}
+		if !found || date.Sub(valuta).Abs() < closest.Sub(valuta).Abs() {
+			closest = date
+			found = true
+		}
+	}
+	if !found {
+		return parseDate(value, valuta.Year())
+	}
+	return closest, nil
+}
+
 func parseDate(value []byte, referenceYear int) (time.Time, error) {
 	var offset int
 	if len(value) == 6 {
-- 
2.43.0


From 01674ffb0e892aff6f012a49023b2980b41d6878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 09/60] fix: return an error for incomplete MT940 statements
 instead of panicking

---
 swift/mt940_unmarshaler.go | 3 +++
 swift/unmarshal.go         | 1 +
 2 files changed, 4 insertions(+)

diff --git a/swift/mt940_unmarshaler.go b/swift/mt940_unmarshaler.go
index 14b7db8..9873f39 100644
--- a/swift/mt940_unmarshaler.go
+++ b/swift/mt940_unmarshaler.go
@@ -104,6 +104,9 @@ func (m *MT940) Unmarshal(value []byte) error {
 			return fmt.Errorf("malformed marshaled value")
 		}
 	}
+	if m.Account == nil || m.StartingBalance == nil || m.ClosingBalance == nil {
+		return errors.New("malformed statement: missing account, starting or closing balance")
+	}
 
 	return nil
 }
diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index e81efd8..2eecc70 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -88,6 +88,7 @@ func (m *mt940MessagesUnmarshaler) UnmarshalMT940(value []byte) ([]domain.Accoun
 		err = tr.Unmarshal(message)
 		if err != nil {
 			errors = append(errors, fmt.Errorf("error unmarshaling MT940: %w", err))
+			continue
 		}
 		transactions = append(transactions, tr.AccountTransactions()...)
 	}
-- 
2.43.0


From ca8468ef8c68963411f2ad9797db3bc361ee3811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 10/60] fix: handle short details and details fields in any
 order without panicking

---
 swift/element.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/swift/element.go b/swift/element.go
index c2a91f2..f14149d 100644
--- a/swift/element.go
+++ b/swift/element.go
@@ -150,6 +150,9 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 		return err
 	}
 	c.Tag = tag.ID
+	if len(tag.Value) < 3 {
+		return fmt.Errorf("%T: Malformed marshaled value", c)
+	}
 	tID, err := strconv.Atoi(charset.ToUTF8(tag.Value[:3]))
 	if err != nil {
 		return err
@@ -166,20 +169,19 @@ func (c *CustomFieldTag) Unmarshal(value []byte) error {
 		}
 	}
 
-	getFieldValue := func(currentFieldKeyIndex, nextFieldKeyIndex int) string {
+	getFieldValue := func(currentFieldKeyIndex int) string {
+		nextFieldKeyIndex := len(marshaledFields)
+		for _, field := range fields {
+			if field.index > currentFieldKeyIndex && field.index < nextFieldKeyIndex {
+				nextFieldKeyIndex = field.index
+			}
+		}
 		return charset.ToUTF8(
 			marshaledFields[currentFieldKeyIndex+3 : nextFieldKeyIndex],
 		)
 	}
-	for i, fieldKeyIndex := range fields {
-		var nextFieldKeyIndex int
-		if len(fields)-1 == i {
-			nextFieldKeyIndex = len(marshaledFields)
-		} else {
-			nextFieldKeyIndex = fields[i+1].index
-		}
-
-		fieldValue := getFieldValue(fieldKeyIndex.index, nextFieldKeyIndex)
+	for _, fieldKeyIndex := range fields {
+		fieldValue := getFieldValue(fieldKeyIndex.index)
 
 		switch fieldKey := fieldKeyIndex.fieldKey; {
 		case bytes.HasPrefix(fieldKey, []byte{'?', '0', '0'}):
-- 
2.43.0


From 16e4fc1bf2f0fd956754f214c78b5bbf8c8d0094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 11/60] fix: merge statement pages in the order the bank sent
 them

---
 client/client.go   |  2 +-
 element/swift.go   |  3 +++
 swift/unmarshal.go | 40 +++++-----------------------------------
 3 files changed, 9 insertions(+), 36 deletions(-)

diff --git a/client/client.go b/client/client.go
index 658935a..4ec3c98 100644
--- a/client/client.go
+++ b/client/client.go
@@ -211,7 +211,7 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 	if err != nil {
 		return nil, err
 	}
-	return swift.MergeMT940Messages(msg, tx), err
+	return swift.MergeMT940Messages(tx, msg), err
 }
 
 // AccountInformation will print all information attached to the provided
diff --git a/element/swift.go b/element/swift.go
index fc9bc94..45c60f5 100644
--- a/element/swift.go
+++ b/element/swift.go
@@ -24,5 +24,8 @@ func (s *SwiftMT940DataElement) UnmarshalHBCI(value []byte) error {
 
 // Val returns the embodied transactions as *swift.MT940Messages
 func (s *SwiftMT940DataElement) Val() *swift.MT940Messages {
+	if s == nil {
+		return nil
+	}
 	return s.swiftMT940Messages
 }
diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index 2eecc70..45b8bb9 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -2,7 +2,6 @@ package swift
 
 import (
 	"fmt"
-	"sort"
 	"strings"
 	"time"
 
@@ -21,50 +20,21 @@ type MT940Messages struct {
 	timestamp int64
 }
 
+// MergeMT940Messages concatenates the given messages in the given order
 func MergeMT940Messages(messages ...*MT940Messages) *MT940Messages {
-	sortedMessages := sortedByTimestamp(messages)
-	sort.Sort(sortedMessages)
 	merged := &MT940Messages{
 		Data:      []byte{},
 		timestamp: time.Now().UnixNano(),
 	}
-	for _, msg := range sortedMessages {
+	for _, msg := range messages {
+		if msg == nil {
+			continue
+		}
 		merged.Data = append(merged.Data, msg.Data...)
 	}
 	return merged
 }
 
-type sortedByTimestamp []*MT940Messages
-
-// Len is the number of elements in the collection.
-func (s sortedByTimestamp) Len() int {
-	return len(s)
-}
-
-// Less reports whether the element with index i
-// must sort before the element with index j.
-//
-// If both Less(i, j) and Less(j, i) are false,
-// then the elements at index i and j are considered equal.
-// Sort may place equal elements in any order in the final result,
-// while Stable preserves the original input order of equal elements.
-//
-// Less must describe a transitive ordering:
-//  - if both Less(i, j) and Less(j, k) are true, then Less(i, k) must be true as well.
-//  - if both Less(i, j) and Less(j, k) are false, then Less(i, k) must be false as well.
-//
-// Note that floating-point comparison (the < operator on float32 or float64 values)
-// is not a transitive ordering when not-a-number (NaN) values are involved.
-// See Float64Slice.Less for a correct implementation for floating-point values.
-func (s sortedByTimestamp) Less(i int, j int) bool {
-	return s[i].timestamp < s[j].timestamp
-}
-
-// Swap swaps the elements with indexes i and j.
-func (s sortedByTimestamp) Swap(i int, j int) {
-	s[i], s[j] = s[j], s[i]
-}
-
 type MT940Unmarshaler interface {
 	UnmarshalMT940([]byte) ([]domain.AccountTransaction, error)
 }
-- 
2.43.0


From 57d63c79eeeea6357c4573c0f879cfd8192b9d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 12/60] fix: offer version 7 of the SEPA account transaction
 request

---
 segment/account_transaction.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/segment/account_transaction.go b/segment/account_transaction.go
index 40f7eba..a90c5f4 100644
--- a/segment/account_transaction.go
+++ b/segment/account_transaction.go
@@ -29,9 +29,6 @@ func AccountTransactionRequestBuilder(versions []int) (func(account domain.Accou
 func SepaAccountTransactionRequestBuilder(versions []int) (func(account domain.InternationalAccountConnection, allAccounts bool) *AccountTransactionRequestSegment, error) {
 	sort.Sort(sort.Reverse(sort.IntSlice(versions)))
 	for _, version := range versions {
-		if version > 6 {
-			continue
-		}
 		switch version {
 		case 7:
 			return NewAccountTransactionRequestSegmentV7, nil
-- 
2.43.0


From aa6f7b59e44aa4afc641d2d16999d42f05f588b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 13/60] fix: send status requests in the version announced by
 HIPROS

---
 segment/hbci_version.go    | 2 +-
 segment/status_protocol.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/segment/hbci_version.go b/segment/hbci_version.go
index e70a580..53a41f7 100644
--- a/segment/hbci_version.go
+++ b/segment/hbci_version.go
@@ -104,7 +104,7 @@ func (b *builder) SepaAccountTransactionRequest(account domain.InternationalAcco
 	return request(account, allAccounts), nil
 }
 func (b *builder) StatusProtocolRequest(from, to time.Time, maxEntries int, continuationReference string) (StatusProtocolRequest, error) {
-	versions, ok := b.supportedSegments["HIPRO"]
+	versions, ok := b.supportedSegments["HIPROS"]
 	if !ok {
 		return nil, fmt.Errorf("Segment %s not supported", "HKPRO")
 	}
diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index f3ac229..d90e198 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -14,9 +14,9 @@ func StatusProtocolRequestBuilder(versions []int) (func(from, to time.Time, maxE
 	for _, version := range versions {
 		switch version {
 		case 4:
-			return NewStatusProtocolRequestV3, nil
-		case 3:
 			return NewStatusProtocolRequestV4, nil
+		case 3:
+			return NewStatusProtocolRequestV3, nil
 		default:
 			continue
 		}
-- 
2.43.0


From cc76155804c78e94382f9af0aa86d5026964ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 14/60] fix: report the transmission time of status entries as
 sent by the bank

---
 segment/status_protocol.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/segment/status_protocol.go b/segment/status_protocol.go
index d90e198..89abe47 100644
--- a/segment/status_protocol.go
+++ b/segment/status_protocol.go
@@ -109,6 +109,11 @@ type StatusProtocolResponseSegment struct {
 	StatusProtocolResponse
 }
 
+// dateWithTime returns date at the time of day given by t
+func dateWithTime(date, t time.Time) time.Time {
+	return date.Add(time.Duration(t.Hour())*time.Hour + time.Duration(t.Minute())*time.Minute + time.Duration(t.Second())*time.Second)
+}
+
 type StatusProtocolResponseSegmentV3 struct {
 	Segment
 	ReferencingMessage *element.ReferencingMessageDataElement
@@ -144,7 +149,7 @@ func (s *StatusProtocolResponseSegmentV3) Status() domain.StatusAcknowledgement
 	}
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(time.Since(s.Time.Val())),
+		TransmittedAt:   dateWithTime(s.Date.Val(), s.Time.Val()),
 	}
 	return status
 }
@@ -184,7 +189,7 @@ func (s *StatusProtocolResponseSegmentV4) Status() domain.StatusAcknowledgement
 	}
 	status := domain.StatusAcknowledgement{
 		Acknowledgement: ack,
-		TransmittedAt:   s.Date.Val().Add(time.Since(s.Time.Val())),
+		TransmittedAt:   dateWithTime(s.Date.Val(), s.Time.Val()),
 	}
 	return status
 }
-- 
2.43.0


From e97b4caf3e293bec161822234815c2f4f144e303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 15/60] fix: report the booking time of balances as sent by the
 bank

---
 segment/account_balance.go | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/segment/account_balance.go b/segment/account_balance.go
index 7ed9ae3..e4acd1f 100644
--- a/segment/account_balance.go
+++ b/segment/account_balance.go
@@ -3,7 +3,6 @@ package segment
 import (
 	"fmt"
 	"sort"
-	"time"
 
 	"github.com/mitch000001/go-hbci/domain"
 	"github.com/mitch000001/go-hbci/element"
@@ -249,9 +248,8 @@ func (a *AccountBalanceResponseSegmentV5) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = dateWithTime(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -325,9 +323,8 @@ func (a *AccountBalanceResponseSegmentV6) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = dateWithTime(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -401,9 +398,8 @@ func (a *AccountBalanceResponseSegmentV7) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = dateWithTime(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -439,9 +435,8 @@ func (a *AccountBalanceResponseSegmentV7) SepaAccountBalance() (domain.SepaAccou
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = dateWithTime(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -513,9 +508,8 @@ func (a *AccountBalanceResponseSegmentV8) AccountBalance() domain.AccountBalance
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = dateWithTime(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
@@ -551,9 +545,8 @@ func (a *AccountBalanceResponseSegmentV8) SepaAccountBalance() (domain.SepaAccou
 		val := date.Val()
 		balance.BookingDate = &val
 	}
-	if t := a.BookingTime; t != nil {
-		val := t.Val()
-		*balance.BookingDate = balance.BookingDate.Add(val.Sub(time.Time{}))
+	if t := a.BookingTime; t != nil && balance.BookingDate != nil {
+		*balance.BookingDate = dateWithTime(*balance.BookingDate, t.Val())
 	}
 	if dueDate := a.DueDate; dueDate != nil {
 		val := dueDate.Val()
-- 
2.43.0


From ea6959f23579c32072e6a9436860662d8b1ccf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 16/60] fix: find segments by their full identifier and extract
 them only once

---
 message/segment_extractor.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/message/segment_extractor.go b/message/segment_extractor.go
index 387f845..6f309c9 100644
--- a/message/segment_extractor.go
+++ b/message/segment_extractor.go
@@ -23,6 +23,7 @@ type SegmentExtractor struct {
 // Extract extract segment byte slices from the message. It will return a copy
 // of the result so it is safe to manipulate it
 func (s *SegmentExtractor) Extract() ([][]byte, error) {
+	s.segments = nil
 	var current []byte
 	lexer := token.NewLexer("SegmentExtractor", s.rawMessage)
 	for lexer.HasNext() {
@@ -44,9 +45,9 @@ func (s *SegmentExtractor) Extract() ([][]byte, error) {
 // FindSegment searches for a given ID and returns the first appearing segment
 // bytes if present
 func (s *SegmentExtractor) FindSegment(id string) []byte {
-	byteID := []byte(id)
+	prefix := []byte(id + ":")
 	for _, segment := range s.segments {
-		if bytes.HasPrefix(segment, byteID) {
+		if bytes.HasPrefix(segment, prefix) {
 			return segment
 		}
 	}
-- 
2.43.0


From 581e2f63d6978181fc6906de520a155753aec879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 17/60] fix: keep escaped separators at the end of segments and
 groups

---
 element/data_element.go | 8 +++++---
 segment/segment.go      | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index d742ea0..b08a531 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -151,9 +151,11 @@ func (g *elementGroup) MarshalHBCI() ([]byte, error) {
 			elementBytes[i] = marshaled
 		}
 	}
-	marshaled := bytes.Join(elementBytes, []byte(":"))
-	marshaled = bytes.TrimRight(marshaled, ":")
-	return marshaled, nil
+	// omit trailing empty elements
+	for len(elementBytes) > 0 && len(elementBytes[len(elementBytes)-1]) == 0 {
+		elementBytes = elementBytes[:len(elementBytes)-1]
+	}
+	return bytes.Join(elementBytes, []byte(":")), nil
 }
 
 func (g *elementGroup) UnmarshalHBCI(value []byte) error {
diff --git a/segment/segment.go b/segment/segment.go
index b814b55..04cdf35 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -110,8 +110,11 @@ func (s *segment) MarshalHBCI() ([]byte, error) {
 			elementBytes[i+1] = marshaled
 		}
 	}
+	// omit trailing empty elements
+	for len(elementBytes) > 0 && len(elementBytes[len(elementBytes)-1]) == 0 {
+		elementBytes = elementBytes[:len(elementBytes)-1]
+	}
 	marshaled := bytes.Join(elementBytes, []byte("+"))
-	marshaled = bytes.TrimRight(marshaled, "+")
 	marshaled = append(marshaled, '\'')
 	return marshaled, nil
 }
-- 
2.43.0


From e0f0c1cf784abb80bf15ef84e0d53643cc771ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 18/60] fix: resolve escape sequences in acknowledgements,
 references and account connections

---
 element/acknowledgement.go          | 8 ++++----
 element/data_element.go             | 5 +++++
 element/group_data_element_group.go | 8 ++++----
 element/message.go                  | 2 +-
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 107c771..2c628df 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -109,12 +109,12 @@ func (a *AcknowledgementDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed code", a)
 	}
 	acknowledgement.Code = code
-	acknowledgement.ReferenceDataElement = charset.ToUTF8(chunks[1])
-	acknowledgement.Text = charset.ToUTF8(chunks[2])
+	acknowledgement.ReferenceDataElement = decodeText(chunks[1])
+	acknowledgement.Text = decodeText(chunks[2])
 	if len(chunks) > 3 {
 		params := make([]string, len(chunks[3:]))
 		for i, chunk := range chunks[3:] {
-			params[i] = charset.ToUTF8(chunk)
+			params[i] = decodeText(chunk)
 		}
 		acknowledgement.Params = params
 	}
@@ -156,7 +156,7 @@ func (p *ParamsDataElement) UnmarshalHBCI(value []byte) error {
 	}
 	dataElements := make([]DataElement, len(elements))
 	for i, elem := range elements {
-		dataElements[i] = NewAlphaNumeric(charset.ToUTF8(elem), 35)
+		dataElements[i] = NewAlphaNumeric(decodeText(elem), 35)
 	}
 	p.arrayElementGroup = newArrayElementGroup(acknowlegdementParamsGDEG, 10, 10, dataElements)
 	return nil
diff --git a/element/data_element.go b/element/data_element.go
index b08a531..c6fb113 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -232,6 +232,11 @@ func unescape(in string) string {
 	return replacer.Replace(in)
 }
 
+// decodeText decodes a marshaled text, i.e. it resolves charset and escape sequences
+func decodeText(value []byte) string {
+	return unescape(charset.ToUTF8(value))
+}
+
 // NewAlphaNumeric returns a new AlphaNumeric DataElement
 func NewAlphaNumeric(val string, maxLength int) *AlphaNumericDataElement {
 	return &AlphaNumericDataElement{&basicDataElement{val, alphaNumericDE, maxLength, false}}
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 951a4dd..225ff06 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -115,7 +115,7 @@ func (b *BankIdentificationDataElement) UnmarshalHBCI(value []byte) error {
 		return err
 	}
 	b.CountryCode = countryCode
-	b.BankID = NewAlphaNumeric(charset.ToUTF8(elements[1]), 30)
+	b.BankID = NewAlphaNumeric(decodeText(elements[1]), 30)
 	return nil
 }
 
@@ -164,10 +164,10 @@ func (a *AccountConnectionDataElement) UnmarshalHBCI(value []byte) error {
 		return fmt.Errorf("%T: Malformed CountryCode: %q", a, elements[2])
 	}
 	accountConnection := domain.AccountConnection{
-		AccountID:                 charset.ToUTF8(elements[0]),
-		SubAccountCharacteristics: charset.ToUTF8(elements[1]),
+		AccountID:                 decodeText(elements[0]),
+		SubAccountCharacteristics: decodeText(elements[1]),
 		CountryCode:               countryCode,
-		BankID:                    charset.ToUTF8(elements[3]),
+		BankID:                    decodeText(elements[3]),
 	}
 	*a = *NewAccountConnection(accountConnection)
 	return nil
diff --git a/element/message.go b/element/message.go
index 7cce54a..f657759 100644
--- a/element/message.go
+++ b/element/message.go
@@ -50,7 +50,7 @@ func (r *ReferencingMessageDataElement) UnmarshalHBCI(value []byte) error {
 	if len(elements) != 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	dialogID := charset.ToUTF8(elements[0])
+	dialogID := decodeText(elements[0])
 	num, err := strconv.Atoi(charset.ToUTF8(elements[1]))
 	if err != nil {
 		return fmt.Errorf("%T: Malformed message number: %v", r, err)
-- 
2.43.0


From f54cfa544f9832917041a4c0cae26c4eeeaa0484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 19/60] fix: extract all elements of groups containing escaped
 or binary separators

---
 element/element_extractor.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/element/element_extractor.go b/element/element_extractor.go
index 6b84032..05bef3a 100644
--- a/element/element_extractor.go
+++ b/element/element_extractor.go
@@ -1,7 +1,6 @@
 package element
 
 import (
-	"bytes"
 	"fmt"
 
 	"github.com/mitch000001/go-hbci/token"
@@ -15,12 +14,6 @@ func ExtractElements(dataElementGroup []byte) ([][]byte, error) {
 
 // newElementExtractor creates a new GroupExtractor ready to use
 func newElementExtractor(dataElementGroup []byte) *groupExtractor {
-	// TODO: workaround to get the lexer work properly for us. Maybe we should adopt the lexer?
-	if bytes.LastIndexFunc(dataElementGroup, func(r rune) bool {
-		return r == '+' || r == '\''
-	}) == -1 {
-		dataElementGroup = append(dataElementGroup, '+')
-	}
 	return &groupExtractor{
 		rawDataElementGroup: dataElementGroup,
 	}
@@ -35,13 +28,22 @@ type groupExtractor struct {
 // Extract extracts DataElements from the underlying DataElementGroup
 func (e *groupExtractor) Extract() ([][]byte, error) {
 	var current []byte
-	lexer := token.NewLexer("ElementExtractor", e.rawDataElementGroup)
+	// The lexer needs a delimiter after the last element. It is always added and
+	// ignored if there is already one.
+	end := len(e.rawDataElementGroup)
+	input := append(e.rawDataElementGroup[:end:end], '+')
+	terminated := false
+	lexer := token.NewLexer("ElementExtractor", input)
 	for lexer.HasNext() {
 		t := lexer.Next()
 		currentType := t.Type()
 		if currentType == token.ERROR {
 			return nil, fmt.Errorf("%T: SyntaxError at position %d: %q\n(%q)", e, t.Pos(), t.Value(), e.rawDataElementGroup)
 		}
+		if t.Pos() == end && terminated {
+			break
+		}
+		terminated = currentType == token.SEGMENT_END_MARKER || currentType == token.DATA_ELEMENT_SEPARATOR
 		if currentType == token.SEGMENT_END_MARKER || currentType == token.DATA_ELEMENT_SEPARATOR || currentType == token.GROUP_DATA_ELEMENT_SEPARATOR {
 			e.elements = append(e.elements, current)
 			current = []byte{}
-- 
2.43.0


From 44e537f231b4239939767bbe5acdd53b2adf9ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 20/60] fix: split allowed business transactions only at
 unescaped separators

---
 element/data_element.go        | 21 +++++++++++++++++++++
 element/user_parameter_data.go |  6 ++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/element/data_element.go b/element/data_element.go
index c6fb113..06d9d0c 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -10,6 +10,7 @@ import (
 	"time"
 
 	"github.com/mitch000001/go-hbci/charset"
+	"github.com/mitch000001/go-hbci/token"
 )
 
 // DataElement represent the general interface of a DataElement used by HBCI
@@ -227,6 +228,26 @@ func escape(in string) string {
 	return replacer.Replace(in)
 }
 
+// splitDataElements splits value at each data element separator which is
+// neither escaped nor part of binary data
+func splitDataElements(value []byte) ([][]byte, error) {
+	end := len(value)
+	lexer := token.NewLexer("DataElementSplitter", append(value[:end:end], '+'))
+	var elements [][]byte
+	start := 0
+	for lexer.HasNext() {
+		t := lexer.Next()
+		switch t.Type() {
+		case token.ERROR:
+			return nil, fmt.Errorf("SyntaxError at position %d: %q", t.Pos(), t.Value())
+		case token.DATA_ELEMENT_SEPARATOR:
+			elements = append(elements, value[start:t.Pos()])
+			start = t.Pos() + 1
+		}
+	}
+	return elements, nil
+}
+
 func unescape(in string) string {
 	replacer := strings.NewReplacer("??", "?", "?@", "@", "?'", "'", "?:", ":", "?+", "+")
 	return replacer.Replace(in)
diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index d8a89ba..c319c51 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -1,7 +1,6 @@
 package element
 
 import (
-	"bytes"
 	"fmt"
 
 	"github.com/mitch000001/go-hbci/domain"
@@ -72,7 +71,10 @@ type AllowedBusinessTransactionsDataElement struct {
 
 // UnmarshalHBCI unmarshals value into a
 func (a *AllowedBusinessTransactionsDataElement) UnmarshalHBCI(value []byte) error {
-	elements := bytes.Split(value, []byte("+"))
+	elements, err := splitDataElements(value)
+	if err != nil {
+		return err
+	}
 	transactions := make([]DataElement, len(elements))
 	for i, elem := range elements {
 		tr := &AllowedBusinessTransactionDataElement{}
-- 
2.43.0


From 3007a0cda0fc306216937c15194f098f806aa8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 21/60] fix: read limits of accounts and business transactions
 as the bank sends them

---
 element/user_parameter_data.go | 74 ++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index c319c51..d8a8818 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -1,6 +1,7 @@
 package element
 
 import (
+	"bytes"
 	"fmt"
 
 	"github.com/mitch000001/go-hbci/domain"
@@ -34,11 +35,52 @@ type AccountLimitDataElement struct {
 
 // Val returns the limit as domain.AccountLimit
 func (a *AccountLimitDataElement) Val() domain.AccountLimit {
-	return domain.AccountLimit{
-		Kind:   a.Kind.Val(),
-		Amount: a.Amount.Val(),
-		Days:   a.Days.Val(),
+	var limit domain.AccountLimit
+	if a.Kind != nil {
+		limit.Kind = a.Kind.Val()
+	}
+	if a.Amount != nil {
+		limit.Amount = a.Amount.Val()
+	}
+	if a.Days != nil {
+		limit.Days = a.Days.Val()
+	}
+	return limit
+}
+
+// UnmarshalHBCI unmarshals value into a
+func (a *AccountLimitDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	a.DataElement = NewDataElementGroup(accountLimitDEG, 3, a)
+	a.Kind, a.Amount, a.Days, err = unmarshalLimit(elements)
+	return err
+}
+
+// unmarshalLimit unmarshals a limit with the elements kind, value, currency
+// and days, each of them being optional
+func unmarshalLimit(elements [][]byte) (kind *AlphaNumericDataElement, amount *AmountDataElement, days *NumberDataElement, err error) {
+	if len(elements) > 0 && len(elements[0]) > 0 {
+		kind = &AlphaNumericDataElement{}
+		if err = kind.UnmarshalHBCI(elements[0]); err != nil {
+			return nil, nil, nil, err
+		}
+	}
+	if len(elements) > 2 && len(elements[1]) > 0 {
+		amount = &AmountDataElement{}
+		if err = amount.UnmarshalHBCI(bytes.Join(elements[1:3], []byte(":"))); err != nil {
+			return nil, nil, nil, err
+		}
 	}
+	if len(elements) > 3 && len(elements[3]) > 0 {
+		days = &NumberDataElement{}
+		if err = days.UnmarshalHBCI(elements[3]); err != nil {
+			return nil, nil, nil, err
+		}
+	}
+	return kind, amount, days, nil
 }
 
 // GroupDataElements returns the grouped DataElements
@@ -152,28 +194,8 @@ func (a *AllowedBusinessTransactionDataElement) UnmarshalHBCI(value []byte) erro
 	if err != nil {
 		return err
 	}
-	if len(elements) > 2 && len(elements[2]) > 0 {
-		a.Kind = &AlphaNumericDataElement{}
-		err = a.Kind.UnmarshalHBCI(elements[2])
-		if err != nil {
-			return err
-		}
-	}
-	if len(elements) > 3 && len(elements[3]) > 0 {
-		a.Amount = &AmountDataElement{}
-		err = a.Amount.UnmarshalHBCI(elements[3])
-		if err != nil {
-			return err
-		}
-	}
-	if len(elements) > 4 && len(elements[4]) > 0 {
-		a.Days = &NumberDataElement{}
-		err = a.Days.UnmarshalHBCI(elements[4])
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	a.Kind, a.Amount, a.Days, err = unmarshalLimit(elements[2:])
+	return err
 }
 
 // Val returns the allowed business transaction
-- 
2.43.0


From 8b3f14667848b150f8358e0966d8d477c1666a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 22/60] fix: do not run past or stop before the end of input in
 the lexer

---
 token/lexer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/token/lexer.go b/token/lexer.go
index dc63286..4753ed3 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -36,6 +36,7 @@ type Lexer struct {
 	state  LexerStateFn // the next lexing function to enter
 	pos    int          // current position in the input.
 	start  int          // start position of this item.
+	width  int          // number of bytes consumed by the last call of next.
 	tokens chan Token   // channel of scanned tokens.
 }
 
@@ -93,9 +94,11 @@ func (l *Lexer) emit(t Type) {
 // next returns the next byte in the input.
 func (l *Lexer) next() byte {
 	if l.pos >= len(l.input) {
+		l.width = 0
 		return eof
 	}
 	b := l.input[l.pos]
+	l.width = 1
 	l.pos++
 	return b
 }
@@ -108,7 +111,7 @@ func (l *Lexer) ignore() {
 // backup steps back one byte.
 // Can be called only once per call of next.
 func (l *Lexer) backup() {
-	l.pos--
+	l.pos -= l.width
 }
 
 // peek returns but does not consume
@@ -160,7 +163,7 @@ func lexStart(l *Lexer) LexerStateFn {
 	case r == binaryIdentifier:
 		l.backup()
 		return lexBinaryData
-	case r == eof:
+	case r == eof && l.width == 0:
 		// Correctly reached EOF.
 		l.emit(EOF)
 		return nil
@@ -219,6 +222,9 @@ func lexBinaryData(l *Lexer) LexerStateFn {
 	if !l.accept('@') {
 		return l.errorf("Binary length must contain of digits only")
 	}
+	if length > len(l.input)-l.pos {
+		return l.errorf("Unexpected end of input")
+	}
 	l.pos += length
 	p := l.peek()
 	if isDelimiter(p) {
-- 
2.43.0


From eb6fda77aee434bc9c40b4b2b961b55429209c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 23/60] fix: return an error for continuations without a
 reference instead of panicking

---
 client/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/client.go b/client/client.go
index 4ec3c98..02c9055 100644
--- a/client/client.go
+++ b/client/client.go
@@ -199,6 +199,9 @@ func (c *Client) accountTransactions(requestBuilder func() (segment.AccountTrans
 	acknowledgements := decryptedMessage.Acknowledgements()
 	for _, ack := range acknowledgements {
 		if ack.Code == element.AcknowledgementAdditionalInformation {
+			if len(ack.Params) == 0 {
+				return nil, fmt.Errorf("malformed response: missing continuation reference")
+			}
 			newContinuationReference = ack.Params[0]
 			break
 		}
@@ -319,6 +322,9 @@ func (c *Client) SepaAccountBalances(account domain.InternationalAccountConnecti
 	acknowledgements := decryptedMessage.Acknowledgements()
 	for _, ack := range acknowledgements {
 		if ack.Code == element.AcknowledgementAdditionalInformation {
+			if len(ack.Params) == 0 {
+				return nil, fmt.Errorf("malformed response: missing continuation reference")
+			}
 			newContinuationReference = ack.Params[0]
 			break
 		}
-- 
2.43.0


From 65fa620cb68c76e918edb6c3fc3feca542f90f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 24/60] fix: report user name and extensions of version 3 user
 parameter data

---
 segment/user_parameter_data.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/segment/user_parameter_data.go b/segment/user_parameter_data.go
index 1655369..1a84a8a 100644
--- a/segment/user_parameter_data.go
+++ b/segment/user_parameter_data.go
@@ -92,10 +92,20 @@ func (c *CommonUserParameterDataV3) elements() []element.DataElement {
 }
 
 func (c *CommonUserParameterDataV3) UserParameterData() domain.UserParameterData {
+	var username string
+	if c.UserName != nil {
+		username = c.UserName.Val()
+	}
+	var additions string
+	if c.CommonExtensions != nil {
+		additions = c.CommonExtensions.Val()
+	}
 	return domain.UserParameterData{
-		UserID:  c.UserID.Val(),
-		Version: c.UPDVersion.Val(),
-		Usage:   c.UPDUsage.Val(),
+		UserID:    c.UserID.Val(),
+		Version:   c.UPDVersion.Val(),
+		Usage:     c.UPDUsage.Val(),
+		UserName:  username,
+		Additions: additions,
 	}
 }
 
-- 
2.43.0


From 50b76f858331c472569b824690c81275002837e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 25/60] fix: report the message segment acknowledgements refer
 to

---
 message/decryption.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/message/decryption.go b/message/decryption.go
index d69f7fb..61048b6 100644
--- a/message/decryption.go
+++ b/message/decryption.go
@@ -23,6 +23,7 @@ func NewDecryptedMessage(header *segment.MessageHeaderSegment, end *segment.Mess
 	}
 	for _, seg := range unmarshaler.SegmentsByID("HIRMS") {
 		if segmentAcknowledgement, ok := seg.(*segment.SegmentAcknowledgement); ok {
+			segmentAcknowledgement.SetReferencingMessage(header.ReferencingMessage())
 			acknowledgements = append(acknowledgements, segmentAcknowledgement.Acknowledgements()...)
 		} else {
 			panic(fmt.Errorf("Error while unmarshaling segments"))
-- 
2.43.0


From 3c09499459a9161cc7eb6e8e178e6c16ace6418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 26/60] fix: read all allowed business transactions of version
 6 and 7 accounts

---
 segment/basic_account_information.go          | 16 ++++++++++
 .../basic_account_information_unmarshaler.go  | 32 +++++++++----------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/segment/basic_account_information.go b/segment/basic_account_information.go
index c01b7c0..61bf4ea 100644
--- a/segment/basic_account_information.go
+++ b/segment/basic_account_information.go
@@ -261,3 +261,19 @@ func (a *AccountInformationV7) elements() []element.DataElement {
 		a.AccountExtensions,
 	}
 }
+
+// splitAccountExtensions separates the allowed business transactions from the
+// account extensions, which may follow directly after the last transaction.
+func splitAccountExtensions(elements [][]byte) (transactions, extensions [][]byte) {
+	for i, elem := range elements {
+		if len(elem) == 0 {
+			continue
+		}
+		transaction := &element.AllowedBusinessTransactionDataElement{}
+		if err := transaction.UnmarshalHBCI(elem); err != nil {
+			return transactions, elements[i:]
+		}
+		transactions = append(transactions, elem)
+	}
+	return transactions, nil
+}
diff --git a/segment/basic_account_information_unmarshaler.go b/segment/basic_account_information_unmarshaler.go
index a14818c..789ab2a 100644
--- a/segment/basic_account_information_unmarshaler.go
+++ b/segment/basic_account_information_unmarshaler.go
@@ -305,20 +305,20 @@ func (a *AccountInformationV6) UnmarshalHBCI(value []byte) error {
 			return fmt.Errorf("error unmarshaling AccountLimit: %w", err)
 		}
 	}
-	if len(elements) > 10 && len(elements[10]) > 0 {
+	var transactions, extensions [][]byte
+	if len(elements) > 10 {
+		transactions, extensions = splitAccountExtensions(elements[10:])
+	}
+	if len(transactions) > 0 {
 		a.AllowedBusinessTransactions = &element.AllowedBusinessTransactionsDataElement{}
-		err = a.AllowedBusinessTransactions.UnmarshalHBCI(elements[10])
+		err = a.AllowedBusinessTransactions.UnmarshalHBCI(bytes.Join(transactions, []byte("+")))
 		if err != nil {
 			return fmt.Errorf("error unmarshaling AllowedBusinessTransactions: %w", err)
 		}
 	}
-	if len(elements) > 11 && len(elements[11]) > 0 {
+	if len(extensions) > 0 {
 		a.AccountExtensions = &element.AlphaNumericDataElement{}
-		if len(elements)+1 > 11 {
-			err = a.AccountExtensions.UnmarshalHBCI(bytes.Join(elements[11:], []byte("+")))
-		} else {
-			err = a.AccountExtensions.UnmarshalHBCI(elements[11])
-		}
+		err = a.AccountExtensions.UnmarshalHBCI(bytes.Join(extensions, []byte("+")))
 		if err != nil {
 			return fmt.Errorf("error unmarshaling AccountExtensions: %w", err)
 		}
@@ -402,20 +402,20 @@ func (a *AccountInformationV7) UnmarshalHBCI(value []byte) error {
 			return fmt.Errorf("error unmarshaling AccountLimit: %w", err)
 		}
 	}
-	if len(elements) > 10 && len(elements[10]) > 0 {
+	var transactions, extensions [][]byte
+	if len(elements) > 10 {
+		transactions, extensions = splitAccountExtensions(elements[10:])
+	}
+	if len(transactions) > 0 {
 		a.AllowedBusinessTransactions = &element.AllowedBusinessTransactionsDataElement{}
-		err = a.AllowedBusinessTransactions.UnmarshalHBCI(elements[10])
+		err = a.AllowedBusinessTransactions.UnmarshalHBCI(bytes.Join(transactions, []byte("+")))
 		if err != nil {
 			return fmt.Errorf("error unmarshaling AllowedBusinessTransactions: %w", err)
 		}
 	}
-	if len(elements) > 11 && len(elements[11]) > 0 {
+	if len(extensions) > 0 {
 		a.AccountExtensions = &element.AlphaNumericDataElement{}
-		if len(elements)+1 > 11 {
-			err = a.AccountExtensions.UnmarshalHBCI(bytes.Join(elements[11:], []byte("+")))
-		} else {
-			err = a.AccountExtensions.UnmarshalHBCI(elements[11])
-		}
+		err = a.AccountExtensions.UnmarshalHBCI(bytes.Join(extensions, []byte("+")))
 		if err != nil {
 			return fmt.Errorf("error unmarshaling AccountExtensions: %w", err)
 		}
-- 
2.43.0


From 425cec575dd4c26f5748b188dc035448022f7f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 27/60] fix: synchronise before choosing the version of an
 order

---
 client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 02c9055..68c6879 100644
--- a/client/client.go
+++ b/client/client.go
@@ -102,7 +102,7 @@ type Client struct {
 }
 
 func (c *Client) init() error {
-	if c.pinTanDialog.BankParameterDataVersion() == 0 {
+	if c.pinTanDialog.BankParameterDataVersion() == 0 || c.pinTanDialog.ClientSystemID == "0" {
 		_, err := c.pinTanDialog.SyncClientSystemID()
 		if err != nil {
 			return fmt.Errorf("error while fetching accounts: %v", err)
-- 
2.43.0


From fe2cc80a13c396e541f048c65a2767b7c05f9e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 28/60] fix: treat absent optional elements of replies as empty
 instead of panicking

---
 element/acknowledgement.go          |   3 +
 element/bank_parameter_data.go      |   6 ++
 element/data_element.go             | 113 ++++++++++++++++++++++++----
 element/group_data_element_group.go |  21 ++++++
 element/message.go                  |   3 +
 element/signature.go                |   7 +-
 element/user_parameter_data.go      |   6 ++
 7 files changed, 143 insertions(+), 16 deletions(-)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 2c628df..eb8c35c 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -138,6 +138,9 @@ type ParamsDataElement struct {
 
 // Val returns the underlying value of the DataElement.
 func (p *ParamsDataElement) Val() []string {
+	if p == nil || p.arrayElementGroup == nil {
+		return nil
+	}
 	params := make([]string, len(p.array))
 	for i, de := range p.array {
 		params[i] = de.Value().(string)
diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 396292c..8c2b692 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -149,6 +149,9 @@ type SupportedLanguagesDataElement struct {
 // Languages returns the supported languages packaged within a slice of
 // NumberDataElements
 func (s *SupportedLanguagesDataElement) Languages() []*NumberDataElement {
+	if s == nil || s.arrayElementGroup == nil {
+		return nil
+	}
 	languages := make([]*NumberDataElement, len(s.arrayElementGroup.array))
 	for i, lang := range s.arrayElementGroup.array {
 		languages[i] = lang.(*NumberDataElement)
@@ -223,6 +226,9 @@ type PinTanBusinessTransactionParameters struct {
 
 // Val returns the underlying PinTanBusinessTransactions
 func (p *PinTanBusinessTransactionParameters) Val() []domain.PinTanBusinessTransaction {
+	if p == nil || p.arrayElementGroup == nil {
+		return nil
+	}
 	transactions := make([]domain.PinTanBusinessTransaction, len(p.array))
 	for i, elem := range p.array {
 		transactions[i] = elem.(*PinTanBusinessTransactionParameter).Val()
diff --git a/element/data_element.go b/element/data_element.go
index 06d9d0c..37b43fe 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -268,8 +268,13 @@ type AlphaNumericDataElement struct {
 	*basicDataElement
 }
 
-// Val returns the data as string
-func (a *AlphaNumericDataElement) Val() string { return a.val.(string) }
+// Val returns the data as string. It is empty if a is absent.
+func (a *AlphaNumericDataElement) Val() string {
+	if a == nil || a.basicDataElement == nil {
+		return ""
+	}
+	return a.val.(string)
+}
 
 // IsValid returns false if a contains '\n' and '\r', true otherwise
 func (a *AlphaNumericDataElement) IsValid() bool {
@@ -308,8 +313,14 @@ type TextDataElement struct {
 	*basicDataElement
 }
 
-// Val returns the value of a as a string
-func (a *TextDataElement) Val() string { return a.val.(string) }
+// Val returns the value of a as a string. It is empty if a is absent.
+func (a *TextDataElement) Val() string {
+	if a == nil || a.basicDataElement == nil {
+		return ""
+	}
+	return a.val.(string)
+}
+
 func (a *TextDataElement) String() string {
 	return escape(a.basicDataElement.String())
 }
@@ -338,8 +349,13 @@ type DigitDataElement struct {
 	*basicDataElement
 }
 
-// Val returns the digit as int
-func (d *DigitDataElement) Val() int { return d.val.(int) }
+// Val returns the digit as int. It is 0 if d is absent.
+func (d *DigitDataElement) Val() int {
+	if d == nil || d.basicDataElement == nil {
+		return 0
+	}
+	return d.val.(int)
+}
 
 func (d *DigitDataElement) String() string {
 	fmtString := fmt.Sprintf("%%0%dd", d.maxLength)
@@ -371,8 +387,13 @@ type NumberDataElement struct {
 	*basicDataElement
 }
 
-// Val returns the value of n as int
-func (n *NumberDataElement) Val() int { return n.val.(int) }
+// Val returns the value of n as int. It is 0 if n is absent.
+func (n *NumberDataElement) Val() int {
+	if n == nil || n.basicDataElement == nil {
+		return 0
+	}
+	return n.val.(int)
+}
 
 // MarshalHBCI marshals n into the HBCI wire format
 func (n *NumberDataElement) MarshalHBCI() ([]byte, error) {
@@ -399,8 +420,13 @@ type FloatDataElement struct {
 	*basicDataElement
 }
 
-// Val returns the value of f as float64
-func (f *FloatDataElement) Val() float64 { return f.val.(float64) }
+// Val returns the value of f as float64. It is 0 if f is absent.
+func (f *FloatDataElement) Val() float64 {
+	if f == nil || f.basicDataElement == nil {
+		return 0
+	}
+	return f.val.(float64)
+}
 
 func (f *FloatDataElement) String() string {
 	str := strconv.FormatFloat(f.Val(), 'f', -1, 64)
@@ -460,8 +486,11 @@ type BinaryDataElement struct {
 	*basicDataElement
 }
 
-// Val returns b as []byte
+// Val returns b as []byte. It is nil if b is absent.
 func (b *BinaryDataElement) Val() []byte {
+	if b == nil || b.basicDataElement == nil {
+		return nil
+	}
 	return b.Value().([]byte)
 }
 
@@ -515,8 +544,11 @@ type BooleanDataElement struct {
 	*basicDataElement
 }
 
-// Val returns the value of b as bool
+// Val returns the value of b as bool. It is false if b is absent.
 func (b *BooleanDataElement) Val() bool {
+	if b == nil || b.basicDataElement == nil {
+		return false
+	}
 	return b.Value().(bool)
 }
 
@@ -565,6 +597,14 @@ func (c *CodeDataElement) Type() DataElementType {
 	return codeDE
 }
 
+// Val returns the value of c as string. It is empty if c is absent.
+func (c *CodeDataElement) Val() string {
+	if c == nil {
+		return ""
+	}
+	return c.AlphaNumericDataElement.Val()
+}
+
 // IsValid returns true if the value is in the valid set and the underlying
 // AlphaNumericDataElement is valid, false otherwise.
 func (c *CodeDataElement) IsValid() bool {
@@ -592,7 +632,11 @@ type DateDataElement struct {
 }
 
 // Val returns the value of d as time.Time. The time component of it will always be zero.
+// It is the zero time if d is absent.
 func (d *DateDataElement) Val() time.Time {
+	if d == nil || d.basicDataElement == nil {
+		return time.Time{}
+	}
 	return d.Value().(time.Time)
 }
 
@@ -633,6 +677,14 @@ type VirtualDateDataElement struct {
 	*NumberDataElement
 }
 
+// Val returns the value of v as int. It is 0 if v is absent.
+func (v *VirtualDateDataElement) Val() int {
+	if v == nil {
+		return 0
+	}
+	return v.NumberDataElement.Val()
+}
+
 // Valid returns true if the length of v is 8, false otherwise
 func (v *VirtualDateDataElement) Valid() bool {
 	return v.Length() == 8
@@ -649,8 +701,11 @@ type TimeDataElement struct {
 	*basicDataElement
 }
 
-// Val returns the value of t as time.Time.
+// Val returns the value of t as time.Time. It is the zero time if t is absent.
 func (t *TimeDataElement) Val() time.Time {
+	if t == nil || t.basicDataElement == nil {
+		return time.Time{}
+	}
 	return t.Value().(time.Time)
 }
 
@@ -691,6 +746,14 @@ type IdentificationDataElement struct {
 	*AlphaNumericDataElement
 }
 
+// Val returns the identifier as string. It is empty if i is absent.
+func (i *IdentificationDataElement) Val() string {
+	if i == nil {
+		return ""
+	}
+	return i.AlphaNumericDataElement.Val()
+}
+
 // Type returns the DataElementType of i
 func (i *IdentificationDataElement) Type() DataElementType {
 	return identificationDE
@@ -720,6 +783,14 @@ type CountryCodeDataElement struct {
 	*DigitDataElement
 }
 
+// Val returns the country code as int. It is 0 if c is absent.
+func (c *CountryCodeDataElement) Val() int {
+	if c == nil {
+		return 0
+	}
+	return c.DigitDataElement.Val()
+}
+
 // Type represents the DataElement Type of c
 func (c *CountryCodeDataElement) Type() DataElementType {
 	return countryCodeDE
@@ -749,6 +820,14 @@ type CurrencyDataElement struct {
 	*AlphaNumericDataElement
 }
 
+// Val returns the currency as string. It is empty if c is absent.
+func (c *CurrencyDataElement) Val() string {
+	if c == nil {
+		return ""
+	}
+	return c.AlphaNumericDataElement.Val()
+}
+
 // IsValid returns true if the currency format matches ISO 4217 alpha-3
 func (c *CurrencyDataElement) IsValid() bool {
 	return c.Length() == 3
@@ -782,6 +861,14 @@ type ValueDataElement struct {
 	*FloatDataElement
 }
 
+// Val returns the value as float64. It is 0 if v is absent.
+func (v *ValueDataElement) Val() float64 {
+	if v == nil {
+		return 0
+	}
+	return v.FloatDataElement.Val()
+}
+
 // Type returns the DataElementType of v
 func (v *ValueDataElement) Type() DataElementType {
 	return valueDE
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 225ff06..78a61f9 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -38,6 +38,9 @@ func (a *AmountDataElement) Elements() []DataElement {
 
 // Val returns the value of a as a domain.Amount
 func (a *AmountDataElement) Val() domain.Amount {
+	if a == nil {
+		return domain.Amount{}
+	}
 	return domain.Amount{
 		Amount:   a.Amount.Val(),
 		Currency: a.Currency.Val(),
@@ -86,6 +89,9 @@ type BankIdentificationDataElement struct {
 
 // Val returns the value of b as domain.BankID
 func (b *BankIdentificationDataElement) Val() domain.BankID {
+	if b == nil {
+		return domain.BankID{}
+	}
 	return domain.BankID{
 		CountryCode: b.CountryCode.Val(),
 		ID:          b.BankID.Val(),
@@ -175,6 +181,9 @@ func (a *AccountConnectionDataElement) UnmarshalHBCI(value []byte) error {
 
 // Val returns the value of a as domain.AccountConnection
 func (a *AccountConnectionDataElement) Val() domain.AccountConnection {
+	if a == nil {
+		return domain.AccountConnection{}
+	}
 	return domain.AccountConnection{
 		AccountID:                 a.AccountID.Val(),
 		SubAccountCharacteristics: a.SubAccountCharacteristics.Val(),
@@ -267,6 +276,9 @@ func (i *InternationalAccountConnectionDataElement) UnmarshalHBCI(value []byte)
 
 // Val returns the value of i as domain.InternationalAccountConnection
 func (i *InternationalAccountConnectionDataElement) Val() domain.InternationalAccountConnection {
+	if i == nil {
+		return domain.InternationalAccountConnection{}
+	}
 	conn := domain.InternationalAccountConnection{}
 	if i.IBAN != nil {
 		conn.IBAN = i.IBAN.Val()
@@ -330,6 +342,9 @@ func (b *BalanceDataElement) Elements() []DataElement {
 
 // Balance returns the balance as domain.Balance
 func (b *BalanceDataElement) Balance() domain.Balance {
+	if b == nil {
+		return domain.Balance{}
+	}
 	sign := b.DebitCreditIndicator.Val()
 	val := b.Amount.Val()
 	if sign == "D" {
@@ -393,6 +408,9 @@ func (b *BalanceDataElement) UnmarshalHBCI(value []byte) error {
 
 // Date returns the transmission date of the balance
 func (b *BalanceDataElement) Date() time.Time {
+	if b == nil {
+		return time.Time{}
+	}
 	return b.TransmissionDate.Val()
 }
 
@@ -444,6 +462,9 @@ func (a *AddressDataElement) Elements() []DataElement {
 
 // Address returns the address as a domain.Address
 func (a *AddressDataElement) Address() domain.Address {
+	if a == nil {
+		return domain.Address{}
+	}
 	return domain.Address{
 		Name1:       a.Name1.Val(),
 		Name2:       a.Name2.Val(),
diff --git a/element/message.go b/element/message.go
index f657759..d92bb50 100644
--- a/element/message.go
+++ b/element/message.go
@@ -29,6 +29,9 @@ type ReferencingMessageDataElement struct {
 
 // Val returns the value of r as domain.ReferencingMessage
 func (r *ReferencingMessageDataElement) Val() domain.MessageReference {
+	if r == nil {
+		return domain.MessageReference{}
+	}
 	return domain.MessageReference{
 		DialogID:      r.DialogID.Val(),
 		MessageNumber: r.MessageNumber.Val(),
diff --git a/element/signature.go b/element/signature.go
index b134dda..d15c8f7 100644
--- a/element/signature.go
+++ b/element/signature.go
@@ -332,10 +332,11 @@ type KeyNameDataElement struct {
 
 // Val returns the KeyName as domain.KeyName
 func (k *KeyNameDataElement) Val() domain.KeyName {
+	if k == nil {
+		return domain.KeyName{}
+	}
 	return domain.KeyName{
-		BankID: domain.BankID{
-			CountryCode: k.Bank.CountryCode.Val(),
-			ID:          k.Bank.BankID.Val()},
+		BankID:     k.Bank.Val(),
 		UserID:     k.UserID.Val(),
 		KeyType:    domain.KeyType(k.KeyType.Val()),
 		KeyNumber:  k.KeyNumber.Val(),
diff --git a/element/user_parameter_data.go b/element/user_parameter_data.go
index d8a8818..4e239e4 100644
--- a/element/user_parameter_data.go
+++ b/element/user_parameter_data.go
@@ -36,6 +36,9 @@ type AccountLimitDataElement struct {
 // Val returns the limit as domain.AccountLimit
 func (a *AccountLimitDataElement) Val() domain.AccountLimit {
 	var limit domain.AccountLimit
+	if a == nil {
+		return limit
+	}
 	if a.Kind != nil {
 		limit.Kind = a.Kind.Val()
 	}
@@ -134,6 +137,9 @@ func (a *AllowedBusinessTransactionsDataElement) UnmarshalHBCI(value []byte) err
 
 // AllowedBusinessTransactions returns all allowed business transactions
 func (a *AllowedBusinessTransactionsDataElement) AllowedBusinessTransactions() []domain.BusinessTransaction {
+	if a == nil || a.arrayElementGroup == nil {
+		return nil
+	}
 	businessTransactions := make([]domain.BusinessTransaction, len(a.array))
 	for i, de := range a.array {
 		businessTransactions[i] = de.(*AllowedBusinessTransactionDataElement).Val()
-- 
2.43.0


From e9dfcd0d20a5090e2c97ce22b19e811ec5532aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 29/60] fix: return no transactions instead of an error if the
 bank sends no statements

---
 swift/unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swift/unmarshal.go b/swift/unmarshal.go
index 45b8bb9..bb9d336 100644
--- a/swift/unmarshal.go
+++ b/swift/unmarshal.go
@@ -46,6 +46,10 @@ func NewMT940MessagesUnmarshaler() MT940Unmarshaler {
 type mt940MessagesUnmarshaler struct{}
 
 func (m *mt940MessagesUnmarshaler) UnmarshalMT940(value []byte) ([]domain.AccountTransaction, error) {
+	if len(value) == 0 {
+		// the bank sent no statements, i.e. there are no transactions
+		return nil, nil
+	}
 	messageExtractor := NewMessageExtractor(value)
 	messages, err := messageExtractor.Extract()
 	if err != nil {
-- 
2.43.0


From 7896f2db0339451bb49880dc7dfd21a63e2353bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 30/60] fix: report malformed elements of replies as errors
 instead of swallowing them or panicking

---
 client/client.go                    |  5 ++++-
 element/acknowledgement.go          |  2 +-
 element/data_element.go             | 10 +++++-----
 element/group_data_element_group.go |  1 +
 element/message.go                  |  3 +++
 message/decryption.go               |  2 +-
 6 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/client/client.go b/client/client.go
index 68c6879..578cc20 100644
--- a/client/client.go
+++ b/client/client.go
@@ -361,7 +361,10 @@ func (c *Client) Status(from, to time.Time, maxEntries int, continuationReferenc
 	var statusAcknowledgements []domain.StatusAcknowledgement
 	statusResponses := bankMessage.FindSegments("HIPRO")
 	for _, seg := range statusResponses {
-		statusResponse := seg.(segment.StatusProtocolResponse)
+		statusResponse, ok := seg.(segment.StatusProtocolResponse)
+		if !ok {
+			return nil, fmt.Errorf("malformed segment found with ID `HIPRO`")
+		}
 		statusAcknowledgements = append(statusAcknowledgements, statusResponse.Status())
 	}
 	return statusAcknowledgements, nil
diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index eb8c35c..58ea635 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -152,7 +152,7 @@ func (p *ParamsDataElement) Val() []string {
 func (p *ParamsDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := ExtractElements(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	if len(elements) > 10 {
 		return fmt.Errorf("malformed params")
diff --git a/element/data_element.go b/element/data_element.go
index 37b43fe..29ff391 100644
--- a/element/data_element.go
+++ b/element/data_element.go
@@ -525,11 +525,11 @@ func (b *BinaryDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return fmt.Errorf("Error while parsing binary size: %T:%v", err, err)
 	}
-	binData := make([]byte, binSize)
-	_, err = buf.Read(binData)
-	if err != nil {
-		return fmt.Errorf("Error while reading binary data: %T:%v", err, err)
+	if binSize < 0 || binSize > buf.Len() {
+		return fmt.Errorf("BinaryDataElement: Malformed input: binary size %d exceeds data", binSize)
 	}
+	binData := make([]byte, binSize)
+	copy(binData, buf.Next(binSize))
 	*b = BinaryDataElement{&basicDataElement{binData, binaryDE, binSize, false}}
 	return nil
 }
@@ -801,7 +801,7 @@ func (c *CountryCodeDataElement) UnmarshalHBCI(value []byte) error {
 	var d DigitDataElement
 	err := d.UnmarshalHBCI(value)
 	if err != nil {
-		return nil
+		return err
 	}
 	*c = CountryCodeDataElement{&d}
 	return nil
diff --git a/element/group_data_element_group.go b/element/group_data_element_group.go
index 78a61f9..2467f19 100644
--- a/element/group_data_element_group.go
+++ b/element/group_data_element_group.go
@@ -122,6 +122,7 @@ func (b *BankIdentificationDataElement) UnmarshalHBCI(value []byte) error {
 	}
 	b.CountryCode = countryCode
 	b.BankID = NewAlphaNumeric(decodeText(elements[1]), 30)
+	b.DataElement = NewGroupDataElementGroup(bankIdentificationGDEG, 2, b)
 	return nil
 }
 
diff --git a/element/message.go b/element/message.go
index d92bb50..80ea7c0 100644
--- a/element/message.go
+++ b/element/message.go
@@ -50,6 +50,9 @@ func (r *ReferencingMessageDataElement) IsValid() bool {
 // UnmarshalHBCI unmarshals value into r
 func (r *ReferencingMessageDataElement) UnmarshalHBCI(value []byte) error {
 	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
 	if len(elements) != 2 {
 		return fmt.Errorf("malformed marshaled value")
 	}
diff --git a/message/decryption.go b/message/decryption.go
index 61048b6..d051f9e 100644
--- a/message/decryption.go
+++ b/message/decryption.go
@@ -26,7 +26,7 @@ func NewDecryptedMessage(header *segment.MessageHeaderSegment, end *segment.Mess
 			segmentAcknowledgement.SetReferencingMessage(header.ReferencingMessage())
 			acknowledgements = append(acknowledgements, segmentAcknowledgement.Acknowledgements()...)
 		} else {
-			panic(fmt.Errorf("Error while unmarshaling segments"))
+			return nil, fmt.Errorf("Error while unmarshaling segments: unexpected segment %T", seg)
 		}
 	}
 	version, ok := segment.SupportedHBCIVersions[header.HBCIVersion.Val()]
-- 
2.43.0


From 2e85fa29142c9ad6c0590f2cd0cabe6fc0e2efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 31/60] fix: iban: report too short input as invalid instead of
 panicking

---
 iban/iban.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iban/iban.go b/iban/iban.go
index 8a6db5c..e3ad85f 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -69,6 +69,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 // From creates an IBAN from the provided input. If the input is not a valid IBAN, it
 // returns an error.
 func From(input string) (IBAN, error) {
+	if len(input) < 4 {
+		return "", fmt.Errorf("malformed IBAN: must have at least 4 characters")
+	}
 	countryCode := input[:2]
 	proofNumber := input[2:4]
 	bban := input[4:]
@@ -115,7 +118,7 @@ func (i IBAN) ProofNumber() string {
 
 // Valid returns true if the IBAN is valid, false otherwise
 func (i IBAN) Valid() bool {
-	if len(i) > maxAllowedIBANLength {
+	if len(i) < 4 || len(i) > maxAllowedIBANLength {
 		return false
 	}
 	countryCode := i.CountryCode()
-- 
2.43.0


From 3e7d73146f9a4e2b5191207161285bfba33f61db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 32/60] fix: iban: accept letters and digits only

---
 iban/iban.go | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/iban/iban.go b/iban/iban.go
index e3ad85f..a864ce4 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -39,6 +39,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 	if len(countryCode) != 2 {
 		return "", fmt.Errorf("malformed countryCode: must have two characters")
 	}
+	if !consistsOf(countryCode, isLetter) {
+		return "", fmt.Errorf("malformed countryCode: must consist of letters")
+	}
 	countryCode = strings.ToUpper(countryCode)
 
 	ibanLen, ok := ibanMaxLengthForCountry[countryCode]
@@ -52,6 +55,9 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 		return "", fmt.Errorf("malformed BBAN: must have at max %d characters", ibanLen)
 	}
 
+	if !consistsOf(BBAN, func(c byte) bool { return isLetter(c) || isDigit(c) }) {
+		return "", fmt.Errorf("malformed BBAN: must consist of letters and digits")
+	}
 	BBAN = strings.ToUpper(BBAN)
 
 	step1 := fmt.Sprintf("%s%s00", transformLettersToDigits(BBAN), transformLettersToDigits(countryCode))
@@ -121,20 +127,8 @@ func (i IBAN) Valid() bool {
 	if len(i) < 4 || len(i) > maxAllowedIBANLength {
 		return false
 	}
-	countryCode := i.CountryCode()
-	countryCode = strings.ToUpper(countryCode)
-	bban := i.BBAN()
-	bban = strings.ToUpper(bban)
-
-	digitCountryCode := transformLettersToDigits(countryCode)
-	digitBBAN := transformLettersToDigits(bban)
-	checkSumString := fmt.Sprintf("%s%s%s", digitBBAN, digitCountryCode, i.ProofNumber())
-	checkSum, ok := new(big.Int).SetString(checkSumString, 10)
-	if !ok {
-		return false
-	}
-	mod := checkSum.Mod(checkSum, big.NewInt(97))
-	return mod.Cmp(big.NewInt(1)) == 0
+	iban, err := New(i.CountryCode(), i.BBAN())
+	return err == nil && iban.ProofNumber() == i.ProofNumber()
 }
 
 // String returns the string representation of i
@@ -157,6 +151,23 @@ func Print(iban IBAN) string {
 	return strings.TrimSpace(out.String())
 }
 
+func consistsOf(s string, allowed func(byte) bool) bool {
+	for i := 0; i < len(s); i++ {
+		if !allowed(s[i]) {
+			return false
+		}
+	}
+	return true
+}
+
+func isLetter(c byte) bool {
+	return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z'
+}
+
+func isDigit(c byte) bool {
+	return c >= '0' && c <= '9'
+}
+
 func transformLettersToDigits(letters string) string {
 	var replaced []string
 	for k, v := range alphaToDigit {
-- 
2.43.0


From 3178bcccb5f82067f81d9732a3f36c430fd8fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 33/60] fix: iban: reject IBANs shorter than their country's
 length

---
 iban/iban.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iban/iban.go b/iban/iban.go
index a864ce4..6f21b07 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -52,7 +52,10 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 		return "", fmt.Errorf("missing BBAN")
 	}
 	if len(BBAN) > (ibanLen - 4) {
-		return "", fmt.Errorf("malformed BBAN: must have at max %d characters", ibanLen)
+		return "", fmt.Errorf("malformed BBAN: must have at max %d characters", ibanLen-4)
+	}
+	if ok && len(BBAN) != (ibanLen-4) {
+		return "", fmt.Errorf("malformed BBAN: must have %d characters", ibanLen-4)
 	}
 
 	if !consistsOf(BBAN, func(c byte) bool { return isLetter(c) || isDigit(c) }) {
-- 
2.43.0


From 871cdf46d0f188f39095231484294e779ed93ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 34/60] fix: iban: accept the paper format Print produces

---
 iban/iban.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iban/iban.go b/iban/iban.go
index 6f21b07..ec47c40 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -78,6 +78,7 @@ func New(countryCode string, BBAN string) (IBAN, error) {
 // From creates an IBAN from the provided input. If the input is not a valid IBAN, it
 // returns an error.
 func From(input string) (IBAN, error) {
+	input = strings.Replace(input, " ", "", -1)
 	if len(input) < 4 {
 		return "", fmt.Errorf("malformed IBAN: must have at least 4 characters")
 	}
-- 
2.43.0


From 9eedb4fed764af2c18a983fea9405988c7fb7802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 35/60] fix: iban: pad German account numbers to ten digits and
 reject malformed parts

---
 iban/iban.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/iban/iban.go b/iban/iban.go
index ec47c40..87de669 100644
--- a/iban/iban.go
+++ b/iban/iban.go
@@ -9,6 +9,7 @@ import (
 
 const countryDE = "DE"
 const germanAccountIDLength = 10
+const germanBankIDLength = 8
 const maxAllowedIBANLength = 34
 
 // IsValid validates the IBAN for its proof number
@@ -25,9 +26,13 @@ func IsValid(input string) bool {
 // It returns only valid german IBANs, as it is hard coded to use german
 // settings.
 func NewGerman(bankID, accountID string) (IBAN, error) {
-	if len(accountID) == (germanAccountIDLength - 1) {
-		accountID = "0" + accountID
+	if len(bankID) != germanBankIDLength || !consistsOf(bankID, isDigit) {
+		return "", fmt.Errorf("malformed bankID: must have %d digits", germanBankIDLength)
 	}
+	if len(accountID) == 0 || len(accountID) > germanAccountIDLength || !consistsOf(accountID, isDigit) {
+		return "", fmt.Errorf("malformed accountID: must have at max %d digits", germanAccountIDLength)
+	}
+	accountID = strings.Repeat("0", germanAccountIDLength-len(accountID)) + accountID
 
 	bban := fmt.Sprintf("%s%s", bankID, accountID)
 
-- 
2.43.0


From 0d59af7e7b6e92c4c535ca151deda3043b908839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 36/60] fix: client: report banks without a known URL instead
 of sending requests nowhere

---
 client/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client.go b/client/client.go
index 578cc20..8fcd76d 100644
--- a/client/client.go
+++ b/client/client.go
@@ -58,6 +58,9 @@ func New(config Config) (*Client, error) {
 	} else {
 		url = bankInfo.URL
 	}
+	if url == "" {
+		return nil, fmt.Errorf("missing URL: no entry with a URL found for bank ID %q", config.BankID)
+	}
 	if config.HBCIVersion > 0 {
 		version, err := config.hbciVersion()
 		if err != nil {
-- 
2.43.0


From 9b262068bc38b33c9b85d9453defa8b20a2d2ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 37/60] fix: client: reject negative HBCI versions instead of
 ignoring them

---
 client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 8fcd76d..c6d3afc 100644
--- a/client/client.go
+++ b/client/client.go
@@ -61,7 +61,7 @@ func New(config Config) (*Client, error) {
 	if url == "" {
 		return nil, fmt.Errorf("missing URL: no entry with a URL found for bank ID %q", config.BankID)
 	}
-	if config.HBCIVersion > 0 {
+	if config.HBCIVersion != 0 {
 		version, err := config.hbciVersion()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From ebb1d22bae7515ccecc75a41aacac16aa1190797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 38/60] fix: logging middleware: pass on errors reading request
 and response bodies

---
 transport/middleware/logging.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transport/middleware/logging.go b/transport/middleware/logging.go
index 4192be6..6639671 100644
--- a/transport/middleware/logging.go
+++ b/transport/middleware/logging.go
@@ -26,6 +26,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledRequest, err := io.ReadAll(io.TeeReader(req.Body, &buf))
 			if err != nil {
 				logger.Printf("Error reading request body: %v", err)
+				return nil, err
 			}
 			req.Body = io.NopCloser(&buf)
 			logger.Println("Decrypted Request:")
@@ -42,6 +43,7 @@ func Logging(logger *log.Logger, cryptoProvider message.CryptoProvider) transpor
 			marshaledResponse, err := io.ReadAll(io.TeeReader(res.Body, &responseBuf))
 			if err != nil {
 				logger.Printf("Error reading response body: %v", err)
+				return nil, err
 			}
 			res.Body = io.NopCloser(&responseBuf)
 			logger.Println("Decrypted Response:")
-- 
2.43.0


From 0fe0b62cc57ede39e8626fd13c2c62a0200b26c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 39/60] fix: https transport: report HTTP error statuses as
 errors

---
 transport/https/https.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transport/https/https.go b/transport/https/https.go
index f28aff2..f5869e8 100644
--- a/transport/https/https.go
+++ b/transport/https/https.go
@@ -3,6 +3,7 @@ package transport
 import (
 	"bytes"
 	"encoding/base64"
+	"fmt"
 	"io"
 	"net/http"
 
@@ -87,5 +88,9 @@ func (h *HTTPSTransport) Do(request *transport.Request) (*transport.Response, er
 	if err != nil {
 		return nil, err
 	}
+	if httpResponse.StatusCode != http.StatusOK {
+		httpResponse.Body.Close()
+		return nil, fmt.Errorf("unexpected HTTP status: %s", httpResponse.Status)
+	}
 	return &transport.Response{Body: httpResponse.Body, Request: request}, nil
 }
-- 
2.43.0


From 69e75a0b8d0d54712746b56bac6851990efcd069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 40/60] fix: split messages with texts that begin like a number
 with leading zeros

---
 token/lexer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/token/lexer.go b/token/lexer.go
index 4753ed3..831cd33 100644
--- a/token/lexer.go
+++ b/token/lexer.go
@@ -255,8 +255,13 @@ func lexDigit(l *Lexer) LexerStateFn {
 		return lexAlphaNumeric
 	}
 	l.acceptRun(digits)
-	if p := l.peek(); p == ',' {
-		return l.errorf("Malformed float")
+	if l.accept(',') {
+		l.acceptRun(digits)
+		// a text may begin like a float, e.g. "00,50 EUR"
+		if p := l.peek(); isDelimiter(p) {
+			return l.errorf("Malformed float")
+		}
+		return lexAlphaNumeric
 	}
 	if p := l.peek(); isDelimiter(p) {
 		l.emit(DIGIT)
-- 
2.43.0


From e2f4b09f2a2bd5e0bd743bfcc06ab2beac125460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 41/60] fix: keep the debit mark of a transaction without
 booking date

---
 swift/mt940.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swift/mt940.go b/swift/mt940.go
index af5d8ea..3270423 100644
--- a/swift/mt940.go
+++ b/swift/mt940.go
@@ -219,8 +219,8 @@ func (t *TransactionTag) Unmarshal(value []byte) error {
 	if err != nil {
 		return err
 	}
+	buf.UnreadRune()
 	if unicode.IsDigit(r) {
-		buf.UnreadRune()
 		dateBytes = buf.Next(4)
 		date, err = parseBookingDate(dateBytes, t.ValutaDate.Time)
 		if err != nil {
-- 
2.43.0


From 2a104f5849ec5ba52ce949f30d0691444a877bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 42/60] fix: accept line breaks anywhere in the text of a
 statement field

---
 token/swift_lexer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/token/swift_lexer.go b/token/swift_lexer.go
index 1dfa77f..7215d6e 100644
--- a/token/swift_lexer.go
+++ b/token/swift_lexer.go
@@ -92,7 +92,7 @@ func lexSwiftDigit(l *Lexer) LexerStateFn {
 	l.acceptRun(digits)
 	if l.accept(',') {
 		l.acceptRun(digits)
-		if p := l.peek(); p == carriageReturn {
+		if isTagBoundary(l) {
 			l.emit(SWIFT_DECIMAL)
 			return lexSwiftStart
 		}
@@ -113,6 +113,9 @@ func lexSwiftAlpha(l *Lexer) LexerStateFn {
 		return lexSwiftCharacter
 	case r == carriageReturn:
 		l.backup()
+		if !isTagBoundary(l) { // just a line break within the text
+			return lexSwiftAlphaNumeric
+		}
 		l.emit(SWIFT_ALPHA)
 		return lexSwiftStart
 	case r == eof:
@@ -132,6 +135,9 @@ func lexSwiftCharacter(l *Lexer) LexerStateFn {
 		return lexSwiftCharacter
 	case r == carriageReturn:
 		l.backup()
+		if !isTagBoundary(l) { // just a line break within the text
+			return lexSwiftAlphaNumeric
+		}
 		l.emit(SWIFT_CHARACTER)
 		return lexSwiftStart
 	case r == eof:
-- 
2.43.0


From 3080c3804b732b61e49a0fcc622a69fee3ca2037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 43/60] fix: read the compression methods of HIKPV instead of
 panicking

---
 element/bank_parameter_data.go | 19 +++++++++++++++++++
 element/data_element_type.go   |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index 8c2b692..b31a566 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -189,6 +189,25 @@ type SupportedCompressionMethodsDataElement struct {
 	*arrayElementGroup
 }
 
+// UnmarshalHBCI unmarshals the value into the
+// SupportedCompressionMethodsDataElement
+func (s *SupportedCompressionMethodsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := splitDataElements(value)
+	if err != nil {
+		return err
+	}
+	methods := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		method, err := strconv.Atoi(charset.ToUTF8(elem))
+		if err != nil {
+			return err
+		}
+		methods[i] = NewNumber(method, 3)
+	}
+	s.arrayElementGroup = newArrayElementGroup(supportedCompressionMethodDEG, 1, 9, methods)
+	return nil
+}
+
 // A BusinessTransactionParameter defines parameters for a specific business
 // transaction.
 type BusinessTransactionParameter struct {
diff --git a/element/data_element_type.go b/element/data_element_type.go
index 4fb9f88..0e4fc6f 100644
--- a/element/data_element_type.go
+++ b/element/data_element_type.go
@@ -57,6 +57,7 @@ const (
 	supportedHBCIVersionDEG
 	communicationParameterDEG
 	supportedSecurityMethodDEG
+	supportedCompressionMethodDEG
 	pinTanDEG
 	accountLimitDEG
 	allowedBusinessTransactionDEG
@@ -107,6 +108,7 @@ var typeName = map[DataElementType]string{
 	keyNameDEG:                            "Schlüsselname",
 	certificateDEG:                        "Zertifikat",
 	publicKeyDEG:                          "Öffentlicher Schlüssel",
+	supportedCompressionMethodDEG:         "Komprimierungsverfahren",
 	supportedLanguagesDEG:                 "Unterstützte Sprachen",
 	supportedHBCIVersionDEG:               "Unterstützte HBCI-Versionen",
 	communicationParameterDEG:             "Kommunikationsparameter",
-- 
2.43.0


From 57f14782eb3f86762b72a9b1a54b2cfb97b48502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 44/60] fix: read the security methods of HISHV instead of
 panicking

---
 element/bank_parameter_data.go                | 58 +++++++++++++++++--
 segment/supported_security_method.go          |  2 +-
 .../supported_security_method_unmarshaler.go  |  2 +-
 3 files changed, 56 insertions(+), 6 deletions(-)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index b31a566..b6481a0 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -44,8 +44,47 @@ func (s *SupportedSecurityMethodDataElement) GroupDataElements() []DataElement {
 
 // UnmarshalHBCI unmarshals the value to a SupportedSecurityMethodDataElement
 func (s *SupportedSecurityMethodDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	s.MethodCode = &AlphaNumericDataElement{}
+	if err := s.MethodCode.UnmarshalHBCI(elements[0]); err != nil {
+		return err
+	}
+	s.Versions = &SecurityMethodVersionsDataElement{}
+	if err := s.Versions.UnmarshalHBCI(bytes.Join(elements[1:], []byte(":"))); err != nil {
+		return err
+	}
 	s.DataElement = NewDataElementGroup(supportedSecurityMethodDEG, 2, s)
-	return s.DataElement.UnmarshalHBCI(value)
+	return nil
+}
+
+// SupportedSecurityMethodsDataElement represents the security methods
+// supported by the bank institute
+type SupportedSecurityMethodsDataElement struct {
+	*arrayElementGroup
+}
+
+// UnmarshalHBCI unmarshals the value to a SupportedSecurityMethodsDataElement
+func (s *SupportedSecurityMethodsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := splitDataElements(value)
+	if err != nil {
+		return err
+	}
+	methods := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		method := &SupportedSecurityMethodDataElement{}
+		if err := method.UnmarshalHBCI(elem); err != nil {
+			return err
+		}
+		methods[i] = method
+	}
+	s.arrayElementGroup = newArrayElementGroup(supportedSecurityMethodDEG, 1, 9, methods)
+	return nil
 }
 
 // NewSecurityMethodVersions returns a new SecurityMethodVersionsDataElement
@@ -72,9 +111,20 @@ func (s *SecurityMethodVersionsDataElement) Elements() []DataElement {
 
 // UnmarshalHBCI unmarshals the value to a SecurityMethodVersionsDataElement
 func (s *SecurityMethodVersionsDataElement) UnmarshalHBCI(value []byte) error {
-	dataElements := make([]DataElement, 9)
-	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, dataElements)
-	return s.arrayElementGroup.UnmarshalHBCI(value)
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	versions := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		version := &NumberDataElement{}
+		if err := version.UnmarshalHBCI(elem); err != nil {
+			return err
+		}
+		versions[i] = version
+	}
+	s.arrayElementGroup = newArrayElementGroup(securityMethodVersionGDEG, 1, 9, versions)
+	return nil
 }
 
 // Versions returns the possible versions packaged in a slice of
diff --git a/segment/supported_security_method.go b/segment/supported_security_method.go
index 68fa36f..4f0bd0e 100644
--- a/segment/supported_security_method.go
+++ b/segment/supported_security_method.go
@@ -7,7 +7,7 @@ import "github.com/mitch000001/go-hbci/element"
 type SecurityMethodSegment struct {
 	Segment
 	MixAllowed       *element.BooleanDataElement
-	SupportedMethods *element.SupportedSecurityMethodDataElement
+	SupportedMethods *element.SupportedSecurityMethodsDataElement
 }
 
 func (s *SecurityMethodSegment) Version() int         { return 2 }
diff --git a/segment/supported_security_method_unmarshaler.go b/segment/supported_security_method_unmarshaler.go
index b8028ec..4bfb19a 100644
--- a/segment/supported_security_method_unmarshaler.go
+++ b/segment/supported_security_method_unmarshaler.go
@@ -39,7 +39,7 @@ func (s *SecurityMethodSegment) UnmarshalHBCI(value []byte) error {
 		}
 	}
 	if len(elements) > 2 && len(elements[2]) > 0 {
-		s.SupportedMethods = &element.SupportedSecurityMethodDataElement{}
+		s.SupportedMethods = &element.SupportedSecurityMethodsDataElement{}
 		if len(elements)+1 > 2 {
 			err = s.SupportedMethods.UnmarshalHBCI(bytes.Join(elements[2:], []byte("+")))
 		} else {
-- 
2.43.0


From 879bf184929b9fa8d9fc1d7ce007702fe8306348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 45/60] fix: do not panic on an empty segment

---
 message/unmarshaler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/message/unmarshaler.go b/message/unmarshaler.go
index 82d531f..20e27bf 100644
--- a/message/unmarshaler.go
+++ b/message/unmarshaler.go
@@ -132,6 +132,9 @@ func extractVersionedSegmentIdentifier(segmentBytes []byte) (segment.VersionedSe
 	if err != nil {
 		return id, err
 	}
+	if len(elements) == 0 {
+		return id, fmt.Errorf("malformed segment: no elements extracted")
+	}
 	header := &element.SegmentHeader{}
 	err = header.UnmarshalHBCI(elements[0])
 	if err != nil {
@@ -146,6 +149,9 @@ func extractSegmentHeader(segmentBytes []byte) (*element.SegmentHeader, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(elements) == 0 {
+		return nil, fmt.Errorf("malformed segment: no elements extracted")
+	}
 	header := &element.SegmentHeader{}
 	err = header.UnmarshalHBCI(elements[0])
 	if err != nil {
-- 
2.43.0


From 324e5c146df2da5b757b7f5ff413a1356fb746e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 46/60] fix: do not panic on a HIPINS segment without
 parameters

---
 segment/pin_bpd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segment/pin_bpd.go b/segment/pin_bpd.go
index 851dc9a..10db545 100644
--- a/segment/pin_bpd.go
+++ b/segment/pin_bpd.go
@@ -46,6 +46,9 @@ func (t *PinTanBankParameterV1) elements() []element.DataElement {
 
 func (t *PinTanBankParameterV1) PinTanBusinessTransactions() []domain.PinTanBusinessTransaction {
 	var transactions []domain.PinTanBusinessTransaction
+	if t.PinTanSpecificParams == nil {
+		return transactions
+	}
 	for _, transactionDe := range t.PinTanSpecificParams.JobSpecificPinTanInformation.GroupDataElements() {
 		transactions = append(transactions, transactionDe.(*element.PinTanBusinessTransactionParameter).Val())
 	}
-- 
2.43.0


From f31614fcad674240b194012f73b295e143485100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 47/60] fix: do not panic on a HITANS segment without two-step
 parameters

---
 dialog/dialog.go | 6 +++++-
 element/tan.go   | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index fb47e99..16795e1 100644
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -523,7 +523,11 @@ func (d *dialog) supportedSecurityFunctionsFromBankMessage(message message.BankM
 		return nil, false
 	}
 	availableSecurityFns := map[string]*element.Tan2StepSubmissionProcessParameterV6{}
-	for _, pp := range rawSegment.(*segment.TanBankParameterV6).Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements() {
+	tanBankParameter, ok := rawSegment.(*segment.TanBankParameterV6)
+	if !ok || tanBankParameter.Tan2StepSubmissionParameter == nil {
+		return nil, false
+	}
+	for _, pp := range tanBankParameter.Tan2StepSubmissionParameter.ProcessParameters.GroupDataElements() {
 		tan2StepPP := pp.(*element.Tan2StepSubmissionProcessParameterV6)
 		fn := tan2StepPP.SecurityFunction.Val()
 		availableSecurityFns[fn] = tan2StepPP
diff --git a/element/tan.go b/element/tan.go
index 9209400..b2ba538 100644
--- a/element/tan.go
+++ b/element/tan.go
@@ -81,6 +81,9 @@ func (t *Tan2StepSubmissionParameterV6) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(elements) < 3 {
+		return fmt.Errorf("malformed marshaled value: less than 3 elements")
+	}
 	oneStepProcessAllowed := &BooleanDataElement{}
 	err = oneStepProcessAllowed.UnmarshalHBCI(elements[0])
 	if err != nil {
-- 
2.43.0


From c9caf0cd5f5017e5ab9a9e932522d372ad45daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 48/60] fix: do not panic on a status segment without
 acknowledgement

---
 element/acknowledgement.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/element/acknowledgement.go b/element/acknowledgement.go
index 58ea635..5a318cf 100644
--- a/element/acknowledgement.go
+++ b/element/acknowledgement.go
@@ -64,6 +64,9 @@ func (a *AcknowledgementDataElement) SetType(acknowledgementType string) {
 
 // Val returns the underlying value of the acknowledgement.
 func (a *AcknowledgementDataElement) Val() domain.Acknowledgement {
+	if a == nil {
+		return domain.Acknowledgement{}
+	}
 	return domain.Acknowledgement{
 		Code:                     a.Code.Val(),
 		ReferenceDataElement:     a.ReferenceDataElement.Val(),
-- 
2.43.0


From 54adbef2d2f1d02c0cf8f41d654bee00602f0889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 49/60] fix: the logging switches are safe for concurrent use

---
 internal/logger.go | 66 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 736035a..976d01c 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -5,41 +5,81 @@ import (
 	"io"
 	"log"
 	"os"
+	"strconv"
+	"sync/atomic"
 )
 
 func init() {
-	flag.BoolVar(&debugMode, "debug", false, "true")
+	flag.Var(&debugMode, "debug", "true")
 }
 
-var debugMode = false
-var infoMode = true
+// mode is a boolean flag which can be used from different goroutines
+type mode int32
+
+func newMode(on bool) mode {
+	if on {
+		return 1
+	}
+	return 0
+}
+
+func (m *mode) enabled() bool {
+	return atomic.LoadInt32((*int32)(m)) != 0
+}
+
+func (m *mode) set(on bool) {
+	atomic.StoreInt32((*int32)(m), int32(newMode(on)))
+}
+
+// Set implements flag.Value
+func (m *mode) Set(value string) error {
+	on, err := strconv.ParseBool(value)
+	if err != nil {
+		return err
+	}
+	m.set(on)
+	return nil
+}
+
+// String implements flag.Value
+func (m *mode) String() string {
+	return strconv.FormatBool(m.enabled())
+}
+
+// IsBoolFlag makes it possible to provide the flag without a value
+func (m *mode) IsBoolFlag() bool {
+	return true
+}
+
+var debugMode = newMode(false)
+var infoMode = newMode(true)
 var debugFlags = log.Lshortfile | log.LstdFlags
 
 // DebugMode returns true if debugMode is set, false otherwise
 func DebugMode() bool {
-	return debugMode
+	return debugMode.enabled()
 }
 
 // SetDebugMode sets the debug mode
 func SetDebugMode(debug bool) {
-	debugMode = debug
+	debugMode.set(debug)
 }
 
 // InfoLog returns true if logging to info level is enabled, false otherwise
 func InfoLog() bool {
-	return infoMode
+	return infoMode.enabled()
 }
 
 // SetInfoLog sets whether the info log should be enabled
 func SetInfoLog(info bool) {
-	infoMode = info
+	infoMode.set(info)
 }
 
 // WithDebugLogging enables debug logging for the given function fn
 func WithDebugLogging(fn func()) {
-	debugMode = true
+	debugMode.set(true)
 	fn()
-	debugMode = false
+	debugMode.set(false)
 }
 
 // Debug is a logger which logs when debugMode is enabled. If disabled, it executes a noop
@@ -48,22 +88,22 @@ var Debug = newConditionalLogger(os.Stderr, "go-hbci: ", debugFlags, &debugMode)
 // Info is a logger which logs when infoMode is enabled. If disabled, it executes a noop
 var Info = newConditionalLogger(os.Stderr, "go-hbci: ", log.LstdFlags, &infoMode)
 
-func newConditionalLogger(w io.Writer, prefix string, flag int, condition *bool) *log.Logger {
+func newConditionalLogger(w io.Writer, prefix string, flag int, condition *mode) *log.Logger {
 	condWriter := newConditionalWriter(w, condition)
 	return log.New(condWriter, prefix, flag)
 }
 
-func newConditionalWriter(w io.Writer, condition *bool) io.Writer {
+func newConditionalWriter(w io.Writer, condition *mode) io.Writer {
 	return &conditionalWriter{Writer: w, condition: condition}
 }
 
 type conditionalWriter struct {
-	condition *bool
+	condition *mode
 	io.Writer
 }
 
 func (c *conditionalWriter) Write(p []byte) (n int, err error) {
-	if *c.condition {
+	if c.condition.enabled() {
 		return c.Writer.Write(p)
 	}
 	return 0, nil
-- 
2.43.0


From 863596cdd0ccf6845e475cff8ee9693f2a406c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 50/60] fix: read the communication parameters of HIKOM instead
 of panicking

---
 element/communication_access.go             | 84 ++++++++++++++++++++-
 segment/communication_access.go             |  4 +-
 segment/communication_access_unmarshaler.go |  2 +-
 3 files changed, 86 insertions(+), 4 deletions(-)

diff --git a/element/communication_access.go b/element/communication_access.go
index f7c755a..fd8dcfa 100644
--- a/element/communication_access.go
+++ b/element/communication_access.go
@@ -1,6 +1,10 @@
 package element
 
-import "github.com/mitch000001/go-hbci/domain"
+import (
+	"fmt"
+
+	"github.com/mitch000001/go-hbci/domain"
+)
 
 // NewCommunicationParameter returns a new CommunicationParameterDataElement
 func NewCommunicationParameter(params domain.CommunicationParameter) *CommunicationParameterDataElement {
@@ -55,3 +59,81 @@ func (c *CommunicationParameterDataElement) GroupDataElements() []DataElement {
 		c.FilterFunctionVersion,
 	}
 }
+
+// UnmarshalHBCI unmarshals value into the DataElement
+func (c *CommunicationParameterDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	c.DataElement = NewDataElementGroup(communicationParameterDEG, 5, c)
+	if len(elements[0]) > 0 {
+		c.Protocol = &NumberDataElement{}
+		if err := c.Protocol.UnmarshalHBCI(elements[0]); err != nil {
+			return err
+		}
+	}
+	if len(elements[1]) > 0 {
+		c.Address = &AlphaNumericDataElement{}
+		if err := c.Address.UnmarshalHBCI(elements[1]); err != nil {
+			return err
+		}
+	}
+	if len(elements) > 2 && len(elements[2]) > 0 {
+		c.AddressAddition = &AlphaNumericDataElement{}
+		if err := c.AddressAddition.UnmarshalHBCI(elements[2]); err != nil {
+			return err
+		}
+	}
+	if len(elements) > 3 && len(elements[3]) > 0 {
+		c.FilterFunction = &AlphaNumericDataElement{}
+		if err := c.FilterFunction.UnmarshalHBCI(elements[3]); err != nil {
+			return err
+		}
+	}
+	if len(elements) > 4 && len(elements[4]) > 0 {
+		c.FilterFunctionVersion = &NumberDataElement{}
+		if err := c.FilterFunctionVersion.UnmarshalHBCI(elements[4]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// NewCommunicationParameters returns a new CommunicationParametersDataElement
+func NewCommunicationParameters(params ...domain.CommunicationParameter) *CommunicationParametersDataElement {
+	parameters := make([]DataElement, len(params))
+	for i, p := range params {
+		parameters[i] = NewCommunicationParameter(p)
+	}
+	return &CommunicationParametersDataElement{
+		arrayElementGroup: newArrayElementGroup(communicationParameterDEG, 1, 9, parameters),
+	}
+}
+
+// CommunicationParametersDataElement represents all the supported ways of
+// communicating with a HBCI server.
+type CommunicationParametersDataElement struct {
+	*arrayElementGroup
+}
+
+// UnmarshalHBCI unmarshals value into the DataElement
+func (c *CommunicationParametersDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := splitDataElements(value)
+	if err != nil {
+		return err
+	}
+	parameters := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		parameter := &CommunicationParameterDataElement{}
+		if err := parameter.UnmarshalHBCI(elem); err != nil {
+			return err
+		}
+		parameters[i] = parameter
+	}
+	c.arrayElementGroup = newArrayElementGroup(communicationParameterDEG, 1, 9, parameters)
+	return nil
+}
diff --git a/segment/communication_access.go b/segment/communication_access.go
index aeb57b0..7d22a00 100644
--- a/segment/communication_access.go
+++ b/segment/communication_access.go
@@ -46,7 +46,7 @@ func NewCommunicationAccessResponseSegment(bankId domain.BankID, language int, p
 	c := &CommunicationAccessResponseSegment{
 		BankID:              element.NewBankIdentification(bankId),
 		StandardLanguage:    element.NewNumber(language, 3),
-		CommunicationParams: element.NewCommunicationParameter(params),
+		CommunicationParams: element.NewCommunicationParameters(params),
 	}
 	header := element.NewReferencingSegmentHeader("HIKOM", 4, 3, HKKOMSegmentNumber)
 	c.Segment = NewBasicSegmentWithHeader(header, c)
@@ -59,7 +59,7 @@ type CommunicationAccessResponseSegment struct {
 	Segment
 	BankID              *element.BankIdentificationDataElement
 	StandardLanguage    *element.NumberDataElement
-	CommunicationParams *element.CommunicationParameterDataElement
+	CommunicationParams *element.CommunicationParametersDataElement
 }
 
 func (c *CommunicationAccessResponseSegment) Version() int         { return 3 }
diff --git a/segment/communication_access_unmarshaler.go b/segment/communication_access_unmarshaler.go
index ffd631a..f59018e 100644
--- a/segment/communication_access_unmarshaler.go
+++ b/segment/communication_access_unmarshaler.go
@@ -46,7 +46,7 @@ func (c *CommunicationAccessResponseSegment) UnmarshalHBCI(value []byte) error {
 		}
 	}
 	if len(elements) > 3 && len(elements[3]) > 0 {
-		c.CommunicationParams = &element.CommunicationParameterDataElement{}
+		c.CommunicationParams = &element.CommunicationParametersDataElement{}
 		if len(elements)+1 > 3 {
 			err = c.CommunicationParams.UnmarshalHBCI(bytes.Join(elements[3:], []byte("+")))
 		} else {
-- 
2.43.0


From c0fc60bdd7a4df301f54c4847ee1d3043e70394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 51/60] fix: read the certificate of signature and encryption
 headers instead of panicking

---
 element/signature.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/element/signature.go b/element/signature.go
index d15c8f7..f668287 100644
--- a/element/signature.go
+++ b/element/signature.go
@@ -430,3 +430,21 @@ func (c *CertificateDataElement) GroupDataElements() []DataElement {
 		c.Content,
 	}
 }
+
+// UnmarshalHBCI unmarshals value into the DataElement
+func (c *CertificateDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	if len(elements) < 2 {
+		return fmt.Errorf("malformed marshaled value")
+	}
+	c.DataElement = NewDataElementGroup(certificateDEG, 2, c)
+	c.CertificateType = &NumberDataElement{}
+	if err := c.CertificateType.UnmarshalHBCI(elements[0]); err != nil {
+		return err
+	}
+	c.Content = &BinaryDataElement{}
+	return c.Content.UnmarshalHBCI(elements[1])
+}
-- 
2.43.0


From 5ef9b0f7ecd63f37737b75dc64dbcd18a02b5a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 52/60] fix: read the custom signature of a signature end
 instead of panicking

---
 element/pin.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/element/pin.go b/element/pin.go
index bd837e4..da92d6a 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -30,6 +30,12 @@ type CustomSignatureDataElement struct {
 	*PinTanDataElement
 }
 
+// UnmarshalHBCI unmarshals value into the DataElement
+func (c *CustomSignatureDataElement) UnmarshalHBCI(value []byte) error {
+	c.PinTanDataElement = &PinTanDataElement{}
+	return c.PinTanDataElement.UnmarshalHBCI(value)
+}
+
 // NewPinTan returns a new PinTanDataElement for pin and tan
 func NewPinTan(pin, tan string) *PinTanDataElement {
 	p := &PinTanDataElement{
-- 
2.43.0


From ab7c382bad948ac8f2a1b33f1bb062306e848e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 53/60] fix: read the eligible persons of HIKIF instead of
 panicking

---
 element/account.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/element/account.go b/element/account.go
index ef118f5..ebedd87 100644
--- a/element/account.go
+++ b/element/account.go
@@ -5,7 +5,43 @@ type DisposalEligiblePersonsDataElement struct {
 	DataElement
 }
 
+// UnmarshalHBCI unmarshals value into the DataElement
+func (d *DisposalEligiblePersonsDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := splitDataElements(value)
+	if err != nil {
+		return err
+	}
+	persons := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		person := &DisposalEligiblePersonDataElement{}
+		if err := person.UnmarshalHBCI(elem); err != nil {
+			return err
+		}
+		persons[i] = person
+	}
+	d.DataElement = newArrayElementGroup(disposalEligiblePersonDEG, len(persons), len(persons), persons)
+	return nil
+}
+
 // DisposalEligiblePersonDataElement represents a DataElement
 type DisposalEligiblePersonDataElement struct {
 	DataElement
 }
+
+// UnmarshalHBCI unmarshals value into the DataElement
+func (d *DisposalEligiblePersonDataElement) UnmarshalHBCI(value []byte) error {
+	elements, err := ExtractElements(value)
+	if err != nil {
+		return err
+	}
+	properties := make([]DataElement, len(elements))
+	for i, elem := range elements {
+		property := &AlphaNumericDataElement{}
+		if err := property.UnmarshalHBCI(elem); err != nil {
+			return err
+		}
+		properties[i] = property
+	}
+	d.DataElement = newArrayElementGroup(disposalEligiblePersonDEG, len(properties), len(properties), properties)
+	return nil
+}
-- 
2.43.0


From 5a83502d06acb87bc6328a28a06824942f3e1181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 54/60] fix: read a PIN without a TAN

---
 element/pin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element/pin.go b/element/pin.go
index da92d6a..a8879ee 100644
--- a/element/pin.go
+++ b/element/pin.go
@@ -70,7 +70,7 @@ func (p *PinTanDataElement) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	if len(elements) < 2 {
+	if len(elements) < 1 {
 		return fmt.Errorf("malformed marshaled value")
 	}
 	p.DataElement = NewDataElementGroup(securityIdentificationDEG, 3, p)
-- 
2.43.0


From 0abb48e7597ada756c78742a5c91a91e74619ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 55/60] fix: unescape the segment ID of PIN/TAN business
 transaction parameters

---
 element/bank_parameter_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element/bank_parameter_data.go b/element/bank_parameter_data.go
index b6481a0..cbfcd53 100644
--- a/element/bank_parameter_data.go
+++ b/element/bank_parameter_data.go
@@ -358,7 +358,7 @@ func (p *PinTanBusinessTransactionParameter) UnmarshalHBCI(value []byte) error {
 	if err != nil {
 		return err
 	}
-	p.SegmentID = NewAlphaNumeric(charset.ToUTF8(elements[0]), 6)
+	p.SegmentID = NewAlphaNumeric(decodeText(elements[0]), 6)
 	needsTan := &BooleanDataElement{}
 	err = needsTan.UnmarshalHBCI(elements[1])
 	if err != nil {
-- 
2.43.0


From 8067f38b68c81b531590afb1f1a352b0e60a0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:23 +0000
Subject: [PATCH 56/60] fix: keep the values when reading an encryption
 algorithm

---
 element/encryption.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/element/encryption.go b/element/encryption.go
index 9b74f98..75df9b0 100644
--- a/element/encryption.go
+++ b/element/encryption.go
@@ -64,15 +64,14 @@ func (e *EncryptionAlgorithmDataElement) GroupDataElements() []DataElement {
 
 // UnmarshalHBCI unmarshals value into the DataElement
 func (e *EncryptionAlgorithmDataElement) UnmarshalHBCI(value []byte) error {
-	e = &EncryptionAlgorithmDataElement{}
 	elements, err := ExtractElements(value)
 	if err != nil {
 		return err
 	}
-	if len(elements) < 7 {
+	if len(elements) < 6 {
 		return fmt.Errorf("malformed marshaled value")
 	}
-	e.DataElement = NewDataElementGroup(encryptionAlgorithmDEG, 5, e)
+	e.DataElement = NewDataElementGroup(encryptionAlgorithmDEG, 7, e)
 	e.Usage = &AlphaNumericDataElement{}
 	err = e.Usage.UnmarshalHBCI(elements[0])
 	if err != nil {
-- 
2.43.0


From d403d6f9d80b0044b1662f1426dc1eef4a002031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:27 +0000
Subject: [PATCH 57/60] fix: read the zero date back from JSON

---
 domain/time.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/time.go b/domain/time.go
index 8eead6f..9bebeb7 100644
--- a/domain/time.go
+++ b/domain/time.go
@@ -35,6 +35,10 @@ func (s *ShortDate) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON unmarshals the JSON representation into a date
 func (s *ShortDate) UnmarshalJSON(data []byte) error {
 	unquotedData, _ := strconv.Unquote(string(data))
+	if string(data) == `""` {
+		*s = ShortDate{}
+		return nil
+	}
 	time, err := time.Parse("2006-01-02", unquotedData)
 	s.Time = time
 	return err
-- 
2.43.0


From cd96b358e7054cb67ea735591f16187d497bfea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 58/60] fix: skip bank directory rows whose bank number is
 blank

---
 bankinfo/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bankinfo/parser.go b/bankinfo/parser.go
index 11d214d..181fb8c 100644
--- a/bankinfo/parser.go
+++ b/bankinfo/parser.go
@@ -40,7 +40,7 @@ func ParseBankInfos(reader io.Reader) ([]BankInfo, error) {
 	}
 	var bankInfos []BankInfo
 	for _, record := range records {
-		if record.Get(bankIdentifierHeader) == "" {
+		if strings.TrimSpace(record.Get(bankIdentifierHeader)) == "" {
 			internal.Debug.Printf("No BankIdentifier found for record:\n%#v\n", record.AsMap())
 			continue
 		}
@@ -73,7 +73,7 @@ func ParseBicData(reader io.Reader) ([]BicInfo, error) {
 	}
 	var bicInfos []BicInfo
 	for _, record := range records {
-		if record.Get(bicBankIdentifier) == "" {
+		if strings.TrimSpace(record.Get(bicBankIdentifier)) == "" {
 			internal.Debug.Printf("No BankIdentifier found for record:\n%#v\n", record.AsMap())
 			continue
 		}
-- 
2.43.0


From bfe4280e444bbd0e49fb2f3628565ac7a793cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 59/60] fix: quote all values in the generated bank data

---
 cmd/bankdata_parser/bankdata_parser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/bankdata_parser/bankdata_parser.go b/cmd/bankdata_parser/bankdata_parser.go
index 684415f..696e699 100644
--- a/cmd/bankdata_parser/bankdata_parser.go
+++ b/cmd/bankdata_parser/bankdata_parser.go
@@ -81,14 +81,14 @@ package bankinfo
 
 var data = []BankInfo{
 	{{range $element := .}}{
-		BankID: "{{.BankID}}",
-		BIC: "{{.BIC}}",
-		VersionNumber: "{{.VersionNumber}}",
-		URL: "{{.URL}}",
-		VersionName: "{{.VersionName}}",
+		BankID: {{.BankID | printf "%q" }},
+		BIC: {{.BIC | printf "%q" }},
+		VersionNumber: {{.VersionNumber | printf "%q" }},
+		URL: {{.URL | printf "%q" }},
+		VersionName: {{.VersionName | printf "%q" }},
 		Institute: {{.Institute | printf "%q" }},
-		City: "{{.City}}",
-		LastChanged: "{{.LastChanged}}",
+		City: {{.City | printf "%q" }},
+		LastChanged: {{.LastChanged | printf "%q" }},
 	},
 	{{end}}
 }`
-- 
2.43.0


From f159d667255e37fa1d90617d8bf8ce3217608e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:45 +0000
Subject: [PATCH 60/60] fix: report a statement that breaks off within a tag
 instead of dropping it

---
 swift/message_extractor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/swift/message_extractor.go b/swift/message_extractor.go
index ad9bf44..b1e7ba5 100644
--- a/swift/message_extractor.go
+++ b/swift/message_extractor.go
@@ -37,6 +37,13 @@ func (m *MessageExtractor) Extract() ([][]byte, error) {
 			current = []byte{}
 		}
 	}
+	if len(current) != 0 {
+		// the input breaks off within a message
+		return nil, &SyntaxError{
+			Token:      token.New(token.ERROR, []byte("unexpected end of input"), len(m.rawSwiftMessage)),
+			RawMessage: m.rawSwiftMessage,
+		}
+	}
 	result := make([][]byte, len(m.extractedMessages))
 	copy(result, m.extractedMessages)
 	return result, nil
-- 
2.43.0

