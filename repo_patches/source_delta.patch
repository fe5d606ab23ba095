From 2960646a5a41068302a53844f2b42602fae47c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:40 +0000
Subject: [PATCH 1/3] fix: analyse text that starts with a phone-context
 parameter like any other

A phone-context at the very start of the text was validated and then
ignored, so a number was picked out of its value or of the parameters
that follow it (";phone-context=abc.com;x=2025550123" parsed as a US
number).
---
 phonenumberutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 621e61c..fb9d622 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -2897,7 +2897,7 @@ func buildNationalNumberForParsing(
 	if indexOfPhoneContext >= 0 && !isPhoneContextValid(phoneContext) {
 		return ErrNotANumber
 	}
-	if indexOfPhoneContext > 0 {
+	if indexOfPhoneContext >= 0 {
 		// If the phone context contains a phone number prefix, we need to capture it, whereas domains
 		// will be ignored.
 		if phoneContext[0] == plusSign {
-- 
2.43.0


From 697bc9680d57876b81d89be57224976f47625d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:40 +0000
Subject: [PATCH 2/3] fix: clear a reused PhoneNumber before parsing into it

ParseToNumber and ParseAndKeepRawInputToNumber left the extension, the
raw input, the carrier code and the count of leading zeros of an earlier
parse in place, so for example +39 0236618300 parsed into a number that
held +39 00236618300 kept both zeros.
---
 phonenumberutil.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index fb9d622..2718120 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -2750,6 +2750,9 @@ func parseHelper(
 		return ErrInvalidCountryCode
 	}
 
+	// The caller may be reusing a number filled in by an earlier parse.
+	phoneNumber.Reset()
+
 	if keepRawInput {
 		phoneNumber.RawInput = proto.String(numberToParse)
 	}
-- 
2.43.0


From 9b5b415ec0e940a02ad4d9af3b7f0c06befc26c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:34 +0000
Subject: [PATCH 3/3] fix: count the digits of large prefixes exactly

digitCount rounded log10, so keys such as 1000000000000000 or 9999999999999999 got a maximum length one digit too short or too long.
---
 internal/serialize/serialize.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/internal/serialize/serialize.go b/internal/serialize/serialize.go
index a9505e9..b0789a7 100644
--- a/internal/serialize/serialize.go
+++ b/internal/serialize/serialize.go
@@ -8,7 +8,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"math"
 	"strings"
 )
 
@@ -85,15 +84,11 @@ func LoadPrefixMap(data []byte) (*IntStringMap, error) {
 }
 
 func digitCount(n int) int {
-	if n == 0 {
-		return 1 // Special case for 0
+	count := 1
+	for n /= 10; n != 0; n /= 10 {
+		count++
 	}
-
-	if n < 0 {
-		n = -n // Handle negative numbers
-	}
-
-	return int(math.Floor(math.Log10(float64(n)))) + 1
+	return count
 }
 
 // IntStringArrayMap is our map from an int to an array of strings; this is used
-- 
2.43.0

