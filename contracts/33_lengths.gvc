# Possible lengths.
# Well-formed metadata: every territory has every description; length lists ascend; -1 stands alone ("no such numbers");
# the general description has lengths. (Assumed of installed metadata; the companion checks it of the embedded one.)
define sorted32(v) = forall i in 0..len(v): forall j in 0..i: v[j] <= v[i]
meminv{C08} F:metadata.PhoneNumberDesc.PossibleLength : sorted32(v) && (len(v) > 1 ==> v[0] > 0) && (len(v) == 1 ==> v[0] > 0 || v[0] == -1)
meminv{C08} F:metadata.PhoneMetadata.GeneralDesc : v != nil && len(v.PossibleLength) > 0 && v.PossibleLength[0] > 0
meminv{C08} F:metadata.PhoneMetadata.FixedLine : v != nil
meminv{C08} F:metadata.PhoneMetadata.Mobile : v != nil
define has32(s, x) = exists i in 0..len(s): s[i] == x

# probe is an arbitrary length: what is proved about it holds for every length.
ghost probe() int
define below(s, x) = forall i in 0..len(s): x < s[i]
define above(s, x) = forall i in 0..len(s): x > s[i]
func phonenumbers.mergeLengths(l1, l2) (r)
  ensures len(r) == len(l1) + len(l2)
  ensures sorted32(l1) && sorted32(l2) ==> sorted32(r)
  ensures below(l1, 0) && below(l2, 0) ==> below(r, 0)
  ensures has32(r, probe()) == (has32(l1, probe()) || has32(l2, probe()))
  ensures below(r, probe()) == (below(l1, probe()) && below(l2, probe()))
  ensures above(r, probe()) == (above(l1, probe()) && above(l2, probe()))
  loop i:int, a:int, b:int | a + b == i
  loop m:[]int32!, i:int, a:int, b:int | a + b == i && a <= len(l1) && b <= len(l2) && (sorted32(l1) && sorted32(l2) ==> (i > 0 && a < len(l1) ==> m[i-1] <= l1[a]) && (i > 0 && b < len(l2) ==> m[i-1] <= l2[b]) && sorted32(m[:i])) && (below(l1, 0) && below(l2, 0) ==> below(m[:i], 0)) && has32(m[:i], probe()) == (has32(l1[:a], probe()) || has32(l2[:b], probe())) && below(m[:i], probe()) == (below(l1[:a], probe()) && below(l2[:b], probe())) && above(m[:i], probe()) == (above(l1[:a], probe()) && above(l2[:b], probe()))

define descOf(m, t) = if t == PREMIUM_RATE then m.PremiumRate else (if t == TOLL_FREE then m.TollFree else (if t == MOBILE then m.Mobile else (if t == FIXED_LINE || t == FIXED_LINE_OR_MOBILE then m.FixedLine else (if t == SHARED_COST then m.SharedCost else (if t == VOIP then m.Voip else (if t == PERSONAL_NUMBER then m.PersonalNumber else (if t == PAGER then m.Pager else (if t == UAN then m.Uan else (if t == VOICEMAIL then m.Voicemail else m.GeneralDesc)))))))))
func phonenumbers.getNumberDescByType(metadata, typ) (r)
  ensures metadata != nil ==> r == descOf(metadata, typ)
  ensures metadata == nil ==> r == nil
define own(m, d) = if len(d.PossibleLength) == 0 then m.GeneralDesc.PossibleLength else d.PossibleLength
define noData(d) = len(d.PossibleLength) == 1 && d.PossibleLength[0] == -1
define isFLM(m, t) = t == FIXED_LINE_OR_MOBILE && !noData(m.FixedLine) && !noData(m.Mobile)
define effType(m, t) = if t == FIXED_LINE_OR_MOBILE && noData(m.FixedLine) then MOBILE else t
define effDesc(m, t) = descOf(m, effType(m, t))
define noLengths(m, t) = noData(effDesc(m, t))
define localLen(m, t, n) = has32(effDesc(m, t).PossibleLengthLocalOnly, n) || isFLM(m, t) && has32(m.Mobile.PossibleLengthLocalOnly, n)
define possLen(m, t, n) = has32(own(m, effDesc(m, t)), n) || isFLM(m, t) && has32(own(m, m.Mobile), n)
define belowAll(m, t, n) = below(own(m, effDesc(m, t)), n) && (isFLM(m, t) ==> below(own(m, m.Mobile), n))
define aboveAll(m, t, n) = above(own(m, effDesc(m, t)), n) && (isFLM(m, t) ==> above(own(m, m.Mobile), n))
meminv{C08} F:metadata.PhoneMetadata.PremiumRate : v != nil
meminv{C08} F:metadata.PhoneMetadata.TollFree : v != nil
meminv{C08} F:metadata.PhoneMetadata.SharedCost : v != nil
meminv{C08} F:metadata.PhoneMetadata.Voip : v != nil
meminv{C08} F:metadata.PhoneMetadata.PersonalNumber : v != nil
meminv{C08} F:metadata.PhoneMetadata.Pager : v != nil
meminv{C08} F:metadata.PhoneMetadata.Uan : v != nil
meminv{C08} F:metadata.PhoneMetadata.Voicemail : v != nil
func phonenumbers.testNumberLength(number, metadata, numberType) (r)
  pure
  choose{C08} probe = len(number)
  requires{C08} metadata != nil && len(number) < 2147483648
  ensures{C08} noLengths(metadata, numberType) ==> r == INVALID_LENGTH
  ensures{C08} !noLengths(metadata, numberType) && localLen(metadata, numberType, len(number)) ==> r == IS_POSSIBLE_LOCAL_ONLY
  ensures{C08} !noLengths(metadata, numberType) && !localLen(metadata, numberType, len(number)) && possLen(metadata, numberType, len(number)) ==> r == IS_POSSIBLE
  ensures{C08} !noLengths(metadata, numberType) && !localLen(metadata, numberType, len(number)) && belowAll(metadata, numberType, len(number)) ==> r == TOO_SHORT
  ensures{C08} !noLengths(metadata, numberType) && !localLen(metadata, numberType, len(number)) && aboveAll(metadata, numberType, len(number)) ==> r == TOO_LONG
  ensures{C08} !noLengths(metadata, numberType) && !localLen(metadata, numberType, len(number)) && !possLen(metadata, numberType, len(number)) && !belowAll(metadata, numberType, len(number)) && !aboveAll(metadata, numberType, len(number)) ==> r == INVALID_LENGTH
  split{C08} numberType == FIXED_LINE_OR_MOBILE
  split{C08} noData(metadata.FixedLine)
  split{C08} noData(metadata.Mobile)
  split{C08} len(metadata.FixedLine.PossibleLength) == 0
  split{C08} len(metadata.Mobile.PossibleLength) == 0
  loop l:[]int32, i:int | forall j in 0..i: l[j] != len(number)
define possibleBy(n, t) = if !knownCC(fCC(n)) then INVALID_COUNTRY_CODE else testNumberLength(nsn(n), homeMD(n), t)
define noPattern(m) = m == nil || len(sOf(m.GeneralDesc.NationalNumberPattern)) == 0
define possible(n) = if !knownCC(fCC(n)) then INVALID_COUNTRY_CODE else (if noPattern(homeMD(n)) then (if len(nsn(n)) < 2 then TOO_SHORT else (if len(nsn(n)) > 17 then TOO_LONG else IS_POSSIBLE)) else testNumberLength(nsn(n), homeMD(n), UNKNOWN))
func phonenumbers.IsPossibleNumberWithReason(number) (r)
  top C08
  pure
  ensures{C08} r == possible(number)
func phonenumbers.IsPossibleNumber(number) (r)
  top C08
  ensures{C08} r == (possible(number) == IS_POSSIBLE || possible(number) == IS_POSSIBLE_LOCAL_ONLY)
func phonenumbers.IsPossibleNumberForTypeWithReason(number, numberType) (r)
  top C08
  requires{C08} knownCC(fCC(number)) ==> homeMD(number) != nil
  ensures{C08} r == possibleBy(number, numberType)
func phonenumbers.IsPossibleNumberForType(number, numberType) (r)
  top C08
  requires{C08} knownCC(fCC(number)) ==> homeMD(number) != nil
  ensures{C08} r == (possibleBy(number, numberType) == IS_POSSIBLE || possibleBy(number, numberType) == IS_POSSIBLE_LOCAL_ONLY)
