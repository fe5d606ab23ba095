# Short numbers.
define shortMD(g) = phonenumbers.shortNumberRegionToMetadataMap[g]
define natPat(d) = if d == nil || d.NationalNumberPattern == nil then "" else *d.NationalNumberPattern
define natMatch(s, d, lead) = natPat(d) != "" && rematch(natPat(d), s) && restart(natPat(d), s) == 0 && (lead || rematch(strict(natPat(d)), s))
define hasLen(d, n) = exists i in 0..len(d.PossibleLength): d.PossibleLength[i] == n
define fits(s, d) = d != nil && (len(d.PossibleLength) == 0 || hasLen(d, len(s))) && natMatch(s, d, false)
define dialsFrom(n, g) = exists i in 0..len(ccRegions()[fCC(n)]): ccRegions()[fCC(n)][i] == g
define possibleShort(n, g) = dialsFrom(n, g) && shortMD(g) != nil && hasLen(shortMD(g).GeneralDesc, len(nsn(n)))
define validShort(n, g) = dialsFrom(n, g) && shortMD(g) != nil && fits(nsn(n), shortMD(g).GeneralDesc) && fits(nsn(n), shortMD(g).ShortCode)
func metadata.PhoneNumberDesc.HasPossibleLength(pd, length) (r)
  pure
  ensures r == hasLen(pd, length)
  loop i:int | forall j in 0..i: pd.PossibleLength[j] != length
func regexbasedmatcher.MatchNationalNumber(number, numberDesc, allowPrefixMatch) (r)
  pure
  ensures r == natMatch(number, numberDesc, allowPrefixMatch)
func phonenumbers.matchesPossibleNumberAndNationalNumber(number, numberDesc) (r)
  pure
  ensures len(number) < 2147483648 ==> r == fits(number, numberDesc)
func phonenumbers.regionDialingFromMatchesNumber(number, regionDialingFrom) (r)
  ensures r == dialsFrom(number, regionDialingFrom)
  loop i:int | forall j in 0..i: ccRegions()[fCC(number)][j] != regionDialingFrom
func phonenumbers.IsPossibleShortNumberForRegion(number, regionDialingFrom) (r)
  top C18
  ensures r == possibleShort(number, regionDialingFrom)
func phonenumbers.IsValidShortNumberForRegion(number, regionDialingFrom) (r)
  top C18
  assumes shortMD(regionDialingFrom) != nil ==> shortMD(regionDialingFrom).GeneralDesc != nil && len(shortMD(regionDialingFrom).GeneralDesc.PossibleLength) > 0
  ensures r == validShort(number, regionDialingFrom)
  ensures r ==> possibleShort(number, regionDialingFrom)
define hasShortLen(n, g) = shortMD(g) != nil && metadata.PhoneNumberDesc.HasPossibleLength((if shortMD(g) == nil then nil else shortMD(g).GeneralDesc), int32(len(nsn(n))))
func phonenumbers.IsPossibleShortNumber(number) (r)
  top C18
  ensures r == (exists i in 0..len(ccRegions()[fCC(number)]): hasShortLen(number, ccRegions()[fCC(number)][i]))
  loop i:int | forall j in 0..i: !hasShortLen(number, ccRegions()[fCC(number)][j])
define hasCode(n, g) = shortMD(g) != nil && phonenumbers.matchesPossibleNumberAndNationalNumber(nsn(n), (if shortMD(g) == nil then nil else shortMD(g).ShortCode))
func phonenumbers.getRegionCodeForShortNumberFromRegionList(number, regionCodes) (r)
  pure
  ensures len(regionCodes) == 0 ==> r == ""
  ensures len(regionCodes) == 1 ==> r == regionCodes[0]
  ensures len(regionCodes) > 1 && r != "" ==> exists i in 0..len(regionCodes): regionCodes[i] == r && hasCode(number, r)
  ensures len(regionCodes) > 1 && r == "" ==> (forall i in 0..len(regionCodes): !hasCode(number, regionCodes[i])) || (exists i in 0..len(regionCodes): regionCodes[i] == "")
  loop i:int | forall j in 0..i: !hasCode(number, regionCodes[j])
func phonenumbers.IsValidShortNumber(number) (r)
  top C18
  ensures len(ccRegions()[fCC(number)]) == 0 ==> !r
  ensures len(ccRegions()[fCC(number)]) == 1 ==> r == validShort(number, ccRegions()[fCC(number)][0])
  ensures len(ccRegions()[fCC(number)]) > 1 && r ==> (exists i in 0..len(ccRegions()[fCC(number)]): hasCode(number, ccRegions()[fCC(number)][i])) || (exists i in 0..len(ccRegions()[fCC(number)]): ccRegions()[fCC(number)][i] == "")
  ensures len(ccRegions()[fCC(number)]) > 1 && !r ==> (forall i in 0..len(ccRegions()[fCC(number)]): !hasCode(number, ccRegions()[fCC(number)][i])) || (exists i in 0..len(ccRegions()[fCC(number)]): ccRegions()[fCC(number)][i] == "")
func phonenumbers.extractPossibleNumber(number) (r)
  pure
func phonenumbers.NormalizeDigitsOnly(number) (r)
  pure
define exactEmergency(g) = g == "BR" || g == "CL" || g == "NI"
define emergencyMatch(s, g, lead) = let p = phonenumbers.extractPossibleNumber(s) in !rematch(pat(plusCharsPattern), p) && shortMD(g) != nil && shortMD(g).Emergency != nil && natMatch(phonenumbers.NormalizeDigitsOnly(p), shortMD(g).Emergency, lead && !exactEmergency(g))
func phonenumbers.matchesEmergencyNumber(number, regionCode, allowPrefixMatch) (r)
  ensures r == emergencyMatch(number, regionCode, allowPrefixMatch)
func phonenumbers.IsEmergencyNumber(number, regionCode) (r)
  top C18
  ensures r == emergencyMatch(number, regionCode, false)
  ensures r ==> emergencyMatch(number, regionCode, true)
func phonenumbers.ConnectsToEmergencyNumber(number, regionCode) (r)
  top C18
  ensures r == emergencyMatch(number, regionCode, true)
  ensures r ==> !rematch(pat(plusCharsPattern), phonenumbers.extractPossibleNumber(number))
define costFor(n, g) = if !dialsFrom(n, g) || shortMD(g) == nil || !hasLen(shortMD(g).GeneralDesc, len(nsn(n))) then UNKNOWN_COST else (if fits(nsn(n), shortMD(g).PremiumRate) then PREMIUM_RATE_COST else (if fits(nsn(n), shortMD(g).StandardRate) then STANDARD_RATE_COST else (if fits(nsn(n), shortMD(g).TollFree) || emergencyMatch(nsn(n), g, false) then TOLL_FREE_COST else UNKNOWN_COST)))
func phonenumbers.GetExpectedCostForRegion(number, regionDialingFrom) (r)
  top C18
  pure
  ensures r == costFor(number, regionDialingFrom)
  ensures r == UNKNOWN_COST || r == PREMIUM_RATE_COST || r == STANDARD_RATE_COST || r == TOLL_FREE_COST
define anyCost(n, c) = exists i in 0..len(ccRegions()[fCC(n)]): GetExpectedCostForRegion(n, ccRegions()[fCC(n)][i]) == c
func phonenumbers.GetExpectedCost(number) (r)
  top C18
  ensures r == if len(ccRegions()[fCC(number)]) == 0 then UNKNOWN_COST else (if anyCost(number, PREMIUM_RATE_COST) then PREMIUM_RATE_COST else (if anyCost(number, UNKNOWN_COST) then UNKNOWN_COST else (if anyCost(number, STANDARD_RATE_COST) then STANDARD_RATE_COST else TOLL_FREE_COST)))
  loop c:phonenumbers.ShortNumberCost, i:int | (forall j in 0..i: GetExpectedCostForRegion(number, ccRegions()[fCC(number)][j]) != PREMIUM_RATE_COST) && (c == UNKNOWN_COST || c == STANDARD_RATE_COST || c == TOLL_FREE_COST) && ((c == UNKNOWN_COST) == (exists j in 0..i: GetExpectedCostForRegion(number, ccRegions()[fCC(number)][j]) == UNKNOWN_COST)) && (c == STANDARD_RATE_COST ==> (exists j in 0..i: GetExpectedCostForRegion(number, ccRegions()[fCC(number)][j]) == STANDARD_RATE_COST)) && (c == TOLL_FREE_COST ==> (forall j in 0..i: GetExpectedCostForRegion(number, ccRegions()[fCC(number)][j]) != STANDARD_RATE_COST))
