# Number types, validity, region.
define lenOK(d, s) = len(d.PossibleLength) == 0 || (exists i in 0..len(d.PossibleLength): d.PossibleLength[i] == len(s))
define descPat(d) = strict(sOf(d.NationalNumberPattern))
func phonenumbers.isNumberPossibleForDesc(nationalNumber, numberDesc) (r)
  pure
  ensures numberDesc != nil && len(nationalNumber) < 2147483648 ==> r == (lenOK(numberDesc, nationalNumber) && rematch(descPat(numberDesc), nationalNumber))
  loop i:int | forall j in 0..i: numberDesc.PossibleLength[j] != len(nationalNumber)
func phonenumbers.isNumberMatchingDesc(nationalNumber, numberDesc) (r)
  pure
  ensures numberDesc != nil && len(nationalNumber) < 2147483648 ==> r == (lenOK(numberDesc, nationalNumber) && rematch(descPat(numberDesc), nationalNumber))
define D(s, d) = isNumberMatchingDesc(s, d)
define same(m) = if m.SameMobileAndFixedLinePattern == nil then false else *m.SameMobileAndFixedLinePattern
define fixedType(s, m) = if D(s, m.FixedLine) then (if same(m) || D(s, m.Mobile) then FIXED_LINE_OR_MOBILE else FIXED_LINE) else (if !same(m) && D(s, m.Mobile) then MOBILE else UNKNOWN)
define typeOf(s, m) = if !D(s, m.GeneralDesc) then UNKNOWN else (if D(s, m.PremiumRate) then PREMIUM_RATE else (if D(s, m.TollFree) then TOLL_FREE else (if D(s, m.SharedCost) then SHARED_COST else (if D(s, m.Voip) then VOIP else (if D(s, m.PersonalNumber) then PERSONAL_NUMBER else (if D(s, m.Pager) then PAGER else (if D(s, m.Uan) then UAN else (if D(s, m.Voicemail) then VOICEMAIL else fixedType(s, m)))))))))
func phonenumbers.getNumberTypeHelper(nationalNumber, metadata) (r)
  pure
  ensures{C09} metadata != nil ==> r == typeOf(nationalNumber, metadata)
define hasLead(m) = m != nil && len(sOf(m.LeadingDigits)) > 0
define lead(m) = "^(?:" ++ sOf(m.LeadingDigits) ++ ")"
define inRegion(s, g) = if hasLead(regionMD(g)) then rematch(lead(regionMD(g)), s) else getNumberTypeHelper(s, regionMD(g)) != UNKNOWN
func phonenumbers.getRegionCodeForNumberFromRegionList(number, regionCodes) (r)
  pure
  ensures{C09} r == "" ==> (exists i in 0..len(regionCodes): regionCodes[i] == "") || (forall i in 0..len(regionCodes): !inRegion(nsn(number), regionCodes[i]))
  ensures{C09} r != "" ==> (exists i in 0..len(regionCodes): regionCodes[i] == r && inRegion(nsn(number), r) && (forall j in 0..i: !inRegion(nsn(number), regionCodes[j])))
  loop{C09} i:int | forall j in 0..i: !inRegion(nsn(number), regionCodes[j])
func phonenumbers.GetRegionCodeForNumber(number) (r)
  top C09
  pure
  ensures{C09} len(ccRegions()[fCC(number)]) == 0 ==> r == ""
  ensures{C09} len(ccRegions()[fCC(number)]) == 1 ==> r == ccRegions()[fCC(number)][0]
  ensures{C09} len(ccRegions()[fCC(number)]) > 1 ==> r == getRegionCodeForNumberFromRegionList(number, ccRegions()[fCC(number)])
  ensures{C09} r == "" || (exists i in 0..len(ccRegions()[fCC(number)]): ccRegions()[fCC(number)][i] == r)
func phonenumbers.getCountryCodeForValidRegion(regionCode) (r)
  ensures r == if regionMD(regionCode) == nil || regionMD(regionCode).CountryCode == nil then 0 else *regionMD(regionCode).CountryCode
func phonenumbers.GetCountryCodeForRegion(regionCode) (r)
  top C09 C11
  ensures r == if regionMD(regionCode) == nil || regionMD(regionCode).CountryCode == nil then 0 else *regionMD(regionCode).CountryCode
define regionCC(g) = if regionMD(g) == nil || regionMD(g).CountryCode == nil then 0 else *regionMD(g).CountryCode
define validFor(n, g) = mdFor(fCC(n), g) != nil && (g == "001" || regionCC(g) == fCC(n)) && getNumberTypeHelper(nsn(n), mdFor(fCC(n), g)) != UNKNOWN
func phonenumbers.IsValidNumberForRegion(number, regionCode) (r)
  top C09
  ensures r == validFor(number, regionCode)
func phonenumbers.IsValidNumber(number) (r)
  top C09
  pure
  ensures r == validFor(number, GetRegionCodeForNumber(number))
func phonenumbers.GetNumberType(number) (r)
  top C09
  ensures r == if mdFor(fCC(number), GetRegionCodeForNumber(number)) == nil then UNKNOWN else getNumberTypeHelper(nsn(number), mdFor(fCC(number), GetRegionCodeForNumber(number)))
