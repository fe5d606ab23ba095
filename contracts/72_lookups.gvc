# Carrier, geocoding and time-zone answers over the prefix tables.
define e164Of(n) = if fNN(n) == 0 && len(fRaw(n)) > 0 then fRaw(n) else "+" ++ itoa(fCC(n)) ++ nsn(n)
define longestValue(t, e, lim, v) = (v == "" && noneFrom(t, e, 1, lim)) || (exists k in 1..lim+1: has(t, keyOf(e, k)) && v == t[keyOf(e, k)] && noneFrom(t, e, k + 1, lim))
define portable(r) = regionMD(r) != nil && regionMD(r).MobileNumberPortableRegion != nil && *regionMD(r).MobileNumberPortableRegion
define isMobileType(t) = t == phonenumbers.MOBILE || t == phonenumbers.FIXED_LINE_OR_MOBILE || t == phonenumbers.PAGER
define limitOf(e, max) = least(max, len(e)) - 1
# answers(t, e, max, v): v is what the longest prefix of e in table t says ("" when the language has no table)
define answers(t, e, max, v) = if t == nil then v == "" else longestValue(t.Map, e, limitOf(e, max), v)

func phonenumbers.IsMobileNumberPortableRegion(regionCode) (r)
  ensures r == portable(regionCode)
func phonenumbers.GetNumberType(number) (r)
  pure
func prefixmapper.Mapper.ValueForNumber(m, language, maxLength, e164) (v, idx, err)
  ensures{C16} err == nil && plusDigits(e164) && maxLength <= 18 ==> answers(m.langMap[language], e164, maxLength, v)
func carrier.isMobile(numberType) (r)
  ensures r == isMobileType(numberType)
func carrier.GetNameForValidNumber(number, lang) (r, err)
  top C16
  opaque{C16} answers
  ensures{C16} err != nil ==> r == ""
  ensures{C16} err == nil && plusDigits(e164Of(number)) ==> answers(carrier.mapper.langMap[lang], e164Of(number), 10, r)
func carrier.GetNameForNumber(number, lang) (r, err)
  top C16
  opaque{C16} answers
  ensures{C16} err != nil ==> r == ""
  ensures{C16} !isMobileType(GetNumberType(number)) ==> r == "" && err == nil
  ensures{C16} isMobileType(GetNumberType(number)) && err == nil && plusDigits(e164Of(number)) ==> answers(carrier.mapper.langMap[lang], e164Of(number), 10, r)
func carrier.GetSafeDisplayName(number, lang) (r, err)
  top C16
  opaque{C16} answers
  ensures{C16} err != nil || portable(GetRegionCodeForNumber(number)) || !isMobileType(GetNumberType(number)) ==> r == ""
  ensures{C16} !portable(GetRegionCodeForNumber(number)) && isMobileType(GetNumberType(number)) && err == nil && plusDigits(e164Of(number)) ==> answers(carrier.mapper.langMap[lang], e164Of(number), 10, r)

# time zones: the answer is the list of the longest prefix in the table, or the one unknown zone
define longestList(t, e, lim, l) = (exists k in 1..lim+1: has(t, keyOf(e, k)) && l == t[keyOf(e, k)] && noneFrom(t, e, k + 1, lim)) || (len(l) == 1 && l[0] == timezone.Unknown && noneFrom(t, e, 1, lim))
define unknownZone(l) = len(l) == 1 && l[0] == timezone.Unknown
define bare(n) = if prefix("+", n) then n[1:] else n
func timezone.lookupTimeZones(number) (r, err)
  modifies timezone.timezoneMap
  top C16
  ensures{C16} err != nil ==> len(r) == 0
  ensures{C16} err == nil && all("0-9", bare(number)) && timezone.timezoneMap.MaxLength <= 18 ==> longestList(timezone.timezoneMap.Map, "+" ++ bare(number), least(len(bare(number)), timezone.timezoneMap.MaxLength), r)
  split{C16} prefix("+", number)
  loop{C16} i:int, n:string! | let t = timezone.timezoneMap in all("0-9", n) && t.MaxLength <= 18 ==> i <= least(len(n), t.MaxLength) && noneFrom(t.Map, "+" ++ n, i + 1, least(len(n), t.MaxLength))
  ensures{C16} err == nil && timezone.timezoneMap.Map != nil && (forall k: int: has(timezone.timezoneMap.Map, k) ==> len(timezone.timezoneMap.Map[k]) > 0) ==> len(r) > 0
  ensures{C16} err == nil ==> timezone.timezoneMap != nil

define zoneAnswer(t, e, r) = all("0-9", bare(e)) && t.MaxLength <= 18 ==> longestList(t.Map, "+" ++ bare(e), least(len(bare(e)), t.MaxLength), r)
define isGeographical(ty, cc) = ty == phonenumbers.FIXED_LINE || ty == phonenumbers.FIXED_LINE_OR_MOBILE || (ty == phonenumbers.MOBILE && has(phonenumbers.geoMobileCountries, int32(cc)) && phonenumbers.geoMobileCountries[int32(cc)])
define noEmptyLists(t) = t.Map != nil && (forall k: int: has(t.Map, k) ==> len(t.Map[k]) > 0)
func phonenumbers.IsNumberGeographicalForType(t, cc) (r)
  ensures{C16} r == isGeographical(t, cc)
func timezone.countryLevelTimeZonesForNumber(number) (r, err)
  modifies timezone.timezoneMap
  ensures{C16} err != nil ==> len(r) == 0
  ensures{C16} err == nil ==> timezone.timezoneMap != nil && zoneAnswer(timezone.timezoneMap, itoa(fCC(number)), r)
  ensures{C16} err == nil && noEmptyLists(timezone.timezoneMap) ==> len(r) > 0
func timezone.GetTimeZonesForGeographicalNumber(number) (r, err)
  modifies timezone.timezoneMap
  top C16
  ensures{C16} err != nil ==> len(r) == 0
  ensures{C16} err == nil ==> timezone.timezoneMap != nil && zoneAnswer(timezone.timezoneMap, e164Of(number), r)
  ensures{C16} err == nil && noEmptyLists(timezone.timezoneMap) ==> len(r) > 0
func timezone.GetTimeZonesForNumber(number) (r, err)
  modifies timezone.timezoneMap
  top C16
  ensures{C16} GetNumberType(number) == phonenumbers.UNKNOWN ==> err == nil && unknownZone(r)
  ensures{C16} err == nil && GetNumberType(number) != phonenumbers.UNKNOWN ==> timezone.timezoneMap != nil
  ensures{C16} err == nil && GetNumberType(number) != phonenumbers.UNKNOWN ==> (if isGeographical(GetNumberType(number), fCC(number)) then zoneAnswer(timezone.timezoneMap, e164Of(number), r) else zoneAnswer(timezone.timezoneMap, itoa(fCC(number)), r))
  ensures{C16} err == nil && (GetNumberType(number) == phonenumbers.UNKNOWN || noEmptyLists(timezone.timezoneMap)) ==> len(r) > 0

# area descriptions
ghost spot() int
ghost spot2() int
define display(r, lang) = geocoding.regionDisplayName(r, lang)
define isValidAt(n, i) = validFor(n, ccRegions()[fCC(n)][i])
define mobileToken(cc) = if has(phonenumbers.mobileTokenMappings, cc) then phonenumbers.mobileTokenMappings[cc] else ""
define dropsToken(n) = mobileToken(fCC(n)) != "" && prefix(mobileToken(fCC(n)), nsn(n))
func geocoding.regionDisplayName(regionCode, lang) (r)
  trusted reads the CLDR tables of golang.org/x/text
  pure
  ensures regionCode == "" || regionCode == "ZZ" || regionCode == "001" ==> r == ""
func phonenumbers.GetCountryMobileToken(cc) (r)
  ensures{C16} r == mobileToken(cc)
func phonenumbers.GetRegionCodesForCountryCode(countryCallingCode) (r)
  ensures{C16} r == ccRegions()[countryCallingCode]
define inList(n, i) = 0 <= i && i < len(ccRegions()[fCC(n)])
define regionAt(n, i) = ccRegions()[fCC(n)][i]
define onlyOther(n, i, w, p) = inList(n, p) && p < i && isValidAt(n, p) && regionAt(n, p) != "ZZ" ==> w == regionAt(n, p)
func geocoding.countryNameForNumber(number, lang) (r, err)
  pure
  opaque{C16} validFor
  ensures{C16} err == nil
  ensures{C16} len(ccRegions()[fCC(number)]) == 1 ==> r == display(regionAt(number, 0), lang)
  # two different regions where the number is valid: nothing is said
  ensures{C16} len(ccRegions()[fCC(number)]) != 1 && inList(number, spot()) && inList(number, spot2()) && isValidAt(number, spot()) && isValidAt(number, spot2()) && regionAt(number, spot()) != regionAt(number, spot2()) && regionAt(number, spot()) != "ZZ" && regionAt(number, spot2()) != "ZZ" ==> r == ""
  # the only region where it is valid
  ensures{C16} len(ccRegions()[fCC(number)]) != 1 && inList(number, spot()) && isValidAt(number, spot()) && regionAt(number, spot()) != "ZZ" && (forall k in 0..len(ccRegions()[fCC(number)]): k != spot() ==> !isValidAt(number, k)) ==> r == display(regionAt(number, spot()), lang)
  ensures{C16} len(ccRegions()[fCC(number)]) != 1 && (forall k in 0..len(ccRegions()[fCC(number)]): !isValidAt(number, k)) ==> r == ""
  loop{C16} i:int, w:string! | 0 <= i && i <= len(ccRegions()[fCC(number)]) && onlyOther(number, i, w, spot()) && onlyOther(number, i, w, spot2()) && (w != "ZZ" ==> (exists j in 0..i: w == regionAt(number, j) && isValidAt(number, j)))
define countryName(n, lang) = (let d = geocoding.countryNameForNumber(n, lang) in d._0)
define described(n, e, lang, r) = (r != "" && answers(geocoding.mapper.langMap[lang], e, 10, r)) || (answers(geocoding.mapper.langMap[lang], e, 10, "") && r == countryName(n, lang))
func geocoding.GetDescriptionForValidNumber(number, lang) (r, err)
  top C16
  opaque{C16} validFor, answers
  ensures{C16} err != nil ==> r == ""
  ensures{C16} err == nil && !dropsToken(number) && plusDigits(e164Of(number)) ==> described(number, e164Of(number), lang, r)
func geocoding.GetDescriptionForNumber(number, lang) (r, err)
  top C16
  opaque{C16} validFor, answers
  ensures{C16} err != nil || GetNumberType(number) == phonenumbers.UNKNOWN ==> r == ""
  ensures{C16} err == nil && GetNumberType(number) != phonenumbers.UNKNOWN ==> (if isGeographical(GetNumberType(number), fCC(number)) then (!dropsToken(number) && plusDigits(e164Of(number)) ==> described(number, e164Of(number), lang, r)) else r == countryName(number, lang))
func geocoding.GetDescriptionForValidNumberForUserRegion(number, lang, userRegion) (r, err)
  top C16
  opaque{C16} validFor, answers
  ensures{C16} err != nil ==> r == ""
  ensures{C16} GetRegionCodeForNumber(number) != userRegion ==> err == nil && r == display(GetRegionCodeForNumber(number), lang)
  ensures{C16} GetRegionCodeForNumber(number) == userRegion && err == nil && !dropsToken(number) && plusDigits(e164Of(number)) ==> described(number, e164Of(number), lang, r)
func geocoding.GetDescriptionForNumberForUserRegion(number, lang, userRegion) (r, err)
  top C16
  opaque{C16} validFor, answers
  ensures{C16} err != nil || GetNumberType(number) == phonenumbers.UNKNOWN ==> r == ""
  ensures{C16} GetNumberType(number) != phonenumbers.UNKNOWN && !isGeographical(GetNumberType(number), fCC(number)) ==> err == nil && r == countryName(number, lang)
  ensures{C16} isGeographical(GetNumberType(number), fCC(number)) && GetRegionCodeForNumber(number) != userRegion ==> err == nil && r == display(GetRegionCodeForNumber(number), lang)
  ensures{C16} isGeographical(GetNumberType(number), fCC(number)) && GetRegionCodeForNumber(number) == userRegion && err == nil && !dropsToken(number) && plusDigits(e164Of(number)) ==> described(number, e164Of(number), lang, r)
func phonenumbers.Parse(numberToParse, defaultRegion) (n, e)
  settled{C16} C05
