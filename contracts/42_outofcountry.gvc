# Formatting for a caller in another region.
define fmtOf(n, f) = if fNN(n) == 0 && len(fRaw(n)) > 0 then fRaw(n) else formatted(n, f)
define inNANPA(r) = has(metadata.current.nanpaRegions, r)
define regionCC2(r) = mdCC(metadata.current.regionToMetadataMap[r])
define intlPrefix(m) = if m == nil then "" else sOf(m.InternationalPrefix)
define prefIntlPrefix(m) = if m == nil then "" else sOf(m.PreferredInternationalPrefix)
define dialPrefix(m) = if prefIntlPrefix(m) != "" then prefIntlPrefix(m) else (if rematch(pat(uniqueInternationalPrefix), intlPrefix(m)) then intlPrefix(m) else "")
define intlBody(n) = formatNsnWithCarrier(nsn(n), homeMD(n), INTERNATIONAL, "") ++ extText(n, homeMD(n), INTERNATIONAL)
define sharesCode(n, from) = fCC(n) != 1 && fCC(n) == regionCC2(from)
define abroad(n, from) = if dialPrefix(regionMD(from)) == "" then "+" ++ itoa(fCC(n)) ++ " " ++ intlBody(n) else dialPrefix(regionMD(from)) ++ " " ++ itoa(fCC(n)) ++ " " ++ intlBody(n)
define outOfCountry(n, from) = if !supported(from) then fmtOf(n, INTERNATIONAL) else (if !knownCC(fCC(n)) then nsn(n) else (if fCC(n) == 1 && inNANPA(from) then "1 " ++ fmtOf(n, NATIONAL) else (if sharesCode(n, from) then fmtOf(n, NATIONAL) else abroad(n, from))))
func phonenumbers.FormatOutOfCountryCallingNumber(number, regionCallingFrom) (r)
  top C03
  ensures r == outOfCountry(number, regionCallingFrom)
func phonenumbers.FormatOutOfCountryKeepingAlphaChars(number, regionCallingFrom) (r)
  top C03
  ensures{C03} fRaw(number) == "" ==> r == outOfCountry(number, regionCallingFrom)
  ensures{C03} fRaw(number) != "" && !knownCC(fCC(number)) ==> r == fRaw(number)
