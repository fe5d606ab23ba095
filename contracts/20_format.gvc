# Formatting of numbers.
define fCC(n) = if n == nil || n.CountryCode == nil then 0 else *n.CountryCode
define fNN(n) = if n == nil || n.NationalNumber == nil then 0 else *n.NationalNumber
define fExt(n) = if n == nil || n.Extension == nil then "" else *n.Extension
define fILZ(n) = if n == nil || n.ItalianLeadingZero == nil then false else *n.ItalianLeadingZero
define fNLZ(n) = if n == nil || n.NumberOfLeadingZeros == nil then 1 else *n.NumberOfLeadingZeros
define fRaw(n) = if n == nil || n.RawInput == nil then "" else *n.RawInput
define fPDC(n) = if n == nil || n.PreferredDomesticCarrierCode == nil then "" else *n.PreferredDomesticCarrierCode
define fCCS(n) = if n == nil || n.CountryCodeSource == nil then 0 else *n.CountryCodeSource
define nzeros(n) = if fILZ(n) && fNLZ(n) > 0 then (if fNLZ(n) > 17 then 17 else fNLZ(n)) else 0
define nsn(n) = zeros(nzeros(n)) ++ dec(fNN(n))

# metadata tables
define ccRegions() = metadata.current.countryCodeToRegion
define knownCC(cc) = has(ccRegions(), cc)
define mainRegion(cc) = if len(ccRegions()[cc]) == 0 then "ZZ" else ccRegions()[cc][0]
define supported(r) = len(r) != 0 && metadata.current.supportedRegions[r]
define regionMD(r) = if supported(r) then metadata.current.regionToMetadataMap[r] else nil
define nonGeoMD(cc) = if knownCC(cc) then metadata.current.countryCodeToNonGeographicalMetadataMap[cc] else nil
define mdFor(cc, r) = if r == "001" then nonGeoMD(cc) else regionMD(r)
define sOf(p) = if p == nil then "" else *p
define mNumberFormat(m) = if m == nil then 0 else m.NumberFormat.ref
define extPrefix(m) = if m == nil then "" else sOf(m.PreferredExtnPrefix)

func phonenumbers.hasValidCountryCallingCode(countryCallingCode) (r)
  ensures r == knownCC(countryCallingCode)
func phonenumbers.GetRegionCodeForCountryCode(countryCallingCode) (r)
  ensures r == mainRegion(countryCallingCode)
func phonenumbers.isValidRegionCode(regionCode) (r)
  ensures r == supported(regionCode)
func phonenumbers.getMetadataForRegion(regionCode) (r)
  ensures r == regionMD(regionCode)
func phonenumbers.getMetadataForNonGeographicalRegion(countryCallingCode) (r)
  ensures r == nonGeoMD(countryCallingCode)
func phonenumbers.getMetadataForRegionOrCallingCode(countryCallingCode, regionCode) (r)
  ensures r == mdFor(countryCallingCode, regionCode)

func phonenumbers.GetNationalSignificantNumber(number) (r)
  ensures r == nsn(number)
  loop b:[]uint8, i:int | str(b)[:i+1] == zeros(i+1)
  loop b:[]uint8, i:int | str(b)[:i] == zeros(i)

func phonenumbers.prefixNumberWithCountryCallingCode(countryCallingCode, numberFormat, formattedNumber)
  modifies content(formattedNumber)
  ensures content(formattedNumber) == framed(countryCallingCode, numberFormat, old(content(formattedNumber)))

# framing of a body by style
define framed(cc, f, body) = if f == E164 then "+" ++ itoa(cc) ++ body else (if f == INTERNATIONAL then "+" ++ itoa(cc) ++ " " ++ body else (if f == RFC3966 then "tel:+" ++ itoa(cc) ++ "-" ++ body else body))
define extText(n, m, f) = if fExt(n) == "" then "" else (if f == RFC3966 then ";ext=" else (if len(extPrefix(m)) > 0 then extPrefix(m) else " ext. ")) ++ fExt(n)

func phonenumbers.maybeAppendFormattedExtension(number, metadata, numberFormat, formattedNumber)
  modifies content(formattedNumber)
  ensures content(formattedNumber) == old(content(formattedNumber)) ++ extText(number, metadata, numberFormat)

# choice of the formatting pattern: the first format whose last leading-digits pattern matches at the start
# and whose own pattern matches the whole number
define fPattern(f) = if f == nil then "" else sOf(f.Pattern)
define fFormat(f) = if f == nil then "" else sOf(f.Format)
define fNPRule(f) = if f == nil then "" else sOf(f.NationalPrefixFormattingRule)
define fCCRule(f) = if f == nil then "" else sOf(f.DomesticCarrierCodeFormattingRule)
define strict(p) = "^(?:" ++ p ++ ")$"
define leads(f, s) = if f == nil then 0 else len(f.LeadingDigitsPattern)
define lastLead(f) = f.LeadingDigitsPattern[len(f.LeadingDigitsPattern)-1]
define applies(f, s) = rematch(strict(fPattern(f)), s) && (if leads(f, s) == 0 then reend(strict(fPattern(f)), s) - restart(strict(fPattern(f)), s) == len(s) else rematch(lastLead(f), s) && restart(lastLead(f), s) == 0)

func phonenumbers.chooseFormattingPatternForNumber(availableFormats, nationalNumber) (r)
  pure
  ensures{C02} r == nil ==> (forall i in 0..len(availableFormats): availableFormats[i] == nil || !applies(availableFormats[i], nationalNumber))
  ensures{C02} r != nil ==> (exists i in 0..len(availableFormats): availableFormats[i] == r && applies(r, nationalNumber) && (forall j in 0..i: !applies(availableFormats[j], nationalNumber)))
  loop{C02} i:int | forall j in 0..i: !applies(availableFormats[j], nationalNumber)

# the first $-group of a format, rewritten by a rule
define substFirst(fmt, rule) = if rematch(pat(firstGroupPattern), fmt) then fmt[:restart(pat(firstGroupPattern), fmt)] ++ reexpand(pat(firstGroupPattern), rule, fmt) ++ fmt[reend(pat(firstGroupPattern), fmt):] else fmt
define withCC(rule, carrier) = if rematch(pat(ccPattern), rule) then rule[:restart(pat(ccPattern), rule)] ++ carrier ++ rule[reend(pat(ccPattern), rule):] else rule
define npBody(nn, p, f) = if f == NATIONAL && len(fNPRule(p)) > 0 then rerepl(fPattern(p), nn, substFirst(fFormat(p), fNPRule(p))) else rerepl(fPattern(p), nn, fFormat(p))
define styleBody(nn, p, f, cc) = if f == NATIONAL && len(cc) > 0 && len(fCCRule(p)) > 0 then rerepl(fPattern(p), nn, substFirst(fFormat(p), withCC(fCCRule(p), cc))) else npBody(nn, p, f)
define skipSep(b) = if rematch(pat(separatorPattern), b) && restart(pat(separatorPattern), b) == 0 then b[reend(pat(separatorPattern), b):] else b
func phonenumbers.formatNsnUsingPatternWithCarrier(nationalNumber, formattingPattern, numberFormat, carrierCode) (r)
  pure
  ensures{C02} numberFormat != RFC3966 ==> r == styleBody(nationalNumber, formattingPattern, numberFormat, carrierCode)
  ensures{C02} numberFormat == RFC3966 ==> r == rejoin(pat(notSeparatorPattern), skipSep(styleBody(nationalNumber, formattingPattern, numberFormat, carrierCode)), "-")
func phonenumbers.formatNsnUsingPattern(nationalNumber, formattingPattern, numberFormat) (r)
  ensures r == formatNsnUsingPatternWithCarrier(nationalNumber, formattingPattern, numberFormat, "")
  ensures{C02} numberFormat != RFC3966 ==> r == styleBody(nationalNumber, formattingPattern, numberFormat, "")
  ensures{C02} numberFormat == RFC3966 ==> r == rejoin(pat(notSeparatorPattern), skipSep(styleBody(nationalNumber, formattingPattern, numberFormat, "")), "-")

define bodyBy(nn, p, f, cc) = if p == nil then nn else formatNsnUsingPatternWithCarrier(nn, p, f, cc)
func phonenumbers.formatNsnWithCarrier(number, metadata, numberFormat, carrierCode) (r)
  pure
  ensures{C02} metadata == nil ==> r == number
  ensures{C02} metadata != nil && (len(metadata.IntlNumberFormat) == 0 || numberFormat == NATIONAL) ==> r == bodyBy(number, chooseFormattingPatternForNumber(metadata.NumberFormat, number), numberFormat, carrierCode)
  ensures{C02} metadata != nil && !(len(metadata.IntlNumberFormat) == 0 || numberFormat == NATIONAL) ==> r == bodyBy(number, chooseFormattingPatternForNumber(metadata.IntlNumberFormat, number), numberFormat, carrierCode)
func phonenumbers.formatNsn(number, metadata, numberFormat) (r)
  ensures r == formatNsnWithCarrier(number, metadata, numberFormat, "")

func phonenumbers.formatWithBuf(number, numberFormat, formattedNumber)
  modifies content(formattedNumber)
  ensures content(formattedNumber) == formatted(number, numberFormat)
define formatted(n, f) = if f == E164 then "+" ++ itoa(fCC(n)) ++ nsn(n) else (if !knownCC(fCC(n)) then nsn(n) else framed(fCC(n), f, formatNsnWithCarrier(nsn(n), mdFor(fCC(n), mainRegion(fCC(n))), f, "") ++ extText(n, mdFor(fCC(n), mainRegion(fCC(n))), f)))

func phonenumbers.Format(number, numberFormat) (r)
  top C01 C02
  ensures r == if fNN(number) == 0 && len(fRaw(number)) > 0 then fRaw(number) else formatted(number, numberFormat)
# protobuf repeated message fields never hold nil entries; neither do the callers' format lists
meminv E:*metadata.NumberFormat : v != nil

define homeMD(n) = mdFor(fCC(n), mainRegion(fCC(n)))
func phonenumbers.FormatNationalNumberWithCarrierCode(number, carrierCode) (r)
  top C02
  ensures r == if !knownCC(fCC(number)) then nsn(number) else formatNsnWithCarrier(nsn(number), homeMD(number), NATIONAL, carrierCode) ++ extText(number, homeMD(number), NATIONAL)
func phonenumbers.FormatNationalNumberWithPreferredCarrierCode(number, fallbackCarrierCode) (r)
  top C02
  ensures{C02} let cc = (if fPDC(number) == "" then fallbackCarrierCode else fPDC(number)) in r == if !knownCC(fCC(number)) then nsn(number) else formatNsnWithCarrier(nsn(number), homeMD(number), NATIONAL, cc) ++ extText(number, homeMD(number), NATIONAL)
# caller-supplied formats: framing, extension and the choice of the first applicable format
define userRule(f, m) = if len(fNPRule(f)) == 0 then fNPRule(f) else (if m == nil || len(sOf(m.NationalPrefix)) == 0 then "" else rerepllit(pat(fgPattern), rerepl(pat(npPattern), fNPRule(f), sOf(m.NationalPrefix)), "$1"))
define userBody(nn, f, style, rule) = if style == NATIONAL && len(rule) > 0 then rerepl(fPattern(f), nn, substFirst(fFormat(f), rule)) else rerepl(fPattern(f), nn, fFormat(f))
define userText(n, style, f) = if f == nil then nsn(n) else (if style == RFC3966 then rejoin(pat(notSeparatorPattern), skipSep(userBody(nsn(n), f, style, userRule(f, homeMD(n)))), "-") else userBody(nsn(n), f, style, userRule(f, homeMD(n))))
func phonenumbers.FormatByPattern(number, numberFormat, userDefinedFormats) (r)
  top C02
  ensures{C02} !knownCC(fCC(number)) ==> r == nsn(number)
  ensures{C02} knownCC(fCC(number)) ==> r == framed(fCC(number), numberFormat, userText(number, numberFormat, chooseFormattingPatternForNumber(userDefinedFormats, nsn(number))) ++ extText(number, homeMD(number), numberFormat))
